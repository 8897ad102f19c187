"""Running obligations against the real code: replay of models, bounded random testing, Kani."""
import json
import os
import re
import subprocess
import time
from concurrent import futures

import build
import shard

MAIN = r'''
type T = (usize, fn(&[u8]) -> bool, &'static str);
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
}
static mut LAST: String = String::new();
fn one(t: &T, b: &[u8]) -> Result<(), String> {
    match std::panic::catch_unwind(|| (t.1)(b)) {
        Ok(true) => Ok(()),
        Ok(false) => Err("the postcondition is false".to_string()),
        Err(_) => Err(format!("panicked: {}", unsafe { (*core::ptr::addr_of!(LAST)).replace('\n', " ") })),
    }
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn unhex_(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|k| u8::from_str_radix(&s[2 * k..2 * k + 2], 16).unwrap()).collect() }
fn go(t: &T, inputs: &[&str], n: usize, seed: u64) {
    let mut runs = 0usize;
    for i in inputs {
        runs += 1;
        let b = unhex_(i);
        if let Err(e) = one(t, &b) { println!("@ {} fail {} {} {}", t.2, runs, i, e); return; }
    }
    let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    for k in 0..n {
        let mut b = vec![0u8; t.0];
        let style = k % 6;
        for x in b.iter_mut() {
            let v = r.next() >> 11;
            *x = match style {
                0 | 1 => v as u8,
                2 => if v & 3 == 0 { (v >> 8) as u8 } else { 0 },
                3 => if v & 3 == 0 { (v >> 8) as u8 } else { 255 },
                4 => [0u8, 1, 127, 128, 255, 48, 65, 97, 2, 3][(v % 10) as usize],
                _ => if k < 12 { [0u8, 255][k % 2] } else { 1u8 << (v & 7) },
            };
        }
        if style == 5 && t.0 > 0 { let z = (r.next() >> 9) as usize % t.0; b[z] = (r.next() >> 13) as u8; }
        runs += 1;
        if let Err(e) = one(t, &b) { println!("@ {} fail {} {} {}", t.2, runs, hex(&b), e); return; }
    }
    println!("@ {} ok {}", t.2, runs);
}
'''


def run(deps, path, items, n, seed=1, until=None):
    """items: [(layout, ob, [input bytes])]; n random inputs each.
    -> {ob id: ("ok"|"fail", failing input or first input, text, executions)}"""
    out = {}
    parts = []
    for alt, d in enumerate(deps):
        mine = [x for x in items if x[0].alt == bool(alt)]
        parts += [(d, "%s%d_%d" % (path, alt, c), mine[c:c + 40]) for c in range(0, len(mine), 40)]

    def one(part):
        if until is None or time.time() < until:
            _run(*part, n, seed, out)
    with futures.ThreadPoolExecutor(min(8, os.cpu_count() or 8)) as pool:
        list(pool.map(one, parts))
    return out


def _run(deps, path, items, n, seed, out):
    by = {}
    for l, o, ins in items:
        by.setdefault(l.lid, (l, []))[1].append((o, ins))
    src = [shard.ALLOW, shard.USE, shard.SPEC]
    calls = []
    for l, os_ in by.values():
        src.append(shard.module_text(l, [o for o, _ in os_], emit=False))
        for o, ins in os_:
            calls.append("go(&(%d, |b: &[u8]| { let mut a = [0u8; %d]; let m = b.len().min(%d); a[..m].copy_from_slice(&b[..m]); %s::%s(&a) }, \"%s\"), &[%s], %d, %d);" % (
                o.k, o.k, o.k, l.lid, o.id, o.id, ", ".join('"%s"' % (x + bytes(o.k))[: o.k].hex() for x in ins), n, seed))
    src.append(MAIN)
    src.append("fn main() { std::panic::set_hook(Box::new(|i| unsafe { LAST = i.to_string(); }));\n%s }\n" % "\n".join(calls))
    build.write(path + ".rs", "".join(src))
    ok, errs = deps.binary(path + ".rs", path)
    if not ok:
        if len(by) > 1:  # one definition at a time
            for l, os_ in by.values():
                _run(deps, path + "x", [(l, o, i) for o, i in os_], n, seed, out)
        return
    try:
        r = subprocess.run([path], capture_output=True, text=True, timeout=120, errors="replace")
        text = r.stdout
    except subprocess.TimeoutExpired as e:
        text = (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or "")
    for line in text.splitlines():
        m = re.match(r"@ (\S+) (ok|fail) (\d+) ?(\S*) ?(.*)", line)
        if m:
            inp = bytes.fromhex(m.group(4)) if m.group(2) == "fail" else b""
            out[m.group(1)] = (m.group(2), inp, m.group(5), int(m.group(3)))
    for f in (path, path + ".rs"):
        if os.path.exists(f):
            os.unlink(f)


def program_text(l, o, inp, notes):
    """a replay file: the definition, the contract and the failing input as one program"""
    s = ["// " + x + "\n" for n in notes for x in (n.splitlines() or [""])]
    s.append("// run it against /repo's current tree:  bash /verif/vc/replay.sh <this file>\n")
    if o is None:
        # with its contracts: what they name has to exist too
        return "".join(s) + "".join("// %s\n" % x for x in l.title.splitlines()) + shard.ALLOW + shard.USE + shard.SPEC + shard.module_text(
            l, [x for x in l.obs if not x.tag.startswith("cover.")], emit=False) + "fn main() {}\n"
    s += [shard.ALLOW, shard.USE, "// ---- the definition as a user writes it\n" + "".join("// %s\n" % x for x in l.title.splitlines())]
    s.append("// ---- specification vocabulary\n" + shard.SPEC)
    s.append(shard.module_text(l, [o], emit=False))
    s.append("fn main() {\n    let input: [u8; %d] = %s;\n    let held = %s::%s(&input);\n    println!(\"contract held: {}\", held);\n    std::process::exit(if held { 0 } else { 1 });\n}\n" % (
        o.k, list((bytes(inp) + bytes(o.k))[: o.k]), l.lid, o.id))
    return "".join(s)


def kani(deps, work, items, limit, seconds):
    """-> (proved [(l, o)], failed [(l, o)], left [(l, o, why)])"""
    # (bounded model checking of code over very long inputs costs too much memory: the tester takes those)
    head = [x for x in items if x[1].k <= 96 and not x[0].alt][:limit]
    if not head:
        return [], [], list(items)
    ws = os.path.join(work, "ws", "k")
    by = {}
    for l, o, why in head:
        by.setdefault(l.lid, (l, []))[1].append(o)
    src = [shard.ALLOW, shard.USE, shard.SPEC]
    har = ["#[cfg(kani)]\nmod proofs { use super::*;\n"]
    unwind = max([o.k for _, o, _ in head] + [16]) + 20
    for l, os_ in by.values():
        src.append(shard.module_text(l, os_, emit=False))
        for o in os_:
            har.append("#[kani::proof]\n#[kani::unwind(%d)]\nfn k_%s() { let i: [u8; %d] = kani::any(); assert!(%s::%s(&i)); }\n" % (min(unwind, 140), o.id, o.k, l.lid, o.id))
    har.append("}\n")
    build.write(ws + "/src/lib.rs", "".join(src + har))
    build.write(ws + "/Cargo.toml", build.USER.replace('name="h"', 'name="k"') % ",".join('"%s"' % f for f in deps.features) + '[lints.rust]\nunexpected_cfgs={level="allow"}\n')
    env = dict(deps.env)
    env.pop("RUSTUP_TOOLCHAIN", None)
    env["CARGO_TARGET_DIR"] = os.path.join(work, "ktarget")
    try:
        r = subprocess.run(["timeout", "-k", "5", str(int(seconds)), "prlimit", "--as=10000000000", "cargo", "kani", "-j", "3", "--output-format", "terse", "--harness-timeout", "60s", "-Z", "unstable-options"], cwd=ws, env=env, capture_output=True, text=True, timeout=seconds + 30)
        text = r.stdout
    except (subprocess.TimeoutExpired, OSError) as e:
        return [], [], list(items)
    good = set()
    cur = {}
    who = None
    for line in text.splitlines():
        m = re.match(r"(?:Thread (\d+):\s*)?Checking harness (?:\w+::)*k_(\w+)\.\.\.", line)
        if m:
            cur[m.group(1)] = who = m.group(2)
            continue
        m = re.match(r"Thread (\d+):\s*$", line)
        if m:
            who = cur.get(m.group(1))
            continue
        if re.match(r"VERIFICATION:- SUCCESSFUL", line) and who:
            good.add(who)
            who = None
        elif line.startswith("VERIFICATION:- FAILED"):
            who = None
    done = [(l, o) for l, o, _ in head if o.id in good]
    left = [(l, o, w) for l, o, w in items if o.id not in good]
    return done, [], left
