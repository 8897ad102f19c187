"""Systematic small changes to /repo, to find definitions and contracts the checks are missing.

  mutate.py list N SEED > sites.json          a random sample of mutation sites
  mutate.py run sites.json K M OUT.jsonl      (worker K of M, inside a private copy of /repo) build, test, check

A development aid: no check uses it.  It changes the files under VC_REPO (default /repo), so it has to be run on a copy.
"""
import json
import multiprocessing as mp
import os
import random
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF + "/vc")
REPO = os.environ.get("VC_REPO", "/repo")
FILES = ["bondrewd-derive/src/" + x for x in (
    "lib.rs", "enums/from_bytes.rs", "enums/into_bytes.rs", "enums/parse.rs", "enums/partial_eq.rs", "structs/common.rs", "structs/from_bytes.rs",
    "structs/into_bytes.rs", "structs/parse.rs", "structs/struct_fns.rs")] + ["bondrewd/src/hex.rs", "bondrewd/src/lib.rs", "bondrewd/src/error.rs"]

OPS = [
    (r"(?<![<>=!-])<(?= [a-z0-9(])", ["<="]), (r"(?<= )>(?= [a-z0-9(])", [">="]), (r"<=(?= )", ["<"]), (r">=(?= )", [">"]),
    (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r" \+ ", [" - "]), (r"(?<=[a-z0-9)]) - (?=[a-z0-9(])", [" + "]), (r" \+ 1\b", ["", " + 2"]), (r" - 1\b", ["", " - 2"]),
    (r" % ", [" / "]), (r" / ", [" % "]), (r" \* ", [" + "]), (r" << ", [" >> "]), (r" >> ", [" << "]), (r" & ", [" | "]), (r" \|= ", [" = ", " ^= "]), (r" &= ", [" |= "]),
    (r" \+= ", [" -= ", " = "]), (r" -= ", [" += ", " = "]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\b[0-9]+\b(?!\.\.)", ["+1", "-1"]),
    (r"\bis_some\(\)", ["is_none()"]), (r"\bis_none\(\)", ["is_some()"]), (r"\bis_empty\(\)", ["len() > 0"]), (r"(?<=if )!", [""]), (r"(?<=\()!(?=[a-z])", [""]),
    (r"\.rev\(\)", [""]), (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]), (r"\.start\b", [".end"]), (r"\.end\b", [".start"]),
    (r"\bleft_shift\b", ["right_shift"]), (r"rotate_left", ["rotate_right"]), (r"rotate_right", ["rotate_left"]), (r"\bBig\b", ["Little"]), (r"\bLittle\b", ["Big"]),
    (r"first_bits_index|current_bit_mask|left_mask|right_mask|first_bit_mask|last_bit_mask", ["!"]),
    (r"^\s+[a-z_.]+(?:\[[^\]]*\])? [|&+-]?= [^;]*;$", ["//"]), (r"^\s+[a-z_.]+\.(push|insert|push_str|extend)\(.*\);$", ["//"]),
    (r"\bto_be_bytes\b", ["to_le_bytes"]), (r"\bto_le_bytes\b", ["to_be_bytes"]), (r"\bfrom_be_bytes\b", ["from_le_bytes"]), (r"\bfrom_le_bytes\b", ["from_be_bytes"]),
]


def sites():
    out = []
    for f in FILES:
        src = open(os.path.join(REPO, f)).read().split("\n")
        depth_test = False
        for n, l in enumerate(src):
            if "#[cfg(test)]" in l:
                depth_test = True
            s = l.strip()
            if depth_test or s.startswith(("//", "#[", "use ", "pub use", "mod ", "///")):
                continue
            if "Error::new" in l or "panic!(" in l or "compile_error" in l:
                continue
            code = l.split("//")[0]
            for pat, reps in OPS:
                for m in re.finditer(pat, code):
                    if code[: m.start()].count('"') % 2 and "format!" not in code and pat[0] != "^":
                        continue
                    if code[: m.start()].count('"') % 2 and not re.search(r"\{|\b0b|u8", code):
                        continue
                    for rep in reps:
                        if rep == "//":
                            new = re.match(r"\s*", code).group(0) + "{}" if False else ""
                        elif rep == "!":
                            new = code[: m.start()] + "(!" + m.group(0) + ")" + code[m.end():]
                        elif rep in ("+1", "-1"):
                            v = int(m.group(0)) + int(rep)
                            if v < 0 or (m.start() and code[m.start() - 1] in "_x."):
                                continue
                            new = code[: m.start()] + str(v) + code[m.end():]
                        else:
                            new = code[: m.start()] + rep + code[m.end():]
                        out.append((f, n, l, new))
    return out


def sh(cmd, t, cwd=None, env=None):
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=t)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return -1, "timeout"


def pool_init(deps):
    import shard
    shard.init(deps)


def make_jobs(work, per, seed):
    import plan
    layouts = []
    rejects = []
    for pid in sorted(plan.PLANS):
        p = plan.plan(pid, "quick", seed)
        r = random.Random("m-%s-%d" % (pid, seed))
        by = {}
        for l in p.layouts:  # a sample over the kinds of definitions
            by.setdefault(re.sub(r"[0-9]+", "#", l.key).split(" ")[0], []).append(l)
        pick = []
        for k in by:
            r.shuffle(by[k])
        while len(pick) < per and any(by.values()):
            for k in sorted(by):
                if by[k]:
                    pick.append(by[k].pop())
        for k, l in enumerate(pick[:per]):
            if sum(len(o.body) for o in l.obs) > 60000:
                continue
            old, l.lid = l.lid, "%s_%d" % (pid.lower(), k)
            l.src = l.src.replace(old + "::", l.lid + "::")
            for j, o in enumerate(l.obs):
                o.id = "ob_%s_%d" % (l.lid, j)
            l.pid = pid
            layouts.append(l)
        rejects += [(pid + " " + k, s) for k, s in r.sample(p.rejects, min(per * 2, len(p.rejects)))]
    random.Random(5).shuffle(layouts)
    jobs = [layouts[k::24] for k in range(24)]
    return [(os.path.join(work, "s%d" % k), ls, 3) for k, ls in enumerate(jobs)], rejects


def judge(work, jobs, rejects):
    """-> killer text or None"""
    import build
    import check
    try:
        deps = build.Deps(work, ("derive", "dyn_fns", "hex_fns"))
    except build.BuildError as e:
        return "build: " + str(e)[-300:]
    tags = {o.id: (l.pid, l.key, o.tag) for _, ls, _ in jobs for l in ls for o in l.obs}
    und = 0
    with mp.Pool(int(os.environ.get("MUT_PROCS", "3")), pool_init, (deps,)) as pool:
        rej = [pool.apply_async(check.reject_work, (deps, os.path.join(work, "r%d" % k), part)) for k, part in enumerate(check.chunk(rejects, 60))]
        import shard
        try:
            for r in pool.imap_unordered(shard.work, jobs):
                if r["err"]:
                    return "err: " + r["err"][:200]
                for lid in r["bad"]:
                    return "bad %s: %s" % (lid, r["bad"][lid][:150])
                for lid, oid, v, m, how, sec in r["res"]:
                    if v == "refuted":
                        return "refuted %s %s %s" % tags[oid]
                    if v != "proved":
                        und += 1
            for r in rej:
                for k, s, ok in r.get():
                    if not ok:
                        return "accepted " + k
        finally:
            pool.terminate()
    return "undecided %d" % und if und else None


def run(path, k, m, out):
    import build
    todo = json.load(open(path))
    work = "/tmp/mutw-%d" % k
    os.makedirs(work, exist_ok=True)
    jobs, rejects = make_jobs(work, int(os.environ.get("MUT_PER", "24")), 1)
    if k == 0:
        print("selftest:", judge(work, jobs, rejects), sum(len(j[1]) for j in jobs), len(rejects), flush=True)
    for idx, (f, n, old, new) in enumerate(todo):
        if idx % m != k:
            continue
        p = os.path.join(REPO, f)
        src = open(p).read()
        ls = src.split("\n")
        assert ls[n] == old
        ls[n] = new
        t = time.time()
        open(p, "w").write("\n".join(ls))
        try:
            rc, o = sh("bash /opt/vp/build.sh", 300)
            if rc:
                st = "nobuild"
            else:
                rc, o = sh("bash /opt/vp/test.sh /tmp/mutw-%d/t.json | tail -1" % k, 200)
                st = "tested" if not re.search(r"26 passed, 0 failed", o) else None
            killer = None
            if st is None:
                killer = judge(work, jobs, rejects)
                st = "killed" if killer and not killer.startswith("undecided") else "SURVIVED"
        except Exception as e:
            st, killer = "error", str(e)[:300]
        finally:
            open(p, "w").write(src)
        with open(out, "a") as w:
            w.write(json.dumps({"idx": idx, "file": f, "line": n + 1, "old": old.strip(), "new": new.strip(), "st": st, "killer": killer, "s": round(time.time() - t, 1)}) + "\n")
        print(idx, st, f, n + 1, (killer or "")[:100], round(time.time() - t, 1), flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "list":
        xs = sites()
        random.Random(int(sys.argv[3])).shuffle(xs)
        print("%d sites" % len(xs), file=sys.stderr)
        json.dump(xs[: int(sys.argv[2])], sys.stdout)
    else:
        run(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5])
