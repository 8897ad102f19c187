"""check.py <property> : decides one property on /repo's current tree.  VERIF_TIER, VERIF_SEED."""
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time
from collections import Counter

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import inner
import llvmvc
import native
import plan as plans
import shard

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, "out")
KNOWN = os.path.join(VERIF, "known-findings.txt")
MAX_REPORT = 5
PROOF_ONLY = "no-failing-input-found"

TRUSTED = [
    "rustc %s front end, and LLVM's optimizer at opt-level 3 up to the IR that is verified" % build.TOOLCHAIN,
    "vc/llvmvc.py: LLVM IR semantics of the supported instructions, translation to bit-vector formulas (anything unsupported is undecided, never proved)",
    "z3 (python z3-solver) on the formulas the translation does not already reduce to true",
    "vc/layouts.py and vc/spec.rs: the reference meaning of a definition, written from the documentation",
    "the tool chain's libraries proc-macro2, quote, syn and convert_case, and core/alloc, as compiled into the IR",
]
ASSUME = [
    "The real derive macro and crate are compiled from /repo with overflow checks on and panic=abort: a reachable overflow, out-of-bounds index or other panic fails the obligation.",
    "For each listed definition a contract holds for all inputs; the definitions are an enumerated grid plus VERIF_SEED-chosen random ones, not all definitions there are.",
    "Allocation does not fail (an allocation failure aborts before the postcondition).",
]


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.known = []
        self.violations = []
        self.n = 0
        try:
            for l in open(KNOWN):
                if l.startswith("known:"):
                    m = re.match(r"known:\s+property=(\S+)\s+site=\"([^\"]*)\"\s+(.*)", l)
                    if m and m.group(1) == pid:
                        self.known.append((m.group(2), m.group(3).strip(), [0]))
        except OSError:
            pass

    def site_known(self, site):
        for s, what, c in self.known:
            if s == site:
                c[0] += 1
                return True
        return False

    def violation(self, site, text, suffix=""):
        if self.site_known(site):
            return
        self.n += 1
        if self.n > MAX_REPORT:
            return
        os.makedirs(OUT, exist_ok=True)
        path = os.path.join(OUT, "%s-%d.rs" % (self.pid, self.n))
        with open(path, "w") as f:
            f.write(text)
        print("VIOLATION property=%s replay=%s%s" % (self.pid, path, " " + suffix if suffix else ""))
        print("  " + site[:300])
        sys.stdout.flush()

    def finish(self):
        for s, what, c in self.known:
            print("KNOWN-FINDING: property=%s %s (%s)" % (self.pid, what, s))


def shards(layouts, work, want):
    """spread the layouts over shards of similar cost"""
    want = max(1, min(want, len(layouts)))
    cost = [(sum(len(o.body) for o in l.obs) + len(l.src), i) for i, l in enumerate(layouts)]
    cost.sort(reverse=True)
    alt = sum(1 for l in layouts if l.alt)
    k = max(1, round(want * alt / len(layouts))) if alt else 0  # shards of the definitions that use the other features
    import heapq
    sets = {True: [[0, j, []] for j in range(k)], False: [[0, k + j, []] for j in range(max(1, want - k))]}
    for c, i in cost:
        bins = sets[layouts[i].alt]
        b = heapq.heappop(bins)
        b[0] += c
        b[2].append(layouts[i])
        heapq.heappush(bins, b)
    bins = sets[True] + sets[False]
    bins.sort(reverse=True)
    return [(os.path.join(work, "s%d" % j), ls, 3) for _, j, ls in bins if ls]


def cover(body):
    """the precondition alone: refuting `false` after it shows it is satisfiable"""
    cut = 0
    for pat in ("None => return true };", "return true; }"):
        k = body.rfind(pat)
        if k >= 0:
            cut = max(cut, k + len(pat))
    return body[:cut] + " false"


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    deadline = t0 + (540 if tier == "quick" else 3000)
    p = plans.plan(pid, tier, seed)
    rep = Report(pid)
    os.environ["TMPDIR"] = os.environ.get("TMPDIR", "/tmp")
    work = tempfile.mkdtemp(prefix="vc-%s-" % pid)
    try:
        rc = run(p, rep, work, t0, deadline, tier, seed)
    except build.BuildError as e:
        print("ERROR: the crates under contract do not build: %s" % str(e)[:3000])
        rc = 2
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def other_features(p, work):
    """what is generated must not depend on the features: one definition in four is checked with another set of them"""
    free = [l for l in p.layouts if not re.search("slice|_vec|hex|Checked", "".join(o.body for o in l.obs) + l.src)]
    if p.features == plans.FULL or not p.layouts:
        return None
    if set(p.features) == {"derive", "dyn_fns"} and len(free) > 20:
        alt = plans.DERIVE
    else:
        alt, free = plans.FULL, p.layouts
    for l in free[3::4]:
        l.alt = True
    p.alt_features = alt
    return build.Deps(work, alt, "ws2")


def add_covers(p):
    """cover obligations for a sample of every kind of contract"""
    from obligations import Ob
    r = random.Random("cover-%s-%s" % (p.pid, p.seed))
    by = {}
    for l in p.layouts:
        for o in l.obs:
            if "return true" in o.body:
                by.setdefault(o.tag.split(".")[0], []).append((l, o))
    n = 0
    for tag in sorted(by):
        for l, o in r.sample(by[tag], min(6, len(by[tag]))):
            c = Ob("cover." + o.tag, o.k, cover(o.body), o.about)
            c.id = o.id + "_cover"
            l.obs.append(c)
            n += 1
    return n


def run(p, rep, work, t0, deadline, tier, seed):
    deps = build.Deps(work, p.features)
    both = (deps, other_features(p, work))
    ncov = add_covers(p)
    jobs = shards(p.layouts, work, 16 if tier == "quick" else max(16, len(p.layouts) // 60))
    by_l = {l.lid: l for l in p.layouts}
    by_o = {o.id: (l, o) for l in p.layouts for o in l.obs}
    results = []
    errors = []
    late = False
    with mp.Pool(min(8, os.cpu_count() or 8), shard.init, both) as pool:
        rej = [pool.apply_async(reject_work, (deps, os.path.join(work, "r%d" % k), part)) for k, part in enumerate(chunk(p.rejects, 60))]
        rs = [pool.apply_async(shard.work, (j + (deadline - 20,),)) for j in jobs]
        for r, j in zip(rs, jobs):
            try:
                results.append(r.get(max(1, deadline - time.time())))
            except mp.TimeoutError:
                late = True
                results.append({"bad": {}, "res": [(l.lid, o.id, "undecided", None, "time", 0.0) for l in j[1] for o in l.obs], "compile_s": 0, "prove_s": 0, "err": None})
        rejected = []
        for r in rej:
            try:
                rejected += r.get(max(1, deadline - time.time()))
            except mp.TimeoutError:
                late = True
        if late:
            pool.terminate()
    for r in results:
        if r["err"]:
            errors.append(r["err"])
    if errors:
        print("ERROR: " + errors[0][:2000])
        return 2

    # --- definitions that are not accepted any more
    bad = {}
    for r in results:
        bad.update(r["bad"])
    for lid in sorted(bad, key=lambda x: int(x[1:])):
        l = by_l[lid]
        rep.violation("definition accepted: " + l.key, native.program_text(l, None, None, [
            "property %s: this definition is not accepted (or what the derive macro generates for it does not compile)" % rep.pid,
            "definition: " + l.key] + bad[lid].splitlines()[:40]))

    # --- obligations
    verdicts = Counter()
    how = Counter()
    kinds = Counter()
    fns = Counter()
    solver_s = 0.0
    refuted, undecided, proved = [], [], []
    covered = 0
    cover_fail = []
    for r in results:
        for lid, oid, v, model, hw, sec in r["res"]:
            solver_s += sec
            l, o = by_o[oid]
            if o.tag.startswith("cover."):
                if v == "refuted":
                    covered += 1
                elif v == "proved":
                    cover_fail.append((l, o))
                continue
            if v == "proved":
                proved.append((l, o))
                how[hw if hw in ("simplify", "z3") else str(hw).split(":")[0]] += 1
                kinds[o.tag.split(".")[0]] += 1
                for a in re.sub(r"[0-9]+", "#", o.about).split(", "):
                    fns[a] += 1
            elif v == "refuted":
                refuted.append((l, o, model))
            else:
                undecided.append((l, o, hw))

    for why, n in Counter(re.sub(r"[0-9]+", "#", str(h))[:160] for _, _, h in undecided).most_common(4):
        print("undecided (%d): %s" % (n, why))

    # --- replay of counterexamples against the real code
    unconfirmed = []
    confirmed = 0
    if refuted:
        pick = spread(refuted, 24)
        out = native.run(both, os.path.join(work, "replay"), [(l, o, [bytes(m)]) for l, o, m in pick if m is not None], 0)
        for (l, o, m) in pick:
            res = out.get(o.id) if m is not None else None
            if res and res[0] != "ok":
                confirmed += 1
                rep.violation("%s: contract %s" % (l.key, o.tag), native.program_text(l, o, res[1], [
                    "property %s violated: the postcondition `%s` of %s fails" % (rep.pid, o.tag, o.about),
                    "definition: " + l.key,
                    "input bytes: " + " ".join("%02x" % x for x in res[1]),
                    "observed when run against the real code: " + res[2]]))
            else:
                unconfirmed.append((l, o, "refuted, but the model does not fail when run"))
        rest = [x for x in refuted if x not in pick] if len(refuted) > len(pick) else []
        if not confirmed:
            unconfirmed += [(l, o, "refuted") for l, o, m in rest]

    # --- the engine gave no answer: Kani, then bounded testing of the same postcondition
    open_obs = [(l, o, why) for l, o, why in undecided] + unconfirmed
    bounded = 0
    kani_proved = 0
    if open_obs and not confirmed and not bad:
        left = open_obs
        if deadline - time.time() > 150:
            done, failed, left = native.kani(deps, work, left, min(40 if tier == "quick" else 200, len(left)), min(240, deadline - time.time() - 60))
            kani_proved = len(done)
            for l, o in done:
                proved.append((l, o))
                kinds[o.tag.split(".")[0]] += 1
        n = 3000 if len(left) < 200 else 400
        out = native.run(both, os.path.join(work, "bounded"), [(l, o, []) for l, o, _ in left], n, seed, deadline + (150 if tier == "quick" else 900))
        for l, o, why in left:
            res = out.get(o.id)
            if res and res[0] == "fail":
                rep.violation("%s: contract %s" % (l.key, o.tag), native.program_text(l, o, res[1], [
                    "property %s violated: the postcondition `%s` of %s fails" % (rep.pid, o.tag, o.about),
                    "definition: " + l.key,
                    "input bytes: " + " ".join("%02x" % x for x in res[1]),
                    "observed when run against the real code: " + res[2]]))
            elif res:
                bounded += 1

    # --- cross-check of the engine: proved obligations run natively, unoptimised
    sampled = 0
    runs = 0
    if proved and not rep.n:
        r = random.Random("sample-%s-%s" % (p.pid, seed))
        pick = r.sample(proved, min(40 if tier == "quick" else 200, len(proved)))
        out = native.run(both, os.path.join(work, "sample"), [(l, o, []) for l, o in pick], 300, seed)
        for l, o in pick:
            res = out.get(o.id)
            if res is None:
                continue
            sampled += 1
            runs += res[3]
            if res[0] == "fail":
                rep.violation("%s: contract %s" % (l.key, o.tag), native.program_text(l, o, res[1], [
                    "property %s violated: the postcondition `%s` of %s fails in an unoptimised build" % (rep.pid, o.tag, o.about),
                    "definition: " + l.key,
                    "input bytes: " + " ".join("%02x" % x for x in res[1]),
                    "observed when run against the real code: " + res[2]]))

    # --- functions inside the macro
    within = {"proved": [], "open": [], "refuted": [], "why": None}
    if p.inner:
        within = inner.run(deps, work, p.inner)
        for x, m in within["refuted"]:
            try:
                if not shows(rep, deps, work, x, *x.show(m)):
                    within["open"].append((x.name, "refuted, but a definition does not show it"))
            except Exception as e:
                within["open"].append((x.name, "refuted; no definition: %s %s" % (type(e).__name__, e)))
        for n, why in within["open"]:
            print("not decided: %s: %s" % (n, why[:300]))
        if within["why"]:
            print("not under contract: " + within["why"][:300])

    # --- definitions that have to be rejected
    accepted = [(k, s) for k, s, ok in rejected if not ok]
    for key, src in accepted:
        rep.violation("rejected: " + key, "// property %s violated: this definition has to be rejected at compile time, but it is accepted\n// definition: %s\nuse bondrewd::*;\n%s\nfn main() {}\n" % (rep.pid, key, src))

    vac = []
    nob = sum(1 for o in by_o.values() if not o[1].tag.startswith("cover."))
    if not proved and not rep.n:
        vac.append("no obligation was discharged")
    if cover_fail:
        vac.append("unsatisfiable precondition: " + cover_fail[0][0].key + " " + cover_fail[0][1].tag)
    rep.finish()
    r = random.Random("ev-%s-%s" % (p.pid, seed))
    smp = [{"definition": l.title, "contract": o.tag, "function": o.about, "postcondition": o.body[:1500]} for l, o in (r.sample(proved, min(3, len(proved))))]
    cov = {
        "obligations": nob + len(within["proved"]) + len(within["open"]),
        "discharged": len(proved) + len(within["proved"]),
        "checker_cmd": "python3-vt vc/check.py %s (rustc --emit=llvm-ir on the real crates, vc/llvmvc.py, z3)" % rep.pid,
        "trusted_base": TRUSTED,
        "discharged_by": dict(how, **({"kani": kani_proved} if kani_proved else {})),
        "solver_seconds": round(solver_s, 2),
        "compile_seconds": round(sum(x["compile_s"] for x in results), 2),
        "definitions_under_contract": len(p.layouts) - len(bad),
        "functions_under_contract": dict(fns.most_common()),
        "obligations_by_contract": dict(kinds.most_common()),
        "undecided": len(open_obs) - kani_proved,
        "bounded_not_proved": bounded,
        "refuted": len(refuted),
        "preconditions_covered": covered,
        "preconditions_checked": ncov,
        "macro_internals_proved": [{"contract": about, "by": how} for _, about, how in within["proved"]],
        "macro_internals_not_decided": [list(x) for x in within["open"]] + ([within["why"][:1000]] if within["why"] else []),
        "native_crosscheck_obligations": sampled,
        "native_crosscheck_executions": runs,
        "definitions_to_reject": len(p.rejects),
        "definitions_rejected": sum(1 for x in rejected if x[2]),
        "samples": smp + [{"to_reject": k, "definition": s} for k, s in p.rejects[:2]],
        "features": list(p.features),
        "features_of_one_in_four": list(getattr(p, "alt_features", ())),
    }
    ev = {"property": rep.pid, "tier": tier, "seed": seed, "level": "proof", "coverage": cov,
          "assumptions": ASSUME + (["The rejections are enumerated: each listed definition is expanded by the real macro (bounded, not counted as proved)."] if p.rejects else []),
          "wall_s": round(time.time() - t0, 2), "violations": rep.n}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", rep.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed %d: %d definitions, %d/%d obligations discharged (%s), %d undecided, %d bounded, %d/%d rejections, %d violations, %.1f s" % (
        rep.pid, tier, seed, len(p.layouts), len(proved), nob, ", ".join("%s %d" % x for x in how.items()), len(open_obs) - kani_proved, bounded,
        cov["definitions_rejected"], len(p.rejects), rep.n, time.time() - t0))
    if rep.n:
        return 1
    if vac:
        print("ERROR: vacuous: " + "; ".join(vac))
        return 2
    return 0


def shows(rep, deps, work, x, d, want):
    """does the definition made from a model show that a contract inside the macro fails?"""
    why = ["property %s violated: the contract of a function inside the derive macro fails" % rep.pid, x.about]
    if isinstance(d, str):
        (key, s, ok), = reject_work(deps, os.path.join(work, "inner_1"), [(x.name, d)])
        if ok == want:
            return False
        rep.violation("inner " + x.name, "// %s\n// this definition has to be %s, but it is %s\nuse bondrewd::*;\n%s\nfn main() {}\n" % (
            "\n// ".join(why), *(("rejected", "accepted") if want else ("accepted", "rejected")), d))
        return True
    l = shard.layout("m0", d, want, "inner " + x.name)
    path = os.path.join(work, "inner_2")
    ir, bad, todo, _ = shard.compile_shard(deps, [l], path)
    if bad:
        rep.violation("inner " + x.name, native.program_text(l, None, None, why + ["this definition is not accepted, or what is generated for it does not have the size and functions it must have"] + bad[l.lid].splitlines()[:40]))
        return True
    for _, oid, v, m, _, _ in shard.prove_all(ir, [l]) if ir else []:
        o = next(o for o in l.obs if o.id == oid)
        if v == "refuted":
            res = native.run((deps, None), path, [(l, o, [bytes(m)])], 0).get(oid)
            if res and res[0] != "ok":
                rep.violation("inner " + x.name, native.program_text(l, o, res[1], why + [
                    "the postcondition `%s` of %s fails" % (o.tag, o.about), "input bytes: " + " ".join("%02x" % y for y in res[1]),
                    "observed when run against the real code: " + res[2]]))
                return True
    return False


def chunk(xs, n):
    return [xs[k:k + n] for k in range(0, len(xs), n)]


def spread(items, n):
    """a sample that covers the contracts and definitions"""
    by = {}
    for x in items:
        by.setdefault(x[1].tag.split(".")[0], []).append(x)
    out = []
    while len(out) < n and any(by.values()):
        for k in list(by):
            if by[k]:
                out.append(by[k].pop(0))
    return out[:n]


def reject_work(deps, path, items):
    """-> [(key, source, rejected?)]"""
    parts = [shard.ALLOW + shard.USE]
    where = []
    line = parts[0].count("\n") + 1
    for k, (key, src) in enumerate(items):
        t = "mod r%d { use super::*;\n%s}\n" % (k, src)
        n = t.count("\n")
        where.append((line, line + n - 1))
        parts.append(t)
        line += n
    build.write(path + ".rs", "".join(parts))
    ok, errs = deps.rustc(path + ".rs", path + ".rmeta", "metadata", 0, ["--crate-type", "lib"], 100)
    hit = set()
    for e in errs:
        for prim, fn, ln in build.span_lines(e):
            for k, (a, b) in enumerate(where):
                if a <= ln <= b:
                    hit.add(k)
    out = []
    for k, (key, src) in enumerate(items):
        if k in hit:
            out.append((key, src, True))
            continue
        build.write(path + "_1.rs", shard.ALLOW + shard.USE + src)
        ok, _ = deps.rustc(path + "_1.rs", path + "_1.rmeta", "metadata", 0, ["--crate-type", "lib"], 100)
        out.append((key, src, not ok))
    return out


if __name__ == "__main__":
    main()
