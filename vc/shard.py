"""One obligation crate: the source text, its compilation and the proof of its obligations."""
import os
import re
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import llvmvc

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = open(os.path.join(HERE, "spec.rs")).read()
LONG = (40, 48, 64, 65, 100, 130, 257)  # array lengths beyond those spelled out in spec.rs
SPEC += "".join("val_array!(%d: %s);\n" % (n, " ".join(map(str, range(n)))) for n in LONG)
ALLOW = "#![allow(warnings, unconditional_panic, arithmetic_overflow, unconditional_recursion)]\n"
USE = "use bondrewd::*;\n"


class Layout:
    """one definition with its obligations; `src` is everything but the obligations"""

    def __init__(self, lid, src, obs, title, key):
        self.lid = lid
        self.src = src
        self.obs = obs
        self.title = title  # the definition as the user would write it
        self.key = key  # stable description
        self.alt = False  # use the crates built with the other set of features
        for k, o in enumerate(obs):
            o.id = "ob_%s_%d" % (lid, k)


def layout(lid, obj, obs, key=None, extra=""):
    defs = "".join(d.source() for d in list(obj.deps) + [obj])
    vals = "".join(d.val_impl() for d in list(obj.deps) + [obj])
    return Layout(lid, defs + vals + extra, obs, defs, key or obj.name)


def module_text(l, obs=None, emit=True):
    s = ["mod %s { use super::*;\n" % l.lid, l.src]
    for o in obs if obs is not None else l.obs:
        s.append("%spub fn %s(i: &[u8; %d]) -> bool { %s }\n" % ("#[no_mangle] " if emit else "", o.id, o.k, o.body))
    s.append("}\n")
    return "".join(s)


def crate(layouts):
    """source, and [(first line, last line, layout)]"""
    head = ALLOW + USE + SPEC
    parts = [head]
    line = head.count("\n") + 1
    where = []
    for l in layouts:
        t = module_text(l)
        n = t.count("\n")
        where.append((line, line + n - 1, l))
        parts.append(t)
        line += n
    return "".join(parts), where


def compile_shard(deps, layouts, path, opt=3, until=None):
    """-> (IR text or None, {layout id: error text} of layouts that do not compile, seconds)"""
    t = time.time()
    bad = {}
    todo = list(layouts)
    ir = None
    for attempt in range(6):
        if not todo:
            break
        src, where = crate(todo)
        build.write(path + ".rs", src)
        ok, errs = deps.llvm(path + ".rs", path + ".ll", opt, min(240, until - time.time()) if until else 1000)
        if ok:
            ir = open(path + ".ll").read()
            os.unlink(path + ".ll")
            break
        hit = {}
        if any(e.get("late") for e in errs):  # a definition on which the macro never ends, or a slow machine
            for l in todo:
                build.write(path + "_1.rs", crate([l])[0])
                ok1, errs1 = deps.rustc(path + "_1.rs", path + "_1.rmeta", "metadata", 0, ["--crate-type", "lib"], 60)
                if not ok1:
                    hit[l.lid] = "\n".join((e.get("rendered") or e["message"]) for e in errs1)[:2000]
                    if sum(1 for e in errs1 if e.get("late")) and len(hit) > 1:
                        break
            bad.update(hit)
            return None, bad, [l for l in todo if l.lid not in hit], time.time() - t
        for e in errs:
            for prim, fn, ln in build.span_lines(e):
                for a, b, l in where:
                    if a <= ln <= b and fn.endswith(os.path.basename(path) + ".rs"):
                        hit.setdefault(l.lid, e.get("rendered") or e["message"])
        if not hit:
            if len(todo) == 1:
                hit = {todo[0].lid: "\n".join((e.get("rendered") or e["message"]) for e in errs)[:2000]}
            else:  # no location: find the culprits one by one
                for l in todo:
                    src1, _ = crate([l])
                    build.write(path + "_1.rs", src1)
                    ok1, errs1 = deps.llvm(path + "_1.rs", path + "_1.ll", 0)
                    if not ok1:
                        hit[l.lid] = "\n".join((e.get("rendered") or e["message"]) for e in errs1)[:2000]
                if not hit:
                    raise build.BuildError("shard does not compile: " + "\n".join((e.get("rendered") or e["message"]) for e in errs)[:2000])
        bad.update(hit)
        todo = [l for l in todo if l.lid not in hit]
    else:
        raise build.BuildError("shard keeps failing to compile")
    return ir, bad, todo, time.time() - t


def prove_all(ir, layouts, timeout_ms=20000, until=None):
    """-> [(layout id, obligation id, verdict, model, how, seconds)]"""
    out = []
    mod = llvmvc.Module(ir)
    for l in layouts:
        for o in l.obs:
            t = time.time()
            if until and t > until:
                out.append((l.lid, o.id, "undecided", None, "time", 0.0))
                continue
            try:
                v, m, how = llvmvc.prove(llvmvc.Engine(mod), o.id, o.k, timeout_ms, o.low)
            except llvmvc.Unsupported as e:
                v, m, how = "undecided", None, "unsupported: " + str(e)[:200]
            except RecursionError:
                v, m, how = "undecided", None, "recursion"
            except Exception as e:  # an engine error decides nothing
                v, m, how = "undecided", None, "engine: %s %s" % (type(e).__name__, traceback.format_exc()[-300:])
            out.append((l.lid, o.id, v, m, how, time.time() - t))
    return out


_deps = None


def init(*deps):
    global _deps
    _deps = deps


def work(args):
    path, layouts, opt = args[:3]
    try:
        until = args[3] if len(args) > 3 else None
        ir, bad, todo, ct = compile_shard(_deps[layouts[0].alt], layouts, path, opt, until)
        t = time.time()
        if ir is not None:
            res = prove_all(ir, todo, until=until)
        else:
            res = [(l.lid, o.id, "undecided", None, "not compiled in time", 0.0) for l in todo for o in l.obs]
        return {"bad": bad, "res": res, "compile_s": ct, "prove_s": time.time() - t, "err": None}
    except build.BuildError as e:
        return {"bad": {}, "res": [], "compile_s": 0, "prove_s": 0, "err": str(e)}
