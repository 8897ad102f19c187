"""Which definitions and obligations decide each property."""
import itertools
import random
import re

import corpus
import obligations as O
from corpus import Gen, grid, grid_struct, probes
from layouts import Arr, Enum, Field, INTS, PEnum, PNew, PRIM, Prim, SIZE, Struct, UNS, Variant, natural
from shard import layout

DERIVE = ("derive",)
FULL = ("derive", "dyn_fns", "hex_fns")
DYN = ("derive", "dyn_fns")
HEX = ("derive", "hex_fns")


class Plan:
    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.thorough = tier == "thorough"
        self.features = DERIVE
        self.layouts = []
        self.rejects = []  # (key, source of one definition that has to be rejected)
        self.inner = ()  # contracts of functions inside the macro (inner.py)
        self.seen = set()
        self.turn = 0

    def add(self, obj, obs, key=None, extra=""):
        if not obs:
            return
        self.layouts.append(layout("m%d" % len(self.layouts), obj, obs, key, extra))

    def views(self, s, fields=None, every=3):
        """slice, checked and from_slice forms of the same functions, for one definition in `every`"""
        self.turn += 1
        if self.turn % (1 if self.thorough else every) or s.nbytes > 32:
            return []
        self.features = DYN
        return O.views(s, fields)

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng(self, what):
        return random.Random("%s-%s-%s" % (self.pid, self.seed, what))

    def random(self, mode, count, obs, maxbytes=64):
        """`count` random definitions of one shape"""
        k = done = 0
        while done < count:
            g = Gen("%s-%s-%s-%d" % (self.pid, self.seed, mode, k))
            k += 1
            if mode == "struct":
                s = g.struct()
            elif mode == "simple":
                s = g.struct(nested=False, arrays=False)
            elif mode == "placed":
                s = g.placed()
            elif mode == "overlap":
                s = g.overlapping()
            elif mode == "roles":
                s = g.struct(roles=True)
            elif mode == "small":
                s = g.struct(nmax=3)
            elif mode == "tall":
                s = g.tall()
            elif mode == "taller":
                s = g.tall((128, 130, 256, 258, 300))
            elif mode == "many":
                s = g.many()
            elif mode == "placed_enum":
                s = g.placed_enum()
            elif mode == "wide_enum":
                s = g.wide_enum()
            elif mode == "enum":
                s = g.benum()
            elif mode == "enum_roles":
                g.variant_roles = True
                s = g.benum()
            else:
                raise KeyError(mode)
            if not 0 < s.nbytes <= maxbytes:
                continue
            done += 1
            if done % 7 == 3 and mode in ("simple", "struct", "placed", "roles", "enum", "enum_roles"):
                g.rename(s)
            self.add(s, obs(s), "%s #%d" % (mode, k - 1))


def prim_grid(p, obs, types=None, revs=(False, True), quick_thin=None, maxw=None):
    """(type, width, endianness, reverse) x eight bit offsets"""
    th = quick_thin or {"u128": 2, "i128": 3}
    r = p.rng("grid")
    for key, s in grid(types or tuple(INTS), revs=revs, thin=(lambda ty: 1) if p.thorough else lambda ty: th.get(ty, 1), rng=r):
        p.add(s, obs(s), key)


def structs(p, obs, simple=(70, 700), struct=(100, 1000), placed=(40, 400), roles=(40, 400), many=(12, 120), tall=(12, 120), taller=(3, 30)):
    for mode, (q, t) in (("simple", simple), ("struct", struct), ("placed", placed), ("roles", roles), ("many", many)):
        p.random(mode, p.n(q, t), obs)
    p.random("tall", p.n(*tall), obs, 110)
    p.random("taller", p.n(*taller), obs, 400)


# ------------------------------------------------------------------ C01 .. C05
def c01(p):
    prim_grid(p, lambda s: O.roundtrip(s))
    structs(p, O.roundtrip)
    p.random("enum", p.n(40, 400), O.enum_roundtrip)
    p.random("wide_enum", p.n(6, 60), O.enum_roundtrip)
    p.random("overlap", p.n(20, 150), lambda s: O.agreeing(s)[1:])


def c02(p):
    p.inner = ("left_mask", "right_mask", "bit_math", "be_start")
    prim_grid(p, lambda s: O.into_bytes(s))
    structs(p, O.into_bytes)
    lsb0_grid(p, O.into_bytes)
    p.random("overlap", p.n(20, 150), lambda s: O.agreeing(s)[:1])


def c03(p):
    prim_grid(p, lambda s: O.read(s, probes(s)))
    structs(p, O.read)
    lsb0_grid(p, lambda s: O.read(s, probes(s)))
    p.random("overlap", p.n(20, 150), O.read)


def c04(p):
    prim_grid(p, lambda s: O.write(s, probes(s)))
    structs(p, O.write)
    lsb0_grid(p, lambda s: O.write(s, probes(s)))
    p.random("overlap", p.n(20, 150), O.write)


def c05(p):
    prim_grid(p, lambda s: O.from_bytes_reads(s) + O.reencode(s), quick_thin={"i64": 2, "u128": 4, "i128": 6})
    structs(p, lambda s: O.from_bytes_reads(s) + O.reencode(s))
    p.random("overlap", p.n(30, 200), lambda s: O.from_bytes_reads(s) + O.reencode(s))


def lsb0_grid(p, obs):
    r = p.rng("lsb0")
    for ty in INTS:
        n = natural(ty)
        ws = list(range(1, n + 1)) if p.thorough and n <= 32 else sorted({r.randint(1, n) for _ in range(p.n(5, 20))} | {n})
        for w in ws:
            for e in ("le", "be") if SIZE[ty] > 1 else ("le",):
                for rev in (False, True):
                    s = grid_struct(ty, w, e, rev, lsb0=True)
                    p.add(s, obs(s), "lsb0 %s:%d %s%s" % (ty, w, e, " reverse" if rev else ""))


def penum_width(g, el):
    if isinstance(el, PNew):
        return g.r.randint(9 if el.bits > 8 else 1, el.bits)
    return g.r.randint(max(1, (len(el.variants) - 1).bit_length()), 8)


# ------------------------------------------------------------------ C06
def arr_struct(ty, n, bits, kind, endian, rev, offs, lsb0=False):
    fs = []
    at = 0
    el = PRIM[ty] if isinstance(ty, str) else ty
    for j, o in enumerate(offs):
        pad = (o - at) % 8
        if pad:
            fs.append(Field("p%d" % j, "u8", pad))
            at += pad
        fs.append(Field("f%d" % j, Arr(el, n), bits, kind, style=j))
        at += bits
    fs.append(Field("q", "u8", 3))
    return Struct("S", fs, endian=endian, reverse=rev, lsb0=lsb0)


def c06(p):
    p.inner = ("elements", "element_next", "blocks", "block_next")
    r = p.rng("arr")

    def obs(s):
        fs = probes(s)
        return O.into_bytes(s) + O.from_bytes_spec(s) + O.read(s, fs) + O.write(s, fs) + O.roundtrip(s) + p.views(s, fs[-1:], 5)

    for ty in ["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "u128", "bool", "char"]:
        nat = 32 if ty == "char" else natural(ty)
        ends = ("le", "be") if SIZE[ty] > 1 else ("be",)
        ws = sorted({1, nat, max(1, nat - 1)} | {r.randint(1, nat) for _ in range(p.n(2, 10))})
        for w in ws if ty != "bool" else [1]:
            for e in ends:
                for rev in (False, True):
                    n = r.randint(2, 5) if nat <= 32 else r.randint(2, 3)
                    s = arr_struct(ty, n, n * w, "elem", e, rev, r.sample(range(8), p.n(3, 4)))
                    p.add(s, obs(s), "elem %s:%d x%d %s%s" % (ty, w, n, e, " reverse" if rev else ""))
        if ty in ("bool", "char"):
            continue
        for n in range(1, p.n(4, 6)) if nat <= 32 else [2]:
            full = nat
            for extra in sorted({1, nat - 1, nat} | {r.randint(1, nat) for _ in range(p.n(1, 8))}):
                bits = (n - 1) * full + extra
                e = r.choice(ends)
                for rev in (False, True):
                    s = arr_struct(ty, n, bits, "block", e, rev, r.sample(range(8), p.n(2, 4)))
                    p.add(s, obs(s), "block %s x%d %d bits %s%s" % (ty, n, bits, e, " reverse" if rev else ""))
    # long arrays, after a few bits and before a few
    lens = [7, 9, 12, 16, 17, 20, 24, 32, 33, 40, 48, 64, 65, 100, 130, 257]
    for k in range(p.n(22, 120)):
        ty = ["u8", "u64", "u16", "u128", "bool", "u32", "u8", "i16", "u128", "i8", "char"][k % 11]
        nat = 32 if ty == "char" else natural(ty)
        n = r.choice([n for n in lens if n * SIZE[ty] <= 640])
        kind = "block" if k % 3 == 1 and ty not in ("bool", "char") else "elem"
        w = 1 if ty == "bool" else r.choice([nat, nat, max(1, nat - 1), r.randint(1, nat)])
        bits = n * w if kind == "elem" else (n - 1) * nat + r.choice([nat, r.randint(1, nat)])
        e = r.choice(("le", "be")) if SIZE[ty] > 1 else "be"
        s = arr_struct(ty, n, bits, kind, e, k % 4 == 3, [r.choice([0, 0, 1, 3, 7])], lsb0=k % 8 == 5)
        f = [x for x in s.fields if isinstance(x.ty, Arr)]
        p.add(s, O.into_bytes(s) + O.from_bytes_spec(s) + O.read(s, f) + O.write(s, f), "long %s %s x%d %d bits %s" % (kind, ty, n, bits, e))
    # arrays of nested structures, enums and primitive enums
    for k in range(p.n(90, 720)):
        g = Gen("%s-%s-nest-%d" % (p.pid, p.seed, k))
        el = [lambda: g.struct(1, nested=False), lambda: g.benum(1), g.penum, g.pnew][k % 4]()
        if el.nbytes > 5:
            continue
        n = g.r.randint(2, 3)
        w = penum_width(g, el) if isinstance(el, PEnum) else el.bits
        fs = []
        for j in range(2):
            fs.append(Field("p%d" % j, "u8", g.r.randint(1, 8)))
            fs.append(Field("f%d" % j, Arr(el, n), n * w, "elem", style=g.r.randrange(8)))
        s = Struct(g.name("S"), fs, endian=g.r.choice(["le", "be"]), reverse=g.r.random() < 0.5, lsb0=g.r.random() < 0.15)
        if s.nbytes <= 40:
            p.add(s, obs(s), "nested array #%d" % k)
    p.random("struct", p.n(60, 600), lambda s: [o for f in s.fields if isinstance(f.ty, Arr) for o in O.read(s, [f]) + O.write(s, [f])] + (O.into_bytes(s) if any(isinstance(f.ty, Arr) for f in s.fields) else []))


# ------------------------------------------------------------------ C07
def c07(p):
    def obs(s):
        fs = probes(s)
        return O.into_bytes(s) + O.from_bytes_spec(s) + O.read(s, fs) + O.write(s, fs) + O.roundtrip(s) + p.views(s, fs[-1:], 4)

    for k in range(p.n(260, 1600)):
        g = Gen("%s-%s-%d" % (p.pid, p.seed, k))
        r = g.r
        kind = k % 4
        if kind == 0:
            el = g.struct(1, nested=False, nmin=1)
        elif kind == 1:
            el = g.benum(1)
        elif kind == 2:
            el = g.pnew() if k % 3 == 0 else g.penum()
        else:
            el = g.struct(1)
        if el.nbytes > 12:
            continue
        fs = []
        at = 0
        for j, o in enumerate(r.sample(range(8), 3 if el.nbytes <= 4 else 2)):
            pad = (o - at) % 8
            if pad:
                fs.append(Field("p%d" % j, "u8", pad))
                at += pad
            if kind == 2:
                w = penum_width(g, el)
            else:
                w = g.nested_bits(el) if j else el.bits
            f = Field("f%d" % j, el, w, style=r.randrange(8))
            fs.append(f)
            at += f.bits
        fs.append(Field("q", "u8", r.randint(1, 8)))
        s = Struct(g.name("S"), fs, endian=r.choice([None, "le", "be"]), reverse=k % 8 >= 4, lsb0=r.random() < 0.15)
        p.add(s, obs(s), "nested #%d" % k)
    def light(s):
        fs = [f for f in s.fields if f.name in ("f0", "f1")]
        return O.into_bytes(s) + O.from_bytes_spec(s) + O.read(s, fs) + O.write(s, fs)
    nested = lambda make: lambda g, n: (lambda el: Field(n, el, el.bits, style=g.r.randrange(8)))(make(g))
    far_apart(p, [nested(lambda g: g.struct(1, nested=False, nmin=1)), nested(lambda g: g.benum(1)), lambda g, n: (lambda el: Field(n, el, penum_width(g, el)))(g.penum())], light, p.n((40, 133), (40, 68, 132, 133, 260)))
    # an inner structure longer than the words of any primitive
    for n in p.n((17, 34, 66), (17, 18, 33, 34, 65, 66, 130)):
        for rev in (False, True):
            g = Gen("%s-%s-long-%d-%d" % (p.pid, p.seed, n, rev))
            cut = g.r.randint(0, 7)
            el = Struct("I", spacer(n - 2) + [Field("a", "u8", 5), Field("b", "i16", 11 - cut)], endian="be", reverse=g.r.random() < 0.5)
            s = Struct("S", [Field("h", "u8", g.r.randint(1, 8)), Field("f0", el, el.bits), Field("t", "u8", g.r.randint(1, 8))], endian=g.r.choice(["le", "be"]), reverse=rev)
            p.add(s, light(s), "long inner %d%s" % (n, " reverse" if rev else ""))
    # inner structures of every size up to two bytes at every offset
    for w in range(1, 17) if p.thorough else (1, 4, 7, 8, 9, 12, 15, 16):
        for irev in (False, True):
            for orev in (False, True):
                fi = [Field("a", "u8", w)] if w <= 8 else [Field("a", "u8", w - 8), Field("b", "i8", 8)]
                el = Struct("I", fi, endian="be", reverse=irev)
                fs = []
                at = 0
                for j in range(8):
                    pad = (j * 3 - at) % 8
                    if pad:
                        fs.append(Field("p%d" % j, "u8", pad))
                        at += pad
                    fs.append(Field("f%d" % j, el, w))
                    at += w
                s = Struct("S", fs, endian="be", reverse=orev)
                p.add(s, obs(s), "inner %d bits%s in%s" % (w, " reverse" if irev else "", " reverse" if orev else ""))


# ------------------------------------------------------------------ C08, C09
def enum_all(e):
    return O.enum_into(e) + O.enum_from(e) + O.enum_roundtrip(e) + O.enum_id_fns(e) + O.enum_fields(e)


def c08(p):
    r = p.rng("ids")
    for ib in range(1, 129) if p.thorough else sorted({1, 2, 7, 8, 9, 16, 17, 24, 33, 56, 64, 65, 120, 128} | {r.randint(1, 128) for _ in range(6)}):
        for e in ("le", "be"):
            for rev in (False, True):
                top = (1 << ib) - 1
                vs = [Variant("A", [Field("x", "u16", 11)], id=top if ib > 1 else None), Variant("B", [Field("x", "i8", 5), Field("y", "u32", 19)])]
                if ib > 1:
                    vs.append(Variant("C", [], invalid=True, capture=(ib % 3 == 0)))
                en = Enum("N", ib, vs, endian=e, reverse=rev)
                p.add(en, enum_all(en), "id %d bits %s%s" % (ib, e, " reverse" if rev else ""))
    for n in p.n((33, 70, 133), (33, 66, 70, 130, 133, 260)):  # variants longer than the words of any primitive
        for e in ("le", "be"):
            for rev in (False, True):
                ib = r.choice([3, 5, 8, 11, 16])
                vs = [Variant("A", [Field("w", "u8", 5), Field("x", "u16", 11)]), Variant("B", spacer(n) + [Field("y", "i32", r.randint(17, 31))]), Variant("C", [Field("y", "i16", 9)] + spacer(n - r.randint(0, 4)))]
                en = Enum("N", ib, vs, endian=e, reverse=rev)
                p.add(en, [o for o in enum_all(en) if not re.search(r"[._](sp|s2)\b", o.tag)], "long variants %d %s%s" % (n, e, " reverse" if rev else ""))
    p.random("enum", p.n(70, 700), lambda e: enum_all(e) + p.views(e, None, 4))
    p.random("wide_enum", p.n(10, 100), lambda e: enum_all(e) + p.views(e, None, 5))
    p.random("placed_enum", p.n(20, 200), lambda e: enum_all(e) + O.sizes(e) + p.views(e, None, 5))
    p.random("enum_roles", p.n(20, 200), lambda e: enum_all(e) + p.views(e, None, 4))


def c09(p):
    r = p.rng("ids")
    todo = []
    for nv in (1, 2, 3, 4):
        for xs in itertools.product((None, 0, 1, 2, 3, 5), repeat=nv):
            ex = [x for x in xs if x is not None]
            for catch in [None] + list(range(nv)):
                todo.append((nv, xs, ex, catch))
    fixed = [t for t in todo if t[0] <= 2]
    rest = [t for t in todo if t[0] > 2]
    todo = fixed + (rest if p.thorough else r.sample(rest, 240))
    seen_rej = set()
    k = 0
    for nv, xs, ex, catch in todo:
        disc = r.random() < 0.3
        ib = r.choice([3, 4, 8])
        dup = len(set(ex)) != len(ex)

        def mk():
            vs = []
            for j, x in enumerate(xs):
                fs = [Field("x", "u8", 2 + j)] if j % 2 == 0 else []
                vs.append(Variant("V" + "abcdef"[j], fs, id=x, invalid=j == catch, disc=disc and x is not None))
            return Enum("N", ib, vs, endian=r.choice(["le", "be"]))

        k += 1
        key = "ids %s catch %s%s" % (list(xs), catch, " disc" if disc else "")
        if dup:
            key += " duplicate"
            if key in seen_rej or (not p.thorough and len(seen_rej) > 60):
                continue
            seen_rej.add(key)
            # a repeated discriminant is an error of its own; only attributes leave it to the derive
            disc = False
            p.rejects.append((key, mk().source()))
            continue
        e = mk()
        if disc and not rust_legal(e):
            disc = False
            e = mk()
        if max(v.id for v in e.variants) >= 1 << ib:
            continue
        p.add(e, O.enum_ids(e), key)
    # ids that do not fit, second catch-alls
    for ib in (1, 2, 3, 4, 7, 8, 9):
        for at in range(3):
            for over in (1 << ib, (1 << ib) + 1, (2 << ib) + 3, (1 << ib) | 5 << (ib + 2)):
                vs = [Variant("V" + "abc"[j], [Field("x", "u8", 3)] if j else [], id=over if j == at else None) for j in range(2 if ib == 1 and at < 2 else 3)]
                if at < len(vs):
                    p.rejects.append(("id %d in %d bits at %d" % (over, ib, at), Enum("N", ib, vs).source()))
        vs = [Variant("V%s" % x, []) for x in "abcdefghijklmnop"[: (1 << ib) + 1]]
        if ib <= 3:
            p.rejects.append(("%d variants in %d bits" % (len(vs), ib), Enum("N", ib, vs).source()))
    for a, b in itertools.combinations(range(4), 2):
        vs = [Variant("V" + "abcd"[j], [Field("x", "u8", 3)] if j % 2 else [], invalid=j in (a, b)) for j in range(4)]
        p.rejects.append(("catch-alls at %d and %d" % (a, b), Enum("N", 4, vs).source()))
    # ids of any size among variants without one
    for k in range(p.n(50, 500)):
        ib = r.choice([8, 9, 10, 16, 17, 32, 33, 63, 64, 65, 100, 128])
        nv = r.randint(2, 7)
        pool = [x for b in (4, 7, 8, 9, 16, 24, 32, 48, 63, 64, 65, 96, 127, 128) for x in ((1 << b) - 1, 1 << b, (1 << b) + 1, (1 << b) + 2) if b <= ib and x < 1 << ib] + list(range(6))
        ids = []
        for j in range(nv):
            x = r.choice(pool) if r.random() < 0.55 else None
            ids.append(x if x is None or x not in ids else None)
        catch = r.choice([None, r.randrange(nv)])
        vs = [Variant("V" + "abcdefg"[j], [Field("x", "u8", 2 + j)] if r.random() < 0.5 else [], id=x, invalid=j == catch, capture=j == catch and r.random() < 0.4) for j, x in enumerate(ids)]
        e = Enum("N", ib, vs, endian=r.choice(["le", "be"]), reverse=r.random() < 0.2)
        if max(v.id for v in e.variants) < 1 << ib:
            p.add(e, O.enum_ids(e), "big ids %s catch %s #%d" % (ids, catch, k))
    for k in range(p.n(40, 300)):  # the same number twice among several
        nv = r.randint(3, 12)
        ib = r.choice([8, 9, 16, 33, 65, 128])
        pool = [x for x in (0, 1, 2, 3, 7, 15, 255, 256, 257, 65535, 65536, 1 << 32, (1 << 32) + 1, 1 << 64, (1 << 64) + 1, (1 << 128) - 1) if x < 1 << ib]
        ids = r.sample(pool, min(nv, len(pool)))
        ids += [None] * (nv - len(ids))
        i, j = sorted(r.sample(range(nv), 2))
        ids[i] = ids[j] = r.choice(pool)
        vs = [Variant("V" + "abcdefghijkl"[q], [Field("x", "u8", 3)] if q % 2 else [], id=x) for q, x in enumerate(ids)]
        p.rejects.append(("big ids %s #%d" % (ids, k), Enum("N", ib, vs).source()))
    for k in range(p.n(40, 300)):  # some ids as attributes, some as discriminants
        ib = r.choice([3, 4, 5, 8, 8, 9])
        nv = r.randint(2, 6)
        ids = [None] * nv
        for j in range(nv):
            if r.random() < 0.7:
                x = r.randrange(min(1 << ib, 12))
                ids[j] = None if x in ids else x
        make = lambda ids, how: Enum("N", ib, [Variant("V" + "abcdef"[j], [Field("x", "u8", 2 + j)] if j % 2 else [], id=x, invalid=j == catch, disc=how[j] and x is not None) for j, x in enumerate(ids)], endian="be")
        how = [r.random() < 0.5 for _ in ids]
        catch = r.choice([None, r.randrange(nv)])
        e = make(ids, how)
        if rust_legal(e) and max(v.id for v in e.variants) < 1 << ib:
            p.add(e, O.enum_ids(e), "mixed ids %s %s catch %s #%d" % (ids, how, catch, k))
        i, j = r.sample(range(nv), 2)
        ids[i] = ids[j] = r.randrange(min(1 << ib, 12))
        how[i], how[j] = True, False
        e = make(ids, how)
        if rust_legal(e):
            p.rejects.append(("mixed ids %s %s #%d" % (ids, how, k), e.source()))
    for k in range(p.n(8, 80)):  # many variants
        nv = r.choice([20, 26, 26, 40, 60])
        ids = [None] * nv
        for j in range(nv):
            if r.random() < 0.3:
                x = r.randrange(2 * nv)
                if x not in ids:
                    ids[j] = x
        vs = [Variant("V%s" % (chr(97 + j % 26) * (1 + j // 26)), [], id=x, invalid=j == nv - 1 and k % 2 == 0) for j, x in enumerate(ids)]
        e = Enum("N", 8, vs, endian="be")
        if max(v.id for v in e.variants) < 256:
            p.add(e, O.enum_ids(e), "%d variants #%d" % (nv, k))
    p.random("enum", p.n(60, 600), O.enum_ids)
    p.random("wide_enum", p.n(40, 400), O.enum_ids)


def rust_legal(e):
    """Rust's own discriminants (previous + 1 where not given) do not repeat"""
    out = []
    nxt = 0
    for v in e.variants:
        x = v.explicit if v.disc and v.explicit is not None else nxt
        out.append(x)
        nxt = x + 1
    return len(set(out)) == len(out) and max(out) < 256


# ------------------------------------------------------------------ C10 .. C14
def c10(p):
    p.features = DYN
    r = p.rng("grid")
    for ty in INTS + ["bool", "char", "f32", "f64"]:
        n = natural(ty)
        ws = sorted({n, max(1, n - 1)} | {r.randint(1, n) for _ in range(p.n(1, 12))}) if ty not in ("bool", "f32", "f64") else [n]
        for w in ws:
            for e in ("le", "be") if SIZE[ty] > 1 else ("be",):
                for rev in (False, True):
                    s = slice_struct(ty, w, e, rev, r)
                    if s.nbytes <= 40:
                        p.add(s, O.slices(s), "%s:%d %s%s" % (ty, w, e, " reverse" if rev else ""))
    p.random("struct", p.n(60, 600), O.slices, 32)
    p.random("placed", p.n(20, 160), O.slices, 32)
    p.random("overlap", p.n(16, 120), O.slices, 32)
    p.random("roles", p.n(20, 160), O.slices, 32)
    p.random("enum", p.n(40, 400), O.slices, 32)
    p.random("enum_roles", p.n(12, 100), O.slices, 32)
    p.random("wide_enum", p.n(3, 40), O.slices, 40)
    p.random("many", p.n(4, 40), O.slices, 40)
    p.random("tall", p.n(5, 50), O.slices, 110)
    p.random("taller", p.n(1, 10), O.slices, 330)
    far_fields(p, lambda s: O.slices(s))


def spacer(n):
    k = n // 16
    sp = [Field("sp", Arr(PRIM["u128"], k), 128 * k, "elem")] if k else []
    if n - 16 * k:
        sp.append(Field("s2", Arr(PRIM["u8"], n - 16 * k), 8 * (n - 16 * k), "block"))
    return sp


def far_apart(p, kinds, obs, sizes=(40, 68, 132, 260)):
    """one kind of field behind and before a spacer: kinds are functions of a Gen and a name"""
    for n in sizes:
        for k, kind in enumerate(kinds):
            for rev in (False, True):
                g = Gen("%s-%s-far-%d-%d-%d" % (p.pid, p.seed, n, k, rev))
                fs = [Field("h", "u8", g.r.randint(1, 8))]
                fs.append(kind(g, "f0"))
                fs += spacer(n + g.r.randint(-3, 3))
                fs.append(Field("t", "u8", g.r.randint(1, 8)))
                fs.append(kind(g, "f1"))
                s = Struct(g.name("S"), fs, endian=g.r.choice(["le", "be"]), reverse=rev, lsb0=g.r.random() < 0.2)
                p.add(s, obs(s), "far %d kind %d%s" % (n, k, " reverse" if rev else ""))


def far_fields(p, obs):
    """fields behind or before a spacer that ends on another side of byte 31, 63, 127, 255 (or 511) in both directions"""
    for n in p.n((37, 70, 133, 262), (37, 68, 70, 100, 131, 133, 200, 258, 262, 390, 520)):
        for rev in (False, True):
            for first in (False, True):
                sp = spacer(n - 5)
                fs = [Field("a", "u16", 11), Field("b", "u8", 5), Field("c", "i32", 24)]
                s = Struct("S", sp + fs if first else fs + sp, endian="be" if rev != first else "le", reverse=rev)
                p.add(s, obs(s), "far %d%s%s" % (n, " reverse" if rev else "", " behind" if first else " before"))


def slice_struct(ty, w, e, rev, r):
    fs = []
    at = 0
    for j, o in enumerate(r.sample(range(8), 2)):
        pad = (o - at) % 8
        if pad:
            fs.append(Field("p%d" % j, "u8", pad))
            at += pad
        fs.append(Field("f%d" % j, ty, w))
        at += w
    fs.append(Field("q", "u8", r.randint(1, 8)))
    return Struct("S", fs, endian=e, reverse=rev)


def c11(p):
    p.features = DYN
    r = p.rng("grid")
    for ty in INTS + ["bool", "char", "f32", "f64"]:
        n = natural(ty)
        ws = [r.randint(1, n) if ty not in ("bool", "f32", "f64", "char") else n]
        for w in ws:
            for e in ("le", "be") if SIZE[ty] > 1 else ("be",):
                for rev in (False, True):
                    s = slice_struct(ty, w, e, rev, r)
                    if s.nbytes <= 40:
                        p.add(s, O.checked(s), "%s:%d %s%s" % (ty, w, e, " reverse" if rev else ""))
    p.random("struct", p.n(70, 600), O.checked, 32)
    p.random("roles", p.n(20, 160), O.checked, 32)
    p.random("placed", p.n(20, 160), O.checked, 32)
    p.random("overlap", p.n(16, 120), O.checked, 32)
    p.random("enum", p.n(30, 240), O.checked, 32)
    p.random("enum_roles", p.n(12, 100), O.checked, 32)
    p.random("wide_enum", p.n(3, 40), O.checked, 40)
    p.random("many", p.n(4, 40), O.checked, 40)
    p.random("tall", p.n(5, 50), O.checked, 110)
    p.random("taller", p.n(2, 12), O.checked, 330)
    far_fields(p, lambda s: O.checked(s))


def c12(p):
    p.features = DYN

    def obs(s):
        r = p.rng("v%d" % len(p.layouts))
        n = s.nbytes
        return O.from_slice(s) + O.from_vec(s, {n - 1, n + r.randint(0, 6)}) + O.far_from(s)

    p.random("struct", p.n(100, 800), obs, 24)
    p.random("roles", p.n(40, 200), obs, 24)
    p.random("enum", p.n(70, 600), obs, 24)
    p.random("overlap", p.n(16, 120), obs, 24)
    p.random("enum_roles", p.n(20, 160), obs, 24)
    p.random("wide_enum", p.n(6, 60), obs, 40)
    p.random("tall", p.n(6, 60), obs, 110)
    p.random("taller", p.n(4, 30), obs, 330)
    p.random("many", p.n(6, 60), obs, 64)
    p.random("placed", p.n(10, 100), obs, 40)
    far_fields(p, obs)
    sized(p, obs)
    sized(p, obs, sizes=p.n((33, 64, 65, 128, 129, 255, 256, 257), (48, 63, 66, 96, 127, 128, 129, 130, 192, 200, 254, 255, 256, 257, 258, 300, 512, 513)))


def sized(p, obs, top=None, sizes=None):
    """a structure of every small size, or of the given ones"""
    for n in sizes or range(1, top or p.n(13, 40)):
        fs = []
        at = 0
        k = 0
        while at < 8 * n:
            w = min(5 if n < 9 else 13, 8 * n - at)
            fs.append(Field("a%d" % k, "u8" if w <= 8 else "u16", w))
            at += w
            k += 1
        s = Struct("S", fs, endian="be", reverse=n % 2 == 1)
        p.add(s, obs(s), "size %d" % n)


def c13(p):
    p.features = HEX
    sized(p, O.hex_fixed, p.n(14, 24))
    sized(p, O.hex_fixed, sizes=p.n((16, 20, 31, 32, 33), (25, 26, 28, 30, 31, 32, 33, 40, 48, 63, 64, 65, 66, 70)))
    # for these the round trips follow from the two contracts proved
    direct = lambda s: [o for o in O.hex_fixed(s) if "roundtrip" not in o.tag]
    sized(p, direct, sizes=p.n((64, 66, 128, 129), (96, 100, 127, 128, 129, 130, 160, 200)))
    sized(p, lambda s: direct(s)[:2], sizes=p.n((256,), (255, 256, 257, 300)))
    p.random("small", p.n(40, 300), O.hex_fixed, p.n(12, 24))
    p.random("enum", p.n(20, 120), O.hex_fixed, p.n(10, 20))


def c14(p):
    p.features = FULL
    sized(p, O.hex_dyn, p.n(14, 20))
    sized(p, O.hex_dyn, sizes=p.n((16, 20, 32, 33, 64), (21, 22, 24, 30, 31, 32, 33, 40, 48, 63, 64, 65, 66, 96, 128, 130)))
    sized(p, lambda s: O.hex_dyn(s)[:1], sizes=(128, 129))
    p.random("small", p.n(40, 300), O.hex_dyn, p.n(12, 20))
    p.random("enum", p.n(20, 100), O.hex_dyn, p.n(10, 16))


# ------------------------------------------------------------------ C15, C20
def penums(p, count, parteq):
    """small BitfieldEnums: given and missing numbers, catch-all position and kind"""
    lits = (None, 0, 1, 2, 3, 9, 255)
    todo = []
    for n in (1, 2, 3, 4):
        for xs in itertools.product(lits, repeat=n):
            ex = [x for x in xs if x is not None]
            if len(set(ex)) != len(ex):
                continue
            for mark in [None] + list(range(n)):
                for kind in [None] if mark is None else ["inv", "tuple", "named"]:
                    if kind in ("tuple", "named") and xs[mark] is not None:
                        continue
                    todo.append((xs, mark, kind))
    r = p.rng("penum")
    fixed = [t for t in todo if len(t[0]) <= 2]
    rest = [t for t in todo if len(t[0]) > 2]
    if count < len(rest):
        rest = r.sample(rest, count)
    for xs, mark, kind in fixed + rest:
        vs = [("V%d" % j, x, j == mark and kind == "inv", kind if j == mark and kind != "inv" else None) for j, x in enumerate(xs)]
        e = PEnum("E", vs, partial_eq=parteq)
        if penum_legal(e):
            yield "numbers %s %s" % (list(xs), "last" if mark is None else "%s %d" % (kind, mark)), e
    for n in (60, 128, 129, 200, 255, 256):  # every number up to a top implicit, but for a few
        for mark in (None, "inv", "tuple", "named"):
            vs = [["V%d" % j, None, False, None] for j in range(n)]
            if mark:
                m = r.choice([0, n - 1, r.randrange(n)])
                if mark == "inv":
                    vs[m][2] = True
                else:
                    vs[m][3] = mark
            e = PEnum("E", [tuple(v) for v in vs], partial_eq=parteq)
            if penum_legal(e):
                yield "%d variants %s" % (n, mark), e
    for k in range(max(6, count // 40)):  # bigger ones
        n = r.choice([5, 7, 9, 16, 31, 33]) if k % 3 else r.choice([64, 100, 128, 129, 200, 201, 240, 250, 255, 256])
        vs = []
        used = set()
        mark = r.choice([None, r.randrange(n)])
        for j in range(n):
            x = r.randrange(256) if r.random() < (0.25 if n < 60 else 0.05) else None
            if x in used:
                x = None
            used.add(x)
            vs.append(["V%d" % j, x, False, None])
        if mark is not None:
            kd = r.choice(["inv", "tuple", "named"])
            if kd == "inv":
                vs[mark][2] = True
            else:
                vs[mark][3] = kd
                vs[mark][1] = None
        e = PEnum("E", [tuple(v) for v in vs], partial_eq=parteq)
        if penum_legal(e):
            yield "big #%d" % k, e


def penum_legal(e):
    nxt = 0
    out = []
    for v in e.variants:
        x = v[1] if v[1] is not None else nxt
        out.append(x)
        nxt = x + 1
    if len(set(out)) != len(out):
        return False
    if any(v[3] for v in e.variants) and any(v[1] is not None for v in e.variants) and max(out) > 255:
        return False
    return all(x is None or x < 256 for x in e.num.values())


def c15(p):
    for key, e in penums(p, p.n(420, 4000), False):
        p.add(e, O.penum(e), key)


def c20(p):
    for key, e in penums(p, p.n(220, 3000), True):
        p.add(e, O.penum_eq(e), key)
    p.random("enum", p.n(60, 600), O.enum_eq)


# ------------------------------------------------------------------ C16
def c16(p):
    p.inner = ("bit_length", "bit_size", "total_bits", "total_bytes", "enum_bits", "enum_bytes")
    structs(p, O.sizes, (60, 600), (120, 1000), (50, 500), (60, 600), (20, 200), (20, 200), (8, 60))
    p.random("enum", p.n(60, 500), O.sizes)
    p.random("overlap", p.n(20, 200), O.sizes)
    r = p.rng("enforce")
    n = p.n(60, 400)
    for k in range(n):
        g = Gen("%s-%s-enf-%d" % (p.pid, p.seed, k))
        s = g.struct(nested=k % 3 == 0) if k % 2 else g.struct(roles=True, nested=False)
        used = s.used
        if used == 0:
            continue
        keep = list(s.enforce)

        def variant(rule, fill):
            return Struct(s.name, s.fields, endian=s.endian, reverse=s.reverse, lsb0=s.lsb0, fill=fill, enforce=[rule] if rule else [])

        deps = "".join(d.source() for d in s.deps)
        fill = s.fill
        bits = ["enforce_bits = %d" % used] + (["enforce_bytes = %d" % (used // 8), "enforce_full_bytes"] if used % 8 == 0 else [])
        for rule in bits:
            v = variant(rule, fill)
            p.add(v, O.sizes(v), "enforced #%d %s" % (k, rule))
        wrong = {used + 1, used - 1, used + 8, max(0, used - 8), s.bits if s.bits != used else used + 3} - {used}
        for w in r.sample(sorted(wrong), min(3, len(wrong))):
            p.rejects.append(("enforce_bits %d for %d bits #%d" % (w, used, k), deps + variant("enforce_bits = %d" % w, fill).source()))
        for w in {used // 8, used // 8 + 1, max(0, used // 8 - 1)}:
            if w * 8 != used:
                p.rejects.append(("enforce_bytes %d for %d bits #%d" % (w, used, k), deps + variant("enforce_bytes = %d" % w, fill).source()))
        if used % 8:
            p.rejects.append(("enforce_full_bytes for %d bits #%d" % (used, k), deps + variant("enforce_full_bytes", fill).source()))
        if not s.lsb0 and used > 8:
            short = (used - 1) // 8
            src = Struct(s.name, s.fields, endian=s.endian, reverse=s.reverse)
            src.fill = r.choice([short, max(1, short - 1)])
            p.rejects.append(("fill_bytes %d for %d bits #%d" % (src.fill, used, k), deps + src.source()))
    # fill bytes far beyond the fields
    for k in range(p.n(50, 400)):
        g = Gen("%s-%s-fill-%d" % (p.pid, p.seed, k))
        s = g.struct(nested=k % 3 == 0) if k % 2 else g.struct(roles=True, nested=False)
        if s.lsb0 or s.used == 0:
            continue
        need = (s.used + 7) // 8
        fill = r.choice([need, need + 1, need + r.randint(2, 9), need + 63, need + 64, need + 65, r.randint(need, need + 300), 256 + need, 1024])
        full = ["enforce_full_bytes"] if s.used % 8 == 0 and k % 3 else []
        v = Struct(s.name, s.fields, endian=s.endian, reverse=s.reverse, fill=fill, enforce=full)
        p.add(v, O.sizes(v) + (O.into_bytes(v) if fill < 100 else []), "fill_bytes %d for %d bits #%d" % (fill, s.used, k))
    for k in range(p.n(24, 200)):
        g = Gen("%s-%s-enfe-%d" % (p.pid, p.seed, k))
        e = g.benum(1)
        deps = "".join(d.source() for d in e.deps)

        def with_rule(rule):
            src = e.source()
            return src.replace("#[bondrewd(id_", "#[bondrewd(%s, id_" % rule, 1)

        for w in {e.bits - 1, e.bits - r.randint(1, max(1, e.bits - 1))}:
            if w >= e.id_bits:  # a size below the id itself is no layout at all
                p.rejects.append(("enum enforce_bits %d for %d bits #%d" % (w, e.bits, k), deps + with_rule("enforce_bits = %d" % w)))
        w = (e.bits - 1) // 8
        if w * 8 >= e.id_bits:
            p.rejects.append(("enum enforce_bytes %d for %d bits #%d" % (w, e.bits, k), deps + with_rule("enforce_bytes = %d" % w)))
        rule = "enforce_bits = %d" % e.bits
        e2 = Enum(e.name, e.id_bits, e.variants, endian=e.endian, reverse=e.reverse)
        src = e2.source
        e2.attrs = lambda a=e2.attrs(), rule=rule: [rule] + a
        p.add(e2, O.sizes(e2), "enum enforced #%d" % k)


# ------------------------------------------------------------------ C17
def c17(p):
    def obs(s):
        fs = [f for f in s.fields if f.role]
        return O.into_bytes(s) + O.from_bytes_spec(s) + O.read(s, fs) + O.write(s, fs) + O.roundtrip(s) + O.sizes(s) + p.views(s, fs[-1:], 3)

    r = p.rng("roles")
    for role in ("reserve", "read_only", "redundant"):
        for ty in INTS + ["bool", "char", "f32"]:
            n = natural(ty)
            for w in sorted({n, max(1, n // 2 + 1)}) if ty not in ("bool", "char", "f32") else [n]:
                for rev in (False, True):
                    fs = []
                    at = 0
                    for j, o in enumerate(r.sample(range(8), 2)):
                        pad = (o - at) % 8 or 8
                        fs.append(Field("p%d" % j, "u8", pad))
                        at += pad
                        if role == "redundant":
                            base = Field("b%d" % j, "u64" if w > 32 else "u32", min(w + 3, 64 if w > 32 else 32))
                            if w > base.bits:
                                base = Field("b%d" % j, "u128", min(w + 3, 128))
                            fs.append(base)
                            d = r.randint(0, base.bits - w)
                            fs.append(Field("f%d" % j, ty, place=(at + d, at + d + w), role=role, endian=r.choice([None, "le", "be"]) if SIZE[ty] > 1 else None))
                            at += base.bits
                        else:
                            fs.append(Field("f%d" % j, ty, w, role=role))
                            at += w
                    fs.append(Field("q", "u8", r.randint(1, 8)))
                    s = Struct("S", fs, endian=r.choice(["le", "be"]), reverse=rev)
                    p.add(s, obs(s), "%s %s:%d%s" % (role, ty, w, " reverse" if rev else ""))
    def light(s):
        fs = [f for f in s.fields if f.role]
        return O.into_bytes(s) + O.from_bytes_spec(s) + O.read(s, fs) + O.write(s, fs)
    roled = lambda role: lambda g, n: Field(n, *(lambda ty: (ty, g.width(ty)))(g.r.choice(["u8", "i16", "u32", "i64", "bool"])), role=role)
    far_apart(p, [roled("reserve"), roled("read_only")], light, p.n((40, 133), (40, 68, 132, 133, 260)))
    p.random("roles", p.n(140, 1000), obs)
    p.random("enum_roles", p.n(40, 300), lambda e: O.enum_into(e) + O.enum_from(e) + O.enum_fields(e) + p.views(e, None, 2))


# ------------------------------------------------------------------ C18
def c18(p):
    p.inner = ("overlapping", "overlapping_declared")
    top = p.n(5, 7)
    rs = [(a, b) for a in range(top) for b in range(a + 1, top + 1)]
    for a in rs:
        for b in rs:
            share = a[0] < b[1] and b[0] < a[1]
            # the layout around the two: whatever bits they leave is covered by nothing, so only look at acceptance
            src = "#[derive(Bitfields)]\n#[bondrewd(default_endianness = \"be\")]\npub struct S {\n    #[bondrewd(bits = \"%d..%d\")] pub a: u8,\n    #[bondrewd(bits = \"%d..%d\"%s)] pub b: u8,\n}\n"
            key = "%d..%d with %d..%d" % (a + b)
            if share:
                p.rejects.append((key, src % (a + b + ("",))))
    r = p.rng("overlap")
    # bigger structures: one accepted shuffled layout, and the same with one field moved onto another
    for k in range(p.n(100, 800)):
        g = Gen("%s-%s-%d" % (p.pid, p.seed, k))
        g.explicit = True
        s = g.placed() if k % 4 else g.placed_enum()
        if s.nbytes > 64:
            continue
        p.add(s, O.sizes(s) + (O.into_bytes(s) if k % 4 else O.enum_into(s)), "placed #%d" % k)
        fs = s.fields if k % 4 else r.choice(s.variants).fields
        for turn in range(2):
            if len(fs) < 2:
                continue
            i, j = r.sample(range(len(fs)), 2)
            fi, fj = fs[i], fs[j]
            old = fi.place
            w = old[1] - old[0]
            lo = max(0 if k % 4 else s.id_bits, fj.place[0] - w + 1)
            hi = fj.place[1] - 1
            at = r.choice([lo, hi, r.randint(lo, hi)])  # by one bit at either end, or anywhere
            fi.place = (at, at + w)
            src = "".join(d.source() for d in s.deps) + s.source()
            fi.place = old
            p.rejects.append(("placed #%d, field %d onto %d at %d" % (k, i, j, at), src))
    # one field far longer than the other, inside it, around it, next to it
    for k in range(p.n(30, 200)):
        w1, w2 = r.randint(30, 64), r.randint(1, 20)
        for d in {-w2, -w2 + 1, -1, 0, 1, w1 - w2 - 1, w1 - w2, w1 - w2 + 1, w1 - 1, w1}:
            base = w2 + r.choice([0, 0, 40, 250, 300])
            a, b = (base, base + w1), (base + d, base + d + w2)
            one, two = ('#[bondrewd(bits = "%d..%d")] pub a: u64' % a, '#[bondrewd(bits = "%d..%d")] pub b: u32' % b)
            order = [one, two] if r.random() < 0.5 else [two, one]
            key = "%d..%d with %d..%d" % (a + b) + (" swapped" if order[0] is two else "")
            if d in (-w2, w1):
                continue
            p.rejects.append((key, "#[derive(Bitfields)]\npub struct S {\n    %s,\n    %s,\n}\n" % tuple(order)))
    # a range that runs into the field declared before or after it without a range, nested fields and arrays too
    inner = "#[derive(Bitfields)]\npub struct I { #[bondrewd(bit_length = 11)] pub x: u16, #[bondrewd(bit_length = 5)] pub y: u8 }\n"
    kinds = [("u16", "bit_length = 13", 13), ("[u8; 3]", "element_bit_length = 5", 15), ("[u16; 2]", "block_bit_length = 27", 27), ("I", "struct_size = 2", 16), ("f32", "", 32), ("bool", "", 1), ("[I; 2]", "struct_size = 2, element_bit_length = 16", 32)]
    for ty, at, w in kinds:
        for first in (True, False):
            for x in sorted({0, w - 1, w // 2}):
                f1 = "%spub a: %s" % ("#[bondrewd(%s)] " % at if at else "", ty)
                f2 = '#[bondrewd(bits = "%d..%d")] pub b: u16' % (x, x + 9)
                if first:
                    body = "%s,\n    %s" % (f1, f2)
                else:  # the implicit one goes on where the explicit one ends, the third lies in it
                    body = '#[bondrewd(bits = "0..9")] pub z: u16,\n    %s,\n    #[bondrewd(bits = "%d..%d")] pub b: u16' % (f1, 9 + x, 9 + x + 9)
                p.rejects.append(("%s %s with %d..%d%s" % (ty, at, x, x + 9, "" if first else " after 0..9"), inner + "#[derive(Bitfields)]\n#[bondrewd(default_endianness = \"be\")]\npub struct S {\n    %s,\n}\n" % body))
    # many fields: the last one runs into any of the earlier ones, given by lengths or by ranges
    for k in range(p.n(60, 500)):
        n = r.choice([7, 8, 9, 12, 17, 20, 33, 40])
        ws = [r.choice([1, 3, 5, 8, 8, 8]) for _ in range(n)]
        at = [sum(ws[:j]) for j in range(n + 1)]
        j = r.choice([0, 0, 1, n - 1, r.randrange(n)])
        lo = r.randint(max(0, at[j] - 8), at[j + 1] - 1)
        w = r.randint(at[j] - lo + 1 if lo < at[j] else 1, 12)
        where = r.choice([n, n, r.randint(j + 1, n)])  # declared last, or in the middle
        lines = [('#[bondrewd(bits = "%d..%d")] pub f%d: u8' % (at[i], at[i + 1], i) if where < n or r.random() < 0.5 else '#[bondrewd(bit_length = %d)] pub f%d: u8' % (ws[i], i)) for i in range(n)]
        lines.insert(where, '#[bondrewd(bits = "%d..%d")] pub z: u16' % (lo, lo + w))
        p.rejects.append(("%d..%d after %d of %d fields, onto field %d" % (lo, lo + w, where, n, j),
                          "#[derive(Bitfields)]\n#[bondrewd(default_endianness = \"%s\"%s)]\npub struct S {\n    %s,\n}\n" % (r.choice(["le", "be"]), r.choice(["", "", ", reverse"]), ",\n    ".join(lines))))
    # the id of an enum is a field of each variant
    for k in range(p.n(60, 400)):
        ib = r.choice([1, 2, 3, 5, 7, 8, 9, 12, 16, 17])
        nv = r.randint(1, 2 if ib == 1 else 4)
        bad = r.randrange(nv)
        vs = []
        for v in range(nv):
            fs = []
            top = ib
            for j in range(r.randint(1, 4)):
                w = r.randint(1, 13)
                fs.append([top, top + w])
                top += w
            if v == bad:
                j = r.randrange(len(fs))
                w = fs[j][1] - fs[j][0]
                lo = r.choice([0, ib - 1, max(0, ib - w), r.randrange(ib)])
                fs[j] = [lo, lo + w]
            r.shuffle(fs)
            vs.append("V%d { %s }" % (v, ", ".join('#[bondrewd(bits = "%d..%d")] a%d: u16' % (a, b, j) for j, (a, b) in enumerate(fs))))
        p.rejects.append(("variant %d of %d has a field onto the id of %d bits #%d" % (bad, nv, ib, k),
                          "#[derive(Bitfields)]\n#[bondrewd(default_endianness = \"%s\", id_bit_length = %d)]\npub enum N {\n    %s,\n}\n" % (r.choice(["le", "be"]), ib, ",\n    ".join(vs))))
    # a declared overlap (or a redundant view) excuses only the fields that have it
    for decl in ("overlapping_bits = 2", "redundant"):
        src = "#[derive(Bitfields)]\n#[bondrewd(default_endianness = \"be\")]\npub struct S {\n    #[bondrewd(bits = \"0..8\")] pub a: u8,\n    #[bondrewd(bits = \"6..8\", %s)] pub b: u8,\n    #[bondrewd(bits = \"%d..%d\")] pub c: u16,\n}\n"
        for lo in (0, 3, 6, 7):
            p.rejects.append(("%s 6..8 of 0..8, and %d..%d" % (decl, lo, lo + 9), src % (decl, lo, lo + 9)))
    # ranges that share no bit are accepted in either order; redundant and overlapping declarations too
    for a, b in itertools.product(rs, rs):
        if a[1] <= b[0]:
            gap = b[0] - a[1]
            fs = [Field("a", "u8", place=a), Field("b", "u8", place=b)]
            if a[0]:
                fs.append(Field("x", "u8", place=(0, a[0])))
            if gap:
                fs.append(Field("y", "u8", place=(a[1], b[0])))
            for perm in itertools.permutations(range(len(fs))) if len(fs) == 2 else [tuple(r.sample(range(len(fs)), len(fs)))]:
                s = Struct("S", [fs[q] for q in perm], endian="be")
                p.add(s, O.sizes(s) + O.into_bytes(s), "%s then %s" % (s.fields[0].place, s.fields[1].place))
    for a in rs:
        for b in rs:
            if a[0] < b[1] and b[0] < a[1] and b[1] <= a[1] and a[0] == 0 and a[1] <= 8:
                s = Struct("S", [Field("a", "u8", place=a), Field("b", "u8", place=b, role="redundant")], endian="be")
                p.add(s, O.sizes(s) + O.into_bytes(s) + O.read(s), "redundant %s in %s" % (b, a))
    for k in range(p.n(16, 80)):  # declared overlapping bits
        w1 = r.randint(3, 16)
        ov = r.randint(1, w1 - 1)
        w2 = r.randint(ov, 16)
        f1 = Field("a", "u16", place=(0, w1))
        f2 = Field("b", "u16", place=(w1 - ov, w1 - ov + w2), overlap=ov)
        s = Struct("S", [f1, f2], endian="be")
        p.add(s, O.sizes(s) + O.read(s) + O.write(s), "overlapping %d bits of %d and %d" % (ov, w1, w2))


# ------------------------------------------------------------------ C19
def c19(p):
    def obs(s):
        fs = probes(s)
        return O.into_bytes(s) + O.read(s, fs) + O.write(s, fs) + O.roundtrip(s) + O.from_bytes_spec(s) + p.views(s, fs[-1:], 3)

    for ty in ("f32", "f64", "bool", "char"):
        for w in ([natural(ty)] if ty != "char" else list(range(1, 33)) if p.thorough else [1, 7, 8, 9, 15, 16, 17, 20, 21, 24, 31, 32]):
            for e in ("le", "be") if ty != "bool" else ("le",):
                for rev in (False, True):
                    for z in (False, True):
                        s = grid_struct(ty, w, e, rev, lsb0=z)
                        p.add(s, obs(s), "%s:%d %s%s%s" % (ty, w, e, " reverse" if rev else "", " lsb0" if z else ""))
        for e in ("le", "be"):
            for rev in (False, True):
                n = 2
                el = [Field("p", "u8", 3), Field("f", Arr(PRIM[ty], n), n * natural(ty), "elem", style=4), Field("q", "u8", 2)]
                s = Struct("S", el, endian=e, reverse=rev)
                p.add(s, obs(s), "[%s; 2] %s%s" % (ty, e, " reverse" if rev else ""))
    for w in range(2, 9):  # a bool of several bits of one byte: stored as a number, any nonzero content is true
        for off in range(0, 9 - w):
            for e in ("le", "be") if p.thorough else (("le", "be")[(w + off) % 2],):
                for rev in (False, True):
                    fs = [Field("h", "u8", off)] * (off > 0) + [Field("f", "bool", w)] + [Field("t", "u8", 8 - off - w)] * (off + w < 8)
                    s = Struct("S", fs + [Field("z", "u16", 9), Field("fy", "bool", 1 + (w + off) % 7)], endian=e, reverse=rev)
                    p.add(s, obs(s), "bool:%d at %d %s%s" % (w, off, e, " reverse" if rev else ""))
    def light(s):
        fs = [f for f in s.fields if f.name in ("f0", "f1")]
        return O.into_bytes(s) + O.from_bytes_spec(s) + O.read(s, fs) + O.write(s, fs)
    plain = lambda ty: lambda g, n: Field(n, ty, g.width(ty))
    far_apart(p, [plain("f32"), plain("f64"), plain("bool"), plain("char")], light, p.n((40, 133), (40, 68, 132, 133, 260)))
    for k in range(p.n(60, 600)):  # among other fields, in arrays of more elements, under roles
        g = Gen("%s-%s-mix-%d" % (p.pid, p.seed, k))
        r = g.r
        fs = []
        for j in range(r.randint(2, 4)):
            ty = r.choice(["f32", "f64", "bool", "bool", "char", "char"])
            w = g.width(ty)
            e = r.choice([None, None, "le", "be"]) if ty != "bool" else None
            if r.random() < 0.5:
                fs.append(Field("p%d" % j, r.choice(["u8", "i16", "u32"]), r.randint(1, 8)))
            if r.random() < 0.3:
                n = r.randint(1, 9 if ty == "bool" else 4)
                fs.append(Field("f%d" % j, Arr(PRIM[ty], n), n * (natural(ty) if ty in ("f32", "f64") else w), "elem", endian=e, style=4))
            else:
                fs.append(Field("f%d" % j, ty, w, endian=e, style=r.randrange(128)))
                if r.random() < 0.2:
                    fs[-1].role = r.choice(["reserve", "read_only"])
        s = Struct("S", fs, endian=r.choice([None, "le", "be"]), reverse=r.random() < 0.5, lsb0=r.random() < 0.2)
        if s.nbytes <= 64:
            p.add(s, obs(s), "mixed #%d" % k)
    for k in range(p.n(12, 120)):  # in enum variants
        g = Gen("%s-%s-var-%d" % (p.pid, p.seed, k))
        r = g.r
        vs = []
        for v in range(r.randint(2, 3)):
            fs = []
            for j in range(r.randint(1, 2)):
                ty = r.choice(["f32", "f64", "bool", "char"])
                fs.append(Field("a%d" % j, ty, g.width(ty), style=r.randrange(128)))
            vs.append(Variant("V" + "abc"[v], fs))
        e = Enum("N", r.randint(2, 11), vs, endian=r.choice([None, "le", "be"]), reverse=r.random() < 0.4)
        p.add(e, enum_all(e), "variants #%d" % k)


PLANS = {k.upper(): v for k, v in list(globals().items()) if len(k) == 3 and k[0] == "c" and k[1:].isdigit()}


def plan(pid, tier, seed):
    p = Plan(pid, tier, seed)
    PLANS[pid](p)
    return p
