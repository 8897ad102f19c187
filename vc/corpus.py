"""The definitions the contracts are proved for."""
import random

from layouts import Arr, Enum, Field, INTS, PEnum, PNew, PRIM, Prim, SIZE, Struct, UNS, Variant, natural


def grid_struct(ty, w, endian, rev, lsb0=False, step=3):
    """eight fields of one type and width, one per bit offset in a byte, at increasing byte offsets"""
    fs = []
    at = 0
    for j in range(8):
        pad = (j * step - at) % 8
        if pad:
            fs.append(Field("p%d" % j, "u8", pad))
            at += pad
        fs.append(Field("f%d" % j, ty, w))
        at += w
    return Struct("S", fs, endian=endian, reverse=rev, lsb0=lsb0)


def probes(s):
    return [f for f in s.fields if f.name[0] == "f"]


def widths(ty, thin=1, phase=0):
    n = natural(ty)
    if ty in ("f32", "f64", "bool"):
        return [n]
    ws = list(range(1, n + 1))
    if thin > 1:
        keep = {1, 2, 7, 8, 9, n - 1, n} | {w for w in ws if w % 8 in (0, 1, 7)}
        ws = [w for w in ws if (w + phase) % thin == 0 or (w in keep and n <= 32)]
    return ws


def grid(types=tuple(INTS), ends=("le", "be"), revs=(False, True), lsb=(False,), thin=lambda ty: 1, rng=None):
    """every (type, width, endianness, reversal) x all eight bit offsets"""
    for ty in types:
        for w in widths(ty, thin(ty), rng.randrange(64) if rng else 0):
            for e in ends if SIZE[ty] > 1 else (ends[0],):
                for r in revs:
                    for z in lsb:
                        yield "%s:%d %s%s%s" % (ty, w, e, " reverse" if r else "", " lsb0" if z else ""), grid_struct(ty, w, e, r, z)


# ---------------------------------------------------------------- random definitions
def spell(r, e):
    """one of the documented spellings of an endianness"""
    if e == "le":
        return r.choice(["le"] * 4 + ["lsb", "little", "lil"])
    if e == "be":
        return r.choice(["be"] * 4 + ["msb", "big"])
    if e == "ne":
        return r.choice(["ne", "native"])
    return e


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.n = 0
        self.variant_roles = False
        self.explicit = False

    def name(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def width(self, ty):
        n = natural(ty)
        if ty in ("f32", "f64", "bool"):
            return n
        if ty == "char":
            return self.r.choice([32, 32, 21, 8, 16, 24])
        r = self.r.random()
        if r < 0.25:
            return n
        if r < 0.45:
            return max(1, n - self.r.randrange(1, 8))
        return self.r.randint(1, n)

    def prim(self):
        r = self.r
        return r.choice(["u8"] * 4 + ["i8"] * 2 + ["u16", "i16"] * 3 + ["u32", "i32"] * 3 + ["u64", "i64"] * 2 + ["u128", "i128"] + ["bool"] * 2 + ["f32", "f64", "char"])

    def pnew(self):
        return PNew(self.name("P"), self.r.choice(UNS))

    def penum(self):
        r = self.r
        n = r.randint(2, 6)
        vs = []
        nums = set()
        catch = r.randrange(n) if r.random() < 0.5 else None
        for k in range(n):
            x = None
            if r.random() < 0.0:
                x = r.randrange(256)
            vs.append(("V%d" % k, x, k == catch, None))
        return PEnum(self.name("E"), vs)

    def benum(self, depth=0):
        r = self.r
        ib = r.choice([1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 27, 32, 59, 64, 20, 40, 100])
        nv = min(r.randint(2, 4), 1 << ib)
        ids = [None] * nv
        if r.random() < 0.5:
            for k in range(nv):
                if r.random() < 0.6:
                    x = r.randrange(1 << ib)
                    if x not in ids:
                        ids[k] = x
        vs = []
        catch = r.randrange(nv) if r.random() < 0.6 else None
        for k in range(nv):
            tup = r.random() < 0.25
            fs = []
            for j in range(r.choice([0, 1, 1, 2, 3])):
                f = self.field(depth + 1, "a%d" % j, roles=False, nested=depth < 1)
                fs.append(f)
            if self.variant_roles and fs and r.random() < 0.4:
                f = r.choice(fs)
                if isinstance(f.base, Prim):
                    f.role = r.choice(["reserve", "read_only"])
            inv = k == catch
            cap = inv and r.random() < 0.4
            if fs == [] and not cap:
                tup = False
            vs.append(Variant("V%s" % "abcdef"[k], fs, id=ids[k], invalid=inv, capture=cap, tuple=tup))
        # implicit ids must fit
        e = Enum(self.name("N"), ib, vs, endian=spell(r, r.choice([None, "le", "be"])), reverse=r.random() < 0.3, by_bytes=r.random() < 0.5)
        if any(v.id >= 1 << ib for v in vs):
            return self.benum(depth)
        return e

    def field(self, depth, name, roles=True, nested=True, arrays=True):
        r = self.r
        x = r.random()
        endian = spell(r, r.choice([None, None, None, None, None, "le", "be", "le", "be", "ne"]))
        style = r.randrange(128)
        if nested and depth < 2 and x < 0.16:
            el = r.choice([self.struct, self.struct, self.benum])(depth + 1)
            if r.random() < 0.35 and el.nbytes <= 6:
                n = r.randint(2, 3)
                return Field(name, Arr(el, n), n * el.bits, "elem", style=style)
            return Field(name, el, self.nested_bits(el), style=style)
        if nested and x < 0.24:
            if r.random() < 0.4:
                el = self.pnew()
                w = r.randint(9 if el.bits > 8 else 1, el.bits)
            else:
                el = self.penum()
                w = r.randint(max(1, (len(el.variants) - 1).bit_length()), 8)
            if r.random() < 0.3:
                n = r.randint(2, 4)
                return Field(name, Arr(el, n), n * w, "elem", endian=endian, style=style)
            return Field(name, el, w, endian=endian, style=style)
        ty = self.prim()
        if arrays and x > 0.8:
            n = r.randint(1, 5)
            if SIZE[ty] >= 8:
                n = min(n, 2)
            if ty in ("f32", "f64"):  # an explicit length on an array of floats is refused
                return Field(name, Arr(PRIM[ty], n), n * natural(ty), "elem", endian=endian, style=4)
            if r.random() < 0.55 or ty in ("bool", "char"):
                return Field(name, Arr(PRIM[ty], n), n * self.width(ty), "elem", endian=endian, style=style)
            full = natural(ty)
            return Field(name, Arr(PRIM[ty], n), r.randint((n - 1) * full + 1, n * full), "block", endian=endian, style=style)
        return Field(name, ty, self.width(ty), endian=endian if ty != "bool" else None, style=style)

    def nested_bits(self, el):
        r = self.r
        if r.random() < 0.6:
            return el.bits
        if r.random() < 0.5:
            return 8 * el.nbytes
        return r.randint(max(9 if el.nbytes > 1 else 1, el.bits - 9), 8 * el.nbytes)

    def struct(self, depth=0, roles=None, nested=True, arrays=True, nmax=6, nmin=1):
        r = self.r
        fs = []
        for j in range(r.randint(nmin, 3 if depth else nmax)):
            fs.append(self.field(depth, "f%d" % j, nested=nested, arrays=arrays))
        if roles if roles is not None else r.random() < 0.15:
            self.roles(fs)
        lsb0 = r.random() < 0.2
        fill = None
        tot = sum(f.bits for f in fs)
        if not lsb0 and r.random() < 0.2:
            fill = (tot + 7) // 8 + r.randint(0, 3)
        s = Struct(self.name("S"), fs, endian=spell(r, r.choice([None, "le", "be", "be"])), reverse=r.random() < 0.4, lsb0=lsb0, fill=fill)
        return s

    def roles(self, fs):
        r = self.r
        for f in fs:
            if r.random() < 0.3 and isinstance(f.base, Prim):
                f.role = r.choice(["reserve", "read_only"])
        if all(f.role for f in fs):
            fs[0].role = None
        # a redundant view of a part of the layout
        if r.random() < 0.6:
            at = sum(f.bits for f in fs)
            ty = r.choice(["u8", "u16", "i16", "u32"])
            w = r.randint(1, min(natural(ty), at))
            s = r.randint(0, at - w)
            fs.insert(r.randint(1, len(fs)), Field("rv", ty, place=(s, s + w), role="redundant"))

    def ranged(self, *a, **k):
        """a field that may be given by a range (the macro refuses arrays of floats given that way)"""
        while True:
            f = self.field(*a, **k)
            if not (f.arr and isinstance(f.base, Prim) and f.base.name in ("f32", "f64")):
                return f

    def placed(self):
        """fields given by explicit bit ranges, in shuffled declaration order"""
        r = self.r
        fs = [self.ranged(1, "f%d" % j, nested=r.random() < 0.15, arrays=r.random() < 0.25) for j in range(r.randint(2, 6))]
        at = 0
        for f in fs:
            f.place = (at, at + f.bits)
            if f.arr:
                f.style &= ~4  # the length of an array of elements has to be given with its range
            at += f.bits
        r.shuffle(fs)
        self.implicit(fs, 0)
        lsb0 = r.random() < 0.3
        fill = (at + 7) // 8 + r.randint(0, 3) if not lsb0 and r.random() < 0.3 else None
        return Struct(self.name("S"), fs, endian=spell(r, r.choice([None, "le", "be"])), reverse=r.random() < 0.5, lsb0=lsb0, fill=fill)

    def rename(self, s):
        """field and variant names of more than one word, and such as the generated code uses itself"""
        names = ["a", "a_0", "a_1", "a_bytes", "id", "variant_id", "b", "x1", "status_word", "kind", "flags2", "pre_amble"]
        for fs in [s.fields] if isinstance(s, Struct) else [v.fields for v in s.variants]:
            if len(fs) <= len(names):
                for f, n in zip(fs, self.r.sample(names, len(fs))):
                    f.name = n
        if isinstance(s, Enum):
            for v, n in zip(s.variants, self.r.sample(["StatusWord", "Ok", "Va", "HeadBit", "Empty", "LongVariantName", "TypeA", "None"], 8)):
                v.name = n

    def implicit(self, fs, at):
        """ranges that say what is so anyway may be left out"""
        if self.explicit:
            return
        for f in fs:
            end = f.place[1]
            if f.place[0] == at and not f.arr and isinstance(f.base, Prim) and self.r.random() < 0.4:
                f.place = None
            at = end

    def placed_enum(self):
        """variants whose fields are given by explicit ranges after the id, in shuffled order"""
        r = self.r
        ib = r.choice([1, 2, 3, 5, 8, 9, 13, 16, 24, 33])
        nv = min(r.randint(2, 3), 1 << ib)
        catch = r.randrange(nv) if r.random() < 0.5 else None
        vs = []
        for k in range(nv):
            fs = [self.ranged(2, "a%d" % j, nested=False, arrays=r.random() < 0.2) for j in range(r.randint(1, 4))]
            at = ib
            for f in fs:
                f.place = (at, at + f.bits)
                if f.arr:
                    f.style &= ~4
                at += f.bits
            r.shuffle(fs)
            self.implicit(fs, ib)
            inv = k == catch
            vs.append(Variant("V%s" % "abc"[k], fs, invalid=inv, capture=inv and r.random() < 0.3))
        return Enum(self.name("N"), ib, vs, endian=spell(r, r.choice([None, "le", "be"])), reverse=r.random() < 0.3, by_bytes=r.random() < 0.5)

    def tall(self, sizes=(20, 33, 40, 64, 70)):
        """fields far from either end: a spacer puts them past byte 31, 63, 127 or 255"""
        r = self.r
        n = r.choice(sizes)
        sp = []
        while n > 3:
            ty = r.choice([t for t in ("u32", "u64", "u128", "u128") if SIZE[t] <= n])
            k = min(n // SIZE[ty], r.randint(8, 15))
            sp.append(Field("sp%d" % len(sp), Arr(PRIM[ty], k), 8 * k * SIZE[ty], r.choice(["elem", "block"]), style=r.choice([0, 2])))
            n -= k * SIZE[ty]
        fs = [self.field(1, "f%d" % j, nested=r.random() < 0.3, arrays=r.random() < 0.4) for j in range(r.randint(2, 4))]
        at = r.choice([0, 1, 1, len(fs)])
        fs[at:at] = sp
        return Struct(self.name("S"), fs, endian=spell(r, r.choice([None, "le", "be"])), reverse=r.random() < 0.4, lsb0=r.random() < 0.2)

    def many(self):
        """a dozen and more small fields"""
        r = self.r
        fs = []
        for j in range(r.randint(10, 24)):
            ty = r.choice(["u8"] * 4 + ["i8", "u16", "i16", "u32", "bool", "bool"])
            w = 1 if ty == "bool" else r.randint(1, min(13, natural(ty)))
            fs.append(Field("f%d" % j, ty, w, endian=r.choice([None, None, None, "le", "be"]) if ty != "bool" else None))
        if r.random() < 0.3:
            self.roles(fs)
        lsb0 = r.random() < 0.2
        return Struct(self.name("S"), fs, endian=spell(r, r.choice([None, "le", "be"])), reverse=r.random() < 0.4, lsb0=lsb0)

    def wide_enum(self):
        """five to eighteen variants"""
        r = self.r
        nv = r.randint(5, 18)
        ib = r.choice([5, 6, 8, 8, 9, 16])
        ids = [None] * nv
        for k in range(nv):
            if r.random() < 0.35:
                x = r.randrange(min(1 << ib, 3 * nv))
                if x not in ids:
                    ids[k] = x
        catch = r.randrange(nv) if r.random() < 0.6 else None
        vs = []
        for k in range(nv):
            fs = [self.field(2, "a%d" % j, nested=False, arrays=False) for j in range(r.choice([0, 0, 1, 1, 2]))]
            inv = k == catch
            vs.append(Variant("V%s" % "abcdefghijklmnopqr"[k], fs, id=ids[k], invalid=inv, capture=inv and r.random() < 0.4))
        e = Enum(self.name("N"), ib, vs, endian=spell(r, r.choice([None, "le", "be"])), reverse=r.random() < 0.3, by_bytes=r.random() < 0.5)
        if any(v.id >= 1 << ib for v in vs):
            return self.wide_enum()
        return e

    def overlapping(self):
        """fields that declare bits they share with the field before"""
        r = self.r
        fs = [self.field(2, "f%d" % j, nested=False, arrays=False) for j in range(r.randint(2, 5))]
        top = 0
        prev = None
        some = False
        for k, f in enumerate(fs):
            f.style &= 112
            if prev and not prev.overlap and (r.random() < 0.5 or k == len(fs) - 1 and not some):
                some = True
                f.overlap = r.randint(1, min(f.bits, prev.bits))
                if f.overlap == f.bits:  # anywhere inside
                    at = r.randint(prev.place[0], prev.place[1] - f.bits)
                else:
                    at = top - f.overlap
            else:
                at = top
            f.place = (at, at + f.bits)
            top = max(top, at + f.bits)
            prev = f
        if r.random() < 0.5:
            r.shuffle(fs)
        fill = (top + 7) // 8 + r.randint(0, 2) if r.random() < 0.3 else None
        return Struct(self.name("S"), fs, endian=spell(r, r.choice([None, "le", "be"])), reverse=r.random() < 0.5, fill=fill)
