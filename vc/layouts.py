"""The layout model: what a bondrewd definition means, bit by bit, and the contracts over the functions
the real derive macro generates for it.

A definition (Struct / Enum / PEnum below) is rendered as Rust source that uses the real derive macros.
Independently, the model assigns every stored bit of every field a place (buffer byte, bit) from the
documented format:

  * a buffer of N bytes is a stream of 8*N bits; stream bit i is in stream byte i/8 at value 0x80 >> i%8;
    stream byte k is buffer byte k, or N-1-k under `reverse`;
  * fields follow one another in the stream in declaration order (or sit where `bits = "a..b"` puts them);
    `read_from = "lsb0"` mirrors every range about the structure's bit size;
  * a big endian field holds its value most significant bit first; a little endian one holds the value's
    bytes least significant first, 8 bits each, the last one the remaining 1..=8 bits, each most
    significant bit first; one-byte types are big endian; the default is little endian;
  * array elements lie one after another; a block array whose length is no multiple of the element size
    gives its first element the remainder;
  * a nested definition holds the leading bits of its own encoded image, in order;
  * an enum holds its variant id in its leading bits, then the variant's fields.

From the places the model writes straight-line `get`/`put` specification functions, and from those the
obligations of every property.
"""
import re

SIZE = {"u8": 1, "u16": 2, "u32": 4, "u64": 8, "u128": 16, "i8": 1, "i16": 2, "i32": 4, "i64": 8, "i128": 16,
        "bool": 1, "f32": 4, "f64": 8, "char": 4}
UNS = ["u8", "u16", "u32", "u64", "u128"]
INTS = UNS + ["i8", "i16", "i32", "i64", "i128"]


def natural(ty):
    return 1 if ty == "bool" else 8 * SIZE[ty]


class Prim:
    lossless = True

    def __init__(self, name):
        self.name = name
        self.size = SIZE[name]
        self.lossless = name != "char"
        self.sz = SIZE[name]
        self.rust = name
        self.deps = []

    def default(self):
        return {"bool": "false", "char": "'\\0'", "f32": "0.0", "f64": "0.0"}.get(self.name, "0")


PRIM = {k: Prim(k) for k in SIZE}


class Arr:
    def __init__(self, el, n):
        self.el = el
        self.n = n
        self.rust = "[%s; %d]" % (el.rust, n)
        self.sz = el.sz * n
        self.lossless = el.lossless
        self.deps = el.deps


class Field:
    """one declared field

    bits: bits of the whole field (None: natural); arr: None | 'elem' | 'block' ; role: None | 'reserve' |
    'read_only' | 'redundant' ; place: explicit (start, end) ; overlap: declared overlapping bits
    """

    def __init__(self, name, ty, bits=None, arr=None, endian=None, role=None, place=None, overlap=0, style=0):
        self.name = name
        self.ty = PRIM[ty] if isinstance(ty, str) else ty
        self.arr = arr
        self.endian = endian
        self.role = role
        self.place = place
        self.overlap = overlap
        self.style = style
        base = self.ty
        n = 1
        if isinstance(base, Arr):
            n = base.n
            base = base.el
        self.base = base
        self.n = n
        if bits is None:
            if place:
                bits = place[1] - place[0]
            elif isinstance(base, Prim):
                bits = n * natural(base.name)
            else:
                bits = n * base.bits
        self.bits = bits
        if arr == "elem":
            assert bits % n == 0
        self.start = self.end = None

    # -- attributes
    def attrs(self):
        a = []
        base = self.base
        if isinstance(base, PEnum):
            a.append('enum_primitive = "%s"' % base.prim)
        elif not isinstance(base, Prim) and (self.style & 1 or self.arr or (self.bits + 7) // 8 != base.nbytes):
            a.append("struct_size = %d" % base.nbytes)
        if self.place and not (self.style & 16 and self.arr):
            a.append('bits = "%d..%d"' % self.place)
        if self.arr == "elem":
            e = self.bits // self.n
            if e % 8 == 0 and self.style & 2:
                a.append("element_byte_length = %d" % (e // 8))
            elif not (isinstance(base, Prim) and e == natural(base.name) and self.style & 4):
                a.append("element_bit_length = %d" % e)
        elif self.arr == "block":
            if self.bits % 8 == 0 and self.style & 2:
                a.append("block_byte_length = %d" % (self.bits // 8))
            else:
                a.append("block_bit_length = %d" % self.bits)
        elif not self.place:
            if isinstance(base, Prim) and self.bits == natural(base.name) and not self.style & 4:
                pass
            elif self.bits % 8 == 0 and self.style & 2:
                a.append("byte_length = %d" % (self.bits // 8))
            else:
                a.append("bit_length = %d" % self.bits)
        if self.place and self.style & 16 and self.arr:  # the range after the element size
            a.append('bits = "%d..%d"' % self.place)
        if self.endian:
            a.append('endianness = "%s"' % self.endian)
        if self.overlap:
            a.append("overlapping_bits = %d" % self.overlap)
        if self.role:
            a.append(self.role)
        a = a[::-1] if self.style & 8 else a
        if self.place and self.style & 16 and not self.arr:  # a length that agrees with the range
            a.insert(0, "byte_length = %d" % (self.bits // 8) if self.bits % 8 == 0 and self.style & 2 else "bit_length = %d" % self.bits)
        return a

    def decl(self, named=True):
        a = [re.sub(r"= (\d+)$", lambda m: "= " + spell(int(m.group(1)), self.style), x) for x in self.attrs()]
        s = "#[bondrewd(%s)] " % ", ".join(a) if a else ""
        if self.style & 32:  # one attribute each
            s = "".join("#[bondrewd(%s)] " % x for x in a)
        if self.style & 64:
            s = "/** a field */ " + s
        return s + ("pub %s: %s" % (self.name, self.ty.rust) if named == "pub" else "%s: %s" % (self.name, self.ty.rust) if named else self.ty.rust)

    def stored(self):
        return self.role is None

    # -- leaves: (path, base type, stream start, stream end)
    def leaves(self):
        if not isinstance(self.ty, Arr):
            return [("", self.base, self.start, self.end)]
        out = []
        if self.arr == "block":
            es = 8 * (self.base.size if isinstance(self.base, (Prim, PEnum)) else self.base.nbytes)
            at = self.start
            left = self.bits
            for k in range(self.n):
                w = left % es or es
                out.append(("[%d]" % k, self.base, at, at + w))
                at += w
                left -= w
            assert left == 0, "block array size"
        else:
            e = self.bits // self.n
            for k in range(self.n):
                out.append(("[%d]" % k, self.base, self.start + k * e, self.start + (k + 1) * e))
        return out


class Owner:
    """a list of fields laid out in one buffer"""

    def place(self, fields, first, lsb0):
        at = first
        total = first
        for f in fields:
            if f.place:
                f.start, f.end = f.place
            else:
                f.start, f.end = at, at + f.bits
            if f.role != "redundant":
                at = f.end
                total += f.bits - f.overlap
        if lsb0:
            for f in fields:
                f.start, f.end = total - f.end, total - f.start
        return total


def place_of(n, rev, i):
    """stream bit -> (buffer byte, bit)"""
    k = i // 8
    return (n - 1 - k if rev else k, 7 - i % 8)


def value_bits(n, rev, start, end, le):
    """places of value bits 0 (least significant), 1, ..."""
    ln = end - start
    out = []
    for j in range(ln):
        if le:
            k = j // 8
            cl = min(8, ln - 8 * k)
            i = start + 8 * k + cl - 1 - (j - 8 * k)
        else:
            i = end - 1 - j
        out.append(place_of(n, rev, i))
    return out


def chunks(places):
    """merge value bits into (value bit, byte, bit, count) runs"""
    out = []
    for j, (b, p) in enumerate(places):
        if out and out[-1][1] == b and out[-1][2] + out[-1][3] == p and out[-1][0] + out[-1][3] == j:
            out[-1][3] += 1
        else:
            out.append([j, b, p, 1])
    return out


def get_expr(places, buf="b"):
    ts = []
    for j, b, p, c in chunks(places):
        x = "%s[%d]" % (buf, b)
        if p:
            x = "(%s >> %d)" % (x, p)
        if p + c < 8:
            x = "(%s & %d)" % (x, (1 << c) - 1)
        x = "(%s as u128)" % x
        if j:
            x = "(%s << %d)" % (x, j)
        ts.append(x)
    return " | ".join(ts) if ts else "0u128"


def put_stmts(places, buf="b", v="v"):
    ts = []
    for j, b, p, c in chunks(places):
        m = ((1 << c) - 1) << p
        x = "(%s >> %d)" % (v, j) if j else v
        x = "(%s as u8)" % x
        if p:
            x = "(%s << %d)" % (x, p)
        if m == 255:
            ts.append("%s[%d] = %s;" % (buf, b, x))
        else:
            ts.append("%s[%d] = (%s[%d] & %d) | (%s & %d);" % (buf, b, buf, b, 255 - m, x, m))
    return " ".join(ts)


def is_le(base, endian, default):
    """is this leaf little endian"""
    if not isinstance(base, (Prim, PEnum)) or base.size == 1:
        return False
    e = endian or default or "le"
    if e in ("le", "lsb", "little", "lil"):
        return True
    if e in ("be", "msb", "big"):
        return False
    return default not in ("be", "msb", "big")  # "ne": falls back on the structure's default, then little


class Codec(Owner):
    """shared by Struct and variants: spec text for the fields in a buffer of `nbytes`"""

    def leaf_places(self, f, leaf):
        path, base, s, e = leaf
        if isinstance(base, (Prim, PEnum)):
            return value_bits(self.nbytes, self.reverse, s, e, is_le(base, f.endian, self.endian))
        return None

    def image_map(self, leaf):
        """nested leaf: [(image byte, image bit, buffer byte, buffer bit)]"""
        path, base, s, e = leaf
        out = []
        for j in range(min(e - s, 8 * base.nbytes)):
            b, p = place_of(self.nbytes, self.reverse, s + j)
            out.append((j // 8, 7 - j % 8, b, p))
        return out

    def leaf_get(self, f, leaf, buf="b"):
        path, base, s, e = leaf
        if isinstance(base, Prim):
            return "<%s as Wire>::dec(%s, %d)" % (base.rust, get_expr(self.leaf_places(f, leaf), buf), e - s)
        if isinstance(base, PEnum):
            return "%s::from_primitive((%s) as %s)" % (base.rust, get_expr(self.leaf_places(f, leaf), buf), base.prim)
        lines = ["let mut im = [0u8; %d];" % base.nbytes]
        for ib, ip, b, p, c in runs(self.image_map(leaf)):
            m = (1 << c) - 1
            lines.append("im[%d] |= ((%s[%d] >> %d) & %d) << %d;" % (ib, buf, b, p, m, ip))
        return "{ %s <%s as Bitfields<%d>>::from_bytes(im) }" % (" ".join(lines), base.rust, base.nbytes)

    def leaf_put(self, f, leaf, val, buf="b"):
        path, base, s, e = leaf
        if isinstance(base, Prim):
            return "{ let v: u128 = (%s).raw(); %s }" % (val, put_stmts(self.leaf_places(f, leaf), buf))
        if isinstance(base, PEnum):
            return "{ let v: u128 = (%s).clone().into_primitive() as u128; %s }" % (val, put_stmts(self.leaf_places(f, leaf), buf))
        lines = ["let im = (%s).clone().into_bytes();" % val]
        im = self.image_map(leaf)
        for ib, ip, b, p, c in runs(im):
            m = (1 << c) - 1
            lines.append("%s[%d] = (%s[%d] & %d) | (((im[%d] >> %d) & %d) << %d);" % (buf, b, buf, b, 255 - (m << p), ib, ip, m, p))
        for j in range(len(im), e - s):  # declared wider than the inner image: the rest is zero
            b, p = place_of(self.nbytes, self.reverse, s + j)
            lines.append("%s[%d] &= %d;" % (buf, b, 255 - (1 << p)))
        return "{ %s }" % " ".join(lines)

    def leaf_fit(self, f, leaf, val):
        """expression: `val` made a value that fits the leaf; may `?` out of an Option function"""
        path, base, s, e = leaf
        if isinstance(base, Prim):
            return "Wire::fit(%s, %d)?" % (val, e - s)
        if isinstance(base, PEnum):
            return "{ let w = %s; if (w.clone().into_primitive() as u128) & !ones(%d) != 0 { return None; } w }" % (val, e - s)
        kept = {(ib, ip) for ib, ip, b, p in self.image_map(leaf)}
        if base.stored_bits() <= kept:
            return "%s.fitted()?" % val
        lines = ["let w = %s.clone().into_bytes(); let mut im = [0u8; %d];" % (val, base.nbytes)]
        for ib, ip, b, p, c in runs(self.image_map(leaf)):
            m = (1 << c) - 1
            lines.append("im[%d] |= w[%d] & %d;" % (ib, ib, m << ip))
        if base.canonical() is None:  # what is left after the cut need not be a value's image
            chk = " || ".join("(z[%d] ^ im[%d]) & %d != 0" % (ib, ib, ((1 << c) - 1) << ip) for ib, ip, b, p, c in runs(self.image_map(leaf)))
            return "{ %s let y = <%s as Bitfields<%d>>::from_bytes(im); let z = y.clone().into_bytes(); if %s { return None; } y }" % (" ".join(lines), base.rust, base.nbytes, chk)
        return "{ %s <%s as Bitfields<%d>>::from_bytes(im) }" % (" ".join(lines), base.rust, base.nbytes)

    def get_field(self, f, buf="b"):
        ls = [self.leaf_get(f, l, buf) for l in f.leaves()]
        return "[%s]" % ", ".join(ls) if isinstance(f.ty, Arr) else ls[0]

    def put_field(self, f, val, buf="b"):
        return " ".join(self.leaf_put(f, l, val + l[0], buf) for l in f.leaves())

    def fit_field(self, f, val):
        ls = [self.leaf_fit(f, l, val + l[0] + (".clone()" if not isinstance(l[1], Prim) else "")) for l in f.leaves()]
        return "[%s]" % ", ".join(ls) if isinstance(f.ty, Arr) else ls[0]

    def field_bits(self, f):
        """buffer bits of a field"""
        return {place_of(self.nbytes, self.reverse, i) for i in range(f.start, f.end)}

    def canonical_bits(self, f):
        """buffer bits of field f that decode-then-encode keeps (None if that is not a fixed set)"""
        out = set()
        for l in f.leaves():
            path, base, s, e = l
            if isinstance(base, Prim):
                if base.name == "char":
                    return None
                out |= set(self.leaf_places(f, l))
            elif isinstance(base, PEnum):
                return None
            else:
                inner = base.canonical()
                if inner is None:
                    return None
                for ib, ip, b, p in self.image_map(l):
                    if (ib, ip) in inner:
                        out.add((b, p))
        return out


def runs(im):
    """merge (ib, ip, b, p) bit moves (ip, p both descending) into (ib, ip, b, p, count)"""
    out = []
    for ib, ip, b, p in im:
        if out and out[-1][0] == ib and out[-1][2] == b and out[-1][1] - 1 == ip and out[-1][3] - 1 == p:
            out[-1][1] = ip
            out[-1][3] = p
            out[-1][4] += 1
        else:
            out.append([ib, ip, b, p, 1])
    return out


def lit(x, style):
    """one of Rust's spellings of a number"""
    return [str(x), hex(x), bin(x) if x < 256 else hex(x).upper().replace("0X", "0x"), "_".join(str(x))][style >> 5 & 3]


def spell(x, style):
    """any spelling of a number, most often the plain one"""
    k = (style * 3 + x) % 9 if style else 0
    return {1: hex(x), 2: bin(x), 3: oct(x), 4: "_".join(str(x)) + "_", 5: "%dusize" % x}.get(k, str(x))


def head(attrs, style=0):
    if style & 32:
        return "/// a definition\n" + "".join("#[bondrewd(%s)]\n" % x for x in reversed(attrs))
    return "#[bondrewd(%s)]\n" % ", ".join(attrs) if attrs else ""


def mask_bytes(bits, n):
    m = [0] * n
    for b, p in bits:
        m[b] |= 1 << p
    return m


class Struct(Codec):
    lossless = True

    def __init__(self, name, fields, endian=None, reverse=False, lsb0=False, fill=None, enforce=None, rust_attrs=()):
        self.name = self.rust = name
        self.fields = fields
        self.endian = endian
        self.reverse = reverse
        self.lsb0 = lsb0
        self.fill = fill
        self.enforce = list(enforce or [])
        self.used = self.place(fields, 0, lsb0)
        self.bits = max(self.used, 8 * fill) if fill else self.used
        self.nbytes = (self.bits + 7) // 8
        self.sz = sum(f.ty.sz for f in fields)
        self.deps = []
        for f in fields:
            if not isinstance(f.base, Prim):
                for d in f.base.deps + [f.base]:
                    if d not in self.deps:
                        self.deps.append(d)

    def attrs(self):
        a = []
        if self.endian:
            a.append('default_endianness = "%s"' % self.endian)
        if self.reverse:
            a.append("reverse")
        if self.lsb0:
            a.append('read_from = "lsb0"')
        elif self.fields and self.fields[0].style & 96 == 96:
            a.append('read_from = "msb0"')
        if self.fill:
            a.append("fill_bytes = %d" % self.fill)
        return a + self.enforce

    def source(self):
        return "#[derive(Bitfields, Clone)]\n%spub struct %s {\n    %s,\n}\n" % (
            head(self.attrs(), self.fields[0].style if self.fields else 0), self.name, ",\n    ".join(f.decl("pub") for f in self.fields))

    def canonical(self):
        out = set()
        for f in self.fields:
            if f.stored():
                c = self.canonical_bits(f)
                if c is None:
                    return None
                out |= c
        # a stored bit that a reserve field overlaps is still stored
        return out

    def stored_bits(self):
        return {x for f in self.fields if f.stored() for x in self.field_bits(f)}

    def default_expr(self, f):
        d = f.base.default() if isinstance(f.base, Prim) else "<%s as Default>::default()" % f.base.rust
        return "[%s]" % ", ".join([d] * f.n) if isinstance(f.ty, Arr) else d

    def val_impl(self):
        off = 0
        anys = []
        for f in self.fields:
            anys.append("%s: <%s as Val>::any(i, off + %d)?" % (f.name, f.ty.rust, off))
            off += f.ty.sz
        sames = ["Val::same(&self.%s, &o.%s)" % (f.name, f.name) for f in self.fields]
        kept = ["Val::kept(&self.%s, &o.%s)" % (f.name, f.name) for f in self.fields if f.stored()]
        fits = ["%s: %s" % (f.name, self.fit_field(f, "self." + f.name) if f.stored() else "self." + f.name) for f in self.fields]
        return (
            "impl Val for %s { const SZ: usize = %d;\n #[inline(always)] fn any(i: &[u8], off: usize) -> Option<Self> { Some(%s { %s }) }\n"
            " #[inline(always)] fn same(&self, o: &Self) -> bool { %s }\n #[inline(always)] fn kept(&self, o: &Self) -> bool { %s } }\n"
            "impl %s { #[inline(always)] pub fn fitted(self) -> Option<Self> { Some(%s { %s }) } }\n"
            % (self.name, off, self.name, ", ".join(anys), " && ".join(sames) or "true", " && ".join(kept) or "true", self.name, self.name, ", ".join(fits))
        )

    def spec_enc(self):
        """statements: b = the specified encoding of x"""
        return " ".join(self.put_field(f, "x." + f.name) for f in self.fields if f.stored())

    def overlaps(self):
        return any(f.overlap for f in self.fields)

    def spec_dec(self):
        """expression: the specified decoding of b"""
        return "%s { %s }" % (self.name, ", ".join("%s: %s" % (f.name, self.default_expr(f) if f.role == "reserve" else self.get_field(f)) for f in self.fields))

    def read(self, f):
        return "%s::read_%s" % (self.name, f.name)

    def write(self, f):
        return "%s::write_%s" % (self.name, f.name)

    def find(self, name):
        for f in self.fields:
            if f.name == name:
                return f


def snake(s):
    out = ""
    for c in s:
        if c.isupper():
            if out:
                out += "_"
            out += c.lower()
        else:
            out += c
    return out


class Variant(Codec):
    def __init__(self, name, fields=(), id=None, invalid=False, capture=False, tuple=False, disc=False):
        self.name = name
        self.fields = list(fields)  # the captured id field, if any, is not among them
        self.id = id
        self.explicit = id
        self.invalid = invalid
        self.capture = capture
        self.tuple = tuple
        self.disc = disc  # explicit id given as a discriminant
        self.reverse = self.lsb0 = False


class Enum(Codec):
    """a Bitfields enum"""

    def __init__(self, name, id_bits, variants, endian=None, reverse=False, by_bytes=False, payload=None, rust_attrs=()):
        self.name = self.rust = name
        self.id_bits = id_bits
        self.variants = variants
        self.endian = endian
        self.reverse = reverse
        self.by_bytes = by_bytes
        self.payload = payload
        used = {v.explicit for v in variants if v.explicit is not None}
        nxt = 0
        for v in variants:
            if v.explicit is None:
                while nxt in used:
                    nxt += 1
                v.id = nxt
                used.add(nxt)
        self.bits = 0
        self.deps = []
        for v in variants:
            v.total = v.place(v.fields, id_bits, False)
            self.bits = max(self.bits, v.total)
            for f in v.fields:
                if not isinstance(f.base, Prim):
                    for d in f.base.deps + [f.base]:
                        if d not in self.deps:
                            self.deps.append(d)
        self.nbytes = (self.bits + 7) // 8
        for v in variants:
            v.nbytes = self.nbytes
            v.reverse = reverse
            v.endian = endian
        self.id_ty = next(t for t in UNS if natural(t) >= id_bits)
        self.catch = next((v for v in variants if v.invalid), variants[-1])
        self.sz = 1 + max(sum(f.ty.sz for f in v.fields) + (SIZE[self.id_ty] if v.capture else 0) for v in variants)
        self.lossless = False

    def canonical(self):
        return None

    def stored_bits(self):
        out = set(self.id_places())
        for v in self.variants:
            out |= {x for f in v.fields if f.stored() for x in v.field_bits(f)}
        return out

    def default(self):
        raise KeyError

    def attrs(self):
        a = ["id_byte_length = %d" % (self.id_bits // 8) if self.by_bytes and self.id_bits % 8 == 0 else "id_bit_length = %d" % self.id_bits]
        if self.endian:
            a.append('default_endianness = "%s"' % self.endian)
        if self.reverse:
            a.append("reverse")
        if self.payload is not None:
            a.append("payload_bit_length = %d" % self.payload)
        return a

    def source(self):
        out = []
        for v in self.variants:
            a = []
            if v.explicit is not None and not v.disc:
                a.append("variant_id = %s" % lit(v.explicit, v.fields[0].style if v.fields else 0))
            if v.invalid:
                a.append("invalid")
            s = "    " + ("#[bondrewd(%s)] " % ", ".join(a) if a else "") + v.name
            fs = [f.decl(not v.tuple) for f in v.fields]
            if v.capture:
                fs.insert(0, "#[bondrewd(capture_id)] " + ("" if v.tuple else "cid: ") + self.id_ty)
            if fs:
                s += "(%s)" % ", ".join(fs) if v.tuple else " { %s }" % ", ".join(fs)
            if v.disc and v.explicit is not None:
                s += " = " + lit(v.explicit, self.id_bits * 32 + v.explicit % 7 * 32 if v.explicit % 3 else 0)
            out.append(s)
        pre = "#[repr(%s)]\n" % self.id_ty if any(v.disc for v in self.variants) else ""
        return "#[derive(Bitfields, Clone)]\n%s%spub enum %s {\n%s,\n}\n" % (pre, head(self.attrs(), self.id_bits << 4), self.name, ",\n".join(out))

    # variant field binding names
    def binds(self, v, p):
        return [p + f.name for f in v.fields]

    def pattern(self, v, p, by=""):
        fs = []
        if v.capture:
            fs.append(("cid", p + "cid"))
        fs += [(f.name, p + f.name) for f in v.fields]
        if not fs:
            return "%s::%s" % (self.name, v.name)
        if v.tuple:
            return "%s::%s(%s)" % (self.name, v.name, ", ".join(b for _, b in fs))
        return "%s::%s { %s }" % (self.name, v.name, ", ".join("%s: %s" % x for x in fs))

    def construct(self, v, vals, cid=None):
        fs = []
        if v.capture:
            fs.append(("cid", cid))
        fs += [(f.name, e) for f, e in zip(v.fields, vals)]
        if not fs:
            return "%s::%s" % (self.name, v.name)
        if v.tuple:
            return "%s::%s(%s)" % (self.name, v.name, ", ".join(b for _, b in fs))
        return "%s::%s { %s }" % (self.name, v.name, ", ".join("%s: %s" % x for x in fs))

    def id_places(self):
        return value_bits(self.nbytes, self.reverse, 0, self.id_bits, is_le(PRIM[self.id_ty], None, self.endian))

    def val_impl(self):
        arms = []
        sames = []
        kepts = []
        fits = []
        nv = len(self.variants)
        for k, v in enumerate(self.variants):
            off = 1
            cid = None
            if v.capture:
                cid = "<%s as Val>::any(i, off + 1)?" % self.id_ty
                off += SIZE[self.id_ty]
            vals = []
            for f in v.fields:
                vals.append("<%s as Val>::any(i, off + %d)?" % (f.ty.rust, off))
                off += f.ty.sz
            arms.append("%s => %s" % (k if k < nv - 1 else "_", self.construct(v, vals, cid)))
            cs = ["Val::same(a_%s, b_%s)" % (f.name, f.name) for f in v.fields]
            if v.capture:
                cs.insert(0, "*a_cid == *b_cid")
            sames.append("(%s, %s) => %s" % (self.pattern(v, "a_"), self.pattern(v, "b_"), " && ".join(cs) or "true"))
            cs = ["Val::kept(a_%s, b_%s)" % (f.name, f.name) for f in v.fields if f.stored()]
            if v.capture:
                cs.insert(0, "*a_cid == *b_cid")
            kepts.append("(%s, %s) => %s" % (self.pattern(v, "a_"), self.pattern(v, "b_"), " && ".join(cs) or "true"))
            fv = [v.fit_field(f, "a_" + f.name) if f.stored() else "a_" + f.name for f in v.fields]
            pre = ""
            if v.capture:
                own = [w.id for w in self.variants if w is not v]
                pre = "if (a_cid as u128) & !ones(%d) != 0 %s { return None; } " % (self.id_bits, "".join(" || a_cid == %d" % x for x in own))
            fits.append("%s => { %s%s }" % (self.pattern(v, "a_"), pre, self.construct(v, fv, "a_cid")))
        if nv > 1:
            sames.append("_ => false")
            kepts.append("_ => false")
        return (
            "impl Val for %s { const SZ: usize = %d;\n #[inline(always)] fn any(i: &[u8], off: usize) -> Option<Self> { if i[off] >= %d { return None; } Some(match i[off] { %s }) }\n"
            " #[inline(always)] fn same(&self, o: &Self) -> bool { match (self, o) { %s } }\n"
            " #[inline(always)] fn kept(&self, o: &Self) -> bool { match (self, o) { %s } } }\n"
            "impl %s { #[inline(always)] pub fn fitted(self) -> Option<Self> { Some(match self { %s }) } }\n"
            % (self.name, self.sz, nv, ", ".join(arms), ", ".join(sames), ", ".join(kepts), self.name, ", ".join(fits))
        )

    def spec_enc(self):
        arms = []
        for v in self.variants:
            idv = "(*x_cid as u128)" if v.capture else "%du128" % v.id
            put = "{ let v: u128 = %s; %s }" % (idv, put_stmts(self.id_places()))
            arms.append("%s => { %s %s }" % (self.pattern(v, "x_"), put, " ".join(v.put_field(f, "x_" + f.name) for f in v.fields if f.stored())))
        return "match &x { %s }" % ", ".join(arms)

    def spec_dec(self):
        """expression: the specified decoding of b"""
        arms = []
        for v in self.variants:
            if v is self.catch:
                continue
            arms.append("%d => %s" % (v.id, self.construct(v, [self.dec_field(v, f) for f in v.fields])))
        c = self.catch
        arms.append("_ => %s" % self.construct(c, [self.dec_field(c, f) for f in c.fields], "(id as %s)" % self.id_ty))
        return "{ let id: u128 = %s; match id { %s } }" % (get_expr(self.id_places()), ", ".join(arms))

    def dec_field(self, v, f):
        if f.role == "reserve":
            return Struct.default_expr(self, f)
        return v.get_field(f)


class PEnum:
    """a BitfieldEnum (primitive enum).  variants: (name, explicit number or None, marked invalid, field: None|'tuple'|'named')"""

    lossless = False
    deps = ()
    prim = "u8"
    size = 1

    def __init__(self, name, variants, u8attr=True, partial_eq=False):
        self.name = self.rust = name
        self.variants = variants
        self.u8attr = u8attr
        self.partial_eq = partial_eq
        self.deps = []
        self.nbytes = 1
        self.bits = 8
        self.sz = 1
        used = {n for _, n, _, _ in variants if n is not None}
        nxt = 0
        self.num = {}
        marked = [v for v in variants if v[2]]
        marked += [v for v in variants if v[3]]
        self.catch = marked[0] if marked else variants[-1]
        for v in variants:
            if v[1] is not None:
                self.num[v[0]] = v[1]
            else:  # a catching variant with a field uses a number up too
                while nxt in used:
                    nxt += 1
                self.num[v[0]] = None if v[3] else nxt
                used.add(nxt)

    def source(self):
        a = (["u8"] if self.u8attr else []) + (["partial_eq"] if self.partial_eq else [])
        rep = "#[repr(u8)]\n" if any(v[3] for v in self.variants) and any(v[1] is not None for v in self.variants) else ""
        h = "#[derive(BitfieldEnum, Clone)]\n" + rep + ("#[bondrewd_enum(%s)]\n" % ", ".join(a) if a else "")
        vs = []
        for n, x, inv, fld in self.variants:
            s = "    " + ("#[bondrewd_enum(invalid)] " if inv else "") + n
            if fld == "tuple":
                s += "(u8)"
            elif fld == "named":
                s += " { raw: u8 }"
            if x is not None:
                s += " = " + lit(x, x % 5 * 32 if self.partial_eq or x % 2 else 0)
            vs.append(s)
        return h + "pub enum %s {\n%s,\n}\n" % (self.name, ",\n".join(vs))

    def pat(self, v, b):
        return "%s::%s%s" % (self.name, v[0], "(%s)" % b if v[3] == "tuple" else " { raw: %s }" % b if v[3] == "named" else "")

    def spec_from(self, x):
        """expression of type PEnum"""
        arms = ["%d => %s" % (self.num[v[0]], self.pat(v, "")) for v in self.variants if v is not self.catch]
        arms.append("_ => %s" % self.pat(self.catch, x))
        return "match %s { %s }" % (x, ", ".join(arms))

    def spec_into(self, x):
        arms = []
        for v in self.variants:
            arms.append("%s => %s" % (self.pat(v, "n"), "*n" if v[3] else self.num[v[0]]))
        return "match %s { %s }" % (x, ", ".join(arms))

    def val_impl(self):
        sames = ["(%s, %s) => %s" % (self.pat(v, "a"), self.pat(v, "b"), "a == b" if v[3] else "true") for v in self.variants]
        if len(self.variants) > 1:
            sames.append("_ => false")
        # quantify over the variants through the specification, not through from_primitive
        return (
            "impl Val for %s { const SZ: usize = 1;\n #[inline(always)] fn any(i: &[u8], off: usize) -> Option<Self> { let x = i[off]; Some(%s) }\n"
            " #[inline(always)] fn same(&self, o: &Self) -> bool { match (self, o) { %s } } }\n" % (self.name, self.spec_from("x"), ", ".join(sames))
        )


class PNew(PEnum):
    """a BitfieldEnum implemented by hand: every number of a primitive type is a value"""

    def __init__(self, name, prim):
        self.name = self.rust = name
        self.prim = prim
        self.size = self.nbytes = self.sz = SIZE[prim]
        self.bits = 8 * self.size
        self.deps = []
        self.variants = ()

    def source(self):
        return ("#[derive(Clone)]\npub struct %s(pub %s);\nimpl BitfieldEnum for %s {\n    type Primitive = %s;\n    fn from_primitive(x: %s) -> Self { %s(x) }\n"
                "    fn into_primitive(self) -> %s { self.0 }\n}\n") % (self.name, self.prim, self.name, self.prim, self.prim, self.name, self.prim)

    def val_impl(self):
        return ("impl Val for %s { const SZ: usize = %d;\n #[inline(always)] fn any(i: &[u8], off: usize) -> Option<Self> { Some(%s(<%s as Val>::any(i, off)?)) }\n"
                " #[inline(always)] fn same(&self, o: &Self) -> bool { self.0 == o.0 } }\n") % (self.name, self.sz, self.name, self.prim)
