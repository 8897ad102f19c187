"""The contracts: obligations over the functions the derive macro generates for one layout.

An obligation is (tag, K, body): the body of `fn(i: &[u8; K]) -> bool`, true when the postcondition holds
for the values described by i (or i describes none, i.e. the precondition fails).
"""
from layouts import Struct, Enum, PEnum, Prim, Arr, SIZE, mask_bytes, snake


class Ob:
    __slots__ = ("tag", "k", "body", "about", "id", "low")

    def __init__(self, tag, k, body, about, low=()):
        self.tag = tag
        self.k = k
        self.body = body
        self.about = about  # generated function(s) under contract
        self.id = None
        self.low = tuple(low)  # input bytes a counterexample had better keep at 0


ANY = "let %s = match <%s as Val>::any(i, %d) { Some(x) => x, None => return true };"


def any_(v, ty, off):
    return ANY % (v, ty, off)


def fit_(v, ty, off):
    return "let %s = match <%s as Val>::any(i, %d).and_then(|x| x.fitted()) { Some(x) => x, None => return true };" % (v, ty, off)


# ------------------------------------------------------------------ structures
def into_bytes(s):
    n = s.nbytes
    body = "%s let mut b = [0u8; %d]; %s let e = x.into_bytes(); eqb(&e, &b)" % (any_("x", s.name, 0), n, s.spec_enc())
    return [Ob("into_bytes", s.sz, body, "into_bytes")]


def read(s, fields=None):
    n = s.nbytes
    out = []
    for f in fields or s.fields:
        body = "let b: [u8; %d] = bytes(i, 0); let w = %s; let g = %s(&b); Val::same(&g, &w)" % (n, s.get_field(f), s.read(f))
        out.append(Ob("read." + f.name, n, body, "read_" + f.name))
    return out


def write(s, fields=None):
    n = s.nbytes
    out = []
    for f in fields or s.fields:
        body = "let mut b: [u8; %d] = bytes(i, 0); let mut c = b; %s %s %s(&mut c, x); eqb(&b, &c)" % (
            n, any_("x", f.ty.rust, n), s.put_field(f, "x"), s.write(f))
        out.append(Ob("write." + f.name, n + f.ty.sz, body, "write_" + f.name))
    return out


def from_bytes_reads(s):
    """from_bytes agrees with the reads, reserve fields decode to their default"""
    n = s.nbytes
    parts = []
    for f in s.fields:
        if f.role == "reserve":
            parts.append("Val::same(&x.%s, &%s)" % (f.name, s.default_expr(f)))
        else:
            parts.append("Val::same(&x.%s, &%s(&b))" % (f.name, s.read(f)))
    body = "let b: [u8; %d] = bytes(i, 0); let x = <%s as Bitfields<%d>>::from_bytes(b); %s" % (n, s.name, n, " && ".join(parts))
    return [Ob("from_bytes", n, body, "from_bytes, read_*")]


def from_bytes_spec(s, fields=None):
    n = s.nbytes
    parts = []
    for f in fields or s.fields:
        if f.role == "reserve":
            parts.append("Val::same(&x.%s, &%s)" % (f.name, s.default_expr(f)))
        else:
            parts.append("Val::same(&x.%s, &%s)" % (f.name, s.get_field(f)))
    body = "let b: [u8; %d] = bytes(i, 0); let x = <%s as Bitfields<%d>>::from_bytes(b); %s" % (n, s.name, n, " && ".join(parts))
    return [Ob("from_bytes.spec", n, body, "from_bytes")]


def reencode(s):
    """into_bytes(from_bytes(b)) keeps exactly the stored bits"""
    c = s.canonical()
    if c is None:
        return []
    n = s.nbytes
    m = mask_bytes(c, n)
    body = "let b: [u8; %d] = bytes(i, 0); let e = <%s as Bitfields<%d>>::from_bytes(b).into_bytes(); let w: [u8; %d] = [%s]; eqb(&e, &w)" % (
        n, s.name, n, n, ", ".join("b[%d] & %d" % (k, m[k]) for k in range(n)))
    return [Ob("reencode", n, body, "from_bytes, into_bytes")]


def roundtrip(s, fields=None):
    n = s.nbytes
    parts = ["Val::kept(&x.%s, &y.%s)" % (f.name, f.name) for f in fields or s.fields if f.stored()]
    body = "%s let y = <%s as Bitfields<%d>>::from_bytes(x.clone().into_bytes()); %s" % (fit_("x", s.name, 0), s.name, n, " && ".join(parts) or "true")
    return [Ob("roundtrip", s.sz, body, "into_bytes, from_bytes")]


def agreeing(s):
    """structures with overlapping fields: for values whose shared bits agree (every decoded one does)"""
    c = s.canonical()
    if c is None:
        return []
    n = s.nbytes
    m = mask_bytes(c, n)
    pre = "let b: [u8; %d] = bytes(i, 0); let x: %s = %s;" % (n, s.name, s.spec_dec())
    parts = ["Val::kept(&x.%s, &y.%s)" % (f.name, f.name) for f in s.fields if f.stored()]
    return [
        Ob("into_bytes.agree", n, "%s let e = x.into_bytes(); let w: [u8; %d] = [%s]; eqb(&e, &w)" % (pre, n, ", ".join("b[%d] & %d" % (k, m[k]) for k in range(n))), "into_bytes"),
        Ob("roundtrip.agree", n, "%s let y = <%s as Bitfields<%d>>::from_bytes(x.clone().into_bytes()); %s" % (pre, s.name, n, " && ".join(parts) or "true"), "into_bytes, from_bytes"),
    ]


def sizes(s):
    body = "let _ = i; let n: usize = <%s as Bitfields<%d>>::BYTE_SIZE; let b: usize = <%s as Bitfields<%d>>::BIT_SIZE; n == %d && b == %d" % (
        s.name, s.nbytes, s.name, s.nbytes, s.nbytes, s.bits)
    return [Ob("sizes", 1, body, "BIT_SIZE, BYTE_SIZE")]


# ------------------------------------------------------------------ dynamic functions
def _len(m):
    """m buffer bytes at i[0..m], a symbolic length after them"""
    if m < 255:
        return 1, "let len = i[%d] as usize; if len > %d { return true; }" % (m, m)
    return 2, "let len = i[%d] as usize + 256 * (i[%d] as usize); if len > %d { return true; }" % (m, m + 1, m)


def _prefix(n, src="i"):
    return "let mut a = [0u8; %d]; %s" % (n, " ".join("if %d < len { a[%d] = %s[%d]; }" % (k, k, src, k) for k in range(n)))


def need(c, f):
    return max(b for b, _ in c.field_bits(f)) + 1


def lens_of(n, needs, full=False):
    """interesting slice lengths when a fixed set has to do"""
    return sorted({0, 1, n - 1, n, n + 1} | {x for k in needs for x in (k - 1, k)} - {-1})


def slice_read(s, items=None):
    """items: (tag, slice fn, array fn, needed bytes)"""
    n = s.nbytes
    m = n + 1
    lb, lens = _len(m)
    out = []
    for tag, sf, af, nd in items:
        body = "%s %s match %s(&i[..len]) { Ok(v) => len >= %d && Val::same(&v, &%s(&a)), Err(e) => len < %d && e.0 == len && e.1 == %d }" % (
            lens, _prefix(n), sf, nd, af, nd, nd)
        out.append(Ob("read_slice." + tag, m + lb, body, sf))
    return out


def slice_write(s, items):
    """items: (tag, slice fn, array fn, needed bytes, type)"""
    n = s.nbytes
    m = n + 1
    lb, lens = _len(m)
    out = []
    for tag, sf, af, nd, ty in items:
        after = " && ".join("c[%d] == (if %d < len { a[%d] } else { i[%d] })" % (k, k, k, k) if k < n else "c[%d] == i[%d]" % (k, k) for k in range(m))
        same = " && ".join("c[%d] == i[%d]" % (k, k) for k in range(m))
        body = ("%s %s %s let mut c: [u8; %d] = bytes(i, 0); let r = %s(&mut c[..len], x.clone()); %s(&mut a, x); "
                "match r { Ok(()) => len >= %d && %s, Err(e) => len < %d && e.0 == len && e.1 == %d && %s }") % (
            lens, any_("x", ty, m + lb), _prefix(n), m, sf, af, nd, after, nd, nd, same)
        out.append(Ob("write_slice." + tag, m + lb + (SIZE[ty] if ty in SIZE else _sz(s, tag)), body, sf))
    return out


def _sz(s, tag):
    return s._tagsz[tag]


def struct_items(s):
    s._tagsz = {f.name: f.ty.sz for f in s.fields}
    r = [(f.name, "%s::read_slice_%s" % (s.name, f.name), s.read(f), need(s, f)) for f in s.fields]
    w = [(f.name, "%s::write_slice_%s" % (s.name, f.name), s.write(f), need(s, f), f.ty.rust) for f in s.fields]
    return r, w


def enum_items(e):
    e._tagsz = {}
    r = [("variant_id", "%s::read_slice_variant_id" % e.name, "%s::read_variant_id" % e.name, max(b for b, _ in e.id_places()) + 1)]
    w = []
    for v in e.variants:
        for f in v.fields:
            nm = "%s_%s" % (snake(v.name), fname(v, f))
            e._tagsz[nm] = f.ty.sz
            r.append((nm, "%s::read_slice_%s" % (e.name, nm), "%s::read_%s" % (e.name, nm), need(v, f)))
            w.append((nm, "%s::write_slice_%s" % (e.name, nm), "%s::write_%s" % (e.name, nm), need(v, f), f.ty.rust))
    return r, w


def fname(v, f):
    if v.tuple:
        return "field_%d" % (v.fields.index(f) + 1)
    return f.name


def slices(s):
    r, w = struct_items(s) if isinstance(s, Struct) else enum_items(s)
    return slice_read(s, r) + slice_write(s, w) + far_slices(s)


# ------------------------------------------------------------------ buffers of any length
ANYLEN = "let len = match any_len(i, %d) { Some(l) => l, None => return true };"
FAR = "let len = match far_len(i, %d) { Some(l) => l, None => return true };"


def _far(tag, m, extra, body, about):
    """m known bytes, 8 bytes of length, `extra` bytes of values"""
    return Ob("far_" + tag, m + 8 + extra, FAR % m + " " + body, about, range(m + 2, m + 8))


def _far_write(s, m, calls, pre):
    n = s.nbytes
    return ("let mut a: [u8; %d] = bytes(i, 0); let mut c: [u8; %d] = bytes(i, 0); %s { let d = far::slice_mut(&mut c, len); let p = d.as_ptr(); %s "
            "if !far::back(&mut c, p, len) { return false; } } ok && %s") % (
        n, m, pre, calls, " && ".join("c[%d] == %s" % (k, "a[%d]" % k if k < n else "i[%d]" % k) for k in range(m)))


def far_slices(s, r=None, w=None):
    """read_slice_* and write_slice_* on buffers of any length: the array functions on the first bytes"""
    n = s.nbytes
    m = n + 1
    if r is None:
        r, w = struct_items(s) if isinstance(s, Struct) else enum_items(s)
    body = "let a: [u8; %d] = bytes(i, 0); let d = far::slice(i, %d, len); %s" % (
        n, m, " && ".join("(match %s(d) { Ok(v) => Val::same(&v, &%s(&a)), Err(_) => false })" % (sf, af) for _, sf, af, _ in r) or "true")
    out = [_far("read_slice", m, 0, body, "read_slice_*")]
    if w:
        at = m + 8
        pre, calls = [], ["let mut ok = true;"]
        for tag, sf, af, _, ty in w:
            pre.append(any_("x%d" % len(pre), ty, at))
            at += _sz(s, tag)
            calls.append("match %s(d, x%d.clone()) { Ok(()) => {} Err(_) => ok = false }" % (sf, len(pre) - 1))
        arr = " ".join("%s(&mut a, x%d);" % (x[2], k) for k, x in enumerate(w))
        pre.append("let mut ok = true;")
        out.append(_far("write_slice", m, at - m - 8, _far_write(s, m, " ".join(calls[1:]) + " " + arr, " ".join(pre)), "write_slice_*"))
    return out


def far_checked(s, fields=None):
    n = s.nbytes
    m = n + 1
    items = check_items(s, fields)
    reads = " && ".join("Val::same(&c.read_%s(), &%s(&a))" % (nm, rd) for nm, rd, _, _ in items) or "true"
    out = [_far("check_slice", m, 0, "let a: [u8; %d] = bytes(i, 0); match %s::check_slice(far::slice(i, %d, len)) { Ok(c) => %s, Err(_) => false }" % (n, s.name, m, reads), "check_slice, %sChecked::read_*" % s.name)]
    at = m + 8
    pre, wr, arr = [], [], []
    for k, (nm, _, w, ty) in enumerate(items):
        pre.append(any_("x%d" % k, ty.rust, at))
        at += ty.sz
        wr.append("c.write_%s(x%d.clone());" % (nm, k))
        arr.append("%s(&mut a, x%d);" % (w, k))
    calls = "match %s::check_slice_mut(d) { Ok(mut c) => { ok = %s; %s } Err(_) => ok = false }" % (s.name, reads, " ".join(wr))
    # the reads compare with the bytes before the writes
    body = _far_write(s, m, calls + " " + " ".join(arr), " ".join(pre) + " let mut ok = true;")
    out.append(_far("check_slice_mut", m, at - m - 8, body, "check_slice_mut, %sCheckedMut::read_*, write_*" % s.name))
    return out


def far_from(s, vec=True):
    """from_slice and from_vec"""
    n = s.nbytes
    m = n + 1
    dy = "<%s as BitfieldsDyn<%d>>" % (s.name, n)
    want = "&<%s as Bitfields<%d>>::from_bytes(bytes(i, 0))" % (s.name, n)
    out = [_far("from_slice", m, 0, "match %s::from_slice(far::slice(i, %d, len)) { Ok(v) => Val::same(&v, %s), Err(_) => false }" % (dy, m, want), "from_slice")]
    if vec:
        m = 2 * n + 3
        body = ANYLEN % m + (" let mut c: [u8; %d] = bytes(i, 0); let mut v = far::vec(&mut c, len); let r = %s::from_vec(&mut v); let ok = match r { "
                "Ok(x) => len >= %d && v.len() == len - %d && Val::same(&x, %s) && %s && (len <= %d || far::tail(&v, %d, %d)), "
                "Err(e) => len < %d && e.0 == len && e.1 == %d && v.len() == len && %s }; core::mem::forget(v); ok") % (
            m, dy, n, n, want, " && ".join("(%d >= len - %d || v[%d] == i[%d])" % (k, n, k, k + n) for k in range(m - n)), m, m - n, n,
            n, n, " && ".join("(%d >= len || v[%d] == i[%d])" % (k, k, k) for k in range(n - 1)) or "true")
        out.append(Ob("from_vec_any", m + 8, body, "from_vec", range(m + 2, m + 8)))
    return out


def far_hex(s):
    n = s.nbytes
    h = 2 * n
    m = h + 1
    q = "<%s as BitfieldHexDyn<%d, %d>>" % (s.name, h, n)
    res = ("Ok(y) => bad == %d && Val::same(&y, &<%s as Bitfields<%d>>::from_bytes(b)), "
           "Err(BitfieldHexDynError::Hex(e)) => bad < %d && e.1 == bad && e.0 == (i[bad] as char), Err(_) => false") % (h, s.name, n, h)
    return [_far("from_hex_slice", m, 0, "%s match %s::from_hex_slice(far::slice(i, %d, len)) { %s }" % (_hexspec(n, "i"), q, m, res), "from_hex_slice"),
            Ob("from_hex_vec_any", m + 8, "%s %s let mut c: [u8; %d] = bytes(i, 0); let mut v = far::vec(&mut c, len); let ok = match %s::from_hex_vec(&mut v) { "
               "%s }; core::mem::forget(v); ok" % (ANYLEN % m, _hexspec(n, "i"), m, q, HEXRES % (
                   "len >= %d" % h, h, s.name, n, "len >= %d" % h, h, "len < %d" % h, h)), "from_hex_vec", range(m + 2, m + 8))]


def check_items(s, fields=None):
    if isinstance(s, Struct):
        return [(f.name, s.read(f), s.write(f), f.ty) for f in fields or s.fields]
    return [(nm, "%s::read_%s" % (s.name, nm), "%s::write_%s" % (s.name, nm), f.ty)
            for v in s.variants for f in v.fields for nm in ["%s_%s" % (snake(v.name), fname(v, f))]]


def checked(s, fields=None):
    """through the checked wrapper: every read and write is that of the array functions"""
    n = s.nbytes
    m = n + 1
    lb, lens = _len(m)
    out = []
    items = check_items(s, fields)
    err = "Err(e) => len < %d && e.0 == len && e.1 == %d" % (n, n)
    reads = " && ".join("Val::same(&c.read_%s(), &%s(&a))" % (nm, rd) for nm, rd, _, _ in items) or "true"
    out.append(Ob("check_slice", m + lb, "%s %s match %s::check_slice(&i[..len]) { Ok(c) => len >= %d && %s, %s }" % (lens, _prefix(n), s.name, n, reads, err), "check_slice, %sChecked::read_*" % s.name))
    out.append(Ob("check_slice_mut", m + lb, "%s %s let mut d: [u8; %d] = bytes(i, 0); let r = match %s::check_slice_mut(&mut d[..len]) { Ok(c) => len >= %d && %s, %s }; r && %s" % (
        lens, _prefix(n), m, s.name, n, reads, err, " && ".join("d[%d] == i[%d]" % (k, k) for k in range(m))), "check_slice_mut, %sCheckedMut::read_*" % s.name))
    for nm, _, wr, ty in items:
        after = " && ".join("d[%d] == %s" % (k, "a[%d]" % k if k < n else "i[%d]" % k) for k in range(m))
        body = ("let len = %d + (i[%d] & 1) as usize; %s let mut a: [u8; %d] = bytes(i, 0); let mut d: [u8; %d] = bytes(i, 0); %s(&mut a, x.clone()); "
                "match %s::check_slice_mut(&mut d[..len]) { Ok(mut c) => c.write_%s(x), Err(_) => return false } %s") % (
            n, m, any_("x", ty.rust, m + 1), n, m, wr, s.name, nm, after)
        out.append(Ob("checked_write." + nm, m + 1 + ty.sz, body, "%sCheckedMut::write_%s" % (s.name, nm)))
    return out + far_checked(s, fields)


def views(s, fields=None):
    """every other way to the same fields: slices, checked slices, from_slice"""
    if isinstance(s, Struct):
        r, w = struct_items(s)
        if fields is not None:
            keep = {f.name for f in fields}
            r, w = [x for x in r if x[0] in keep], [x for x in w if x[0] in keep]
    else:
        r, w = enum_items(s)
    return from_slice(s) + slice_read(s, r) + slice_write(s, w) + checked(s, fields) + far_slices(s, r, w) + far_from(s)


def from_slice(s):
    n = s.nbytes
    m = n + 2
    lb, lens = _len(m)
    body = ("%s %s match <%s as BitfieldsDyn<%d>>::from_slice(&i[..len]) { Ok(v) => len >= %d && Val::same(&v, &<%s as Bitfields<%d>>::from_bytes(a)), "
            "Err(e) => len < %d && e.0 == len && e.1 == %d }") % (lens, _prefix(n), s.name, n, n, s.name, n, n, n)
    return [Ob("from_slice", m + lb, body, "from_slice")]


def from_vec(s, lens=None):
    n = s.nbytes
    out = []
    for ln in sorted(lens if lens is not None else {0, n - 1, n, n + 1, n + 3}):
        k = max(ln, 1)
        pre = "let mut v: Vec<u8> = Vec::with_capacity(%d); %s let r = <%s as BitfieldsDyn<%d>>::from_vec(&mut v);" % (
            max(ln, 1), " ".join("v.push(i[%d]);" % j for j in range(ln)), s.name, n)
        if ln >= n:
            post = "match r { Ok(x) => v.len() == %d && %s Val::same(&x, &<%s as Bitfields<%d>>::from_bytes(bytes(i, 0))), Err(_) => false }" % (
                ln - n, "".join("v[%d] == i[%d] && " % (j, n + j) for j in range(ln - n)), s.name, n)
        else:
            post = "match r { Ok(_) => false, Err(e) => e.0 == %d && e.1 == %d && v.len() == %d %s }" % (
                ln, n, ln, "".join("&& v[%d] == i[%d]" % (j, j) for j in range(ln)))
        out.append(Ob("from_vec.%d" % ln, k, pre + " let ok = " + post + "; core::mem::forget(v); ok", "from_vec"))
    return out


# ------------------------------------------------------------------ hex
def hex_fixed(s):
    n = s.nbytes
    out = []
    for fn, up in (("upper", "true"), ("lower", "false")):
        body = "%s let b = x.clone().into_bytes(); let h: [u8; %d] = x.into_hex_%s(); %s" % (
            any_("x", s.name, 0), 2 * n, fn,
            " && ".join("h[%d] == hexd(b[%d] >> 4, %s) && h[%d] == hexd(b[%d] & 15, %s)" % (2 * k, k, up, 2 * k + 1, k, up) for k in range(n)))
        out.append(Ob("into_hex_" + fn, s.sz, body, "into_hex_" + fn))
        body = "%s let w = <%s as Bitfields<%d>>::from_bytes(x.clone().into_bytes()); match <%s as BitfieldHex<%d, %d>>::from_hex(x.into_hex_%s()) { Ok(y) => Val::same(&y, &w), Err(_) => false }" % (
            any_("x", s.name, 0), s.name, n, s.name, 2 * n, n, fn)
        out.append(Ob("hex_roundtrip_" + fn, s.sz, body, "from_hex, into_hex_" + fn))
    body = "let h: [u8; %d] = bytes(i, 0); %s match <%s as BitfieldHex<%d, %d>>::from_hex(h) { Ok(y) => bad == %d && Val::same(&y, &<%s as Bitfields<%d>>::from_bytes(b)), Err(e) => bad < %d && e.1 == bad && e.0 == (h[bad] as char) }" % (
        2 * n, _hexspec(n, "h"), s.name, 2 * n, n, 2 * n, s.name, n, 2 * n)
    out.append(Ob("from_hex", 2 * n, body, "from_hex"))
    return out


def _hexspec(n, h):
    """bad = index of the first character that is no hex digit (2n if none), b = the decoded bytes"""
    return "let mut bad = %dusize; %s let b: [u8; %d] = [%s];" % (
        2 * n,
        " ".join("if !is_hex(%s[%d]) { bad = %d; }" % (h, k, k) for k in reversed(range(2 * n))),
        n, ", ".join("(unhex(%s[%d]) << 4) | unhex(%s[%d])" % (h, 2 * k, h, 2 * k + 1) for k in range(n)))


HEXRES = ("Ok(y) => %s && bad == %d && Val::same(&y, &<%s as Bitfields<%d>>::from_bytes(b)), "
          "Err(BitfieldHexDynError::Hex(e)) => %s && bad < %d && e.1 == bad && e.0 == (i[bad] as char), "
          "Err(BitfieldHexDynError::Length(e)) => %s && e.0 == len && e.1 == %d")


def hex_dyn(s, lens=None):
    n = s.nbytes
    h = 2 * n
    m = h + 2
    lb, ls = _len(m)
    q = "<%s as BitfieldHexDyn<%d, %d>>" % (s.name, h, n)
    res = HEXRES
    out = [Ob("from_hex_slice", m + lb, "%s %s match %s::from_hex_slice(&i[..len]) { %s }" % (
        ls, _hexspec(n, "i"), q, res % ("len >= %d" % h, h, s.name, n, "len >= %d" % h, h, "len < %d" % h, h)), "from_hex_slice")]
    for ln in sorted(lens if lens is not None else {h - 1, h + 1}):
        k = max(ln, h)
        body = "let len = %d; %s let mut v: Vec<u8> = Vec::with_capacity(%d); %s let ok = match %s::from_hex_vec(&mut v) { %s }; core::mem::forget(v); ok" % (
            ln, _hexspec(n, "i"), max(ln, 1), " ".join("v.push(i[%d]);" % j for j in range(ln)), q,
            res % ("len >= %d" % h, h, s.name, n, "len >= %d" % h, h, "len < %d" % h, h))
        out.append(Ob("from_hex_vec.%d" % ln, k, body, "from_hex_vec"))
    return out + far_hex(s)


# ------------------------------------------------------------------ Bitfields enums
def enum_into(e):
    body = "%s let mut b = [0u8; %d]; %s let g = x.into_bytes(); eqb(&g, &b)" % (any_("x", e.name, 0), e.nbytes, e.spec_enc())
    return [Ob("into_bytes", e.sz, body, "into_bytes")]


def enum_from(e):
    body = "let b: [u8; %d] = bytes(i, 0); let w: %s = %s; let g = <%s as Bitfields<%d>>::from_bytes(b); Val::same(&g, &w)" % (
        e.nbytes, e.name, e.spec_dec(), e.name, e.nbytes)
    return [Ob("from_bytes", e.nbytes, body, "from_bytes")]


def enum_roundtrip(e):
    body = "%s let y = <%s as Bitfields<%d>>::from_bytes(x.clone().into_bytes()); Val::kept(&x, &y)" % (fit_("x", e.name, 0), e.name, e.nbytes)
    return [Ob("roundtrip", e.sz, body, "into_bytes, from_bytes")]


def enum_id_fns(e):
    n = e.nbytes
    from layouts import get_expr, put_stmts
    out = [
        Ob("read_variant_id", n, "let b: [u8; %d] = bytes(i, 0); let w: u128 = %s; let g: %s = %s::read_variant_id(&b); g as u128 == w" % (n, get_expr(e.id_places()), e.id_ty, e.name), "read_variant_id"),
        Ob("write_variant_id", n + SIZE[e.id_ty], "let mut b: [u8; %d] = bytes(i, 0); let mut c = b; %s { let v: u128 = x as u128; %s } %s::write_variant_id(&mut c, x); eqb(&b, &c)" % (
            n, any_("x", e.id_ty, n), put_stmts(e.id_places()), e.name), "write_variant_id"),
        Ob("id", e.sz, "%s let w: %s = %s; let g: %s = x.id(); g == w" % (any_("x", e.name, 0), e.id_ty, enum_id(e, "&x"), e.id_ty), "id"),
    ]
    return out


def enum_id(e, x):
    return "match %s { %s }" % (x, ", ".join("%s => %s" % (e.pattern(v, "_"), "*_cid" if v.capture else "%d" % v.id) for v in e.variants))


def enum_fields(e):
    n = e.nbytes
    out = []
    for v in e.variants:
        for f in v.fields:
            nm = "%s_%s" % (snake(v.name), fname(v, f))
            out.append(Ob("read." + nm, n, "let b: [u8; %d] = bytes(i, 0); let w = %s; let g = %s::read_%s(&b); Val::same(&g, &w)" % (n, v.get_field(f), e.name, nm), "read_" + nm))
            out.append(Ob("write." + nm, n + f.ty.sz, "let mut b: [u8; %d] = bytes(i, 0); let mut c = b; %s %s %s::write_%s(&mut c, x); eqb(&b, &c)" % (
                n, any_("x", f.ty.rust, n), v.put_field(f, "x"), e.name, nm), "write_" + nm))
    return out


def enum_eq(e):
    body = "%s %s let w: %s = %s; (x == n) == (w == n)" % (any_("x", e.name, 0), any_("n", e.id_ty, e.sz), e.id_ty, enum_id(e, "&x"))
    return [Ob("eq", e.sz + SIZE[e.id_ty], body, "PartialEq::eq, id")]


def enum_ids(e):
    """C09: for each variant its encoding carries the assigned id and that id decodes to it"""
    return enum_id_fns(e)[2:] + enum_into(e) + enum_from(e)


# ------------------------------------------------------------------ BitfieldEnum
def penum(p):
    out = [
        Ob("from_primitive", 1, "let x = i[0]; let w: %s = %s; let g = %s::from_primitive(x); Val::same(&g, &w)" % (p.name, p.spec_from("x"), p.name), "from_primitive"),
        Ob("into_primitive", 1, "%s let w: u8 = %s; let g: u8 = x.into_primitive(); g == w" % (any_("x", p.name, 0), p.spec_into("&x")), "into_primitive"),
        Ob("prim_roundtrip", 1, "%s let y = %s::from_primitive(x.clone().into_primitive()); Val::same(&x, &y)" % (any_("x", p.name, 0), p.name), "into_primitive, from_primitive"),
    ]
    return out


def penum_eq(p):
    if not p.partial_eq:
        return []
    arms = ", ".join("%s => %s" % (p.pat(v, "_"), "false" if v is p.catch else "n == %d" % p.num[v[0]]) for v in p.variants)
    return [Ob("eq", 2, "%s let n = i[1]; let w = match &x { %s }; (x == n) == w" % (any_("x", p.name, 0), arms), "PartialEq::eq")]
