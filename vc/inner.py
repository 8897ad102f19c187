"""Contracts of functions inside the derive macro itself.

The macro crate is compiled as it is, from a copy of its sources with one module appended to a file (nothing is
dropped or rewritten), to LLVM IR.
A definition that shows the same failure through the macro has to confirm a refutation; a crate that the module no longer
fits (the functions are private and may be renamed or restructured) is reported as not under contract.
"""
import os
import shutil
import subprocess
import json

import build
import llvmvc
import obligations as O
from layouts import Arr, Enum, Field, PRIM, SIZE, Struct, Variant

MODULE = r"""
#[allow(warnings)]
mod vc_inner {
    use super::*;
    use core::mem::{ManuallyDrop, MaybeUninit};
    use core::ptr::addr_of_mut;
    fn u(i: &[u8], at: usize) -> usize {
        usize::from_le_bytes([i[at], i[at + 1], i[at + 2], i[at + 3], i[at + 4], i[at + 5], i[at + 6], i[at + 7]])
    }
    fn w(i: &[u8], at: usize) -> usize {
        i[at] as usize | (i[at + 1] as usize) << 8 | (i[at + 2] as usize) << 16
    }
    // a field of which only the range and the overlap are known: the functions under contract read nothing else
    fn field(s: usize, e: usize, o: OverlapOptions) -> ManuallyDrop<FieldInfo> {
        let mut f = MaybeUninit::<FieldInfo>::uninit();
        unsafe {
            let p = f.as_mut_ptr();
            addr_of_mut!((*p).attrs.bit_range).write(s..e);
            addr_of_mut!((*p).attrs.overlap).write(o);
            ManuallyDrop::new(f.assume_init())
        }
    }
    fn structure(fs: &[ManuallyDrop<FieldInfo>]) -> ManuallyDrop<StructInfo> {
        let mut s = MaybeUninit::<StructInfo>::uninit();
        unsafe {
            addr_of_mut!((*s.as_mut_ptr()).fields).write(Vec::from_raw_parts(fs.as_ptr() as *mut FieldInfo, fs.len(), fs.len()));
            ManuallyDrop::new(s.assume_init())
        }
    }
    fn enumeration(v: &[ManuallyDrop<StructInfo>; 3]) -> ManuallyDrop<EnumInfo> {
        let mut s = MaybeUninit::<EnumInfo>::uninit();
        unsafe {
            addr_of_mut!((*s.as_mut_ptr()).variants).write(Vec::from_raw_parts(v.as_ptr() as *mut StructInfo, 3, 3));
            ManuallyDrop::new(s.assume_init())
        }
    }
    fn opt(k: u8, n: usize) -> OverlapOptions {
        match k { 0 => OverlapOptions::None, 1 => OverlapOptions::Allow(n), _ => OverlapOptions::Redundant }
    }
%s
}
"""


class Inner:
    """`show` makes a definition from a model of the contract restricted by `small`, to confirm a refutation"""

    def __init__(self, name, about, k, body, small=None, show=None, helpers=""):
        self.name, self.about, self.k, self.body, self.small, self.show, self.helpers = name, about, k, body, small, show, helpers


def u(b, at):
    return int.from_bytes(bytes(b[at:at + 8]), "little")


def filler(name, n):
    """fields of n bits"""
    fs = []
    while n >= 8:
        k = min(n // 8, 32)
        fs.append(Field("%s%d" % (name, len(fs)), Arr(PRIM["u8"], k), 8 * k, "block"))
        n -= 8 * k
    if n:
        fs.append(Field(name + "r", "u8", n))
    return fs


def uint(w):
    return next(t for t in ("u8", "u16", "u32", "u64", "u128") if SIZE[t] * 8 >= w)


def two(m):
    """the definition with the two ranges of a model: to be rejected or not"""
    a, b, c, d = (u(m, 8 * j) for j in range(4))
    used = set(range(a, b)) | set(range(c, d))
    fill, at = [], 0
    while at < max(b, d):  # no other bit is left uncovered
        w = 0
        while at + w < max(b, d) and at + w not in used and w < 128:
            w += 1
        if w:
            fill.append('    #[bondrewd(bits = "%d..%d")] pub x%d: u128,\n' % (at, at + w, at))
        at += w or 1
    src = '#[derive(Bitfields)]\n#[bondrewd(default_endianness = "be")]\npub struct S {\n    #[bondrewd(bits = "%d..%d")] pub a: %s,\n    #[bondrewd(bits = "%d..%d")] pub b: %s,\n%s}\n' % (
        a, b, uint(b - a), c, d, uint(d - c), "".join(fill))
    return src, a < d and c < b


def one(m):
    """a structure with a field at the range of a model"""
    a, b = u(m, 0), u(m, 8)
    s = Struct("S", filler("x", a) + [Field("f", uint(b - a), b - a)], endian="be")
    return s, O.sizes(s) + O.into_bytes(s) + O.read(s, s.fields[-1:])


def overlapped(m):
    a, b, n, k = u(m, 0), u(m, 8), u(m, 32), m[40]
    fs = filler("x", a)
    at = 0
    for f in fs:
        f.place, at = (at, at + f.bits), at + f.bits
    fs.append(Field("f", uint(b - a), place=(a, b), overlap=n if k == 1 else 0, role="redundant" if k > 1 else None))
    if k > 1:
        fs.append(Field("g", uint(b - a), place=(a, b)))
    elif k == 1 and n:
        fs.append(Field("g", uint(n), place=(b - n, b)))
    s = Struct("S", fs, endian="be")
    return s, O.sizes(s)


def lengths(m):
    if len(m) == 48:
        v = [int.from_bytes(bytes(m[8 * j:8 * j + 3]), "little") for j in range(6)]
        return [v[1] - v[0], v[3] - v[2], v[5] - v[4]]
    return [u(m, 8) - u(m, 0)]


def long(m):
    """a structure of as many bits as the fields of a model have together"""
    s = Struct("S", filler("x", sum(lengths(m))), endian="be")
    return s, O.sizes(s)


def long_enum(m):
    """an enum with variants of the sizes of a model"""
    e = Enum("E", 8, [Variant("V%d" % j, filler("x", n - 8), j) for j, n in enumerate(lengths(m) + [9])], endian="be")
    return e, O.sizes(e)


def w(m, at):
    return int.from_bytes(bytes(m[at:at + 3]), "little")


def array(m, s, n, bits, arr):
    z = 1 << (m[40] % 5)
    role = (None, None, "reserve", "read_only")[m[41]]
    st = Struct("S", filler("x", s) + [Field("f", Arr(PRIM["u%d" % (8 * z)], n), bits, arr, role=role)], endian="be" if m[42] else "le")
    return st, O.into_bytes(st) + O.from_bytes_spec(st) + O.read(st, st.fields[-1:]) + O.write(st, st.fields[-1:])


def elements(m):
    return array(m, w(m, 16), w(m, 8), w(m, 8) * w(m, 24), "elem")


def blocks(m):
    return array(m, w(m, 16), w(m, 8), w(m, 24), "block")


def elements_of(m):
    return array(m, u(m, 0), u(m, 16), u(m, 8) - u(m, 0), "elem")


def blocks_of(m):
    return array(m, w(m, 0), w(m, 16), w(m, 8) - w(m, 0), "block")


RANGES = "let (a, b, c, d) = (u(i, 0), u(i, 8), u(i, 16), u(i, 24)); if !(a < b && c < d) { return true; }"
OVERLAP = RANGES + " let x = field(a, b, OverlapOptions::None); let y = field(c, d, OverlapOptions::None); x.overlapping(&y) == (a < d && c < b)"
SIX = "let (a, b, c, d, e, f) = (w(i, 0), w(i, 8), w(i, 16), w(i, 24), w(i, 32), w(i, 40)); if !(a < b && c < d && e < f) { return true; }"
THREE = SIX + " let fs = [field(a, b, OverlapOptions::None), field(c, d, OverlapOptions::None), field(e, f, OverlapOptions::None)];"
LOW = "b <= 4000 && b - a <= 128"
# what the array iterators copy without looking at it: an identifier and tokens as the compiler hands them out
ARRAY = r"""
    unsafe fn name() -> Ident { let mut z = MaybeUninit::<Ident>::uninit(); core::ptr::write_bytes(z.as_mut_ptr(), 2, 1); z.assume_init() }
    unsafe fn names() -> ManuallyDrop<FieldIdent> { ManuallyDrop::new(FieldIdent::Ident { ident: name(), name: name() }) }
    unsafe fn tokens() -> proc_macro2::TokenStream { MaybeUninit::<proc_macro2::TokenStream>::zeroed().assume_init() }
    fn number(z: usize) -> FieldDataType { FieldDataType::Number(z, NumberSignage::Unsigned, unsafe { tokens() }) }
    fn role(k: u8) -> ReserveFieldOption {
        match k { 0 => ReserveFieldOption::NotReserve, 1 => ReserveFieldOption::ReserveField, 2 => ReserveFieldOption::FakeReserveField, _ => ReserveFieldOption::ReadOnly }
    }
    fn order(k: u8) -> Endianness { if k == 0 { Endianness::Little } else { Endianness::Big } }
    fn kept(f: &FieldInfo, i: &[u8], z: usize) -> bool {
        f.ty.size() == z && core::mem::discriminant(&f.attrs.reserve) == core::mem::discriminant(&role(i[41])) && !f.attrs.capture_id
            && core::mem::discriminant(&*f.attrs.endianness) == core::mem::discriminant(&order(i[42]))
    }
    macro_rules! iter { ($t:ident, $i:ident, $id:ident, $en:ident, $z:ident $(, $f:ident = $v:expr)*) => { unsafe {
        let mut m = MaybeUninit::<$t>::uninit();
        let p = m.as_mut_ptr();
        $(addr_of_mut!((*p).$f).write($v);)*
        addr_of_mut!((*p).ty).write(number($z));
        addr_of_mut!((*p).reserve).write(role($i[41]));
        addr_of_mut!((*p).overlap).write(OverlapOptions::None);
        addr_of_mut!((*p).outer_ident).write(Box::from_raw(&mut *$id as *mut FieldIdent));
        addr_of_mut!((*p).endianness).write(Box::from_raw(&mut $en));
        ManuallyDrop::new(m.assume_init())
    } } }
    macro_rules! array { ($kind:ident, $s:ident, $e:ident, $n:ident, $i:ident, $id:ident, $en:ident, $sub:ident) => { unsafe {
        let mut m = MaybeUninit::<FieldInfo>::uninit();
        let p = m.as_mut_ptr();
        addr_of_mut!((*p).ident).write(Box::from_raw(&mut *$id as *mut FieldIdent));
        addr_of_mut!((*p).ty).write(FieldDataType::$kind(Box::from_raw(&mut *$sub as *mut SubFieldInfo), $n, tokens()));
        addr_of_mut!((*p).attrs.bit_range).write($s..$e);
        addr_of_mut!((*p).attrs.endianness).write(Box::from_raw(&mut $en));
        addr_of_mut!((*p).attrs.reserve).write(role($i[41]));
        addr_of_mut!((*p).attrs.overlap).write(OverlapOptions::None);
        addr_of_mut!((*p).attrs.capture_id).write(false);
        ManuallyDrop::new(m.assume_init())
    } } }
"""
SIZED = "let z = 1usize << (i[40] % 5); if i[41] > 3 || i[42] > 1 { return true; } let mut id = unsafe { names() }; let mut en = order(i[42]);"
ALL = [
    Inner("overlapping", "FieldInfo::overlapping: two fields without a declared overlap conflict if and only if their ranges share a bit, for all pairs of ranges", 32, OVERLAP,
          "a <= 16000 && c <= 16000 && b - a <= 128 && d - c <= 128", two),
    Inner("overlapping_declared", "FieldInfo::overlapping: a field with a declared overlap or a redundant one conflicts with none", 50,
          RANGES + " let (p, q) = (i[48], i[49]); if p == 0 && q == 0 { return true; } let x = field(a, b, opt(p, u(i, 32))); let y = field(c, d, opt(q, u(i, 40))); !x.overlapping(&y)"),
    Inner("bit_length", "FieldAttrs::bit_length: the length of the range", 32, RANGES + " let x = field(a, b, OverlapOptions::None); x.attrs.bit_length() == b - a", LOW, one),
    Inner("bit_size", "FieldInfo::bit_size: the length of the range less the declared overlap, nothing for a redundant field", 41,
          RANGES + " let n = u(i, 32); let k = i[40]; if k == 1 && n > b - a { return true; } let x = field(a, b, opt(k, n)); x.bit_size() == match k { 0 => b - a, 1 => b - a - n, _ => 0 }",
          LOW, overlapped),
    Inner("total_bits", "StructInfo::total_bits: the sum of the sizes of the fields, for three fields of any ranges below 2^24", 48,
          THREE + " structure(&fs).total_bits() == (b - a) + (d - c) + (f - e)", "b - a <= 5000 && d - c <= 5000 && f - e <= 5000", long),
    Inner("total_bytes", "StructInfo::total_bytes: the size in bits rounded up to bytes, for all sizes up to 2^50", 32,
          RANGES + " if a != 0 || b > 1 << 50 { return true; } let fs = [field(0, b, OverlapOptions::None)]; structure(&fs).total_bytes() == (b + 7) / 8", "b <= 15000", long),
    Inner("enum_bits", "EnumInfo::total_bits: the size of the biggest variant, for three variants of any size below 2^24", 48,
          THREE + " let v = [structure(&fs[..1]), structure(&fs[1..2]), structure(&fs[2..])]; enumeration(&v).total_bits() == (b - a).max(d - c).max(f - e)",
          "b - a <= 5000 && d - c <= 5000 && f - e <= 5000 && b - a > 8 && d - c > 8 && f - e > 8", long_enum),
    Inner("enum_bytes", "EnumInfo::total_bytes: the size in bits rounded up to bytes, for all sizes up to 2^50", 32,
          RANGES + " if a != 0 || b > 1 << 50 { return true; } let fs = [field(0, b, OverlapOptions::None), field(0, 1, OverlapOptions::None), field(0, 1, OverlapOptions::None)];"
          " let v = [structure(&fs[..1]), structure(&fs[1..2]), structure(&fs[2..])]; enumeration(&v).total_bytes() == (b + 7) / 8",
          "b <= 5000 && b > 8", long_enum),
    Inner("left_mask", "get_left_and_mask: n ones from the most significant bit on", 9, "let n = u(i, 0); let b = i[8] & 7; if n > 8 { return true; } (get_left_and_mask(n) >> b) & 1 == ((7 - b as usize) < n) as u8"),
    Inner("right_mask", "get_right_and_mask: n ones up to the least significant bit", 9, "let n = u(i, 0); let b = i[8] & 7; if n > 8 { return true; } (get_right_and_mask(n) >> b) & 1 == ((b as usize) < n) as u8"),
    Inner("bit_math", "BitMath::from_field: length, bit in the first byte, bits left in it, first byte, for all ranges", 32,
          RANGES + " let x = field(a, b, OverlapOptions::None); match BitMath::from_field(&x) { Ok(m) => m.into_tuple() == (b - a, a % 8, 8 - a % 8, a / 8), Err(_) => false }", LOW, one),
    Inner("be_start", "get_be_starting_index: the last byte less the bytes needed for the bits on the left of the rotation, an error if there are not as many, for all lengths below 2^16", 17,
          "let (n, last, r) = (u(i, 0), u(i, 8), i[16] as i8); if n >= 1 << 16 || last >= 1 << 16 { return true; } let d = n as i64 - r as i64; let need = if d <= 0 { 0 } else { (d as usize + 7) / 8 };"
          " match get_be_starting_index(n, r, last) { Ok(x) => need <= last && x == last - need, Err(e) => { core::mem::forget(e); need > last } }"),
    Inner("element_next", "ElementSubFieldIter::next: element k of n starts at the start of the array plus k widths and has one width, keeps type, role and endianness; the end after n; for all positions below 2^24", 43,
          "let (k, n, s, b) = (w(i, 0), w(i, 8), w(i, 16), w(i, 24)); " + SIZED + " let mut it = iter!(ElementSubFieldIter, i, id, en, z, range = k..n, starting_bit_index = s, element_bit_size = b);"
          " match it.next() { Some(f) => { let f = ManuallyDrop::new(f); let r = f.attrs.bit_range.clone(); k < n && r.start == s + k * b && r.end == r.start + b && it.range == (k + 1..n)"
          " && it.starting_bit_index == s && it.element_bit_size == b && kept(&f, i, z) } None => k >= n }",
          "k < n && n <= 32 && s <= 600 && b >= 1 && b <= 8 * z && n * b <= 2000", elements, ARRAY),
    Inner("block_next", "BlockSubFieldIter::next: a piece of the bits that do not fill whole elements first, else of one element, at the next free bit, until as many as elements; for all lengths below 2^24", 43,
          "let (t, n, s, b) = (w(i, 0), w(i, 8), w(i, 16), w(i, 24)); " + SIZED + " let g = if b & (8 * z - 1) != 0 { b & (8 * z - 1) } else { 8 * z }; if n > t || n != 0 && g > b { return true; }"
          " let mut it = iter!(BlockSubFieldIter, i, id, en, z, length = n, starting_bit_index = s, bit_length = b, total_bytes = t);"
          " match it.next() { Some(f) => { let f = ManuallyDrop::new(f); let r = f.attrs.bit_range.clone(); n > 0 && r.start == s && r.end == s + g && it.length == n - 1"
          " && it.starting_bit_index == s + g && it.bit_length == b - g && kept(&f, i, z) } None => n == 0 }",
          "n == t && n >= 1 && n <= 32 && s <= 600 && b > 8 * z * (n - 1) && b <= 8 * z * n && b <= 2000", blocks, ARRAY),
    Inner("elements", "FieldInfo::get_element_iter: all elements, from the first bit of the field on, each of its share of the bits", 43,
          "let (s, e, n) = (u(i, 0), u(i, 8), u(i, 16)); if !(s < e && n > 0) { return true; } " + SIZED + " let mut sub = ManuallyDrop::new(SubFieldInfo { ty: number(z) }); let f = array!(ElementArray, s, e, n, i, id, en, sub);"
          " match f.get_element_iter() { Ok(it) => { let it = ManuallyDrop::new(it); it.range == (0..n) && it.starting_bit_index == s && it.element_bit_size == (e - s) / n && it.ty.size() == z"
          " && core::mem::discriminant(&it.reserve) == core::mem::discriminant(&role(i[41])) && core::mem::discriminant(&*it.endianness) == core::mem::discriminant(&order(i[42])) } Err(e) => { core::mem::forget(e); false } }",
          "n <= 32 && s <= 600 && e - s <= 2000 && e - s == (e - s) / n * n && (e - s) / n <= 8 * z", elements_of, ARRAY),
    Inner("blocks", "FieldInfo::get_block_iter: as many pieces as elements, from the first bit of the field on, for all its bits, for all arrays of a length and bits below 2^24", 43,
          "let (s, e, n) = (w(i, 0), w(i, 8), w(i, 16)); if !(s < e && n > 0) { return true; } " + SIZED + " let mut sub = ManuallyDrop::new(SubFieldInfo { ty: number(z) }); let f = array!(BlockArray, s, e, n, i, id, en, sub);"
          " match f.get_block_iter() { Ok(it) => { let it = ManuallyDrop::new(it); it.length == n && it.total_bytes == n && it.starting_bit_index == s && it.bit_length == e - s && it.ty.size() == z"
          " && core::mem::discriminant(&it.reserve) == core::mem::discriminant(&role(i[41])) && core::mem::discriminant(&*it.endianness) == core::mem::discriminant(&order(i[42])) } Err(e) => { core::mem::forget(e); false } }",
          "n <= 32 && s <= 600 && e - s > 8 * z * (n - 1) && e - s <= 8 * z * n && e - s <= 2000", blocks_of, ARRAY),
]


def run(deps, work, names, timeout_ms=20000):
    """-> {"file", "proved": [names], "open": [(name, why)], "refuted": [(inner, model that a definition can show)], "why"}"""
    src = os.path.join(build.REPO, "bondrewd-derive", "src")
    out = {"proved": [], "open": [], "refuted": [], "why": None}
    dst = os.path.join(work, "inner")
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, dst)
    target = None
    for d, _, fs in os.walk(dst):
        for f in sorted(fs):
            if f.endswith(".rs") and "fn overlapping" in open(os.path.join(d, f)).read():
                target = os.path.join(d, f)
    if not target:
        out["why"] = "no function `overlapping` in the macro"
        return out
    base = open(target).read()
    mine = [x for x in ALL if x.name in names]

    def compile(some):
        fns = []
        for x in some:
            fns.append("    #[no_mangle] pub fn inner_%s(i: &[u8; %d]) -> bool { %s }" % (x.name, x.k, x.body))
            if x.small:
                fns.append("    #[no_mangle] pub fn inner_%s_small(i: &[u8; %d]) -> bool { %s }" % (x.name, x.k, small(x)))
        build.write(target, base + MODULE % "\n".join(sorted({x.helpers for x in some}) + fns))
        cmd = ["timeout", "200", "rustc", "--edition", "2021", os.path.join(dst, "lib.rs"), "--crate-name", "bondrewd_derive", "--crate-type", "proc-macro", "--cap-lints=warn", "-A", "warnings",
               "-C", "codegen-units=1", "-C", "opt-level=3", "-C", "overflow-checks=on", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-C", "prefer-dynamic", "-C", "panic=abort", "--emit=llvm-ir", "-o", dst + ".ll",
               "-L", "dependency=" + os.path.dirname(deps.rlib)] + [a for n, f in deps.host.items() for a in ("--extern", "%s=%s" % (n, f))] + ["--extern", "proc_macro"]
        for f in deps.features:
            cmd += ["--cfg", 'feature="%s"' % f]
        cmd += ["--cfg", 'feature="part_eq_enums"']
        r = subprocess.run(cmd, env=deps.env, capture_output=True, text=True)
        return r.returncode == 0, r.stderr

    ok, err = compile(mine)
    groups = [mine]
    if not ok:  # without those that do not fit any more
        groups = [[x] for x in mine] if len(mine) > 1 else []
        out["why"] = "the contracts of the macro's internals do not fit its code: " + err[-600:]
    for some in groups:
        if len(groups) > 1 or not ok:
            ok, _ = compile(some)
            if not ok:
                out["open"].append((some[0].name, "not under contract: does not fit the code"))
                continue
        mod = llvmvc.Module(open(dst + ".ll").read())

        def prove(name, k):
            try:
                return llvmvc.prove(engine(mod), "inner_" + name, k, timeout_ms)
            except Exception as e:
                return "undecided", None, "%s %s" % (type(e).__name__, str(e)[:200])
        for x in some:
            v, m, how = prove(x.name, x.k)
            if v == "proved":
                out["proved"].append((x.name, x.about, how))
                continue
            if v in ("refuted", "unknown") and x.show:
                v2, m2, how2 = prove(x.name + "_small", x.k)
                if v2 == "refuted" and m2 is not None:
                    out["refuted"].append((x, m2))
                    continue
            out["open"].append((x.name, "%s %s" % (v, how)))
    return out


EXTERNS = ("3fmt6format12format_inner", "5quote9___private8mk_ident", "13IdentFragment4span")


def engine(mod):
    e = llvmvc.Engine(mod)
    e.externs = EXTERNS
    return e


def small(x):
    """the contract restricted to what a definition can show"""
    names = SIX if x.k == 48 else "let (a, b, c, d) = (u(i, 0), u(i, 8), u(i, 16), u(i, 24)); if !(a < b && c < d) { return true; }"
    if x.helpers:
        names = x.body[:x.body.index("let mut id")]
    return "%s if !(%s) { return true; } %s" % (names, x.small, x.body)
