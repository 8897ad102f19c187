"""A verification-condition generator for LLVM IR, discharged by z3.

Input: an LLVM IR module that rustc emitted for a crate of proof obligations.  Each obligation is a
function `fn ob(i: &[u8; K]) -> bool`: it takes its universally quantified inputs from the K bytes,
calls the real function under contract and returns whether the contract's postcondition holds
(a violated precondition returns true).  The VC of an obligation is

    for all 8*K bits of input:  no panic (index, overflow, unwrap, explicit) is reached  and  result == 1

The generator executes the CFG symbolically in topological order with one guard per block (path
condition), one symbolic byte per memory byte and guarded stores, so paths are merged, not enumerated.
Loops have to be gone (rustc/LLVM unroll the constant-trip-count loops of the obligations); whatever
the generator does not understand raises Unsupported, which is never read as a verdict.

Poison-generating flags (nuw, nsw, exact, inbounds, disjoint, ...), llvm.assume and range/noundef
metadata are ignored: the code is safe Rust, so the unflagged meaning is the meaning.
"""
import re
import sys
import weakref

import z3

sys.setrecursionlimit(100000)


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
_type_cache = {}


class Ty:
    __slots__ = ("k", "bits", "n", "el", "fields", "packed", "_size", "_align")

    def __init__(self, k, **kw):
        self.k = k
        self.bits = kw.get("bits")
        self.n = kw.get("n")
        self.el = kw.get("el")
        self.fields = kw.get("fields")
        self.packed = kw.get("packed", False)
        self._size = self._align = None

    def align(self):
        if self._align is None:
            k = self.k
            if k == "int":
                b = (self.bits + 7) // 8
                a = 1
                while a < b:
                    a *= 2
                self._align = min(a, 16)
            elif k == "ptr":
                self._align = 8
            elif k == "float":
                self._align = self.bits // 8
            elif k == "array":
                self._align = self.el.align()
            elif k == "vector":
                a = 1
                while a < self.store():
                    a *= 2
                self._align = a
            elif k == "struct":
                self._align = 1 if self.packed else max([f.align() for f in self.fields] or [1])
            else:
                raise Unsupported("align of " + k)
        return self._align

    def store(self):
        k = self.k
        if k == "int":
            return (self.bits + 7) // 8
        if k == "vector":
            return (self.n * (64 if self.el.k == "ptr" else self.el.bits) + 7) // 8
        return self.size()

    def size(self):
        if self._size is None:
            k = self.k
            if k == "int":
                b = (self.bits + 7) // 8
                a = self.align()
                self._size = (b + a - 1) // a * a
            elif k == "ptr":
                self._size = 8
            elif k == "float":
                self._size = self.bits // 8
            elif k == "array":
                self._size = self.n * self.el.size()
            elif k == "vector":
                self._size = self.store()
            elif k == "struct":
                off = 0
                for f in self.fields:
                    if not self.packed:
                        a = f.align()
                        off = (off + a - 1) // a * a
                    off += f.size()
                a = self.align()
                self._size = (off + a - 1) // a * a
            else:
                raise Unsupported("size of " + k)
        return self._size

    def offset(self, i):
        off = 0
        for j, f in enumerate(self.fields):
            if not self.packed:
                a = f.align()
                off = (off + a - 1) // a * a
            if j == i:
                return off
            off += f.size()
        raise Unsupported("field")


INT = {}


def int_ty(b):
    t = INT.get(b)
    if t is None:
        t = INT[b] = Ty("int", bits=b)
    return t


PTR = Ty("ptr")
VOID = Ty("void")
FLOAT = {"half": Ty("float", bits=16), "float": Ty("float", bits=32), "double": Ty("float", bits=64)}

TOK = re.compile(
    r"""\s*(?:
    (?P<str>c"[^"]*")|
    (?P<qid>[%@]"[^"]*")|
    (?P<id>[%@][-\w.$]+)|
    (?P<num>0x[HKLMR]?[0-9A-Fa-f]+|-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)|
    (?P<meta>![\w.]*)|
    (?P<attr>\#\d+)|
    (?P<word>[A-Za-z_][\w.]*)|
    (?P<p>\.\.\.|[\[\](){}<>,=*:|])
    )""",
    re.X,
)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "":
                break
            raise Unsupported("token: " + s[i : i + 40])
        out.append(m.group(m.lastgroup))
        i = m.end()
    return out


class P:
    """token cursor"""

    __slots__ = ("t", "i")
    types = {}  # the named types of the module in use

    def __init__(self, toks, i=0):
        self.t = toks
        self.i = i

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise Unsupported("expected %s got %s in %s" % (x, y, " ".join(self.t)))

    def type(self):
        x = self.next()
        if x[0] == "i" and x[1:].isdigit():
            return int_ty(int(x[1:]))
        if x == "ptr":
            return PTR
        if x == "void":
            return VOID
        if x in FLOAT:
            return FLOAT[x]
        if x == "[":
            n = int(self.next())
            self.expect("x")
            el = self.type()
            self.expect("]")
            return Ty("array", n=n, el=el)
        if x == "<":
            if self.peek() == "{":
                self.next()
                fs = self.fields("}")
                self.expect(">")
                return Ty("struct", fields=fs, packed=True)
            n = int(self.next())
            self.expect("x")
            el = self.type()
            self.expect(">")
            return Ty("vector", n=n, el=el)
        if x == "{":
            return Ty("struct", fields=self.fields("}"))
        if x[0] == "%" and x in P.types:
            if isinstance(P.types[x], str):
                P.types[x] = P(tokenize(P.types[x])).type()
            return P.types[x]
        raise Unsupported("type " + x)

    def fields(self, end):
        fs = []
        if self.accept(end):
            return fs
        while True:
            fs.append(self.type())
            if self.accept(end):
                return fs
            self.expect(",")


ATTR_PAREN = {
    "sret", "align", "dereferenceable", "dereferenceable_or_null", "captures", "initializes", "range", "byval",
    "nofpclass", "memory", "allocsize", "elementtype", "inalloca", "byref", "preallocated", "alignstack", "vscale_range",
    "allockind", "target_mem0", "target_mem1", "dead_on_return",
}
ATTRS = {
    "noundef", "zeroext", "signext", "inreg", "noalias", "nocapture", "nofree", "nest", "returned", "nonnull",
    "swiftself", "swifterror", "immarg", "noext", "readonly", "writeonly", "readnone", "writable", "dead_on_unwind",
    "allocalign", "allocptr", "unnamed_addr", "local_unnamed_addr", "hot", "cold", "noundef", "fastcc", "tailcc", "coldcc",
    "dso_local", "internal", "private", "linkonce_odr", "weak", "hidden", "fast", "nnan", "ninf", "nsz", "arcp",
    "contract", "afn", "reassoc", "external",
}


def skip_attrs(p):
    while True:
        x = p.peek()
        if x in ATTR_PAREN:
            p.next()
            if p.peek() == "(":
                d = 0
                while True:
                    y = p.next()
                    if y == "(":
                        d += 1
                    elif y == ")":
                        d -= 1
                        if d == 0:
                            break
            elif x == "align":
                p.next()
        elif x in ATTRS:
            p.next()
        else:
            return


# ---------------------------------------------------------------- module
class Func:
    __slots__ = ("name", "params", "ret", "lines", "blocks", "order", "_parsed", "plans")

    def __init__(self, name, params, ret, lines):
        self.name = name
        self.params = params
        self.ret = ret
        self.lines = lines
        self.blocks = None
        self._parsed = None
        self.plans = {}


def clean(s):
    # strip trailing metadata attachments and comments
    j = s.find(", !")
    if j >= 0 and "metadata" not in s[:j]:
        s = s[:j]
    j = s.find(" ; ")
    if j >= 0 and '"' not in s[:j]:
        s = s[:j]
    return s


class Module:
    def __init__(self, text):
        self.funcs = {}
        self.globals = {}
        self.declares = {}
        self.aliases = {}
        self.types = {}
        lines = text.split("\n")
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("define "):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                self._define(l, lines[i + 1 : j])
                i = j
            elif l.startswith("%") and " = type " in l:
                name, t = l.split(" = type ", 1)
                self.types[name] = t
            elif l.startswith("@"):
                name = re.match(r'(@"[^"]*"|@[-\w.$]+) = ', l)
                if name:
                    if " alias " in l:
                        self.aliases[name.group(1)] = l[l.rindex("@") :].strip()
                    else:
                        self.globals[name.group(1)] = l[name.end() :]
            elif l.startswith("declare "):
                m = re.search(r'(@"[^"]*"|@[-\w.$]+)\(', l)
                if m:
                    self.declares[m.group(1)] = l
            i += 1
        self.gcache = {}

    def _define(self, header, body):
        m = re.search(r'(@"[^"]*"|@[-\w.$]+)\(', header)
        name = m.group(1)
        self.funcs[name] = Func(name, None, None, (header, body))

    def func(self, name):
        name = self.aliases.get(name, name)
        f = self.funcs.get(name)
        if f is None:
            return None
        if f.blocks is None:
            header, body = f.lines
            k = header.index(name + "(")
            pre = P(tokenize(header[len("define ") : k]))
            skip_attrs(pre)
            f.ret = pre.type()
            # find the params
            depth = 0
            q = k + len(name)
            for e in range(q, len(header)):
                if header[e] == "(":
                    depth += 1
                elif header[e] == ")":
                    depth -= 1
                    if depth == 0:
                        break
            p = P(tokenize(header[q + 1 : e]))
            f.params = []
            while p.peek() is not None:
                t = p.type()
                skip_attrs(p)
                nm = None
                if p.peek() is not None and p.peek()[0] == "%":
                    nm = p.next()
                else:
                    nm = "%" + str(len(f.params))
                f.params.append((t, nm))
                if not p.accept(","):
                    break
            blocks = {}
            order = []
            cur = None
            first_label = None
            pend = None
            for l in body:
                if not l.strip():
                    continue
                if not l.startswith(" "):
                    if l.startswith(";"):
                        continue
                    lab = re.match(r'("[^"]*"|[-\w.$]+):', l)
                    if not lab:
                        raise Unsupported("label " + l)
                    cur = "%" + lab.group(1)
                    blocks[cur] = []
                    order.append(cur)
                    continue
                s = l.strip()
                if s.startswith("#dbg"):
                    continue
                if cur is None:
                    cur = "%" + str(len(f.params))
                    blocks[cur] = []
                    order.append(cur)
                if pend is not None:
                    pend += " " + s
                    if s.startswith("]"):
                        blocks[cur].append(pend)
                        pend = None
                    continue
                if s.startswith("switch ") and s.rstrip().endswith("["):
                    pend = s
                    continue
                blocks[cur].append(s)
            f.blocks = blocks
            f.order = order
        return f


# ---------------------------------------------------------------- values
class Ptr:
    __slots__ = ("obj", "off")

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off  # python int, or z3 BV64


class PtrIte:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b


class FnPtr:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class PtrByte:
    """byte k of a stored pointer"""

    __slots__ = ("p", "k")

    def __init__(self, p, k):
        self.p = p
        self.k = k


class Obj:
    __slots__ = ("name", "size", "bytes", "const", "base", "__weakref__")
    counter = 0
    live = weakref.WeakValueDictionary()  # by base address

    def __init__(self, name, size, const=False):
        self.name = name
        self.size = size
        self.bytes = [None] * size
        self.const = const
        Obj.counter += 1
        self.base = Obj.counter
        Obj.live[self.base] = self


NULL = Obj("null", 0)
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)
B1 = z3.BitVecVal(1, 1)
B0 = z3.BitVecVal(0, 1)


def is_bv(x):
    return isinstance(x, z3.BitVecRef)


def conc(x):
    """python int of a constant bit-vector, else None"""
    if isinstance(x, z3.BitVecNumRef):
        return x.as_long()
    return None


class Engine:
    def __init__(self, mod, max_instrs=400000, max_iter=600):
        self.mod = mod
        P.types = mod.types
        self.externs = ()  # parts of the names of external functions of which only the frame is assumed
        self.max_iter = max_iter
        self.depth = 0
        self.max_instrs = max_instrs

    # ---- obligations
    def run(self, name, k):
        """VC of obligation `name` with k input bytes -> (fail: z3 Bool, input vars)"""
        self.fail = []
        self.n_instr = 0
        self.fresh = 0
        self.objs = {}
        self.panics = 0
        inp = Obj("input", k)
        ivars = [z3.BitVec("i%d" % j, 8) for j in range(k)]
        inp.bytes = list(ivars)
        f = self.mod.func("@" + name)
        if f is None:
            raise Unsupported("no function " + name)
        r = self.call(f, [Ptr(inp, 0)], TRUE)
        if r is None:
            ok = FALSE
        else:
            ok = r == z3.BitVecVal(1, r.size())
        if self.fail:
            return z3.Or(z3.Not(ok), *self.fail), ivars
        return z3.Not(ok), ivars

    def freshv(self, bits):
        self.fresh += 1
        return z3.BitVec("u%d" % self.fresh, bits)

    # ---- control flow
    def analyse(self, f):
        """block successors, reverse postorder and natural-loop structure of f (cached)"""
        if f._parsed is not None:
            return f._parsed
        succ = {b: self.successors(f.blocks[b][-1]) for b in f.order}
        defs = {}
        code = {}
        for b in f.order:
            ds = []
            cs = []
            for line in f.blocks[b]:
                toks = tokenize(clean(line))
                if len(toks) > 1 and toks[1] == "=":
                    ds.append(toks[0])
                cs.append(toks)
            defs[b] = ds
            code[b] = cs
        f._parsed = (succ, defs, code)
        return f._parsed

    def schedule(self, blocks, entry, succ, cut):
        """Reverse postorder of the region as a list of items: a block name, or (header, body set) for a
        loop.  `cut`: edges into this block are ignored (the header of the loop being executed)."""
        blocks = set(blocks)
        color = {}
        post = []
        stack = [(entry, iter(succ[entry]))]
        color[entry] = 1
        back = {}
        while stack:
            b, it = stack[-1]
            adv = False
            for s in it:
                if s not in blocks or s == cut:
                    continue
                c = color.get(s, 0)
                if c == 1:
                    back.setdefault(s, []).append(b)
                elif c == 0:
                    color[s] = 1
                    stack.append((s, iter(succ[s])))
                    adv = True
                    break
            if not adv:
                color[b] = 2
                post.append(b)
                stack.pop()
        rpo = post[::-1]
        if not back:
            return rpo
        pred = {}
        for b in rpo:
            for s in succ[b]:
                if s in blocks and s != cut:
                    pred.setdefault(s, []).append(b)
        loops = {}
        for h, tails in back.items():
            body = {h}
            work = list(tails)
            while work:
                x = work.pop()
                if x in body:
                    continue
                body.add(x)
                if x == entry and h != entry:
                    raise Unsupported("irreducible loop")
                work += pred.get(x, [])
            loops[h] = body
        # outermost loops of this region
        out = []
        inside = set()
        top = []
        for h in rpo:
            if h in loops and h not in inside:
                top.append(h)
                inside |= loops[h]
        # emit in an order where every predecessor outside a loop comes first: condense and sort
        owner = {}
        for h in top:
            for x in loops[h]:
                if x in owner and owner[x] != h:
                    raise Unsupported("irreducible loop")
                owner[x] = h
        done = set()
        items = {}
        for b in rpo:
            items.setdefault(owner.get(b, b), None)
        indeg = {k: 0 for k in items}
        edges = {k: set() for k in items}
        for b in rpo:
            for s in succ[b]:
                if s in blocks and s != cut:
                    x, y = owner.get(b, b), owner.get(s, s)
                    if x != y and y not in edges[x]:
                        if s != y:
                            raise Unsupported("irreducible loop")
                        edges[x].add(y)
                        indeg[y] += 1
        ready = [k for k in items if indeg[k] == 0]
        while ready:
            k = ready.pop(0)
            out.append((k, loops[k]) if k in loops and owner.get(k) == k else k)
            for y in edges[k]:
                indeg[y] -= 1
                if indeg[y] == 0:
                    ready.append(y)
        if len(out) != len(items):
            raise Unsupported("irreducible loop")
        return out

    def call(self, f, args, guard):
        env = {}
        for (t, nm), a in zip(f.params, args):
            env[nm] = a
        self.depth += 1
        if self.depth > 40:
            raise Unsupported("recursion")
        self.analyse(f)
        rets = []
        entry = f.order[0]
        edges = {entry: [(None, guard, None, None)]}
        self.region(f, f.order, entry, None, env, edges, rets)
        self.depth -= 1
        if not rets:
            return None
        v = rets[-1][1]
        for g, x in reversed(rets[:-1]):
            v = self.ite(g, x, v)
        return v

    def region(self, f, blocks, entry, cut, env, edges, rets):
        """Execute an acyclic-after-`cut` region.  edges: block -> incoming [(pred, guard, cond, env snapshot)]"""
        succ, defs, code = f._parsed
        key = (entry, cut)
        plan = f.plans.get(key)
        if plan is None:
            plan = f.plans[key] = self.schedule(blocks, entry, succ, cut)
        for item in plan:
            if isinstance(item, tuple):
                self.loop(f, item[0], item[1], env, edges, rets)
                continue
            self.block(f, item, code[item], env, edges, rets)

    def loop(self, f, h, body, env, edges, rets):
        succ, defs, code = f._parsed
        regs = [r for b in body for r in defs[b]]
        exits = []
        incoming = edges.pop(h, [])
        n = 0
        while True:
            incoming = [e for e in incoming if not z3.is_false(e[1])]
            if not incoming:
                break
            n += 1
            if n > self.max_iter:
                raise Unsupported("more than %d iterations of a loop in %s" % (self.max_iter, f.name))
            if n > 8:
                # a symbolic loop condition: ask whether another round is possible at all
                g = z3.simplify(z3.Or(*[e[1] for e in incoming]))
                if not z3.is_true(g) and n % 4 == 0:
                    s = z3.SolverFor("QF_BV")
                    s.set("timeout", 5000)
                    s.add(g)
                    if s.check() == z3.unsat:
                        break
            ed = {h: incoming}
            self.region(f, body, h, h, env, ed, rets)
            snap = {r: env[r] for r in regs if r in env}
            nxt = ed.pop(h, [])
            if nxt is incoming:
                nxt = []
            incoming = [(p, g, c, snap) for p, g, c, _ in nxt]
            for tgt, es in ed.items():
                if tgt in body:
                    continue
                for p, g, c, sn in es:
                    exits.append((tgt, p, g, c, snap if sn is None else {**snap, **sn}))
        for tgt, p, g, c, snap in exits:
            edges.setdefault(tgt, []).append((p, g, c, snap))
        # values defined in the loop and used after it
        for r in regs:
            v = None
            for tgt, p, g, c, snap in exits:
                if r in snap:
                    x = snap[r]
                    try:
                        v = x if v is None else self.ite(g, x, v)
                    except Unsupported:
                        v = None
                        break
            if v is not None:
                env[r] = v
            else:
                env.pop(r, None)

    def block(self, f, b, lines, env, edges, rets):
        incoming = edges.pop(b, None)
        if not incoming:
            return
        g = incoming[0][1] if len(incoming) == 1 else z3.simplify(z3.Or(*[x[1] for x in incoming]))
        if z3.is_false(g):
            return
        phis = []
        for toks in lines:
            self.n_instr += 1
            if self.n_instr > self.max_instrs:
                raise Unsupported("instruction budget")
            if len(toks) > 2 and toks[1] == "=" and toks[2] == "phi":
                p = P(toks, 3)
                phis.append((toks[0], self.op_phi(p, env, g, b, incoming, f)))
                continue
            if phis:
                for d, v in phis:
                    env[d] = v
                phis = []
            r = self.instr(toks, env, g, b, incoming, f)
            if r is None:
                continue
            kind = r[0]
            if kind == "br":
                for tgt, c in r[1]:
                    ng = g if c is None else z3.simplify(z3.And(g, c))
                    if z3.is_false(ng):
                        continue
                    edges.setdefault(tgt, []).append((b, ng, c, None))
            elif kind == "ret":
                rets.append((g, r[1]))
            break

    def successors(self, line):
        return re.findall(r'label (%"[^"]*"|%[-\w.$]+)', line)

    def ite(self, c, a, b):
        if a is b or a is None and b is None:
            return a
        if a is None or b is None:
            return a if b is None else b
        if isinstance(a, list):
            return [self.ite(c, x, y) for x, y in zip(a, b)]
        if is_bv(a) and is_bv(b):
            if a.eq(b):
                return a
            return z3.If(c, a, b)
        if isinstance(a, (Ptr, PtrIte, FnPtr)) or isinstance(b, (Ptr, PtrIte, FnPtr)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
                if isinstance(a.off, int) and isinstance(b.off, int) and a.off == b.off:
                    return a
                return Ptr(a.obj, z3.If(c, self.off(a), self.off(b)))
            return PtrIte(c, a, b)
        raise Unsupported("ite of %r %r" % (type(a), type(b)))

    def off(self, p):
        return z3.BitVecVal(p.off, 64) if isinstance(p.off, int) else p.off

    # ---- operands
    def operand(self, p, t, env):
        x = p.next()
        if x[0] == "%":
            try:
                return env[x]
            except KeyError:
                # defined on a path whose guard folded to false
                return self.undef(t)
        return self.constant(p, t, x)

    def undef(self, t):
        if t.k in ("int", "float"):
            return self.freshv(t.bits)
        if t.k == "ptr":
            return Ptr(NULL, 0)
        if t.k in ("array", "vector"):
            return [self.undef(t.el) for _ in range(t.n)]
        if t.k == "struct":
            return [self.undef(f) for f in t.fields]
        raise Unsupported("undef " + t.k)

    def constant(self, p, t, x):
        if t.k == "int":
            if x == "true":
                return z3.BitVecVal(1, t.bits)
            if x == "false":
                return z3.BitVecVal(0, t.bits)
            if x == "zeroinitializer":
                return z3.BitVecVal(0, t.bits)
            if x in ("undef", "poison"):
                return self.freshv(t.bits)
            if x == "ptrtoint":
                raise Unsupported("ptrtoint const")
            if re.match(r"-?\d+$", x):
                return z3.BitVecVal(int(x), t.bits)
            raise Unsupported("int const " + x)
        if t.k == "float":
            if x in ("undef", "poison"):
                return self.freshv(t.bits)
            if x == "zeroinitializer":
                return z3.BitVecVal(0, t.bits)
            import struct as st

            if x.startswith("0x"):
                v = int(x, 16)
                if t.bits == 64:
                    return z3.BitVecVal(v, 64)
                d = st.unpack(">d", v.to_bytes(8, "big"))[0]
                return z3.BitVecVal(int.from_bytes(st.pack(">f", d), "big"), 32)
            d = float(x)
            return z3.BitVecVal(int.from_bytes(st.pack(">d" if t.bits == 64 else ">f", d), "big"), t.bits)
        if t.k == "ptr":
            if x == "null" or x in ("undef", "poison", "zeroinitializer"):
                return Ptr(NULL, 0)
            if x[0] == "@":
                return self.global_ptr(x)
            if x == "getelementptr":
                while p.peek() in ("inbounds", "nuw", "nusw"):
                    p.next()
                if p.accept("inrange"):
                    while p.next() != ")":
                        pass
                p.expect("(")
                bt = p.type()
                p.expect(",")
                p.type()
                base = self.constant(p, PTR, p.next())
                idx = []
                while p.accept(","):
                    it = p.type()
                    idx.append(self.constant(p, it, p.next()))
                p.expect(")")
                return self.gep(base, bt, idx)
            if x == "inttoptr":
                p.expect("(")
                it = p.type()
                v = self.constant(p, it, p.next())
                p.expect("to")
                p.type()
                p.expect(")")
                c = conc(v)
                return Ptr(NULL, c if c is not None else v)
            raise Unsupported("ptr const " + x)
        if t.k in ("array", "vector"):
            if x in ("undef", "poison"):
                return self.undef(t)
            if x == "zeroinitializer":
                return [self.constant(p, t.el, "zeroinitializer") for _ in range(t.n)]
            if x == "splat":
                p.expect("(")
                et = p.type()
                v = self.constant(p, et, p.next())
                p.expect(")")
                return [v] * t.n
            if x[:2] == 'c"':
                return [z3.BitVecVal(b, 8) for b in cstr(x)]
            if x in ("[", "<"):
                out = []
                while True:
                    et = p.type()
                    out.append(self.constant(p, et, p.next()))
                    if p.accept("]") or p.accept(">"):
                        return out
                    p.expect(",")
            raise Unsupported("array const " + x)
        if t.k == "struct":
            if x in ("undef", "poison"):
                return self.undef(t)
            if x == "zeroinitializer":
                return [self.constant(p, f, "zeroinitializer") for f in t.fields]
            packed = False
            if x == "<":
                p.expect("{")
                packed = True
            elif x != "{":
                raise Unsupported("struct const " + x)
            out = []
            if not p.accept("}"):
                while True:
                    et = p.type()
                    out.append(self.constant(p, et, p.next()))
                    if p.accept("}"):
                        break
                    p.expect(",")
            if packed:
                p.expect(">")
            return out
        raise Unsupported("const of " + t.k)

    def global_ptr(self, name):
        name = self.mod.aliases.get(name, name)
        if name in self.mod.funcs or name in self.mod.declares:
            return FnPtr(name)
        o = self.objs.get(name)
        if o is None:
            text = self.mod.globals.get(name)
            if text is None:
                raise Unsupported("global " + name)
            text = clean(text)
            p = P(tokenize(text))
            while p.peek() not in ("constant", "global"):
                p.next()
            isc = p.next() == "constant"
            t = p.type()
            o = Obj(name, t.size(), isc)
            self.objs[name] = o
            v = self.constant(p, t, p.next())
            self.write(o, 0, t, v, TRUE, init=True)
        return Ptr(o, 0)

    def gep(self, base, bt, idx):
        if isinstance(base, PtrIte):
            return PtrIte(base.c, self.gep(base.a, bt, idx), self.gep(base.b, bt, idx))
        if isinstance(base, FnPtr):
            raise Unsupported("gep fn")
        off = base.off
        t = None
        for j, ix in enumerate(idx):
            if j == 0:
                scale = bt.size()
                t = bt
            elif t.k in ("array", "vector"):
                scale = t.el.size()
                t = t.el
            elif t.k == "struct":
                c = conc(ix)
                off = self.addoff(off, t.offset(c))
                t = t.fields[c]
                continue
            else:
                raise Unsupported("gep into " + t.k)
            c = conc(ix)
            if c is not None:
                b = ix.size()
                if c >= 1 << (b - 1):
                    c -= 1 << b
                off = self.addoff(off, c * scale)
            else:
                x = ix if ix.size() == 64 else z3.SignExt(64 - ix.size(), ix)
                off = self.addoff(off, x * z3.BitVecVal(scale, 64))
        return Ptr(base.obj, off)

    def addoff(self, a, b):
        if isinstance(a, int) and isinstance(b, int):
            return a + b
        if isinstance(a, int):
            a = z3.BitVecVal(a, 64)
        if isinstance(b, int):
            b = z3.BitVecVal(b, 64)
        r = z3.simplify(a + b)
        c = conc(r)
        if c is not None:
            return c - (1 << 64) if c >> 63 else c
        return r

    # ---- memory
    def flatten(self, t, v):
        """list of (offset, byte value)"""
        if t.k in ("int", "float"):
            n = (t.bits + 7) // 8
            if t.bits % 8:
                v = z3.ZeroExt(n * 8 - t.bits, v)
            if n == 1:
                return [(0, v)]
            c = conc(v)
            if c is not None:
                return [(k, z3.BitVecVal((c >> (8 * k)) & 255, 8)) for k in range(n)]
            return [(k, z3.simplify(z3.Extract(8 * k + 7, 8 * k, v))) for k in range(n)]
        if t.k == "ptr":
            return [(k, PtrByte(v, k)) for k in range(8)]
        if t.k == "array":
            sz = t.el.size()
            out = []
            for j, x in enumerate(v):
                out += [(j * sz + o, y) for o, y in self.flatten(t.el, x)]
            return out
        if t.k == "vector":
            if t.el.k == "int" and t.el.bits % 8:
                raise Unsupported("vector of i%d in memory" % t.el.bits)
            sz = 8 if t.el.k == "ptr" else t.el.bits // 8
            out = []
            for j, x in enumerate(v):
                out += [(j * sz + o, y) for o, y in self.flatten(t.el, x)]
            return out
        if t.k == "struct":
            out = []
            for j, x in enumerate(v):
                o0 = t.offset(j)
                out += [(o0 + o, y) for o, y in self.flatten(t.fields[j], x)]
            return out
        raise Unsupported("flatten " + t.k)

    def write(self, obj, off, t, v, guard, init=False):
        bs = self.flatten(t, v)
        self.write_bytes(obj, off, bs, guard, init)

    def write_bytes(self, obj, off, bs, guard, init=False):
        if obj is NULL:
            if not z3.is_false(z3.simplify(guard)):
                if bs:
                    self.fail.append(guard)
            return
        if obj.const and not init:
            raise Unsupported("store to constant")
        tr = init or z3.is_true(guard)
        if isinstance(off, int):
            for o, y in bs:
                k = off + o
                if k < 0 or k >= obj.size:
                    raise Unsupported("store out of object")
                if tr:
                    obj.bytes[k] = y
                else:
                    obj.bytes[k] = self.bite(guard, y, obj.bytes[k])
            return
        for o, y in bs:
            # a write anywhere else in the object's buffer breaks every frame condition
            self.fail.append(z3.And(guard, z3.UGE(off + z3.BitVecVal(o, 64), z3.BitVecVal(obj.size, 64))))
            for k in range(obj.size):
                c = z3.And(guard, off + z3.BitVecVal(o, 64) == z3.BitVecVal(k, 64))
                obj.bytes[k] = self.bite(c, y, obj.bytes[k])

    def bite(self, c, a, b):
        if b is None or a is b:
            return a
        if a is None:
            return b
        if isinstance(a, PtrByte) or isinstance(b, PtrByte):
            if isinstance(a, PtrByte) and isinstance(b, PtrByte) and a.k == b.k:
                return PtrByte(self.ite(c, a.p, b.p), a.k)
            # one of the two is dead data of another type; keep an explicit choice
            return ChoiceByte(c, a, b)
        if isinstance(a, ChoiceByte) or isinstance(b, ChoiceByte):
            return ChoiceByte(c, a, b)
        if a.eq(b):
            return a
        return z3.If(c, a, b)

    def read_byte(self, obj, off, guard):
        if isinstance(off, int):
            if off < 0 or off >= obj.size:
                if obj is NULL:
                    if not z3.is_false(z3.simplify(guard)):
                        self.fail.append(guard)
                    return self.freshv(8)
                raise Unsupported("load out of object " + obj.name)
            b = obj.bytes[off]
            if b is None:
                b = obj.bytes[off] = self.freshv(8)
            return b
        v = self.freshv(8)
        inb = []
        for k in range(obj.size):
            b = obj.bytes[k]
            if b is None:
                b = obj.bytes[k] = self.freshv(8)
            if not is_bv(b):
                raise Unsupported("symbolic load of pointer byte")
            v = z3.If(off == z3.BitVecVal(k, 64), b, v)
        return v

    def resolve(self, b, t_is_ptr):
        if isinstance(b, ChoiceByte):
            a = self.resolve(b.a, t_is_ptr)
            c = self.resolve(b.b, t_is_ptr)
            if t_is_ptr:
                if isinstance(a, PtrByte) and not isinstance(c, PtrByte):
                    return a
                if isinstance(c, PtrByte) and not isinstance(a, PtrByte):
                    return c
                if isinstance(a, PtrByte) and isinstance(c, PtrByte):
                    return PtrByte(self.ite(b.c, a.p, c.p), a.k)
                return z3.If(b.c, a, c)
            if isinstance(a, PtrByte):
                return c
            if isinstance(c, PtrByte):
                return a
            return z3.If(b.c, a, c)
        return b

    def read(self, ptr, t, guard):
        if isinstance(ptr, PtrIte):
            return self.ite(ptr.c, self.read(ptr.a, t, z3.And(guard, ptr.c)), self.read(ptr.b, t, z3.And(guard, z3.Not(ptr.c))))
        if isinstance(ptr, FnPtr):
            raise Unsupported("load fn")
        obj, off = ptr.obj, ptr.off
        if t.k in ("int", "float"):
            n = (t.bits + 7) // 8
            bs = [self.resolve(self.read_byte(obj, self.addoff(off, k), guard), False) for k in range(n)]
            if any(isinstance(b, PtrByte) for b in bs):
                if t.bits == 64 and all(isinstance(b, PtrByte) and b.k == k for k, b in enumerate(bs)):
                    return self.ptrtoint(bs[0].p)
                raise Unsupported("int load of pointer")
            v = bs[0] if n == 1 else z3.simplify(z3.Concat(*bs[::-1]))
            if t.bits != n * 8:
                v = z3.simplify(z3.Extract(t.bits - 1, 0, v))
            return v
        if t.k == "ptr":
            bs = [self.resolve(self.read_byte(obj, self.addoff(off, k), guard), True) for k in range(8)]
            if isinstance(bs[0], PtrByte):
                if all(isinstance(b, PtrByte) and b.k == k for k, b in enumerate(bs)):
                    return bs[0].p
                raise Unsupported("mixed pointer load")
            return self.inttoptr(z3.simplify(cat(bs[::-1])))
        if t.k == "array":
            sz = t.el.size()
            return [self.read(Ptr(obj, self.addoff(off, j * sz)), t.el, guard) for j in range(t.n)]
        if t.k == "vector":
            if t.el.k == "int" and t.el.bits % 8:
                raise Unsupported("vector load")
            sz = 8 if t.el.k == "ptr" else t.el.bits // 8
            return [self.read(Ptr(obj, self.addoff(off, j * sz)), t.el, guard) for j in range(t.n)]
        if t.k == "struct":
            return [self.read(Ptr(obj, self.addoff(off, t.offset(j))), ft, guard) for j, ft in enumerate(t.fields)]
        raise Unsupported("load " + t.k)

    def store(self, ptr, t, v, guard):
        if isinstance(ptr, PtrIte):
            self.store(ptr.a, t, v, z3.simplify(z3.And(guard, ptr.c)))
            self.store(ptr.b, t, v, z3.simplify(z3.And(guard, z3.Not(ptr.c))))
            return
        if z3.is_false(guard):
            return
        self.write(ptr.obj, ptr.off, t, v, guard)

    def ptrtoint(self, p):
        if isinstance(p, PtrIte):
            return z3.If(p.c, self.ptrtoint(p.a), self.ptrtoint(p.b))
        if isinstance(p, FnPtr):
            raise Unsupported("ptrtoint fn")
        base = 0 if p.obj is NULL else p.obj.base << 32
        return z3.simplify(z3.BitVecVal(base, 64) + self.off(p))

    def inttoptr(self, a):
        """the pointer an address stands for: addresses are object number << 32 plus offset"""
        c = conc(a)
        if c is not None:
            o = Obj.live.get(c >> 32)
            if o is None or o is NULL:
                return Ptr(NULL, c)
            return Ptr(o, c & 0xFFFFFFFF)
        if z3.is_app_of(a, z3.Z3_OP_ITE):
            x, y = self.inttoptr(a.arg(1)), self.inttoptr(a.arg(2))
            return PtrIte(a.arg(0), x, y)
        if z3.is_app_of(a, z3.Z3_OP_BADD):
            for k in range(a.num_args()):
                c = conc(a.arg(k))
                o = Obj.live.get(c >> 32) if c is not None else None
                if o is not None and o is not NULL:
                    return Ptr(o, z3.simplify(a - z3.BitVecVal(o.base << 32, 64)))
        return Ptr(NULL, a)

    def copy(self, dst, src, n, guard):
        """memcpy / memmove of n bytes"""
        if n == 0:
            return
        if isinstance(src, PtrIte):
            self.copy(dst, src.a, n, z3.simplify(z3.And(guard, src.c)))
            self.copy(dst, src.b, n, z3.simplify(z3.And(guard, z3.Not(src.c))))
            return
        if isinstance(dst, PtrIte):
            self.copy(dst.a, src, n, z3.simplify(z3.And(guard, dst.c)))
            self.copy(dst.b, src, n, z3.simplify(z3.And(guard, z3.Not(dst.c))))
            return
        if z3.is_false(guard):
            return
        bs = []
        for k in range(n):
            o = self.addoff(src.off, k)
            bs.append((k, self.read_byte(src.obj, o, guard)))
        self.write_bytes(dst.obj, dst.off, bs, guard)

    # ---- instructions
    def instr(self, toks, env, g, block, incoming, f):
        p = P(toks)
        dest = None
        if len(p.t) > 1 and p.t[1] == "=":
            dest = p.next()
            p.next()
        op = p.next()
        if op in ("tail", "musttail", "notail"):
            op = p.next()
        h = getattr(self, "op_" + op, None)
        if h is None:
            if op in BINOPS:
                v = self.binop(op, p, env)
            elif op in CASTS:
                v = self.cast(op, p, env)
            elif op in FBIN or op in ("uitofp", "sitofp"):
                v = self.floating(op, p, env)
            else:
                raise Unsupported("op " + op)
        else:
            v = h(p, env, g, block, incoming, f)
            if isinstance(v, tuple):
                return v
        if dest is not None:
            env[dest] = v
        return None

    def binop(self, op, p, env):
        while p.peek() in ("nuw", "nsw", "exact", "disjoint", "samesign"):
            p.next()
        t = p.type()
        a = self.operand(p, t, env)
        p.expect(",")
        b = self.operand(p, t, env)
        fn = BINOPS[op]
        if t.k == "vector":
            return [z3.simplify(fn(x, y)) for x, y in zip(a, b)]
        return z3.simplify(fn(a, b))

    def cast(self, op, p, env):
        while p.peek() in ("nuw", "nsw", "nneg"):
            p.next()
        t = p.type()
        a = self.operand(p, t, env)
        p.expect("to")
        t2 = p.type()
        if op == "bitcast":
            if t.k in ("int", "float") and t2.k in ("int", "float"):
                return a
            fl = self.flat_bits(t, a)
            return self.unflat_bits(t2, fl)
        if op == "ptrtoint":
            v = self.ptrtoint(a)
            return v if t2.bits == 64 else z3.simplify(z3.Extract(t2.bits - 1, 0, v))
        if op == "inttoptr":
            return self.inttoptr(a)

        def one(x, b1, b2):
            if op == "trunc":
                return z3.simplify(z3.Extract(b2 - 1, 0, x))
            if op == "zext":
                return z3.simplify(z3.ZeroExt(b2 - b1, x))
            if op == "sext":
                return z3.simplify(z3.SignExt(b2 - b1, x))
            raise Unsupported("cast " + op)

        if t.k == "vector":
            return [one(x, t.el.bits, t2.el.bits) for x in a]
        return one(a, t.bits, t2.bits)

    def floating(self, op, p, env):
        """IEEE arithmetic on doubles, which are kept as their bits"""
        while p.peek() in ("nneg", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"):
            p.next()
        t = p.type()
        a = self.operand(p, t, env)
        if op in FBIN:
            p.expect(",")
            b = self.operand(p, t, env)
            if t.k != "float" or t.bits not in FSORT:
                raise Unsupported(op)
            c = conc(b)
            self.fp = True
            if op == "fdiv" and t.bits == 64 and c is not None and c % (1 << 52) == 0 and 923 <= c >> 52 <= 1123:  # by a power of two: times its inverse
                op, b = "fmul", z3.BitVecVal((2046 - (c >> 52)) << 52, 64)
            return from_fp(FBIN[op](z3.RNE(), as_fp(a), as_fp(b)))
        p.expect("to")
        self.fp = True
        t2 = p.type()
        if t.k != "int" or t2.k != "float" or t2.bits not in FSORT:
            raise Unsupported(op)
        return from_fp((z3.fpUnsignedToFP if op == "uitofp" else z3.fpSignedToFP)(z3.RNE(), a, FSORT[t2.bits]()))

    def flat_bits(self, t, a):
        if t.k in ("int", "float"):
            return a
        if t.k == "vector":
            return a[0] if len(a) == 1 else z3.simplify(z3.Concat(*a[::-1]))
        raise Unsupported("bitcast from " + t.k)

    def unflat_bits(self, t, v):
        if t.k in ("int", "float"):
            return v
        if t.k == "vector" and t.el.k in ("int", "float"):
            b = t.el.bits
            return [z3.simplify(z3.Extract(b * k + b - 1, b * k, v)) for k in range(t.n)]
        raise Unsupported("bitcast to " + t.k)

    def op_icmp(self, p, env, g, *_):
        while p.peek() in ("samesign",):
            p.next()
        cc = p.next()
        t = p.type()
        a = self.operand(p, t, env)
        p.expect(",")
        b = self.operand(p, t, env)

        def one(a, b):
            if not is_bv(a) or not is_bv(b):
                a, b = self.ptrtoint(a), self.ptrtoint(b)
            c = z3.simplify(ICMP[cc](a, b))
            if z3.is_true(c):
                return B1
            if z3.is_false(c):
                return B0
            return z3.If(c, B1, B0)

        if t.k == "vector":
            return [one(x, y) for x, y in zip(a, b)]
        return one(a, b)

    def cond(self, v):
        """z3 Bool of an i1"""
        c = conc(v)
        if c is not None:
            return TRUE if c else FALSE
        return z3.simplify(v == B1)

    def op_select(self, p, env, g, *_):
        while p.peek() in ATTRS:
            p.next()
        ct = p.type()
        c = self.operand(p, ct, env)
        p.expect(",")
        t = p.type()
        a = self.operand(p, t, env)
        p.expect(",")
        t = p.type()
        b = self.operand(p, t, env)
        if ct.k == "vector":
            return [self.sel(x, y, z) for x, y, z in zip(c, a, b)]
        return self.sel(c, a, b)

    def sel(self, c, a, b):
        cc = self.cond(c)
        if z3.is_true(cc):
            return a
        if z3.is_false(cc):
            return b
        return self.ite(cc, a, b)

    def op_phi(self, p, env, g, block, incoming, f):
        t = p.type()
        vals = {}
        while True:
            p.expect("[")
            at = p.i
            # skip the value; it is evaluated per incoming edge, in that edge's environment
            d = 0
            while d > 0 or p.peek() != ",":
                x = p.next()
                if x in "[<{(":
                    d += 1
                elif x in "]>})":
                    d -= 1
            p.expect(",")
            lab = p.next()
            p.expect("]")
            vals[lab] = at
            if not p.accept(","):
                break
        out = None
        first = True
        for b, ng, c, snap in incoming:
            e = env
            if snap is not None:
                x = p.t[vals[b]]
                if x[0] == "%" and x in snap:
                    e = snap
            v = self.operand(P(p.t, vals[b]), t, e)
            if first:
                out = v
                first = False
            else:
                out = self.ite(ng, v, out)
        return out

    def op_freeze(self, p, env, *_):
        t = p.type()
        return self.operand(p, t, env)

    def op_br(self, p, env, g, *_):
        if p.accept("label"):
            return ("br", [(p.next(), None)])
        t = p.type()
        c = self.cond(self.operand(p, t, env))
        p.expect(",")
        p.expect("label")
        a = p.next()
        p.expect(",")
        p.expect("label")
        b = p.next()
        if z3.is_true(c):
            return ("br", [(a, None)])
        if z3.is_false(c):
            return ("br", [(b, None)])
        if a == b:
            return ("br", [(a, None)])
        return ("br", [(a, c), (b, z3.Not(c))])

    def op_switch(self, p, env, g, *_):
        t = p.type()
        v = self.operand(p, t, env)
        p.expect(",")
        p.expect("label")
        d = p.next()
        p.expect("[")
        tg = {}
        order = []
        allc = []
        while not p.accept("]"):
            ct = p.type()
            c = self.constant(p, ct, p.next())
            p.expect(",")
            p.expect("label")
            lab = p.next()
            e = z3.simplify(v == c)
            allc.append(e)
            if lab not in tg:
                tg[lab] = []
                order.append(lab)
            tg[lab].append(e)
        out = []
        dc = z3.simplify(z3.Not(z3.Or(*allc))) if allc else TRUE
        if d in tg:
            tg[d].append(dc)
        else:
            order.append(d)
            tg[d] = [dc]
        for lab in order:
            out.append((lab, z3.simplify(z3.Or(*tg[lab]))))
        return ("br", out)

    def op_ret(self, p, env, g, *_):
        t = p.type()
        if t.k == "void":
            return ("ret", None)
        return ("ret", self.operand(p, t, env))

    def op_unreachable(self, p, env, g, *_):
        self.fail.append(g)
        return ("dead",)

    def op_alloca(self, p, env, g, block, incoming, f):
        t = p.type()
        n = 1
        if p.accept(","):
            if p.peek() != "align":
                raise Unsupported("alloca n")
        return Ptr(Obj("alloca", t.size()), 0)

    def op_load(self, p, env, g, *_):
        while p.peek() in ("volatile", "atomic"):
            raise Unsupported("volatile load")
        t = p.type()
        p.expect(",")
        p.type()
        ptr = self.operand(p, PTR, env)
        return self.read(ptr, t, g)

    def op_store(self, p, env, g, *_):
        if p.peek() in ("volatile", "atomic"):
            raise Unsupported("volatile store")
        t = p.type()
        v = self.operand(p, t, env)
        p.expect(",")
        p.type()
        ptr = self.operand(p, PTR, env)
        self.store(ptr, t, v, g)

    def op_getelementptr(self, p, env, *_):
        while p.peek() in ("inbounds", "nuw", "nusw"):
            p.next()
        bt = p.type()
        p.expect(",")
        p.type()
        base = self.operand(p, PTR, env)
        idx = []
        while p.accept(","):
            it = p.type()
            idx.append(self.operand(p, it, env))
        return self.gep(base, bt, idx)

    def op_extractvalue(self, p, env, *_):
        t = p.type()
        v = self.operand(p, t, env)
        while p.accept(","):
            v = v[int(p.next())]
        return v

    def op_insertvalue(self, p, env, *_):
        t = p.type()
        v = self.operand(p, t, env)
        p.expect(",")
        t2 = p.type()
        x = self.operand(p, t2, env)
        path = []
        while p.accept(","):
            path.append(int(p.next()))

        def ins(v, path):
            v = list(v)
            v[path[0]] = x if len(path) == 1 else ins(v[path[0]], path[1:])
            return v

        return ins(v, path)

    def op_extractelement(self, p, env, *_):
        t = p.type()
        v = self.operand(p, t, env)
        p.expect(",")
        t2 = p.type()
        i = conc(self.operand(p, t2, env))
        if i is None:
            raise Unsupported("extractelement symbolic")
        return v[i]

    def op_insertelement(self, p, env, *_):
        t = p.type()
        v = list(self.operand(p, t, env))
        p.expect(",")
        t2 = p.type()
        x = self.operand(p, t2, env)
        p.expect(",")
        t3 = p.type()
        i = conc(self.operand(p, t3, env))
        if i is None:
            raise Unsupported("insertelement symbolic")
        v[i] = x
        return v

    def op_shufflevector(self, p, env, *_):
        t = p.type()
        a = self.operand(p, t, env)
        p.expect(",")
        t2 = p.type()
        b = self.operand(p, t2, env)
        p.expect(",")
        mt = p.type()
        x = p.next()
        both = list(a) + list(b)
        if x == "zeroinitializer":
            return [both[0]] * mt.n
        if x in ("poison", "undef"):
            return [both[0]] * mt.n
        out = []
        if x == "splat":
            p.expect("(")
            p.type()
            return [both[int(p.next())]] * mt.n
        if x != "<":
            raise Unsupported("shuffle mask")
        while True:
            p.type()
            y = p.next()
            out.append(both[0] if y in ("poison", "undef") else both[int(y)])
            if p.accept(">"):
                return out
            p.expect(",")

    # ---- calls
    def op_invoke(self, *a):
        raise Unsupported("invoke")

    def op_call(self, p, env, g, block, incoming, f):
        skip_attrs(p)
        rt = p.type()
        # function type of varargs calls is not used by rustc here
        callee = p.next()
        p.expect("(")
        if callee.startswith("@llvm.lifetime") or callee.startswith("@llvm.assume") or callee.startswith("@llvm.experimental.noalias") or callee.startswith("@llvm.dbg"):
            return None
        args = []
        tys = []
        if not p.accept(")"):
            while True:
                if p.peek() == "metadata":
                    return None
                t = p.type()
                skip_attrs(p)
                tys.append(t)
                args.append(self.operand(p, t, env))
                if p.accept(")"):
                    break
                p.expect(",")
        if callee[0] == "%":
            fp = env.get(callee)
            if isinstance(fp, FnPtr):
                callee = fp.name
            else:
                raise Unsupported("indirect call")
        callee = self.mod.aliases.get(callee, callee)
        if callee.startswith("@llvm."):
            return self.intrinsic(callee, args, tys, rt, g)
        fn = self.mod.func(callee)
        if fn is not None:
            r = self.call(fn, args, g)
            if r is None and rt.k != "void":
                return self.undef(rt)
            return r
        d = self.mod.declares.get(callee, "")
        if "noreturn" in d or self.is_panic(callee):
            self.panics += 1
            self.fail.append(g)
            return ("dead",)
        if callee in ("@memcmp", "@bcmp"):
            n = conc(args[2])
            if n is None:
                raise Unsupported("memcmp of symbolic length")
            return self.memcmp(args[0], args[1], n, callee == "@bcmp", g)
        base = callee.strip('@"')
        if "__rust_no_alloc_shim_is_unstable" in base:
            return None
        if "__rust_alloc_zeroed" in base or "__rust_alloc" in base and "alloc_error" not in base and "realloc" not in base and "dealloc" not in base:
            n = conc(args[0])
            if n is None:
                raise Unsupported("alloc of symbolic size")
            o = Obj("heap", n)
            if "zeroed" in base:
                o.bytes = [z3.BitVecVal(0, 8)] * n
            return Ptr(o, 0)
        if "__rust_dealloc" in base:
            return None
        if any(x in callee for x in self.externs):  # assumed: writes nothing but its result
            m = re.search(r"sret\(\[(\d+) x i8\]\)", d)
            if m:
                zero = "format_inner" in callee  # an empty String owns nothing
                n = int(m.group(1))
                self.store(args[0], Ty("array", n=n, el=int_ty(8)), [z3.BitVecVal(0, 8) if zero else self.freshv(8) for _ in range(n)], g)
                return None
            return None if rt.k == "void" else self.undef(rt)
        raise Unsupported("call " + callee)

    def is_panic(self, callee):
        return "panic" in callee or "handle_error" in callee or "_fail" in callee

    def memcmp(self, a, b, n, eqonly, g):
        def by(ptr, k):
            return self.read(Ptr(ptr.obj, self.addoff(ptr.off, k)), int_ty(8), g) if isinstance(ptr, Ptr) else self.read(self.gep(ptr, int_ty(8), [z3.BitVecVal(k, 64)]), int_ty(8), g)

        pairs = [(by(a, k), by(b, k)) for k in range(n)]
        one = z3.BitVecVal(1, 32)
        zero = z3.BitVecVal(0, 32)
        if eqonly:
            if not pairs:
                return zero
            return z3.If(z3.And(*[x == y for x, y in pairs]), zero, one)
        r = zero
        for x, y in reversed(pairs):
            r = z3.If(x == y, r, z3.If(z3.ULT(x, y), z3.BitVecVal(-1, 32), one))
        return r

    def intrinsic(self, name, args, tys, rt, g):
        base = name[6:]
        if base.startswith(("memcpy.", "memmove.")):
            n = conc(args[2])
            if n is None:
                return self.copy_symbolic(args[0], args[1], args[2], g)
            self.copy(args[0], args[1], n, g)
            return None
        if base.startswith("memset."):
            n = conc(args[2])
            if n is None:
                raise Unsupported("memset symbolic")
            t = Ty("array", n=n, el=int_ty(8))
            self.store(args[0], t, [args[1]] * n, g)
            return None
        if base.startswith("trap"):
            self.fail.append(g)
            return ("dead",)
        m = re.match(r"(ceil|floor|trunc|roundeven)\.f(?:32|64)$", base)
        if m:
            return from_fp(z3.fpRoundToIntegral(FROUND[m.group(1)](), as_fp(args[0])))
        m = re.match(r"fptoui\.sat\.i(\d+)\.f(?:32|64)$", base)
        if m:
            x, n = as_fp(args[0]), int(m.group(1))
            big = z3.fpGEQ(x, z3.FPVal(2.0 ** n, x.sort()))
            low = z3.Or(z3.fpIsNaN(x), z3.fpLEQ(x, z3.FPVal(0.0, x.sort())))
            return z3.simplify(z3.If(low, z3.BitVecVal(0, n), z3.If(big, z3.BitVecVal(-1, n), z3.fpToUBV(z3.RTZ(), x, z3.BitVecSort(n)))))
        m = re.match(r"([a-z.]+?)\.(?:v\d+)?i\d+", base)
        op = m.group(1) if m else base
        fn = INTRIN.get(op)
        if fn is None:
            raise Unsupported("intrinsic " + name)
        if tys and tys[0].k == "vector":
            if op.startswith("vector.reduce"):
                return z3.simplify(fn(*args))
            n = tys[0].n
            cols = [[a[k] if isinstance(a, list) else a for a in args] for k in range(n)]
            rs = [fn(*c) for c in cols]
            if isinstance(rs[0], list):
                raise Unsupported("vector overflow intrinsic")
            return [z3.simplify(r) for r in rs]
        r = fn(*args)
        if isinstance(r, list):
            return [z3.simplify(x) for x in r]
        return z3.simplify(r)

    def copy_symbolic(self, dst, src, n, g):
        """memmove with a symbolic byte count, between concrete offsets"""
        if not (isinstance(dst, Ptr) and isinstance(src, Ptr) and isinstance(dst.off, int) and isinstance(src.off, int)):
            raise Unsupported("symbolic memmove")
        if src.obj is NULL or dst.obj is NULL:
            raise Unsupported("symbolic memmove null")
        room = min(dst.obj.size - dst.off, src.obj.size - src.off)
        bs = [self.read_byte(src.obj, src.off + k, g) for k in range(room)]
        # copying past the object would be UB; safe Rust never does
        for k in range(room):
            c = z3.And(g, z3.UGT(n, z3.BitVecVal(k, 64)))
            dst.obj.bytes[dst.off + k] = self.bite(c, bs[k], dst.obj.bytes[dst.off + k])
        # bytes that come from beyond the known part of the source are unknown
        for k in range(room, dst.obj.size - dst.off):
            c = z3.And(g, z3.UGT(n, z3.BitVecVal(k, 64)))
            dst.obj.bytes[dst.off + k] = self.bite(c, self.freshv(8), dst.obj.bytes[dst.off + k])


class ChoiceByte:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b


def cstr(x):
    body = x[2:-1]
    out = []
    i = 0
    while i < len(body):
        if body[i] == "\\":
            if body[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(body[i + 1 : i + 3], 16))
                i += 3
        else:
            out.append(ord(body[i]))
            i += 1
    return out


def _udiv(a, b):
    return z3.UDiv(a, b)


BINOPS = {
    "add": lambda a, b: a + b,
    "sub": lambda a, b: a - b,
    "mul": lambda a, b: a * b,
    "and": lambda a, b: a & b,
    "or": lambda a, b: a | b,
    "xor": lambda a, b: a ^ b,
    "shl": lambda a, b: a << b,
    "lshr": z3.LShR,
    "ashr": lambda a, b: a >> b,
    "udiv": _udiv,
    "urem": z3.URem,
    "sdiv": lambda a, b: a / b,
    "srem": z3.SRem,
}
CASTS = {"zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr"}
ICMP = {
    "eq": lambda a, b: a == b,
    "ne": lambda a, b: a != b,
    "ugt": z3.UGT,
    "uge": z3.UGE,
    "ult": z3.ULT,
    "ule": z3.ULE,
    "sgt": lambda a, b: a > b,
    "sge": lambda a, b: a >= b,
    "slt": lambda a, b: a < b,
    "sle": lambda a, b: a <= b,
}


FBIN = {"fadd": z3.fpAdd, "fsub": z3.fpSub, "fmul": z3.fpMul, "fdiv": z3.fpDiv}
FROUND = {"ceil": z3.RTP, "floor": z3.RTN, "trunc": z3.RTZ, "roundeven": z3.RNE}
FSORT = {32: z3.Float32, 64: z3.Float64}


def as_fp(bits):
    if z3.is_app(bits) and bits.decl().kind() == z3.Z3_OP_FPA_TO_IEEE_BV:
        return bits.arg(0)
    return z3.fpBVToFP(bits, FSORT[bits.size()]())


def from_fp(x):
    return z3.fpToIEEEBV(x)


def cat(xs):
    return xs[0] if len(xs) == 1 else z3.Concat(*xs)


def _bswap(x):
    n = x.size()
    return cat([z3.Extract(8 * k + 7, 8 * k, x) for k in range(n // 8)])


def _bitreverse(x):
    return cat([z3.Extract(k, k, x) for k in range(x.size())])


def _fsh(left):
    def f(a, b, s):
        n = a.size()
        c = conc(s)
        if c is not None:
            c %= n
            cat = z3.Concat(a, b)
            if left:
                return z3.Extract(2 * n - 1 - c, n - c, cat)
            return z3.Extract(n - 1 + c, c, cat)
        sh = z3.ZeroExt(n, z3.URem(s, z3.BitVecVal(n, n)))
        cat = z3.Concat(a, b)
        if left:
            return z3.Extract(2 * n - 1, n, cat << sh)
        return z3.Extract(n - 1, 0, z3.LShR(cat, sh))

    return f


def _b(c):
    return z3.If(c, B1, B0)


def _ovf(op, signed):
    def f(a, b):
        n = a.size()
        if op == "mul":
            ea, eb = (z3.SignExt(n, a), z3.SignExt(n, b)) if signed else (z3.ZeroExt(n, a), z3.ZeroExt(n, b))
            r = ea * eb
            lo = z3.Extract(n - 1, 0, r)
            back = z3.SignExt(n, lo) if signed else z3.ZeroExt(n, lo)
            return [lo, _b(back != r)]
        ea, eb = (z3.SignExt(1, a), z3.SignExt(1, b)) if signed else (z3.ZeroExt(1, a), z3.ZeroExt(1, b))
        r = ea + eb if op == "add" else ea - eb
        lo = z3.Extract(n - 1, 0, r)
        back = z3.SignExt(1, lo) if signed else z3.ZeroExt(1, lo)
        return [lo, _b(back != r)]

    return f


def _ctz(x, _z=None):
    n = x.size()
    r = z3.BitVecVal(n, n)
    for k in range(n - 1, -1, -1):
        r = z3.If(z3.Extract(k, k, x) == B1, z3.BitVecVal(k, n), r)
    return r


def _clz(x, _z=None):
    n = x.size()
    r = z3.BitVecVal(n, n)
    for k in range(n):
        r = z3.If(z3.Extract(k, k, x) == B1, z3.BitVecVal(n - 1 - k, n), r)
    return r


def _ctpop(x):
    n = x.size()
    return sum((z3.ZeroExt(n - 1, z3.Extract(k, k, x)) for k in range(1, n)), z3.ZeroExt(n - 1, z3.Extract(0, 0, x)))


def _reduce(fn):
    def f(v):
        r = v[0]
        for x in v[1:]:
            r = fn(r, x)
        return r

    return f


def _cmp3(signed):
    def f(a, b):
        lt = (a < b) if signed else z3.ULT(a, b)
        return z3.If(lt, z3.BitVecVal(-1, 8), z3.If(a == b, z3.BitVecVal(0, 8), z3.BitVecVal(1, 8)))

    return f


INTRIN = {
    "bswap": _bswap,
    "bitreverse": _bitreverse,
    "fshl": _fsh(True),
    "fshr": _fsh(False),
    "umin": lambda a, b: z3.If(z3.ULT(a, b), a, b),
    "umax": lambda a, b: z3.If(z3.ULT(a, b), b, a),
    "smin": lambda a, b: z3.If(a < b, a, b),
    "smax": lambda a, b: z3.If(a < b, b, a),
    "uadd.with.overflow": _ovf("add", False),
    "usub.with.overflow": _ovf("sub", False),
    "umul.with.overflow": _ovf("mul", False),
    "sadd.with.overflow": _ovf("add", True),
    "ssub.with.overflow": _ovf("sub", True),
    "smul.with.overflow": _ovf("mul", True),
    "usub.sat": lambda a, b: z3.If(z3.ULT(a, b), z3.BitVecVal(0, a.size()), a - b),
    "uadd.sat": lambda a, b: z3.If(z3.ULT(a + b, a), z3.BitVecVal(-1, a.size()), a + b),
    "cttz": _ctz,
    "ctlz": _clz,
    "ctpop": _ctpop,
    "abs": lambda a, _p: z3.If(a < 0, -a, a),
    "vector.reduce.or": _reduce(lambda a, b: a | b),
    "vector.reduce.and": _reduce(lambda a, b: a & b),
    "vector.reduce.add": _reduce(lambda a, b: a + b),
    "vector.reduce.xor": _reduce(lambda a, b: a ^ b),
    "expect": lambda a, b: a,
}


def prove(engine, name, k, timeout_ms=20000, low=()):
    """-> (verdict, model_bytes|None, how)   verdict in proved / refuted / unknown"""
    bad, ivars = engine.run(name, k)
    bad = z3.simplify(bad)
    if z3.is_false(bad):
        return "proved", None, "simplify"
    fp = getattr(engine, "fp", False)
    s = z3.SolverFor("QF_BVFP" if fp else "QF_BV")
    s.set("timeout", 6 * timeout_ms if fp else timeout_ms)
    s.add(bad)
    r = s.check()
    if r == z3.unsat:
        return "proved", None, "z3"
    if r == z3.sat:
        m = s.model()
        if low:  # prefer a counterexample that can be run (`low`: input bytes that should be 0)
            s.add(*[ivars[j] == 0 for j in low])
            s.set("timeout", 5000)
            if s.check() == z3.sat:
                m = s.model()
        return "refuted", bytes(m.eval(v, model_completion=True).as_long() for v in ivars), "z3"
    why = s.reason_unknown()
    # a second configuration: plain bit blasting
    if fp:
        return "unknown", None, "z3:" + why
    s = z3.Then("simplify", "propagate-values", "solve-eqs", "bit-blast", "sat").solver()
    s.set("timeout", 3 * timeout_ms)
    s.add(bad)
    if s.check() == z3.unsat:
        return "proved", None, "z3"
    return "unknown", None, "z3:" + why
