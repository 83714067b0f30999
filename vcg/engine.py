"""Verification condition generator for the AST written by qtx.

Symbolic execution of the real function bodies (clang AST, implicit conversions explicit) by path; loops are cut
by invariants; callees are either replaced by their contract (when the unit registers one) or inlined.
Every obligation is a z3 formula  assumptions => goal,  collected here and discharged by solve.py.
"""
import json
import re
import os
import sys

import z3

sys.setrecursionlimit(20000)

I = z3.IntSort()
B = z3.BoolSort()
Q = z3.DeclareSort("Qty")        # abstract element of the conserved (Abelian) group
TEN = z3.DeclareSort("Tensor")   # torch::Tensor, uninterpreted
OPQ = z3.DeclareSort("Opaque")


class Unsupported(Exception):
    """the function left the supported subset: nothing is decided"""


class ContractMismatch(Unsupported):
    """a contract refers to something the code no longer has (renamed local...)"""


class PathEnd(Exception):
    pass


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class ThrowEx(Exception):
    def __init__(self, t, v=None):
        self.t = t
        self.v = v


# ---------------------------------------------------------------- values
class Struct:
    __slots__ = ("rec", "f")

    def __init__(self, rec, f):
        self.rec = rec
        self.f = f

    def __repr__(self):
        return "Struct(%s,%s)" % (self.rec, self.f)


class Tup:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = tuple(v)

    def __repr__(self):
        return "Tup%s" % (self.v,)


class Vec:
    """finite sequence: n elements, data = element tree whose leaves are arrays indexed by Int"""
    __slots__ = ("n", "data")

    def __init__(self, n, data):
        self.n = n
        self.data = data

    def __repr__(self):
        return "Vec(%s,%s)" % (self.n, self.data)

    def get(self, i):
        return tmap(lambda a: select(a, i), self.data)

    def set(self, i, v):
        return Vec(self.n, tmap(lambda a, x: store(a, i, x), self.data, v))


class It:
    """iterator / pointer into a sequence: lv designates the Vec, i the offset"""
    __slots__ = ("lv", "i", "rev", "kind")

    def __init__(self, lv, i, rev=False, kind=None):
        self.lv = lv
        self.i = i
        self.rev = rev
        self.kind = kind

    def __repr__(self):
        return "It(%s,%s)" % (self.lv, self.i)


class LV:
    """an lvalue: root cell plus a path of ('f',field) / ('t',k) / ('i',index term)"""
    __slots__ = ("root", "path")

    def __init__(self, root, path=()):
        self.root = root
        self.path = path

    def __repr__(self):
        return "LV(%s%s)" % (self.root, self.path)

    def fld(self, n):
        return LV(self.root, self.path + (("f", n),))

    def tup(self, k):
        return LV(self.root, self.path + (("t", k),))

    def idx(self, i):
        return LV(self.root, self.path + (("i", i),))


class Ptr:
    __slots__ = ("lv",)

    def __init__(self, lv):
        self.lv = lv

    def __repr__(self):
        return "Ptr(%s)" % (self.lv,)


class Closure:
    __slots__ = ("rec", "callop", "caps", "this", "env")

    def __init__(self, rec, callop, caps, this, env):
        self.rec, self.callop, self.caps, self.this, self.env = rec, callop, caps, this, env


class FnVal:
    __slots__ = ("fn", "bound")

    def __init__(self, fn):
        self.fn = fn


class PyFn:
    """a function value supplied by the unit (contract of an arbitrary callable argument)"""
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class Opaque:
    def __init__(self, what="opaque"):
        self.what = what

    def __repr__(self):
        return "Opaque(%s)" % self.what


OPAQUE = Opaque()


def is_term(v):
    return isinstance(v, (int, bool, z3.ExprRef))


def tmap(f, *ts):
    t = ts[0]
    if isinstance(t, Struct):
        return Struct(t.rec, {k: tmap(f, *[x.f[k] for x in ts]) for k in t.f})
    if isinstance(t, Tup):
        return Tup([tmap(f, *[x.v[i] for x in ts]) for i in range(len(t.v))])
    if isinstance(t, Vec):
        return Vec(f(*[x.n for x in ts]), tmap(f, *[x.data for x in ts]))
    if isinstance(t, Opaque) or t is None:
        return t
    for x in ts:
        if not is_term(x):
            raise Unsupported("value of kind %s inside a container or merge" % type(x).__name__)
    return f(*ts)


def leaves(t, out=None):
    if out is None:
        out = []
    tmap(lambda x: out.append(x) or x, t)
    return out


def zi(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def zb(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.BoolVal(x != 0)
    if z3.is_bool(x):
        return x
    return x != 0


def zt(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def simp(e):
    if isinstance(e, (int, bool)):
        return e
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return e


def select(a, i):
    return simp(z3.Select(a, zi(i)))


def store(a, i, x):
    x = zt(x)
    if a.sort().range() == z3.RealSort() and x.sort() == I:
        x = z3.ToReal(x)
    return z3.Store(a, zi(i), x)


class Names:
    """bound variables get the same names again when a path is replayed, so that the formulas are shared"""
    n = 0


def _fresh_const(sort, prefix="c"):
    Names.n += 1
    return z3.Const("%s?%d" % (prefix, Names.n), sort)


z3.FreshConst = _fresh_const
_hq = {}


def has_quant(e):
    k = e.get_id()
    if k not in _hq:
        _hq[k] = (z3.is_quantifier(e) or any(has_quant(x) for x in e.children()), e)
    return _hq[k][0]


def conj(xs):
    xs = [zb(x) for x in xs]
    if not xs:
        return z3.BoolVal(True)
    return z3.And(*xs) if len(xs) > 1 else xs[0]


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    return tmap(lambda x, y: simp(z3.If(c, zt(x), zt(y))), a, b)


def veq(a, b):
    """structural equality of two value trees (vectors compared extensionally over their range)"""
    if isinstance(a, Struct):
        return conj([veq(a.f[k], b.f[k]) for k in a.f])
    if isinstance(a, Tup):
        return conj([veq(x, y) for x, y in zip(a.v, b.v)])
    if isinstance(a, Vec):
        i = z3.FreshConst(I, "eq")
        inner = veq(a.get(i), b.get(i))
        return z3.And(zi(a.n) == zi(b.n), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zi(a.n)), inner)))
    if isinstance(a, Opaque) or a is None:
        return z3.BoolVal(True)
    if isinstance(a, It):
        return zi(a.i) == zi(b.i)
    return zt(a) == zt(b)


# ---------------------------------------------------------------- program
class Program:
    def __init__(self, path):
        d = json.load(open(path))
        self.funcs = {f["id"]: f for f in d["funcs"]}
        self.records = d["records"]
        self.types = d["types"]
        self.byqual = {}
        for f in d["funcs"]:
            self.byqual.setdefault(f["qual"], []).append(f)
        self.over = {}
        for ri, r in enumerate(self.records):
            for m in r.get("vm", []):
                for o in m["over"]:
                    self.over.setdefault(o, []).append((ri, m["id"]))

    def T(self, t):
        return self.types[t]

    def ts(self, t):
        return self.types[t]["s"]

    def find(self, qual, nparams=None, where=None):
        c = [f for f in self.byqual.get(qual, []) if nparams is None or len(f["params"]) == nparams]
        if where:
            c = [f for f in c if where(f)]
        if not c:
            raise ContractMismatch("no function %s under contract in this tree" % qual)
        return c[0]

    def deref_type(self, t):
        T = self.types[t]
        if T["k"] in ("ref", "rref"):
            return T["to"]
        return t

    def rec_of(self, t):
        T = self.types[self.deref_type(t)]
        return T.get("rec") if T["k"] == "rec" else None

    def bases(self, ri):
        out = []
        for b in self.records[ri].get("bases", []):
            br = self.types[b].get("rec")
            if br is not None:
                out.append(br)
        return out

    def is_base(self, b, d):
        if b == d:
            return True
        return any(self.is_base(b, x) for x in self.bases(d))

    def all_fields(self, ri):
        out = []
        for b in self.bases(ri):
            out += self.all_fields(b)
        return out + self.records[ri]["fields"]


# ---------------------------------------------------------------- recursive specification functions
class RecFun:
    """f(args..., lo, hi) over a half open range, unfolded on demand: f(lo,hi)=base when hi<=lo, and
    f(lo,hi)=step(f(lo,hi-1), hi-1) otherwise.  The unfolding is instantiated at the ground terms of each query."""
    all = []

    def __init__(self, name, argsorts, ressort, base, step):
        self.f = z3.Function(name, *(list(argsorts) + [I, I, ressort]))
        self.base, self.step = base, step
        self.arrs = [i for i, x in enumerate(argsorts) if isinstance(x, z3.ArraySortRef)]
        RecFun.all.append(self)

    def frame(self, a):
        """the value does not depend on entries outside [lo,hi): instances for the stores seen in the arguments
        (lemma 'frame', by induction over hi from the definition)"""
        out = []
        lo, hi = a[-2], a[-1]
        for i in self.arrs:
            if z3.is_store(a[i]):
                b, ix, x = a[i].children()
                c = list(a)
                c[i] = b
                out.append(z3.Implies(z3.Or(ix < lo, ix >= hi), self.f(*a) == self.f(*c)))
        return out

    def __call__(self, *a):
        return self.f(*[zt(x) for x in a])

    def unfold(self, a):
        *ar, lo, hi = a
        return z3.And(z3.Implies(hi <= lo, self.f(*a) == self.base(*ar)),
                      z3.Implies(hi > lo, self.f(*a) == self.step(ar, self.f(*ar, lo, hi - 1), hi - 1)))


AI = z3.ArraySort(I, I)
SUM = RecFun("SUM", [AI], I, lambda a: z3.IntVal(0), lambda ar, acc, i: acc + z3.Select(ar[0], i))
PROD = RecFun("PROD", [AI], I, lambda a: z3.IntVal(1), lambda ar, acc, i: acc * z3.Select(ar[0], i))

# position of a block index in the enumeration, first dimension fastest / last dimension fastest
VAL = RecFun("VAL", [AI, AI], I, lambda a, s: z3.IntVal(0),
             lambda ar, acc, i: acc + z3.Select(ar[0], i) * PROD(ar[1], 0, i))

# group
qop = z3.Function("qop", Q, Q, Q)
qinv = z3.Function("qinv", Q, Q)
qe = z3.Const("qe", Q)


def q_axioms():
    a, b, c = z3.Consts("ga gb gc", Q)
    return [z3.ForAll([a, b], qop(a, b) == qop(b, a), patterns=[qop(a, b)]),
            z3.ForAll([a, b, c], qop(qop(a, b), c) == qop(a, qop(b, c)), patterns=[qop(qop(a, b), c)]),
            z3.ForAll([a, b, c], qop(a, qop(b, c)) == qop(qop(a, b), c), patterns=[qop(a, qop(b, c))]),
            z3.ForAll([a], qop(a, qe) == a, patterns=[qop(a, qe)]),
            z3.ForAll([a], qop(a, qinv(a)) == qe, patterns=[qinv(a)])]


AQ = z3.ArraySort(I, Q)

_strip_cache = {}


def strip(q):
    """qualified name without template arguments"""
    r = _strip_cache.get(q)
    if r is not None:
        return r
    m = re.search(r"(^|::)operator(<<=|>>=|<=>|<<|>>|<=|>=|->\*|->|<|>|\(\)|\[\]|[^A-Za-z_ ]+)$", q)
    tail = ""
    body = q
    if m:
        body, tail = q[:m.start()], q[m.start():]
    out, d = [], 0
    for ch in body:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    r = "".join(out) + tail
    _strip_cache[q] = r
    return r


# ---------------------------------------------------------------- models of library functions
MODELS = []   # (regex, function)
CTOR_MODELS = []
TYPE_SHAPES = []  # (regex over canonical type string, function(ex, T) -> shape)


def model(rx):
    def d(f):
        MODELS.append((re.compile(rx), f))
        return f
    return d


def ctor_model(rx):
    def d(f):
        CTOR_MODELS.append((re.compile(rx), f))
        return f
    return d


def type_shape(rx):
    def d(f):
        TYPE_SHAPES.append((re.compile(rx), f))
        return f
    return d


class Call:
    """a call seen by a model: fn head, object lvalue (methods), evaluated arguments (LV for references)"""

    def __init__(self, ex, fn, obj, args, node):
        self.ex, self.fn, self.obj, self.args, self.node = ex, fn, obj, args, node

    def val(self, i):
        return self.ex.rv(self.args[i])

    def self(self):
        return self.ex.rv(self.obj)


class Obligation:
    __slots__ = ("label", "hyps", "goal", "kind", "line", "unit", "model_terms")

    def __init__(self, unit, label, hyps, goal, kind, line, model_terms=None):
        self.unit, self.label, self.hyps, self.goal, self.kind, self.line = unit, label, hyps, goal, kind, line
        self.model_terms = model_terms or {}


class Loop:
    """what an invariant sees"""

    def __init__(self, ex, frame, k, entry):
        self.ex, self.frame, self.k, self.entry = ex, frame, k, entry

    def v(self, name, typ=None, nth=0):
        """value of a local; when no local has that name: the nth local whose type matches the expression typ"""
        return self.ex.lookup(self.alias(name, typ, nth), self.frame)

    def old(self, name, typ=None, nth=0):
        return self.ex.lookup(self.alias(name, typ, nth), self.frame, self.entry)

    def alias(self, name, typ, nth):
        f = self.frame
        while f is not None:
            if name in f.names:
                return name
            f = f.lexical or f.parent
        if typ:
            c = [n for n, t, i in self.frame.locals if re.search(typ, t)]
            if len(c) > nth:
                return c[nth]
        return name

    def par(self, i, old=False):
        """value of the i-th parameter"""
        lv = self.frame.env[self.frame.fn["params"][i]["id"]]
        if not old:
            return self.ex.rv(lv)
        cur, self.ex.store = self.ex.store, self.entry
        try:
            return self.ex.rv(lv)
        finally:
            self.ex.store = cur


class Frame:
    def __init__(self, fn, this=None, parent=None):
        self.fn = fn
        self.this = this
        self.parent = parent
        self.env = {}
        self.names = {}
        self.lexical = None
        self.locals = []   # (name, type string, id) in order of declaration


class Exec:
    MAXPATH = 3000

    def __init__(self, prog, unit_name, opts=None):
        self.p = prog
        self.unit = unit_name
        self.obls = []
        self.seen = set()
        self.assumptions = set()
        self.inlined = set()
        self.contracts_used = set()
        self.opts = opts or {}
        self.axioms = []
        self.qcache = {}
        self.loop_mods = {}
        self.loop_found = {}
        self.loop_ord = {}
        self.ncover = 0

    # ---- exploration
    def explore(self, body):
        """run body(self) along every path"""
        prefix = []
        self.npaths = 0
        while True:
            self.reset(prefix)
            self.npaths += 1
            if self.npaths > self.MAXPATH:
                raise Unsupported("more than %d paths" % self.MAXPATH)
            try:
                body(self)
                if self.quick(z3.BoolVal(True)) != "unsat":
                    self.ncover += 1   # the assumptions along this path are not contradictory
            except PathEnd:
                pass
            d = self.dec
            while d and d[-1][0] + 1 >= d[-1][1]:
                d.pop()
            if not d:
                return
            d[-1] = (d[-1][0] + 1, d[-1][1])
            prefix = list(d)

    def reset(self, prefix):
        self.prefix = prefix
        self.dec = []
        self.pc = []
        self.store = {}
        self.nroot = 0
        self.frames = []
        self.fresh_n = 0
        Names.n = 0
        self.depth = 0
        self.writes = None
        self.globals = {}
        self.symbols = {}
        self.vec_rec = None
        self.loops_spec = {}
        self.loops_at = {}      # (function, n): invariant of the n-th loop of its text
        self.use = []
        self.after = []      # ghost code attached to calls of modelled functions
        self.suppress = 0
        self.trace = []
        self.mt = {}

    def choose(self, n):
        k = len(self.dec)
        if k < len(self.prefix):
            c = self.prefix[k]
        else:
            c = (0, n)
        if c[1] != n:
            raise Unsupported("non deterministic replay")
        self.dec.append(c)
        return c[0]

    def quick(self, extra, timeout=1500):
        """'unsat' / 'sat' / 'unknown' of pc + extra (cached over replays)"""
        e = zb(extra)
        key = (tuple(x.get_id() for x in self.pc), e.get_id())
        if key in self.qcache:
            return self.qcache[key][0]
        # incomplete on purpose (no group axioms, products opaque): only used to prune infeasible branches
        s = z3.SimpleSolver()
        s.set("timeout", timeout)
        s.set("rlimit", 2000000)
        s.set("arith.nl", False)
        hy = self.pc + [e]
        if self.opts.get("prune") == "ground":
            hy = [x for x in hy if not has_quant(x)]
        s.add(*hy)
        s.add(*unfoldings(hy, 2))
        r = str(s.check())
        self.qcache[key] = (r, list(self.pc), e)  # keep the terms alive: ids are reused otherwise
        return r

    def entails(self, f):
        f = simp(f)
        if isinstance(f, bool):
            return f
        return self.quick(z3.Not(zb(f))) == "unsat"

    def branch(self, cond):
        c = simp(zb(cond)) if not isinstance(cond, (bool, int)) else bool(cond)
        if isinstance(c, bool):
            return c
        k = len(self.dec)
        if k >= len(self.prefix):
            if self.quick(c) == "unsat":
                self.dec.append((0, 1))
                return False
            if self.quick(z3.Not(c)) == "unsat":
                self.dec.append((0, 1))
                return True
            r = self.choose(2)
        else:
            d = self.prefix[k]
            self.dec.append(d)
            if d[1] == 1:
                # was forced: recompute which side
                if self.quick(c) == "unsat":
                    return False
                return True
            r = d[0]
        if r == 0:
            self.pc.append(c)
            return True
        self.pc.append(z3.Not(c))
        return False

    def assume(self, f):
        f = simp(zb(f))
        if f is True:
            return
        if f is False:
            raise PathEnd()
        self.pc.append(f)

    def prove(self, label, goal, kind="post", line=None):
        if self.suppress:
            return
        g = simp(zb(goal))
        if g is True:
            g = z3.BoolVal(True)
        if g is False:
            g = z3.BoolVal(False)
        key = (label, tuple(x.get_id() for x in self.pc), g.get_id())
        if key in self.seen:
            return
        self.seen.add(key)
        self.obls.append(Obligation(self.unit, label, list(self.pc) + list(self.axioms), g, kind, line, dict(self.mt)))

    def check(self, label, goal, line=None):
        """safety obligation, assumed afterwards"""
        g = simp(zb(goal))
        if g is True:
            self.nsafe = getattr(self, "nsafe", 0) + 1
            return
        self.prove(label, goal, "safety", line)
        self.assume(goal)

    # ---- fresh values
    def fresh(self, sort, name):
        self.fresh_n += 1
        return z3.Const("%s!%d" % (name, self.fresh_n), sort)

    def shape(self, t):
        T = self.p.T(t)
        k = T["k"]
        if k in ("ref", "rref"):
            return self.shape(T["to"])
        if k == "bool":
            return ("leaf", B, None)
        if k in ("int", "enum"):
            return ("leaf", I, (T["bits"], T["sg"]))
        if k == "float":
            return ("leaf", z3.RealSort(), None)
        for rx, f in TYPE_SHAPES:
            if rx.match(T["s"]):
                return f(self, T)
        if k == "rec":
            r = self.p.records[T["rec"]]
            if not r["file"].startswith("/usr"):
                return ("struct", T["rec"], [(f["name"], self.shape(f["t"])) for f in self.p.all_fields(T["rec"])])
        return ("opaque",)

    def rec_targ(self, T, i):
        r = self.p.records[T["rec"]]
        return r["targs"][i]["type"]

    def fresh_shape(self, sh, name, wrap=lambda s: s, ranges=None):
        """fresh value; wrap lifts leaf sorts (arrays for vector elements)"""
        if sh[0] == "leaf":
            v = self.fresh(wrap(sh[1]), name)
            if sh[2] and wrap(sh[1]) == sh[1]:
                self.range_assume(v, sh[2])
            return v
        if sh[0] == "vec":
            n = self.fresh(wrap(I), name + ".n")
            if wrap(I) == I:
                self.pc.append(n >= 0)
            d = self.fresh_shape(sh[1], name, lambda s: z3.ArraySort(I, wrap(s)) if False else wrap(z3.ArraySort(I, s)))
            return Vec(n, d)
        if sh[0] == "tup":
            return Tup([self.fresh_shape(s, "%s.%d" % (name, i), wrap) for i, s in enumerate(sh[1])])
        if sh[0] == "struct":
            return Struct(sh[1], {n: self.fresh_shape(s, name + "." + n, wrap) for n, s in sh[2]})
        if sh[0] == "opaque":
            return OPAQUE
        raise Unsupported("shape %s" % (sh,))

    def range_assume(self, v, br):
        bits, sg = br
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
        self.pc.append(z3.And(v >= lo, v <= hi))

    def fresh_type(self, t, name):
        return self.fresh_shape(self.shape(t), name)

    def fresh_rec(self, ri, name):
        sh = ("struct", ri, [(f["name"], self.shape(f["t"])) for f in self.p.all_fields(ri)])
        return self.fresh_shape(sh, name)

    # ---- memory
    def alloc(self, v, name=None):
        self.nroot += 1
        r = self.nroot
        self.store[r] = v
        return LV(r)

    def rv(self, x):
        if isinstance(x, LV):
            return self.read(x)
        return x

    def read(self, lv):
        v = self.store[lv.root]
        for s in lv.path:
            if s[0] == "f":
                if not isinstance(v, Struct) or s[1] not in v.f:
                    raise Unsupported("field %s of %r" % (s[1], type(v).__name__))
                v = v.f[s[1]]
            elif s[0] == "t":
                v = v.v[s[1]]
            else:
                if not isinstance(v, Vec):
                    raise Unsupported("indexing %r" % type(v).__name__)
                v = v.get(s[1])
        return v

    def write(self, lv, nv):
        if self.writes is not None:
            pre = []
            kind = "whole"
            for s in lv.path:
                if s[0] == "i":
                    kind = "elem"
                    break
                pre.append(s)
            if kind == "whole":
                ov = self.read(lv) if lv.root in self.store else None
                if isinstance(ov, Vec) and isinstance(nv, Vec) and ov.n is nv.n:
                    kind = "elem"
            self.writes.append((lv.root, tuple(pre), kind))

        def upd(v, path):
            if not path:
                return nv
            s = path[0]
            if s[0] == "f":
                f = dict(v.f)
                f[s[1]] = upd(v.f.get(s[1]), path[1:])
                return Struct(v.rec, f)
            if s[0] == "t":
                w = list(v.v)
                w[s[1]] = upd(w[s[1]], path[1:])
                return Tup(w)
            return v.set(s[1], upd(v.get(s[1]), path[1:]) if path[1:] else nv)
        self.store[lv.root] = upd(self.store.get(lv.root), lv.path)

    def it_deref(self, it, node=None, what="iterator dereference"):
        if not isinstance(it, It):
            if isinstance(it, Ptr):
                return it.lv
            raise Unsupported("dereference of %s" % type(it).__name__)
        v = self.read(it.lv)
        i = it.i
        if it.rev:
            i = simp(zi(it.i) - 1)
        self.check("%s in range" % what, z3.And(zi(i) >= 0, zi(i) < zi(v.n)), node and node.get("l"))
        return it.lv.idx(i)

    # ---- names for contracts
    def lookup(self, name, frame=None, store=None):
        f = frame or self.frames[-1]
        while f is not None:
            if name == "this" and f.this is not None:
                lv = f.this
                break
            if name in f.names:
                lv = f.names[name]
                break
            f = f.lexical or f.parent
        else:
            raise ContractMismatch("no local '%s'" % name)
        if store is not None:
            cur, self.store = self.store, store
            try:
                return self.rv(lv)
            finally:
                self.store = cur
        return self.rv(lv)

    # ---- functions
    def call_fn(self, fn, this, args, node=None):
        """fn: function with a body. args: LV or values, already matching parameter kinds"""
        if self.depth > 60:
            raise Unsupported("recursion deeper than 60")
        for rx, c in self.use:
            if rx.fullmatch(strip(fn["qual"])):
                r = c(Call(self, fn, this, args, node))
                if r is not NotImplemented:
                    self.contracts_used.add(fn["qual"])
                    return r
        self.inlined.add("%s (%s:%d)" % (fn["qual"], fn["file"].replace("/repo/", ""), fn["line"]))
        fr = Frame(fn, this, self.frames[-1] if self.frames else None)
        for p, a in zip(fn["params"], args):
            self.bind(fr, p["id"], p["name"], p["t"], a)
        self.frames.append(fr)
        self.depth += 1
        try:
            self.ex(fn["body_"])
            r = None
        except ReturnEx as e:
            r = e.v
        finally:
            self.frames.pop()
            self.depth -= 1
        rt = self.p.T(fn["ret"])["k"]
        if rt not in ("ref", "rref") and isinstance(r, LV):
            r = self.read(r)
        return r

    def bind(self, fr, id_, name, t, a):
        k = self.p.T(t)["k"]
        if k in ("ref", "rref"):
            if not isinstance(a, LV):
                a = self.alloc(a, name)
            fr.env[id_] = a
        else:
            if isinstance(a, LV):
                a = self.read(a)
            fr.env[id_] = self.alloc(a, name)
        if name:
            fr.names[name] = fr.env[id_]

    def construct(self, fn, args, tid, node=None):
        """constructor with a body in the repository; returns the value"""
        for rx, c in self.use:
            if rx.fullmatch(strip(fn["qual"]) + "::ctor"):
                r = c(Call(self, fn, None, args, node))
                if r is not NotImplemented:
                    self.contracts_used.add(fn["qual"] + "::ctor")
                    return r
        ri = fn["rec"]
        lv = self.alloc(Struct(ri, {f["name"]: None for f in self.p.all_fields(ri)}))
        self.run_ctor(fn, lv, args)
        return self.read(lv)

    def run_ctor(self, fn, lv, args):
        self.inlined.add("%s (%s:%d)" % (fn["qual"], fn["file"].replace("/repo/", ""), fn["line"]))
        fr = Frame(fn, lv, self.frames[-1] if self.frames else None)
        for p, a in zip(fn["params"], args):
            self.bind(fr, p["id"], p["name"], p["t"], a)
        self.frames.append(fr)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion deeper than 60")
        try:
            inits = fn.get("inits", [])
            for i in inits:
                if i.get("delegating"):
                    v = self.rv(self.ev(i["e"]))
                    self.write(lv, v)
            # members are initialised in declaration order: qtx keeps clang's order (the real one)
            for i in inits:
                if "base" in i:
                    e = i["e"]
                    v = self.rv(self.ev(e))
                    if isinstance(v, Struct):
                        cur = self.read(lv)
                        f = dict(cur.f)
                        f.update(v.f)
                        self.write(lv, Struct(cur.rec, f))
                    elif v is not None and not isinstance(v, Opaque):
                        raise Unsupported("base initialised with %s" % type(v).__name__)
                if "member" in i:
                    e = i["e"]
                    v = self.ev(e)
                    ft = [f for f in self.p.all_fields(fn["rec"]) if f["name"] == i["member"]]
                    isref = ft and self.p.T(ft[0]["t"])["k"] in ("ref", "rref")
                    if isref and isinstance(v, LV):
                        v = Ptr(v)
                    else:
                        v = self.rv(v)
                    self.write(lv.fld(i["member"]), v)
            try:
                if fn.get("body_"):
                    self.ex(fn["body_"])
            except ReturnEx:
                pass
        finally:
            self.frames.pop()
            self.depth -= 1

    def apply(self, f, args, node=None):
        """call a callable value"""
        f = self.rv(f)
        if isinstance(f, PyFn):
            return f.f(self, args)
        if isinstance(f, Closure):
            fn = None
            cands = [x for x in self.p.funcs.values() if x.get("lambda") and x["rec"] == f.rec and x["name"] == "operator()"]
            if len(cands) == 1:
                fn = cands[0]
            elif node is not None and node.get("fn"):
                fn = self.p.funcs.get(node["fn"]["id"])
            if fn is None:
                fn = self.pick_generic(cands, args)
            return self.call_lambda(f, fn, args)
        if isinstance(f, FnVal):
            fn = f.fn
            if fn["id"] in self.p.funcs:
                F = self.p.funcs[fn["id"]]
                if fn["kind"] == "method" and not fn.get("static"):
                    return self.call_fn(F, args[0] if isinstance(args[0], LV) else self.alloc(args[0]), args[1:])
                return self.call_fn(F, None, args)
            return self.call_model(fn, None, args, node)
        if isinstance(f, Struct):
            c = [x for x in self.p.funcs.values() if x.get("rec") == f.rec and x["name"] == "operator()"]
            if len(c) == 1:
                return self.call_fn(c[0], self.alloc(f), args)
            if c:
                return self.call_fn(self.pick_generic(c, args), self.alloc(f), args)
        raise Unsupported("call of %s" % type(f).__name__)

    def pick_generic(self, cands, args):
        """generic lambda instantiated several times: choose by the shape of the arguments"""
        good = []
        for c in cands:
            if len(c["params"]) != len(args):
                continue
            ok = True
            for p, a in zip(c["params"], args):
                v = self.rv(a)
                if not self.fits(p["t"], v):
                    ok = False
            if ok:
                good.append(c)
        if not good:
            raise Unsupported("no instantiation of a generic lambda fits")
        return good[0]

    def fits(self, t, v):
        T = self.p.T(self.p.deref_type(t))
        if T["k"] == "rec":
            if isinstance(v, Struct):
                return v.rec == T["rec"] or self.p.is_base(T["rec"], v.rec)
            return isinstance(v, (Tup, Vec, It, Ptr, Closure)) or (is_term(v) and z3.is_expr(v) and v.sort() not in (I, B))
        if T["k"] in ("int", "bool", "enum"):
            return isinstance(v, (int, bool)) or (z3.is_expr(v) and v.sort() in (I, B))
        return True

    def call_lambda(self, clo, fn, args):
        fr = Frame(fn, clo.this, self.frames[-1] if self.frames else None)
        fr.lexical = clo.env
        for cid, (nm, lv) in clo.caps.items():
            fr.env[cid] = lv
            if nm:
                fr.names[nm] = lv
        for p, a in zip(fn["params"], args):
            self.bind(fr, p["id"], p["name"], p["t"], a)
        self.frames.append(fr)
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion deeper than 60")
        try:
            self.ex(fn["body_"])
            r = None
        except ReturnEx as e:
            r = e.v
        finally:
            self.frames.pop()
            self.depth -= 1
        if self.p.T(fn["ret"])["k"] not in ("ref", "rref") and isinstance(r, LV):
            r = self.read(r)
        return r

    # ---- statements
    def ex(self, n):
        if n is None:
            return
        m = getattr(self, "ex_" + n["k"], None)
        if m:
            return m(n)
        if "t" in n or n["k"] == "Mat":
            self.ev(n)
            return
        raise Unsupported("statement %s (line %s)" % (n["k"], n.get("l")))

    def ex_CompoundStmt(self, n):
        for c in n["c"]:
            self.ex(c)

    def ex_NullStmt(self, n):
        pass

    def ex_DeclStmt(self, n):
        fr = self.frames[-1]
        for d in n["decls"]:
            self.decl(fr, d)

    def decl(self, fr, d):
        T = self.p.T(d["t"])
        if "bindings" in d:
            init = self.ev(d["init"])
            if T["k"] in ("ref", "rref"):
                base = init if isinstance(init, LV) else self.alloc(init)
            else:
                base = self.alloc(self.rv(init))
            for i, b in enumerate(d["bindings"]):
                bv = self.read(base)
                if isinstance(bv, Tup):
                    lv = base.tup(i)
                elif isinstance(bv, Struct):
                    names = [f["name"] for f in self.p.all_fields(bv.rec)]
                    lv = base.fld(names[i])
                else:
                    raise Unsupported("structured binding of %s" % type(bv).__name__)
                w = self.read(lv)
                bt = self.p.T(b.get("ht", b["t"]))["k"]
                if isinstance(w, Ptr) and bt in ("ref", "rref") and self.p.T(self.p.deref_type(b.get("ht", b["t"])))["k"] != "ptr":
                    lv = w.lv
                fr.env[b["id"]] = lv
                if "hid" in b:
                    fr.env[b["hid"]] = lv
                fr.names[b["name"]] = lv
            return
        if d.get("static"):
            key = ("static", d["id"])
            if key in self.globals:
                fr.env[d["id"]] = self.globals[key]
                return
        if T["k"] in ("ref", "rref"):
            a = self.ev(d["init"])
            if not isinstance(a, LV):
                a = self.alloc(a)
            fr.env[d["id"]] = a
        else:
            if "init" in d:
                v = self.rv(self.ev(d["init"]))
            else:
                v = self.default_value(d["t"])
            fr.env[d["id"]] = self.alloc(v, d["name"])
        if d.get("static"):
            self.globals[("static", d["id"])] = fr.env[d["id"]]
        if d["name"]:
            fr.names[d["name"]] = fr.env[d["id"]]
        fr.locals = [x for x in fr.locals if x[2] != d["id"]] + [(d["name"], self.p.ts(self.p.deref_type(d["t"])), d["id"])]

    def default_value(self, t):
        sh = self.shape(t)
        if sh[0] == "vec":
            return Vec(0, self.fresh_shape(sh, "v").data)
        T = self.p.T(t)
        if T["k"] == "array":
            return self.array_value(T)
        if T["k"] == "ptr":
            return Ptr(None)
        return self.fresh_type(t, "uninit")

    def array_value(self, T):
        d = self.fresh_shape(("vec", self.shape(T["to"])), "arr")
        return Vec(T.get("n", 0), d.data)

    def ex_IfStmt(self, n):
        if n.get("init"):
            self.ex(n["init"])
        if n.get("cvar"):
            self.ex(n["cvar"])
        if n.get("constexpr") and n["cond"].get("cv") is not None:
            c = n["cond"]["cv"] != "0"
        else:
            c = self.branch(self.rv(self.ev(n["cond"])))
        if c:
            self.ex(n["then"])
        elif n.get("else"):
            self.ex(n["else"])

    def ex_ReturnStmt(self, n):
        c = n["c"]
        raise ReturnEx(self.ev(c[0]) if c and c[0] is not None else None)

    def ex_BreakStmt(self, n):
        raise BreakEx()

    def ex_ContinueStmt(self, n):
        raise ContinueEx()

    def ex_CXXTryStmt(self, n):
        try:
            self.ex(n["body"])
        except ThrowEx as e:
            for h in n["h"]:
                if "t" not in h or self.throw_matches(h["t"], e):
                    self.ex(h["body"])
                    return
            raise

    def throw_matches(self, t, e):
        return self.p.ts(self.p.deref_type(t)) == e.t

    def ex_ForStmt(self, n):
        if n.get("init"):
            self.ex(n["init"])
        self.loop(n, (lambda: self.rv(self.ev(n["cond"])) if n.get("cond") else True),
                  lambda: self.ex(n["body"]), (lambda: self.ev(n["inc"])) if n.get("inc") else None)

    def ex_WhileStmt(self, n):
        def cond():
            if n.get("cvar"):
                self.ex(n["cvar"])
            return self.rv(self.ev(n["cond"]))
        self.loop(n, cond, lambda: self.ex(n["body"]), None)

    def ex_DoStmt(self, n):
        # do B while(c)  ==  first:=true; while(first||c) {first:=false; B}
        first = self.alloc(True)

        def cond():
            f = self.read(first)
            if f is True:
                return True
            if f is False:
                return self.rv(self.ev(n["cond"]))
            if self.branch(f):
                return True
            return self.rv(self.ev(n["cond"]))

        def body():
            self.write(first, False)
            self.ex(n["body"])
        self.loop(n, cond, body, None, peel=True)

    def ex_CXXForRangeStmt(self, n):
        if n.get("init"):
            self.ex(n["init"])
        self.ex(n["range"])
        self.ex(n["begin"])
        self.ex(n["end"])

        def body():
            self.ex(n["var"])
            self.ex(n["body"])
        self.loop(n, lambda: self.rv(self.ev(n["cond"])), body, lambda: self.ev(n["inc"]))

    def ex_SwitchStmt(self, n):
        raise Unsupported("switch")

    # ---- loops
    def loop_place(self, fn, node):
        """(name of the function, position of the loop among those of its text); algorithms that apply a function count as loops"""
        c = fn.get("_loops")
        if c is None:
            c = []

            def walk(x):
                if isinstance(x, list):
                    for y in x:
                        walk(y)
                elif isinstance(x, dict):
                    k = x.get("k")
                    if k == "LambdaExpr":
                        return
                    if k in ("ForStmt", "WhileStmt", "DoStmt", "CXXForRangeStmt"):
                        c.append(id(x))
                    elif k == "CallExpr" and re.fullmatch(r"transform|for_each", ((x.get("fn") or {}).get("name") or "")):
                        c.append(id(x))
                    for q, y in x.items():
                        if q not in ("fn", "lambda") and isinstance(y, (dict, list)):
                            walk(y)
            walk(fn.get("body_"))
            fn["_loops"] = c
        nm = re.sub(r"\((?!anonymous)[^()]*\)", "", strip(fn["qual"])).split("::")
        nm = "%s()" % nm[-3] if nm[-1].startswith("operator") and "(anonymous" in nm[-2] and len(nm) > 2 else nm[-1]
        return (nm, c.index(id(node)) if id(node) in c else -1)

    def loop(self, node, cond, body, inc, peel=False, env=None):
        frame = self.frames[-1]
        key = tuple((id(f.fn)) for f in self.frames) + (id(node),)
        if key not in self.loop_ord:
            if self.suppress and self.opts.get("strict_ord"):
                pass
            self.loop_ord[key] = len(self.loop_ord)
        o = self.loop_ord[key]
        spec = self.loops_spec.get(o) or (self.loops_at.get(self.loop_place(frame.fn, node)) if self.loops_at else None)
        if peel:
            if self.branch(cond()):
                try:
                    body()
                except ContinueEx:
                    pass
                except BreakEx:
                    return
        bound = self.opts.get("unroll")
        if spec is None or bound:
            # concrete unrolling as long as the condition is decided; symbolic unrolling only in bounded mode
            n = 0
            st = (len(self.pc), dict(self.store), len(self.dec))
            while True:
                c = cond()
                c = c if isinstance(c, bool) else simp(zb(c))
                if not isinstance(c, bool):
                    q = self.quick(c)
                    q2 = self.quick(z3.Not(c)) if q != "unsat" else "sat"
                    if q == "unsat":
                        c = False
                    elif q2 == "unsat":
                        c = True
                if not isinstance(c, bool):
                    if not bound:
                        break
                    if n >= bound:
                        self.bounded_cut = True
                        self.assume(z3.Not(c))
                        return
                    c = self.branch(c)
                if not c:
                    return
                n += 1
                if n > 64:
                    break
                try:
                    body()
                except ContinueEx:
                    pass
                except BreakEx:
                    return
                if inc:
                    inc()
            del self.pc[st[0]:]
            if len(self.dec) != st[2]:
                raise Unsupported("loop with branching body and no invariant")
            self.store = st[1]
        self.cut_loop(key, o, spec or (lambda L: []), frame, cond, body, inc)

    def snapshot(self):
        return (list(self.pc), dict(self.store), self.nroot, len(self.frames))

    def restore(self, s):
        self.pc = list(s[0])
        self.store = dict(s[1])
        self.nroot = s[2]
        del self.frames[s[3]:]

    def subexplore(self, run, maxp=400):
        """explore run() from the current state with obligations suppressed; yields final states"""
        snap = self.snapshot()
        envs = [(f, dict(f.env), dict(f.names)) for f in self.frames]
        od, opre = self.dec, self.prefix
        depth = self.depth
        self.suppress += 1
        prefix = []
        outs = []
        n = 0
        try:
            while True:
                self.restore(snap)
                for f, e, nm in envs:
                    f.env, f.names = dict(e), dict(nm)
                self.depth = depth
                self.dec, self.prefix = [], prefix
                n += 1
                if n > maxp:
                    raise Unsupported("loop body has more than %d paths" % maxp)
                kind = "next"
                try:
                    run()
                except ContinueEx:
                    kind = "next"
                except BreakEx:
                    kind = "break"
                except ReturnEx:
                    kind = "ret"
                except ThrowEx:
                    kind = "throw"
                except PathEnd:
                    kind = "end"
                outs.append((kind, list(self.pc), dict(self.store)))
                d = self.dec
                while d and d[-1][0] + 1 >= d[-1][1]:
                    d.pop()
                if not d:
                    break
                d[-1] = (d[-1][0] + 1, d[-1][1])
                prefix = list(d)
        finally:
            self.dec, self.prefix = od, opre
            self.suppress -= 1
            self.restore(snap)
            self.depth = depth
            for f, e, nm in envs:
                f.env, f.names = dict(e), dict(nm)
        return outs

    def cell(self, root, pre):
        return self.read(LV(root, pre))

    def havoc_val(self, v, kind, name="h"):
        """fresh value of the same structure. iterators keep their container"""
        def fr(x):
            x = zt(x)
            return self.fresh(x.sort(), name)
        if isinstance(v, It):
            return It(v.lv, self.fresh(I, name), v.rev, v.kind)
        if isinstance(v, Vec):
            n = v.n
            if kind == "whole":
                n = self.fresh(I, name + ".n")
                self.pc.append(n >= 0)
            return Vec(n, self.havoc_val(v.data, "elem", name))
        if isinstance(v, Struct):
            return Struct(v.rec, {k: self.havoc_val(x, kind, name + "." + k) for k, x in v.f.items()})
        if isinstance(v, Tup):
            return Tup([self.havoc_val(x, kind, name) for x in v.v])
        if isinstance(v, Opaque) or v is None:
            return v
        if is_term(v):
            return fr(v)
        if isinstance(v, Ptr):
            raise Unsupported("pointer modified in a loop")
        raise Unsupported("havoc of %s" % type(v).__name__)

    def scalars(self, v):
        """(path, term) of the scalar ints of a value (iterator offsets, vector lengths included)"""
        out = []

        def go(v, path):
            if isinstance(v, It):
                out.append((path + ("it",), v.i))
            elif isinstance(v, Vec):
                out.append((path + ("n",), v.n))
            elif isinstance(v, Tup):
                for i, x in enumerate(v.v):
                    go(x, path + (("t", i),))
            elif isinstance(v, Struct):
                for k, x in v.f.items():
                    go(x, path + (("f", k),))
            elif isinstance(v, int) and not isinstance(v, bool):
                out.append((path, v))
            elif z3.is_expr(v) and v.sort() == I:
                out.append((path, v))
        go(v, ())
        return out

    def put_scalar(self, v, path, x):
        if not path:
            return x
        s = path[0]
        if s == "it":
            return It(v.lv, x, v.rev, v.kind)
        if s == "n":
            return Vec(x, v.data)
        if s[0] == "t":
            w = list(v.v)
            w[s[1]] = self.put_scalar(w[s[1]], path[1:], x)
            return Tup(w)
        f = dict(v.f)
        f[s[1]] = self.put_scalar(f[s[1]], path[1:], x)
        return Struct(v.rec, f)

    def cut_loop(self, key, o, spec, frame, cond, body, inc):
        pre_roots = set(self.store)
        entry = dict(self.store)

        def one():
            c = cond()
            if not self.branch(c):
                raise PathEnd()
            try:
                body()
            except ContinueEx:
                pass
            if inc:
                inc()

        # 1. which cells does the body modify (fixpoint over havocked states)
        mkey = (key, self.nroot)
        mods = {m: v for m, v in self.loop_mods.get(mkey, {}).items() if m[0] in pre_roots}
        fresh0 = self.fresh_n
        names = {lv.root: nm for f in self.frames for nm, lv in f.names.items() if isinstance(lv, LV) and not lv.path}
        deltas = {}
        names0 = Names.n
        ckey = (mkey, tuple(self.dec), fresh0, names0)
        if ckey in self.loop_found:
            mods, deltas = self.loop_found[ckey]    # same path, replayed
        else:
            for rnd in range(8):
                snap = self.snapshot()
                pcn = len(self.pc)
                self.do_havoc(mods, names, None, {})
                hst = dict(self.store)
                ow = self.writes
                self.writes = []
                outs = self.subexplore(one)
                new = dict(mods)
                for r, p, kd in self.writes:
                    if r not in pre_roots:
                        continue
                    cur = new.get((r, p))
                    new[(r, p)] = "whole" if "whole" in (cur, kd) else kd
                self.writes = ow
                self.restore(snap)
                # drop cells covered by a 'whole' write of an enclosing cell
                for (r, p) in list(new):
                    if any((r, p[:i]) in new and i < len(p) for i in range(len(p))):
                        del new[(r, p)]
                if new == mods:
                    # constant increments per iteration
                    for (r, p), kd in mods.items():
                        v0 = self._read_in(hst, r, p)
                        for path, x0 in self.scalars(v0):
                            ds = set()
                            for kind, pc, st in outs:
                                if kind != "next":
                                    continue
                                x1 = dict((a, b) for a, b in self.scalars(self._read_in(st, r, p))).get(path)
                                if x1 is None:
                                    ds.add(None)
                                    continue
                                d = simp(zi(x1) - zi(x0))
                                if not isinstance(d, int):
                                    d = None
                                    for c in (1, -1, 0) if None not in ds else ():
                                        s = z3.SimpleSolver()
                                        s.set("timeout", 500)
                                        s.set("rlimit", 1000000)
                                        s.set("arith.nl", False)
                                        s.add(*[x for x in pc if not z3.is_quantifier(x)])
                                        s.add(zi(x1) != zi(x0) + c)
                                        if s.check() == z3.unsat:
                                            d = c
                                            break
                                ds.add(d)
                            if len(ds) == 1 and None not in ds:
                                deltas[(r, p, path)] = ds.pop()
                    break
                mods = new
            else:
                raise Unsupported("loop modifies set does not stabilise")
            self.loop_found[ckey] = (mods, deltas)
        self.loop_mods[mkey] = mods
        Names.n = names0 + 100000
        self.fresh_n = fresh0 + 1000  # names of the states below do not depend on how discovery went
        # 2. invariant on entry
        L0 = Loop(self, frame, 0, entry)
        self.cur_loop = o
        for lab, f in spec(L0):
            self.prove("loop%d invariant '%s' on entry" % (o, lab), f, "inv-entry")
        # 3. arbitrary iteration
        which = self.choose(2)
        k = self.fresh(I, "k%d" % o)
        self.pc.append(k >= 0)
        L = Loop(self, frame, k, entry)
        self.do_havoc(mods, names, k, deltas)
        for f in self.auto_bounds(cond, k, mods, deltas):
            self.pc.append(f)
        hdr = [(lab, f) for lab, f in spec(L)]
        for lab, f in hdr:
            self.assume(f)
        c = cond()
        if which == 0:
            if not self.branch(c):
                raise PathEnd()
            brk = False
            try:
                body()
            except ContinueEx:
                pass
            except BreakEx:
                brk = True
            if brk:
                return  # leaves the loop from an arbitrary iteration
            if inc:
                inc()
            L1 = Loop(self, frame, simp(k + 1), entry)
            for lab, f in spec(L1):
                self.prove("loop%d invariant '%s' preserved" % (o, lab), f, "inv-step")
            raise PathEnd()
        if self.branch(c):
            raise PathEnd()

    def _read_in(self, st, r, p):
        cur, self.store = self.store, st
        try:
            return self.read(LV(r, p))
        finally:
            self.store = cur

    def do_havoc(self, mods, names, k, deltas):
        for (r, p), kd in mods.items():
            v = self.read(LV(r, p))
            nm = names.get(r, "c%d" % r) + "".join("." + str(s[1]) for s in p)
            h = self.havoc_val(v, kd, nm)
            if k is not None:
                olds = dict(self.scalars(v))
                for path, x in self.scalars(h):
                    d = deltas.get((r, p, path))
                    if d is not None:
                        h = self.put_scalar(h, path, simp(zi(olds[path]) + d * k))
            ow, self.writes = self.writes, None
            self.write(LV(r, p), h)
            self.writes = ow

    def auto_bounds(self, cond, k, mods, deltas):
        """a <= b facts implied by 'a != b' / 'a < b' conditions and unit steps; each is checked here"""
        res = []
        outs = []

        def run():
            outs.append(cond())
        try:
            s = self.snapshot()
            self.subexplore(run, 20)
        except Unsupported:
            return []
        if len(outs) != 1 or not z3.is_expr(outs[0]):
            return []
        c = z3.simplify(outs[0])
        atoms = list(c.children()) if z3.is_and(c) else [c]
        for a in atoms:
            lhs = rhs = None
            neg = False
            b = a
            if z3.is_not(b):
                neg = True
                b = b.children()[0]
            if z3.is_eq(b) and neg and b.children()[0].sort() == I:
                lhs, rhs = b.children()
            elif z3.is_distinct(b) and not neg and b.children()[0].sort() == I:
                lhs, rhs = b.children()
            elif z3.is_le(b) or z3.is_ge(b) or z3.is_lt(b) or z3.is_gt(b):
                lhs, rhs = b.children()
            if lhs is None:
                continue
            for x, y in ((lhs, rhs), (rhs, lhs)):
                f = x <= y
                f0 = z3.substitute(f, (k, z3.IntVal(0)))
                f1 = z3.substitute(f, (k, k + 1))
                if self.entails(f0) and self.entails(z3.Implies(z3.And(f, a), f1)):
                    res.append(f)
        return res

    # ---- expressions
    def ev(self, n):
        if n is None:
            return None
        if n.get("cv") is not None and not (n.get("sym") and self.symbols) and n["k"] not in ("CallExpr", "CXXMemberCallExpr", "CXXOperatorCallExpr"):
            T = self.p.T(n["t"])
            v = int(n["cv"])
            return bool(v) if T["k"] == "bool" else v
        m = getattr(self, "ev_" + n["k"], None)
        if not m:
            raise Unsupported("expression %s (line %s)" % (n["k"], n.get("l")))
        return m(n)

    def ev_Mat(self, n):
        v = self.ev(n["e"])
        if isinstance(v, LV):
            v = self.read(v)
        return self.alloc(v)

    def ev_IntegerLiteral(self, n):
        return int(n["v"])

    def ev_CXXBoolLiteralExpr(self, n):
        return bool(n["v"])

    def ev_FloatingLiteral(self, n):
        return z3.RealVal(repr(n["v"]))

    def ev_StringLiteral(self, n):
        return self.alloc(Opaque("string"))

    def ev_CXXNullPtrLiteralExpr(self, n):
        return Ptr(None)

    def ev_PredefinedExpr(self, n):
        return self.alloc(Opaque("string"))

    def ev_SourceLocExpr(self, n):
        return Opaque("srcloc")

    def ev_CXXThisExpr(self, n):
        f = self.frames[-1]
        if f.this is None:
            raise Unsupported("this")
        return Ptr(f.this)

    def ev_SubstNonTypeTemplateParmExpr(self, n):
        # a unit may ask for a proof for every value of a template argument
        if n["name"] in self.symbols:
            return self.symbols[n["name"]]
        return self.ev(n["e"])

    def ev_DeclRefExpr(self, n):
        if "ginit" in n and self.symbols:
            return self.ev(n["ginit"])
        if "fn" in n:
            return FnVal(n["fn"])
        if "ev" in n:
            return int(n["ev"])
        f = self.frames[-1] if self.frames else None
        while f is not None:
            if n["id"] in f.env:
                return f.env[n["id"]]
            f = f.lexical or f.parent
        if n.get("global"):
            if n["id"] not in self.globals:
                self.globals[n["id"]] = self.alloc(self.fresh_type(n["dt"], n["name"]))
            return self.globals[n["id"]]
        raise Unsupported("reference to %s (%s)" % (n["name"], n.get("dk")))

    def ev_MemberExpr(self, n):
        if "fn" in n:
            raise Unsupported("method used as a value")
        if n.get("global"):
            if n.get("cv") is not None:
                return int(n["cv"])
            raise Unsupported("static member %s" % n["name"])
        b = self.ev(n["e"])
        if n["arrow"]:
            b = self.deref(self.rv(b), n)
        elif not isinstance(b, LV):
            b = self.alloc(b)
        return self.member(b, n["name"], n["dt"], n["t"])

    def member(self, b, name, dt, t=None):
        bv = self.read(b)
        if isinstance(bv, Tup) and name in ("first", "second"):
            lv = b.tup(0 if name == "first" else 1)
        elif isinstance(bv, Struct):
            lv = b.fld(name)
        elif isinstance(bv, (It, Ptr)) and name == "it":
            return b                     # wrapped iterator
        elif is_term(bv) and bv.sort() == TEN and self.opts.get("abstract_tensor"):
            return self.alloc(self.fresh_type(t, name))     # part of an opaque tensor: an unknown value
        else:
            raise Unsupported("member %s of %s" % (name, type(bv).__name__))
        if self.p.T(dt)["k"] in ("ref", "rref"):
            v = self.read(lv)
            if isinstance(v, Ptr):
                return v.lv
        return lv

    def deref(self, v, n=None):
        if isinstance(v, Ptr):
            if v.lv is None:
                self.check("null pointer dereference", False, n and n.get("l"))
                raise PathEnd()
            return v.lv
        if isinstance(v, It):
            return self.it_deref(v, n)
        raise Unsupported("dereference of %s" % type(v).__name__)

    def ev_ConditionalOperator(self, n):
        c = self.rv(self.ev(n["c"][0]))
        return self.ev(n["c"][1]) if self.branch(c) else self.ev(n["c"][2])

    def ev_CXXThrowExpr(self, n):
        t = "?"
        if n["c"] and n["c"][0] is not None:
            t = self.p.ts(n["c"][0]["t"])
        raise ThrowEx(t)

    def ev_InitListExpr(self, n):
        T = self.p.T(n["t"])
        if T["k"] == "array":
            vals = [self.rv(self.ev(c)) for c in n["c"]]
            v = self.array_value(T)
            for i, x in enumerate(vals):
                v = v.set(i, x)
            return v
        if T["k"] == "rec":
            fs = [f["name"] for f in self.p.all_fields(T["rec"])]
            vals = [self.rv(self.ev(c)) for c in n["c"]]
            return Struct(T["rec"], dict(zip(fs, vals)))
        if len(n["c"]) == 1:
            return self.ev(n["c"][0])
        if not n["c"]:
            return 0
        raise Unsupported("init list of %s" % T["s"])

    def ev_StdInitList(self, n):
        v = self.rv(self.ev(n["e"]))
        return v  # the array value (a Vec) stands for the list

    def ev_ImplicitValueInitExpr(self, n):
        return self.zero(n["t"])

    def ev_CXXScalarValueInitExpr(self, n):
        return self.zero(n["t"])

    def zero(self, t):
        k = self.p.T(t)["k"]
        if k == "bool":
            return False
        if k in ("int", "enum"):
            return 0
        if k == "float":
            return z3.RealVal(0)
        if k == "ptr":
            return Ptr(None)
        raise Unsupported("value initialisation of %s" % self.p.ts(t))

    def ev_LambdaExpr(self, n):
        caps = {}
        this = None
        fr = self.frames[-1]
        for c in n["caps"]:
            if c["this"]:
                this = fr.this
                continue
            if c["byref"]:
                lv = self.ev(c["init"])
                if not isinstance(lv, LV):
                    lv = self.alloc(lv)
            else:
                lv = self.alloc(self.rv(self.ev(c["init"])))
            caps[c["id"]] = (c.get("name"), lv)
        return Closure(n["rec"], n["callop"], caps, this, fr)

    # casts
    def ev_ImplicitCastExpr(self, n):
        return self.cast(n)

    ev_CXXStaticCastExpr = ev_CStyleCastExpr = ev_CXXFunctionalCastExpr = ev_CXXConstCastExpr = ev_ImplicitCastExpr
    ev_CXXReinterpretCastExpr = ev_ImplicitCastExpr

    def ev_CXXDynamicCastExpr(self, n):
        return self.cast(n)

    def cast(self, n):
        ck = n["ck"]
        if ck in ("LValueToRValue",):
            v = self.ev(n["e"])
            v = self.rv(v)
            if v is None:
                raise Unsupported("read of an uninitialised value (line %s)" % n.get("l"))
            return v
        if ck in ("NoOp", "ConstructorConversion", "DerivedToBase", "UncheckedDerivedToBase", "UserDefinedConversion",
                  "FunctionToPointerDecay", "BuiltinFnToFnPtr", "BaseToDerived", "Dependent"):
            return self.ev(n["e"])
        if ck == "ToVoid":
            self.ev(n["e"])
            return None
        if ck == "ArrayToPointerDecay":
            lv = self.ev(n["e"])
            v = self.rv(lv)
            if isinstance(v, Opaque):
                return v
            return It(lv if isinstance(lv, LV) else self.alloc(lv), 0)
        if ck == "IntegralCast":
            v = self.rv(self.ev(n["e"]))
            return self.int_conv(v, n["e"]["t"], n["t"])
        if ck == "IntegralToBoolean":
            v = self.rv(self.ev(n["e"]))
            return simp(zi(v) != 0)
        if ck == "PointerToBoolean":
            v = self.rv(self.ev(n["e"]))
            if isinstance(v, Ptr):
                return v.lv is not None
            return True
        if ck == "IntegralToFloating":
            v = self.rv(self.ev(n["e"]))
            v = self.as_int(v)
            self.assumptions.add("floating point arithmetic treated as real arithmetic")
            return z3.simplify(z3.ToReal(zi(v)))
        if ck == "FloatingCast":
            return self.rv(self.ev(n["e"]))
        if ck == "FloatingToIntegral":
            raise Unsupported("float to integer")
        if ck == "FloatingToBoolean":
            return simp(self.rv(self.ev(n["e"])) != 0)
        if ck == "NullToPointer":
            return Ptr(None)
        if ck == "Dynamic":
            return self.dyn_cast(n)
        raise Unsupported("cast %s" % ck)

    def dyn_cast(self, n):
        T = self.p.T(n["t"])
        v = self.ev(n["e"])
        if T["k"] == "ptr":
            p = self.rv(v)
            if isinstance(p, Ptr) and p.lv is not None:
                o = self.read(p.lv)
                tr = self.p.T(T["to"]).get("rec")
                if isinstance(o, Struct):
                    return p if self.p.is_base(tr, o.rec) else Ptr(None)
            raise Unsupported("dynamic_cast of %s" % type(p).__name__)
        o = self.rv(v)
        if isinstance(o, Struct):
            if self.p.is_base(T["rec"], o.rec):
                return v
            raise ThrowEx("std::bad_cast")
        raise Unsupported("dynamic_cast of %s" % type(o).__name__)

    def as_int(self, v):
        if isinstance(v, bool):
            return int(v)
        if z3.is_expr(v) and z3.is_bool(v):
            return simp(z3.If(v, z3.IntVal(1), z3.IntVal(0)))
        return v

    def int_conv(self, v, ft, tt):
        F, T = self.p.T(ft), self.p.T(tt)
        if isinstance(v, Opaque):
            return v
        v = self.as_int(v)
        if F["k"] == "bool":
            return v
        if T["k"] == "bool":
            return simp(zi(v) != 0)
        fb, fs, tb, tsg = F["bits"], F["sg"], T["bits"], T["sg"]
        if isinstance(v, int):
            return wrap_int(v, tb, tsg)
        # value preserved?
        if (fb < tb and (not fs or tsg)) or (fb == tb and fs == tsg):
            return v
        lo, hi = (-(1 << (tb - 1)), (1 << (tb - 1)) - 1) if tsg else (0, (1 << tb) - 1)
        if tb == 64 or (tb == 32 and not self.opts.get("exact32")):
            if tsg:
                # size_t -> int64/int
                if fb <= 64 and not fs:
                    if self.entails(v <= hi):
                        return v
                    if tb == fb and z3.is_expr(v) and v.decl().kind() == z3.Z3_OP_ITE and self.entails(z3.Or(v <= hi, zi(v.arg(1)) + (1 << tb) == v)):
                        return v.arg(1)      # a wrapped difference converted back to signed
                    if tb == 64 or not self.opts.get("exact32"):
                        self.assumptions.add("unsigned values converted to signed are below 2^63 (2^31 for int)")
                        return v
                self.assumptions.add("64 bit values converted to int fit (int arithmetic treated as mathematical)")
                return v
            if not fs:
                self.assumptions.add("64 bit values converted to unsigned int fit")
                return v
            if self.entails(v >= 0):
                return v
            return simp(z3.If(v >= 0, v, v + (1 << tb)))
        # narrow: exact
        if self.entails(z3.And(v >= lo, v <= hi)):
            return v
        return wrap_term(v, tb, tsg)

    def arith(self, op, a, b, t, node=None):
        T = self.p.T(t)
        if T["k"] == "float":
            a, b = zr(a), zr(b)
            if op == "+":
                return z3.simplify(a + b)
            if op == "-":
                return z3.simplify(a - b)
            if op == "*":
                return z3.simplify(a * b)
            if op == "/":
                return z3.simplify(a / b)
            raise Unsupported("float %s" % op)
        a, b = self.as_int(a), self.as_int(b)
        bits, sg = T.get("bits", 64), T.get("sg", True)
        if op in ("/", "%"):
            self.check("division by zero", zi(b) != 0, node and node.get("l"))
            if isinstance(a, int) and isinstance(b, int):
                q = abs(a) // abs(b)
                q = q if (a < 0) == (b < 0) else -q
                return q if op == "/" else a - q * b
            A, Bz = zi(a), zi(b)
            if not sg or (self.entails(A >= 0) and self.entails(Bz > 0)):
                return simp(A / Bz) if op == "/" else simp(A % Bz)
            # C++ truncation
            nq = z3.If(A >= 0, A, -A) / z3.If(Bz >= 0, Bz, -Bz)
            if op == "/":
                return simp(z3.If((A >= 0) == (Bz >= 0), nq, -nq))
            m = z3.If(A >= 0, A, -A) % z3.If(Bz >= 0, Bz, -Bz)
            return simp(z3.If(A >= 0, m, -m))
        if op == "+":
            r = simp(zi(a) + zi(b))
        elif op == "-":
            r = simp(zi(a) - zi(b))
        elif op == "*":
            A, Bz = a, b
            # bool * term: keep it linear
            r = self.mul(A, Bz)
        elif op in ("<<", ">>", "&", "|", "^"):
            if isinstance(a, int) and isinstance(b, int):
                r = {"<<": lambda: a << b, ">>": lambda: a >> b, "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b}[op]()
            elif op in ("&", "|") and is_bit(a) is not None and is_bit(b) is not None:
                f = z3.And if op == "&" else z3.Or
                r = simp(z3.If(f(is_bit(a), is_bit(b)), z3.IntVal(1), z3.IntVal(0)))
            elif op == "&" and b == 1:
                r = simp(zi(a) % 2)
            else:
                raise Unsupported("bit operation %s" % op)
        else:
            raise Unsupported("operator %s" % op)
        if isinstance(r, int):
            if sg:
                return r
            return wrap_int(r, bits, sg)
        if not sg and op == "-" and not self.entails(zi(r) >= 0):
            return simp(z3.If(zi(r) >= 0, zi(r), zi(r) + (1 << bits)))
        if not sg and op == "+" and any(z3.is_expr(x) and x.sort() == I and x.decl().kind() == z3.Z3_OP_ITE and not self.entails(x < (1 << (bits - 1))) for x in (a, b)):
            return simp(z3.If(zi(r) < (1 << bits), zi(r), zi(r) - (1 << bits)))     # a negative number converted to unsigned
        if bits < 64 and self.opts.get("exact32"):
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if sg else (0, (1 << bits) - 1)
            if sg:
                self.check("signed overflow", z3.And(zi(r) >= lo, zi(r) <= hi), node and node.get("l"))
            elif not self.entails(z3.And(zi(r) >= lo, zi(r) <= hi)):
                return wrap_term(r, bits, sg)
        else:
            self.assumptions.add("32/64 bit sums and products treated as mathematical integers (no wrap-around)")
        return r

    def mul(self, a, b):
        for x, y in ((a, b), (b, a)):
            bit = is_bit(x) if z3.is_expr(x) else None
            if bit is not None:
                return simp(z3.If(bit, zi(y), z3.IntVal(0)))
        return simp(zi(a) * zi(b))

    def ev_BinaryOperator(self, n):
        op = n["op"]
        if op == ",":
            self.ev(n["a"])
            return self.ev(n["b"])
        if op == "&&":
            a = self.rv(self.ev(n["a"]))
            if self.pure(n["b"]):
                a = simp(zb(a))
                if isinstance(a, bool):
                    return simp(zb(self.rv(self.ev(n["b"])))) if a else False
                if self.guarded_ok(n["b"]):
                    return simp(z3.And(a, zb(self.rv(self.ev(n["b"])))))
            ok, b = self.speculate(a, n["b"])
            if ok:
                return simp(z3.And(zb(a), zb(b)))
            if not self.branch(a):
                return False
            return simp(zb(self.rv(self.ev(n["b"]))))
        if op == "||":
            a = self.rv(self.ev(n["a"]))
            if self.pure(n["b"]):
                a = simp(zb(a))
                if isinstance(a, bool):
                    return True if a else simp(zb(self.rv(self.ev(n["b"]))))
                if self.guarded_ok(n["b"]):
                    return simp(z3.Or(a, zb(self.rv(self.ev(n["b"])))))
            ok, b = self.speculate(simp(z3.Not(zb(a))) if not isinstance(a, bool) else not a, n["b"])
            if ok:
                return simp(z3.Or(zb(a), zb(b)))
            if self.branch(a):
                return True
            return simp(zb(self.rv(self.ev(n["b"]))))
        if op == "=":
            b = self.rv(self.ev(n["b"]))
            a = self.ev(n["a"])
            self.write(a, b)
            return a
        a = self.rv(self.ev(n["a"]))
        b = self.rv(self.ev(n["b"]))
        return self.binop(op, a, b, n["t"], n, n["a"]["t"])

    def speculate(self, a, e):
        """value of e under the condition a when evaluating it decides nothing and writes nothing that existed"""
        a = simp(zb(a)) if not isinstance(a, bool) else a
        if isinstance(a, bool):
            return False, None
        pc, st, dec, pre = list(self.pc), dict(self.store), self.dec, self.prefix
        nob, seen, nroot, fr, nf, dep = len(self.obls), set(self.seen), self.nroot, self.fresh_n, len(self.frames), self.depth
        self.dec, self.prefix = [], []
        self.pc = pc + [a]
        ok, b = False, None
        try:
            b = self.rv(self.ev(e))
            ok = not self.dec and is_term(b) and all(self.store[r] is st[r] for r in st)
        except (PathEnd, ThrowEx):
            ok = False
        self.dec, self.prefix = dec, pre
        if ok:
            self.pc = pc + [z3.Implies(a, x) for x in self.pc[len(pc) + 1:]]
            return True, b
        self.pc, self.store, self.nroot, self.fresh_n, self.depth = pc, st, nroot, fr, dep
        del self.obls[nob:]
        del self.frames[nf:]
        self.seen = seen
        return False, None

    def pure(self, n):
        return n["k"] in ("ImplicitCastExpr", "BinaryOperator", "UnaryOperator", "DeclRefExpr", "IntegerLiteral",
                          "CXXBoolLiteralExpr") and self._pure(n)

    def _pure(self, n):
        k = n["k"]
        if k in ("DeclRefExpr", "IntegerLiteral", "CXXBoolLiteralExpr"):
            return True
        if k == "ImplicitCastExpr":
            return n["ck"] in ("LValueToRValue", "IntegralCast", "NoOp") and self._pure(n["e"])
        if k == "BinaryOperator":
            return n["op"] in ("<", ">", "<=", ">=", "==", "!=", "&&", "||", "+", "-") and self._pure(n["a"]) and self._pure(n["b"])
        if k == "UnaryOperator":
            return n["op"] in ("!", "-") and self._pure(n["e"])
        return False

    def guarded_ok(self, n):
        return True

    def binop(self, op, a, b, t, n, at=None):
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.compare(op, a, b)
        if isinstance(a, It) or isinstance(b, It):
            if op == "+":
                return self.it_add(a, b) if isinstance(a, It) else self.it_add(b, a)
            if op == "-" and isinstance(a, Ptr) and a.lv is None and isinstance(b, It):
                from models import NegAddr
                return NegAddr(b)
            if op == "-" and isinstance(b, It):
                return simp(zi(a.i) - zi(b.i))
            if op == "-":
                return self.it_add(a, simp(-zi(b)))
        if not is_term(a) or not is_term(b):
            raise Unsupported("operator %s on %s" % (op, type(a).__name__))
        return self.arith(op, a, b, t, n)

    def it_add(self, it, k):
        k = self.as_int(k)
        return It(it.lv, simp(zi(it.i) - zi(k)) if it.rev else simp(zi(it.i) + zi(k)), it.rev, it.kind)

    def compare(self, op, a, b):
        if isinstance(a, It) and isinstance(b, It):
            a, b = (b.i, a.i) if a.rev else (a.i, b.i)
        elif isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and op in ("==", "!="):
                e = (a.lv is None and b.lv is None) or (a.lv is not None and b.lv is not None and a.lv.root == b.lv.root and str(a.lv.path) == str(b.lv.path))
                return e if op == "==" else not e
            raise Unsupported("pointer comparison")
        if not is_term(a) or not is_term(b):
            raise Unsupported("comparison of %s" % type(a).__name__)
        a, b = zt(a), zt(b)
        if z3.is_bool(a) != z3.is_bool(b):
            a, b = zi(self.as_int(a)), zi(self.as_int(b))
        if z3.is_bool(a) and op not in ("==", "!="):
            a, b = zi(self.as_int(a)), zi(self.as_int(b))
        if a.sort() != b.sort():
            if z3.RealSort() in (a.sort(), b.sort()):
                a, b = zr(a), zr(b)
        return simp({"==": lambda: a == b, "!=": lambda: a != b, "<": lambda: a < b, ">": lambda: a > b,
                     "<=": lambda: a <= b, ">=": lambda: a >= b}[op]())

    def ev_CompoundAssignOperator(self, n):
        op = n["op"][:-1]
        b = self.rv(self.ev(n["b"]))
        lv = self.ev(n["a"])
        a = self.read(lv)
        if isinstance(a, It):
            r = self.it_add(a, b if op == "+" else simp(-zi(b)))
        else:
            at, ct = n["a"]["t"], n["ct"]
            if self.p.T(at)["k"] == "bool" and op in ("&", "|"):
                f = z3.And if op == "&" else z3.Or
                bb = b
                if not isinstance(b, bool) and not (z3.is_expr(b) and z3.is_bool(b)):
                    bit = is_bit(b) if z3.is_expr(b) else None
                    bb = bit if bit is not None else simp(zi(b) != 0)
                r = simp(f(zb(a), zb(bb)))
            else:
                if self.p.T(ct)["k"] == "float":
                    r = self.arith(op, a, b, ct, n)
                else:
                    a2 = self.int_conv(a, at, ct) if self.p.T(at)["k"] != "bool" else self.as_int(a)
                    r = self.arith(op, a2, b, ct, n)
                    r = self.int_conv(r, ct, at)
        self.write(lv, r)
        return lv

    def ev_UnaryOperator(self, n):
        op = n["op"]
        if op == "&":
            lv = self.ev(n["e"])
            if isinstance(lv, FnVal):
                return lv
            return Ptr(lv)
        if op == "*":
            return self.deref(self.rv(self.ev(n["e"])), n)
        if op in ("++", "--"):
            lv = self.ev(n["e"])
            a = self.read(lv)
            d = 1 if op == "++" else -1
            if isinstance(a, It):
                r = self.it_add(a, d)
            else:
                r = self.arith("+" if d == 1 else "-", a, 1, n["t"], n)
            self.write(lv, r)
            return a if n["post"] else lv
        v = self.rv(self.ev(n["e"]))
        if op == "!":
            return simp(z3.Not(zb(v)))
        if op == "-":
            if z3.is_expr(v) and v.sort() == z3.RealSort():
                return z3.simplify(-v)
            v = self.as_int(v)
            T = self.p.T(n["t"])
            if not T["sg"]:
                return self.arith("-", 0, v, n["t"], n)
            return simp(-zi(v))
        if op in ("+", "__extension__"):
            return v
        raise Unsupported("unary %s" % op)

    def ev_ArraySubscriptExpr(self, n):
        a = self.rv(self.ev(n["c"][0]))
        b = self.rv(self.ev(n["c"][1]))
        if not isinstance(a, It):
            a, b = b, a
        return self.it_deref(self.it_add(a, b), n, "subscript")

    # calls
    def ev_CXXConstructExpr(self, n):
        fn = n["fn"]
        args = [self.ev(a) for a in n["args"]]
        T = self.p.T(n["t"])
        return self.make(fn, args, n["t"], n)

    ev_CXXTemporaryObjectExpr = ev_CXXConstructExpr

    def make(self, fn, args, tid, n=None):
        T = self.p.T(tid)
        for rx, c in self.use:
            if rx.fullmatch(strip(fn["qual"]) + "::ctor"):
                r = c(Call(self, fn, None, args, n))
                if r is not NotImplemented:
                    self.contracts_used.add(fn["qual"] + "::ctor")
                    return r
        F = self.p.funcs.get(fn["id"])
        simple = fn.get("implicit") and fn["ck"] in ("copy", "move")
        for rx, f in CTOR_MODELS:
            if rx.match(T["s"]):
                r = f(Call(self, fn, None, args, n), T)
                if r is not NotImplemented:
                    return r
        if simple:
            v = self.rv(args[0])
            if fn["ck"] == "move" and isinstance(args[0], LV):
                self.moved(args[0], v)
            if isinstance(v, Struct) and T["k"] == "rec" and v.rec != T["rec"]:
                v = Struct(T["rec"], {f["name"]: v.f[f["name"]] for f in self.p.all_fields(T["rec"])})
            return v
        if F is not None and F.get("body_") is not None:
            return self.construct(F, args, tid, n)
        if T["k"] == "rec":
            r = self.p.records[T["rec"]]
            if not r["file"].startswith("/usr") and (fn.get("implicit") or not args) and fn["ck"] == "default":
                return self.default_struct(T["rec"])
        raise Unsupported("constructor of %s" % T["s"][:80])

    def default_struct(self, ri):
        f = {}
        for x in self.p.all_fields(ri):
            f[x["name"]] = self.default_init(x["t"])
        return Struct(ri, f)

    def default_init(self, t):
        T = self.p.T(t)
        sh = self.shape(t)
        if sh[0] == "vec":
            return Vec(0, self.fresh_shape(sh, "v").data)
        if sh[0] == "struct":
            return self.default_struct(sh[1])
        if sh[0] == "tup":
            r = self.p.records[T["rec"]]
            ta = r["targs"][0]["pack"] if "pack" in r["targs"][0] else r["targs"]
            return Tup([self.value_init(a["type"]) for a in ta])
        return self.fresh_type(t, "uninit")

    def value_init(self, t):
        T = self.p.T(t)
        if T["k"] in ("int", "bool", "enum", "float", "ptr"):
            return self.zero(t)
        if T["k"] == "rec":
            ri = T["rec"]
            for f in self.p.funcs.values():
                if f["kind"] == "ctor" and f["rec"] == ri and not f["params"] and f.get("body_"):
                    return self.construct(f, [], t)
        return self.default_init(t)

    def moved(self, lv, v):
        if isinstance(v, Vec):
            self.write(lv, Vec(0, v.data))

    def ev_CXXInheritedCtorInitExpr(self, n):
        fr = self.frames[-1]
        return self.make(n["fn"], [fr.env[p["id"]] for p in fr.fn["params"]], n["t"], n)

    def ev_CallExpr(self, n):
        if "fn" not in n:
            f = self.rv(self.ev(n["callee"]))
            return self.apply(f, [self.ev(a) for a in n["args"]], n)
        fn = n["fn"]
        args = [self.ev(a) for a in n["args"]]
        return self.dispatch(fn, None, args, n)

    def ev_CXXMemberCallExpr(self, n):
        ce = n["callee"]
        while ce["k"] in ("ImplicitCastExpr",):
            ce = ce["e"]
        if ce["k"] != "MemberExpr":
            raise Unsupported("member pointer call")
        fn = n.get("fn") or ce.get("fn")
        b = self.ev(ce["e"])
        if ce["arrow"]:
            b = self.deref(self.rv(b), n)
        elif not isinstance(b, LV):
            b = self.alloc(b)
        args = [self.ev(a) for a in n["args"]]
        return self.dispatch(fn, b, args, n)

    def ev_CXXOperatorCallExpr(self, n):
        fn = n.get("fn")
        if fn is None:
            raise Unsupported("operator call")
        args = [self.ev(a) for a in n["args"]]
        if fn["kind"] in ("method", "conv") and not fn.get("static"):
            o = args[0]
            ov = self.rv(o)
            if isinstance(ov, (Closure, PyFn, FnVal)) and fn["name"] == "operator()":
                return self.apply(ov, args[1:], n)
            if not isinstance(o, LV):
                o = self.alloc(o)
            return self.dispatch(fn, o, args[1:], n)
        return self.dispatch(fn, None, args, n)

    def dispatch(self, fn, obj, args, n):
        for rx, c in self.use:
            if rx.fullmatch(strip(fn["qual"])):
                r = c(Call(self, fn, obj, args, n))
                if r is not NotImplemented:
                    self.contracts_used.add(fn["qual"])
                    return r
        if fn.get("virtual") and obj is not None:
            o = self.rv(obj)
            if isinstance(o, Struct):
                tgt = self.virtual(fn, o.rec)
                if tgt is not None:
                    fn = tgt
            elif isinstance(o, Vec) and self.vec_rec is not None:
                # a container held through its abstract base: dynamic type fixed by the unit
                tgt = self.virtual(fn, self.vec_rec)
                if tgt is not None:
                    fn = tgt
        if fn.get("implicit") and fn.get("op") == "=" and len(args) == 1 and fn["kind"] == "method":
            v = self.rv(args[0])
            if is_term(v) or isinstance(v, (Struct, Vec, Tup, It, Ptr)):
                self.write(obj, v)
                return obj
        r = self.call_model(fn, obj, args, n, optional=True)
        if r is not NotImplemented:
            return r
        F = self.p.funcs.get(fn["id"])
        if F is not None and F.get("body_") is not None:
            return self.call_fn(F, obj, args, n)
        raise Unsupported("call of %s" % fn["qual"])

    def virtual(self, fn, rec):
        """final overrider of fn in dynamic type rec"""
        r = self.p.records[rec]
        for m in r.get("vm", []):
            if m["id"] == fn["id"]:
                return self.p.funcs.get(m["id"])
            if fn["id"] in m["over"]:
                return self.p.funcs.get(m["id"])
        for b in self.p.bases(rec):
            t = self.virtual(fn, b)
            if t is not None:
                return t
        return None

    def call_model(self, fn, obj, args, n, optional=False):
        q = strip(fn["qual"])
        for rx, f in MODELS:
            if rx.fullmatch(q):
                c = Call(self, fn, obj, args, n)
                r = f(c)
                if r is not NotImplemented:
                    for rx2, h in self.after:
                        if rx2.fullmatch(q):
                            h(c, r)
                    return r
        if optional:
            return NotImplemented
        raise Unsupported("call of %s" % q)

    def ev_CXXNewExpr(self, n):
        raise Unsupported("new")

    def ev_UnaryExprOrTypeTraitExpr(self, n):
        raise Unsupported("sizeof without value")


def zr(x):
    x = zt(x)
    return z3.ToReal(x) if x.sort() == I else x


def wrap_int(v, bits, sg):
    m = 1 << bits
    v %= m
    if sg and v >= m // 2:
        v -= m
    return v


def wrap_term(v, bits, sg):
    m = 1 << bits
    v = zi(v)
    if not sg:
        return simp(v % m)
    return simp((v + m // 2) % m - m // 2)


def is_bit(x):
    """the Boolean b when x is (if b 1 0)"""
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.BoolVal(x == 1) if x in (0, 1) else None
    if z3.is_app_of(x, z3.Z3_OP_ITE):
        c, a, b = x.children()
        if z3.is_int_value(a) and z3.is_int_value(b):
            if a.as_long() == 1 and b.as_long() == 0:
                return c
            if a.as_long() == 0 and b.as_long() == 1:
                return z3.Not(c)
    return None


def collect_apps(fs, names, acc, seen):
    stack = list(fs)
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(e):
            continue  # only ground applications
        if z3.is_app(e):
            if e.num_args() and e.decl().name() in names:
                acc.append(e)
            stack.extend(e.children())


_apps = {}     # formula id -> (formula, applications of recursive specification functions in it)
_unf = {}      # application id -> (application, its unfolding and frame facts)


def apps_of(f, names):
    i = f.get_id()
    r = _apps.get(i)
    if r is None:
        acc = []
        collect_apps([f], names, acc, set())
        r = _apps[i] = (f, acc)
    return r[1]


def unfoldings(fs, depth=2):
    names = {r.f.name(): r for r in RecFun.all}
    out = []
    done = set()
    cur = list(fs)
    for d in range(depth):
        new = []
        for f in cur:
            for e in apps_of(f, names):
                i = e.get_id()
                if i in done:
                    continue
                done.add(i)
                u = _unf.get(i)
                if u is None:
                    rf = names[e.decl().name()]
                    u = _unf[i] = (e, [rf.unfold(e.children())] + rf.frame(e.children()))
                new += u[1]
        out += new
        cur = new
        if not new:
            break
    return out
