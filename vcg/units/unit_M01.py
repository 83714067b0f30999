"""M01: the block map"""
from spec import *

LEVEL = "proof"
NOTE = ("Look up, access, insertion (plain, hinted, of a sorted range with collisions), emplacement, erasure, merging, construction from unsorted "
        "sequences, swap and copy of flat_map are proved against an ordered map, for every sorted map and any collision function, on the "
        "instantiation with 64 bit keys ordered by < (every finite strict total order embeds in it). Members that do not compile when instantiated "
        "(insert_or_assign, try_emplace, emplace without hint, assignment of a list, merge of an expiring map without collision) are outside. "
        "Assumes the contracts of the standard algorithms in vcg/models.py.")
TUS = {"fm": ("vcg/inst/flat_map.cpp", ["R quantit::.*", "R verif::.*"])}
M_ = "quantit::flat_map<long, double"
OPTS = dict(abstract_map=False)
R_ = z3.RealSort()
COMB = z3.Function("combine", R_, R_, R_)
SING = z3.Function("single", R_, R_)


def rz(x):
    x = zt(x)
    return z3.ToReal(x) if x.sort() == I else x


def setup(ex):
    ex.use.append((re.compile(r"verif::combine"), lambda c: COMB(rz(c.val(0)), rz(c.val(1)))))
    ex.use.append((re.compile(r"verif::single"), lambda c: SING(rz(c.val(0)))))


def sorted_(K, n):
    i, j = z3.FreshConst(I, "i"), z3.FreshConst(I, "j")
    return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < zi(n)), z3.Select(K, i) < z3.Select(K, j)))


class Mp:
    def __init__(self, ex, name, srt=True):
        self.ex = ex
        rec = [f["rec"] for f in ex.p.funcs.values() if f["qual"].startswith(M_) and f["name"] == "contains"][0]
        self.rec = rec
        self.at = ex.alloc(ex.fresh_rec(rec, name))
        self.c0 = self.content()
        self.K, self.V, self.n = self.c0.data.v[0], self.c0.data.v[1], zi(self.c0.n)
        # storage by name, so that the quantified facts below have ground terms
        ex.assume(self.n >= 0)
        if srt:
            ex.assume(self.sorted0())

    def content(self):
        return self.ex.rv(self.at).f["content"]

    def content_lv(self):
        return self.at.fld("content")

    def sorted0(self):
        return sorted_(self.K, self.n)

    def lb(self, k):
        """position of the first key not below k (ghost)"""
        p = self.ex.fresh(I, "lb")
        j = z3.FreshConst(I, "j")
        K = self.K
        self.ex.assume(z3.And(0 <= p, p <= self.n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < p), z3.Select(K, j) < k)),
                              z3.ForAll([j], z3.Implies(z3.And(p <= j, j < self.n), z3.Select(K, j) >= k))))
        return p, z3.And(p < self.n, z3.Select(K, p) == k)

    def it(self, i):
        return It(self.content_lv(), i)


def is_map(ex, m, n, f, lab):
    """content has n entries given by f(q) -> [(condition, key, value)], and is sorted"""
    c = m.content()
    K, V = c.data.v
    ex.prove(lab + ": number of entries", zi(c.n) == n)
    q = z3.FreshConst(I, "q")
    ex.prove(lab + ": entries", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), z3.And(
        [z3.Implies(cd, z3.And(z3.Select(K, q) == k, z3.Select(V, q) == v)) for cd, k, v in f(q)]))))
    ex.prove(lab + ": keys strictly increasing", sorted_(K, n))


def same(ex, m, lab):
    is_map(ex, m, m.n, lambda q: [(z3.BoolVal(True), z3.Select(m.K, q), z3.Select(m.V, q))], lab)


def fs(ex, name, n, pred=None, const=None, lo=1):
    out = [f for f in ex.p.funcs.values() if f["qual"].startswith(M_) and "::" not in f["qual"].split(">::")[-1] and f["name"] == name and len(f["params"]) == n and f.get("body_") is not None]
    if pred:
        out = [f for f in out if pred([ex.p.ts(x["t"]) for x in f["params"]])]
    if const is not None:
        out = [f for f in out if bool(f.get("const")) == const]
    if len(out) < lo:
        raise ContractMismatch("no %s of flat_map in this tree" % name)
    return out


def pos(ex, r):
    v = ex.rv(r)
    if not isinstance(v, It):
        return z3.IntVal(-1)
    return zi(v.i)


LOOKUPS = ("find", "lower_bound", "upper_bound", "count", "contains", "equal_range", "at")


def lookup(ex):
    setup(ex)
    cases = [(name, f) for name in LOOKUPS for f in fs(ex, name, 1)] + [("[]", fs(ex, "operator[]", 1)[0])]
    name, f = cases[ex.choose(len(cases))]
    m = Mp(ex, "m")
    k = ex.fresh(I, "k")
    p, hit = m.lb(k)
    if name == "[]":
        r = ex.call_fn(f, m.at, [k])
        n = m.n + z3.If(hit, 0, 1)
        lab = "access by key"
        ex.prove(lab + ": value", rz(ex.rv(r)) == z3.If(hit, z3.Select(m.V, p), z3.RealVal(0)))
        is_map(ex, m, n, lambda q: inserted(m, p, hit, k, z3.RealVal(0), q), lab)
        x = ex.fresh(R_, "x")
        ex.write(r, x)
        is_map(ex, m, n, lambda q: [(q == p, k, x)] + inserted(m, p, hit, k, x, q, other=True), lab + " assigned")
        return
    kk = ex.alloc(k)
    lab = name + (" const" if f.get("const") else "")
    try:
        r = ex.call_fn(f, m.at, [kk])
    except ThrowEx:
        if name != "at":
            raise
        ex.prove(lab + " raises only for absent keys", z3.Not(hit))
        same(ex, m, lab)
        return
    if name == "find":
        ex.prove(lab, pos(ex, r) == z3.If(hit, p, m.n))
    elif name == "lower_bound":
        ex.prove(lab, pos(ex, r) == p)
    elif name == "upper_bound":
        ex.prove(lab, pos(ex, r) == z3.If(hit, p + 1, p))
    elif name == "count":
        ex.prove(lab, zi(ex.as_int(ex.rv(r))) == z3.If(hit, 1, 0))
    elif name == "contains":
        ex.prove(lab, zb(ex.rv(r)) == hit)
    elif name == "equal_range":
        t = ex.rv(r)
        a, b = t.v
        ex.prove(lab, z3.And(pos(ex, a) == z3.If(hit, p, m.n), pos(ex, b) == z3.If(hit, p + 1, m.n)))
    else:
        ex.prove(lab + " of a present key", z3.And(hit, rz(ex.rv(r)) == z3.Select(m.V, p)))
        same(ex, m, lab)
        if not f.get("const"):
            x = ex.fresh(R_, "x")
            ex.write(r, x)
            is_map(ex, m, m.n, lambda q: [(q != p, z3.Select(m.K, q), z3.Select(m.V, q)), (q == p, k, x)], lab + ": assignment")
        return
    same(ex, m, lab)


def inserted(m, p, hit, k, v, q, other=False):
    """entry q of m with (k,v) inserted at p when absent"""
    sel = z3.Select
    r = [(q < p, sel(m.K, q), sel(m.V, q)), (z3.And(z3.Not(hit), q > p), sel(m.K, q - 1), sel(m.V, q - 1)), (z3.And(hit, q > p), sel(m.K, q), sel(m.V, q))]
    if not other:
        r += [(z3.And(z3.Not(hit), q == p), k, v), (z3.And(hit, q == p), k, sel(m.V, p))]
    return r


def insertion(ex):
    setup(ex)

    def one(f, hint, args_of, lab, reports):
        m = Mp(ex, "m")
        k, v = ex.fresh(I, "k"), ex.fresh(R_, "v")
        p, hit = m.lb(k)
        args = args_of(m, k, v)
        if hint:
            h = ex.fresh(I, "hint")
            ex.assume(z3.And(0 <= h, h <= m.n))
            args = [ex.alloc(m.it(h))] + args
        r = ex.rv(ex.call_fn(f, m.at, args))
        if reports:
            ex.prove(lab + ": reports whether it inserted", zb(r.v[1]) == z3.Not(hit))
            r = r.v[0]
        ex.prove(lab + ": position of the key", pos(ex, r) == p)
        is_map(ex, m, m.n + z3.If(hit, 0, 1), lambda q: inserted(m, p, hit, k, v, q), lab)
    pr = lambda m, k, v: [ex.alloc(Tup([k, v]))]
    cases = [(f, False, pr, "insert", True) for f in fs(ex, "insert", 1, lambda t: "std::pair<long, double>" in t[0])]
    cases += [(f, True, pr, "hinted insert", False) for f in fs(ex, "insert", 2, lambda t: t[1].startswith(("const std::pair<long, double>", "std::pair<long, double>")))]
    cases += [(f, True, lambda m, k, v: [ex.alloc(k), ex.alloc(v)], "hinted emplace", True) for f in fs(ex, "emplace", 3)]
    one(*cases[ex.choose(len(cases))])


def erasure(ex):
    setup(ex)
    sel = z3.Select

    def without(m, a, b, q):
        return [(q < a, sel(m.K, q), sel(m.V, q)), (q >= a, sel(m.K, q + (b - a)), sel(m.V, q + (b - a)))]
    for f in fs(ex, "erase", 1, lambda t: "iterator" in t[0]):
        m = Mp(ex, "m")
        a = ex.fresh(I, "a")
        ex.assume(z3.And(0 <= a, a < m.n))
        r = ex.call_fn(f, m.at, [ex.alloc(m.it(a))])
        ex.prove("erase: position", pos(ex, r) == a)
        is_map(ex, m, m.n - 1, lambda q: without(m, a, a + 1, q), "erase")
    f, = fs(ex, "erase", 2)
    m = Mp(ex, "m")
    a, b = ex.fresh(I, "a"), ex.fresh(I, "b")
    ex.assume(z3.And(0 <= a, a <= b, b <= m.n))
    r = ex.call_fn(f, m.at, [ex.alloc(m.it(a)), ex.alloc(m.it(b))])
    ex.prove("erase range: position", pos(ex, r) == a)
    is_map(ex, m, m.n - (b - a), lambda q: without(m, a, b, q), "erase range")
    f, = fs(ex, "erase", 1, lambda t: "long" in t[0] and "iterator" not in t[0])
    m = Mp(ex, "m")
    k = ex.fresh(I, "k")
    p, hit = m.lb(k)
    r = ex.call_fn(f, m.at, [ex.alloc(k)])
    d = z3.If(hit, 1, 0)
    ex.prove("erase by key: number erased", zi(ex.rv(r)) == d)
    is_map(ex, m, m.n - d, lambda q: [(q < p, sel(m.K, q), sel(m.V, q)), (q >= p, sel(m.K, q + d), sel(m.V, q + d))], "erase by key")


def values(ex):
    setup(ex)
    m, o = Mp(ex, "m"), Mp(ex, "o")
    sel = z3.Select

    def holds(x, src, lab):
        is_map(ex, x, src.n, lambda q: [(z3.BoolVal(True), sel(src.K, q), sel(src.V, q))], lab)
    f, = fs(ex, "swap", 1)
    ex.call_fn(f, m.at, [o.at])
    holds(m, o, "swap")
    holds(o, m, "swap, other side")
    for f in fs(ex, "operator=", 1, lambda t: "initializer_list" not in t[0]):
        m, o = Mp(ex, "m"), Mp(ex, "o")
        ex.call_fn(f, m.at, [o.at])
        holds(m, o, "assignment")
        if "&&" not in ex.p.ts(f["params"][0]["t"]):
            holds(o, o, "assignment leaves its source")
    for f in [f for f in ex.p.funcs.values() if f["qual"].startswith(M_) and f["kind"] == "ctor" and f["rec"] == m.rec and len(f["params"]) == 1 and "flat_map" in ex.p.ts(f["params"][0]["t"])]:
        o, d = Mp(ex, "o"), Mp(ex, "d")
        ex.run_ctor(f, d.at, [o.at])
        holds(d, o, "copy")
    for f in fs(ex, "clear", 0):
        m = Mp(ex, "m")
        ex.call_fn(f, m.at, [])
        is_map(ex, m, z3.IntVal(0), lambda q: [], "clear")
    for f in fs(ex, "reserve", 1):
        m = Mp(ex, "m")
        ex.call_fn(f, m.at, [3])
        same(ex, m, "reserve")
    m = Mp(ex, "m")
    for f in fs(ex, "size", 0):
        ex.prove("size", zi(ex.rv(ex.call_fn(f, m.at, []))) == m.n)
    for f in fs(ex, "empty", 0):
        ex.prove("empty", zb(ex.rv(ex.call_fn(f, m.at, []))) == (m.n == 0))
    for nm, w in (("begin", z3.IntVal(0)), ("cbegin", z3.IntVal(0)), ("end", m.n), ("cend", m.n)):
        for f in fs(ex, nm, 0):
            ex.prove(nm, pos(ex, ex.call_fn(f, m.at, [])) == w)


def cut(ex, lab, f):
    """an intermediate assertion: proved, then used"""
    ex.prove(lab, f, "invariant")
    ex.assume(f)


# ---------------------------------------------------------------- merging of sorted ranges
class Merge:
    """ghost description of the union of two sorted maps"""

    def __init__(self, ex, C, S):
        self.ex, self.C, self.S = ex, C, S
        self.lbS = z3.Function("lbS", I, I)      # first source key not below key j of the map
        self.lbC = z3.Function("lbC", I, I)      # first map key not below source key i
        i, j = z3.FreshConst(I, "i"), z3.FreshConst(I, "j")
        sel = z3.Select
        for F, A, B in ((self.lbS, C, S), (self.lbC, S, C)):
            ex.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < A.n), z3.And(0 <= F(j), F(j) <= B.n)), patterns=[F(j)]))
            ex.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= j, j < A.n, 0 <= i, i < F(j)), sel(B.K, i) < sel(A.K, j)), patterns=[z3.MultiPattern(F(j), sel(B.K, i))]))
            ex.assume(z3.ForAll([i, j], z3.Implies(z3.And(0 <= j, j < A.n, F(j) <= i, i < B.n), sel(B.K, i) >= sel(A.K, j)), patterns=[z3.MultiPattern(F(j), sel(B.K, i))]))
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < S.n), POS_OK(i) == z3.Not(self.hitC(i))), patterns=[POS_OK(i)]))
        self.cnt = lambda n: CNT(0, 0, n)
        self.N = C.n + self.cnt(S.n)
        self.moving = False   # in the second loop
        self.span(z3.IntVal(0), S.n)
        ex.after.append((re.compile("std::lower_bound"), self.searched))

    def span(self, lo, hi):
        cnt_span(self.ex, lo, hi, self.lbC)

    def searched(self, c, r):
        """ghost code after a binary search: it found the ghost position"""
        ex = self.ex
        key = c.args[2]
        if not isinstance(key, LV) or not isinstance(r, It) or not key.path or key.path[-1][0] != "i":
            return
        i = zi(key.path[-1][1])
        for A, B, F in ((self.C, self.S, self.lbS), (self.S, self.C, self.lbC)):
            if key.root == A.at.root and r.lv.root == B.at.root:
                ex.prove("searched position", zi(r.i) == F(i), "invariant")
                ex.assume(zi(r.i) == F(i))
                hi, r = zi(ex.rv(c.args[1]).i), zi(r.i)
                cnt, j = self.cnt, z3.FreshConst(I, "j")
                if B is self.S:
                    # entries r.. of the source go above entry i of the map, except one equal to it
                    fc = z3.If(z3.And(r < hi, z3.Select(self.S.K, r) == z3.Select(self.C.K, i)), z3.IntVal(1), z3.IntVal(0))
                    self.span(r + fc, hi)
                    self.cut("no collision above", z3.ForAll([j], z3.Implies(z3.And(r + fc <= j, j < hi), z3.And(POS_OK(j), self.lbC(j) == i + 1)), patterns=[self.lbC(j)]))
                    self.cut("their number", cnt(hi) == cnt(r + fc) + hi - r - fc)
                    self.cut("their positions", z3.ForAll([j], z3.Implies(z3.And(r + fc <= j, j < hi), cnt(j) == cnt(r + fc) + j - r - fc), patterns=[self.lbC(j)]))
                    self.cut("collision not counted", cnt(r + fc) == cnt(r))
                elif self.moving:
                    # entries r..hi of the map go above entry i of the source, except one equal to it
                    self.cut("same number of entries of the source below them", z3.ForAll([j], z3.Implies(z3.And(r <= j, j < hi), z3.And(
                        self.lbS(j) <= i + 1, self.lbS(j) >= i, cnt(self.lbS(j)) == cnt(i + 1))), patterns=[self.lbS(j)]))

    def cut(self, lab, f):
        cut(self.ex, lab, f)

    def hitS(self, j):
        return z3.And(self.lbS(j) < self.S.n, z3.Select(self.S.K, self.lbS(j)) == z3.Select(self.C.K, j))

    def hitC(self, i):
        return z3.And(self.lbC(i) < self.C.n, z3.Select(self.C.K, self.lbC(i)) == z3.Select(self.S.K, i))

    def posC(self, j):
        return j + self.cnt(self.lbS(j))

    def posS(self, i):
        return self.lbC(i) + self.cnt(i)

    def result(self, K, V, p, q, e, col, nocol):
        """entries of the map from p on and of the source from q on are in their final place, from e on"""
        sel = z3.Select
        C, S = self.C, self.S
        j, i = z3.FreshConst(I, "j"), z3.FreshConst(I, "i")
        return [("entries of the map", z3.ForAll([j], z3.Implies(z3.And(p <= j, j < C.n), z3.And(
                    self.posC(j) >= e, self.posC(j) < self.N, sel(K, self.posC(j)) == sel(C.K, j),
                    sel(V, self.posC(j)) == z3.If(self.hitS(j), col(sel(C.V, j), sel(S.V, self.lbS(j))), sel(C.V, j)))), patterns=[self.lbS(j)])),
                ("entries of the source", z3.ForAll([i], z3.Implies(z3.And(q <= i, i < S.n, z3.Not(self.hitC(i))), z3.And(
                    self.posS(i) >= e, self.posS(i) < self.N, sel(K, self.posS(i)) == sel(S.K, i),
                    sel(V, self.posS(i)) == nocol(sel(S.V, i)))), patterns=[self.lbC(i)]))]


def merging(what):
    def body(ex):
        setup(ex)
        C, S = Mp(ex, "map"), Mp(ex, "source")
        sel = z3.Select
        G = Merge(ex, C, S)
        first = lambda a, b: a
        ident = lambda a: a
        name, pred, args, col, nocol = what
        f = fs(ex, name, None and 0 or len(args(C, S, ex)), pred)[0]

        def count(L):
            n1 = zi(L.v("n1", "long", 0))
            look = pos(ex, L.v("look", "iterator", 0))
            i = pos(ex, L.v("i", "const_iterator", 0))
            G.span(zi(L.k), S.n)
            return [("position in the source", z3.And(i == zi(L.k), i <= S.n)), ("collisions counted", n1 == S.n - (zi(L.k) - G.cnt(zi(L.k)))),
                    ("search position", z3.And(0 <= look, look <= C.n)),
                    ("passed keys are below", z3.Implies(zi(L.k) < S.n, look <= G.lbC(zi(L.k)))),
                    ("unchanged", same_content(C))]

        def same_content(m):
            c = m.content()
            j = z3.FreshConst(I, "j")
            return z3.And(zi(c.n) == m.n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m.n), z3.And(sel(c.data.v[0], j) == sel(m.K, j), sel(c.data.v[1], j) == sel(m.V, j)))))

        def merge(L):
            G.moving = True
            p = pos(ex, L.v("look", "iterator", 0))
            e = pos(ex, L.v("move_to_end", "iterator", 1))
            q = pos(ex, L.par(1))
            c = C.content()
            K, V = c.data.v
            i, j, a, b = [z3.FreshConst(I, x) for x in "ijab"]
            G.span(z3.IntVal(0), q)
            G.span(q, S.n)
            return [("positions", z3.And(0 <= p, p <= C.n, 0 <= q, q <= S.n, e == p + G.cnt(q), pos(ex, L.par(0)) == 0, zi(c.n) == G.N)),
                    ("not moved yet", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < p), z3.And(sel(K, j) == sel(C.K, j), sel(V, j) == sel(C.V, j))))),
                    ("split of the map", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < C.n), z3.If(j < p, G.lbS(j) <= q, G.lbS(j) >= q)), patterns=[G.lbS(j)])),
                    ("split of the source", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < S.n), z3.If(i < q, G.lbC(i) <= p, G.lbC(i) >= p)), patterns=[G.lbC(i)])),
                    ("final part sorted", z3.ForAll([a, b], z3.Implies(z3.And(e <= a, a < b, b < G.N), sel(K, a) < sel(K, b)))),
                    ("final part above the map", z3.ForAll([a], z3.Implies(z3.And(e <= a, a < G.N, p > 0), sel(C.K, p - 1) < sel(K, a)))),
                    ("final part above the source", z3.ForAll([a], z3.Implies(z3.And(e <= a, a < G.N, q > 0), sel(S.K, q - 1) < sel(K, a)))),
                    ("source unchanged", same_content(S))] + G.result(K, V, p, q, e, col, nocol)
        ex.loops_spec = {0: count, 1: merge}
        ex.call_fn(f, C.at, args(C, S, ex))
        c = C.content()
        K, V = c.data.v
        ex.prove("number of entries: those of the map and those of the source that are not in it", zi(c.n) == G.N)
        for lab, g in G.result(K, V, z3.IntVal(0), z3.IntVal(0), z3.IntVal(0), col, nocol):
            ex.prove(lab, g)
        ex.prove("keys strictly increasing", sorted_(K, G.N))
        if not what[1] or "&&" not in str(f["params"]):
            pass
    return body


def fn_of(ex, name):
    """a default constructed function object of the harness"""
    t = [i for i, T in enumerate(ex.p.types) if T.get("s") == "verif::" + name and T["k"] == "rec"][0]
    return ex.alloc(ex.value_init(t))


BASE = ("insert", lambda t: "Collision" in t[2] and "NoCollision" in t[3],
        lambda C, S, ex: [ex.alloc(S.it(0)), ex.alloc(S.it(S.n)), fn_of(ex, "Collision"), fn_of(ex, "NoCollision")], COMB, SING)

# the other members forward to that one: checked against its contract
FORWARD = [("insert", lambda t: "verif::Collision" in t[2] and "const_iterator" in t[0], "range", (COMB, None)),
           ("insert", lambda t: "const_iterator" in t[1], "range", (None, None)),
           ("merge", lambda t: t[0].startswith("const") and "NoCollision" in t[2], "map", (COMB, SING)),
           ("merge", lambda t: "verif::Collision" in t[1] and t[0].startswith("const"), "map", (COMB, None)),
           ("merge", lambda t: "&&" in t[0] and "NoCollision" in t[2], "map", (COMB, SING)),
           ("merge", lambda t: "verif::Collision" in t[1] and "&&" in t[0], "map", (COMB, None)),
           ("merge", lambda t: True, "map", (None, None))]


def forwarding(ex):
    setup(ex)
    name, pred, how, (col, nocol) = FORWARD[ex.choose(len(FORWARD))]
    C, S = Mp(ex, "map"), Mp(ex, "source")
    extra = ([fn_of(ex, "Collision")] if col is not None else []) + ([fn_of(ex, "NoCollision")] if nocol is not None else [])
    args = ([ex.alloc(S.it(0)), ex.alloc(S.it(S.n))] if how == "range" else [S.at]) + extra
    f = fs(ex, name, len(args), pred)[0]
    lab = "%s with %s" % (name, "collision and no-collision functions" if nocol is not None else "collision function" if col is not None else "no function")
    calls = []

    def contract(c):
        if len(c.args) != 4:
            return NotImplemented
        a, b = ex.rv(c.args[0]), ex.rv(c.args[1])
        whole = z3.And(zi(a.i) == 0, zi(b.i) == zi(ex.read(b.lv).n))
        ex.prove(lab + ": hands the whole source over", z3.And(z3.BoolVal(a.lv.root == b.lv.root and a.lv.root != c.obj.root), whole))
        for x in (ex.read(a.lv), ex.rv(c.obj).f["content"]):
            ex.prove(lab + ": both sides sorted", sorted_(x.data.v[0], x.n))
        x, y, z = ex.fresh(R_, "x"), ex.fresh(R_, "y"), ex.fresh(R_, "z")
        px, py, pz = ex.alloc(x), ex.alloc(y), ex.alloc(z)
        ex.apply(c.args[2], [px, py])
        ex.apply(c.args[3], [pz])
        ex.prove(lab + ": fresh elements", rz(ex.rv(pz)) == (nocol(z) if nocol is not None else z))
        out = rz(ex.rv(px))
        mine, theirs = ex.rv(c.obj).f["content"], ex.read(a.lv)
        is_ = lambda v, m: z3.And(zi(v.n) == m.n, sorted_eq(v, m))
        straight = z3.And(is_(mine, C), is_(theirs, S), out == (col(x, y) if col is not None else x))
        swapped = z3.And(is_(mine, S), is_(theirs, C), out == (col(y, x) if col is not None else y), z3.BoolVal(nocol is None))
        ex.prove(lab + ": colliding elements, the map's and the source's", z3.Or(straight, swapped))
        calls.append(1)
        ex.write(c.obj, ex.fresh_rec(C.rec, "merged"))
        return None
    ex.use.append((re.compile(r"quantit::flat_map::insert"), contract))
    ex.call_fn(f, C.at, args)
    ex.prove(lab + ": merges once", z3.BoolVal(len(calls) == 1))


def sorted_eq(v, m):
    j = z3.FreshConst(I, "j")
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m.n), z3.And(z3.Select(v.data.v[0], j) == z3.Select(m.K, j), z3.Select(v.data.v[1], j) == z3.Select(m.V, j))))


# ---------------------------------------------------------------- construction from sequences in any order
def building(ex):
    setup(ex)
    rec = Mp(ex, "d").rec
    isv = lambda t: "std::vector<std::pair<long, double>" in t or "content_t" in t
    ctors = [f for f in ex.p.funcs.values() if f["qual"].startswith(M_) and f["kind"] == "ctor" and f["rec"] == rec and f.get("body_") is not None and f["params"]]
    T = lambda f: [ex.p.ts(x["t"]) for x in f["params"]]
    cases = [("sequence", f) for f in ctors if len(f["params"]) == 1 and isv(T(f)[0])]
    cases += [("range", f) for f in ctors if len(f["params"]) >= 2 and "normal_iterator" in T(f)[0]]
    cases += [("insert", f) for f in fs(ex, "insert", 3, lambda t: "PairCollision" in t[2])]
    if len(cases) < 4:
        raise ContractMismatch("constructors of flat_map")
    how, f = cases[ex.choose(len(cases))]
    d, src = Mp(ex, "d", srt=how == "insert"), Mp(ex, "sequence", srt=False)
    sel = z3.Select
    g = {}

    def sorted_hook(c, r):
        v = ex.read(ex.rv(c.args[0]).lv)
        g["K"], g["V"], g["n"] = v.data.v[0], v.data.v[1], zi(v.n)
        g["perm"], g["inv"] = ex.last_sort[:2]
        i = z3.FreshConst(I, "i")
        ex.assume(z3.ForAll([i], POS_OK(i) == z3.Or(i == 0, sel(g["K"], i - 1) < sel(g["K"], i)), patterns=[POS_OK(i)]))
    ex.after.append((re.compile("std::(stable_)?sort"), sorted_hook))
    cnt = lambda n: CNT(0, 0, n)

    def groups(v, upto):
        """the first of every group of equal keys that starts before upto is in its place"""
        i = z3.FreshConst(I, "i")
        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < upto, POS_OK(i)), z3.And(
            cnt(i) < cnt(upto), cnt(i) >= 0, sel(v.data.v[0], cnt(i)) == sel(g["K"], i), sel(v.data.v[1], cnt(i)) == sel(g["V"], i))), patterns=[POS_OK(i)])

    def packing(L):
        fi, se, l = [ex.rv(L.v(nm, "iterator", 0)) if nm != "first" else ex.rv(L.par(0)) for nm in ("first", "second", "l")]
        v = ex.read(l.lv)
        f, s, l, n = zi(fi.i), zi(se.i), zi(l.i), g["n"]
        K, A = v.data.v[0], g["K"]
        j, a, b = [z3.FreshConst(I, x) for x in "jab"]
        cnt_span(ex, f + 1, s)
        cnt_span(ex, z3.IntVal(0), f)
        return [("positions", z3.And(0 <= l, l <= f, f < s, s <= n, zi(v.n) == n, zi(ex.rv(L.par(1)).i) == n)),
                ("start of a group", POS_OK(f)),
                ("the group", z3.ForAll([j], z3.Implies(z3.And(f <= j, j < s), sel(A, j) == sel(A, f)), patterns=[sel(A, j)])),
                ("end of the group", z3.Or(s == n, sel(A, s) > sel(A, f))),
                ("entries kept so far", l == cnt(f)),
                ("first of the group", z3.And(sel(K, l) == sel(A, f), sel(v.data.v[1], l) == sel(g["V"], f))),
                ("rest of the sequence", z3.ForAll([j], z3.Implies(z3.And(f < j, j < n), z3.And(sel(K, j) == sel(A, j), sel(v.data.v[1], j) == sel(g["V"], j))),
                                                    patterns=[sel(K, j), sel(A, j)] if z3.is_const(K) else [])),
                ("left behind", z3.ForAll([j], z3.Implies(z3.And(l < j, j <= f), sel(K, j) <= sel(A, f)))),
                ("first of the earlier groups", groups(v, f)),
                ("kept keys increasing", z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b <= l), sel(K, a) < sel(K, b))))]
    ex.loops_spec = {i: packing for i in range(8)}   # one per instantiation of the function
    seq = src.content_lv()
    if how == "sequence":
        ex.run_ctor(f, d.at, [seq])
    else:
        its = [ex.alloc(It(seq, 0)), ex.alloc(It(seq, src.n))]
        if how == "range":
            ex.run_ctor(f, d.at, its + [ex.alloc(Opaque("alloc") if "allocator" in ex.p.ts(x["t"]) else ex.value_init(x["t"])) for x in f["params"][2:]])
        else:
            ex.call_fn(f, d.at, its + [fn_of(ex, "PairCollision")])
    lab = {"sequence": "construction from a sequence", "range": "construction from a range", "insert": "insertion of a range in any order"}[how]
    c = d.content()
    K, V = c.data.v
    ex.prove(lab + ": keys strictly increasing", sorted_(K, c.n))
    # every element of the sequence has its key in the map, with the value of the first element that has it
    tot = src.n + (d.n if how == "insert" else 0)
    ex.prove(lab + ": whole sequence considered", g["n"] == tot if g else tot == 0)
    if not g:
        return
    given = (lambda arr_d, arr_s, x: z3.If(x < d.n, sel(arr_d, x), sel(arr_s, x - d.n))) if how == "insert" else (lambda arr_d, arr_s, x: sel(arr_s, x))
    x, y = ex.fresh(I, "x"), ex.fresh(I, "y")
    st = ex.fresh(I, "group")      # start of the group of element x
    i = z3.FreshConst(I, "i")
    p = g["inv"](x)
    ex.assume(z3.And(0 <= x, x < tot, 0 <= y, y < tot))
    # start of the group: greatest start not after p (lemma group_start)
    ex.assume(z3.And(0 <= st, st <= p, POS_OK(st), z3.ForAll([i], z3.Implies(z3.And(st < i, i <= p), z3.Not(POS_OK(i))), patterns=[POS_OK(i)]), sel(g["K"], st) == sel(g["K"], p)))
    ex.lemmas_used.add("group_start")
    cnt_span(ex, st, g["n"])
    for lab2, pp in (("element", p), ("other element", g["inv"](y)), ("first of its group", st)):
        cut(ex, lab + ": sorted position of the " + lab2, z3.And(0 <= pp, pp < tot, sel(g["K"], pp) == given(d.K, src.K, g["perm"](pp)), sel(g["V"], pp) == given(d.V, src.V, g["perm"](pp)),
                                                                g["perm"](pp) >= 0, g["perm"](pp) < tot))
    cut(ex, lab + ": elements with equal keys", z3.And(g["perm"](p) == x, g["perm"](g["inv"](y)) == y, z3.Implies(given(d.K, src.K, y) == given(d.K, src.K, x), z3.And(g["inv"](y) >= st, sel(g["K"], g["inv"](y)) == sel(g["K"], st)))))
    at = cnt(st)
    ex.prove(lab + ": every element is found", z3.And(0 <= at, at < zi(c.n), sel(K, at) == given(d.K, src.K, x)))
    first = g["perm"](st)
    ex.prove(lab + ": with the value of the first one", z3.And(0 <= first, first < tot, sel(V, at) == given(d.V, src.V, first), given(d.K, src.K, first) == given(d.K, src.K, x)))
    ex.prove(lab + ": which comes before the others", z3.Implies(given(d.K, src.K, y) == given(d.K, src.K, x), first <= y))
    cnt_span(ex, z3.IntVal(0), g["n"])
    ex.prove(lab + ": one entry per distinct key", zi(c.n) == cnt(g["n"]))


def unit(name, body, **kw):
    return dict(name=name, tu="fm", body=body, opts=dict(OPTS, **kw.pop("opts", {})), **kw)


def lemmas(ex):
    lemma_obligations(ex)
    # group_start: every position of a sorted sequence has a greatest group start not after it, with the same key
    A = z3.Const("a", z3.ArraySort(I, I))
    st, p, i = z3.Ints("st p i")
    ok = lambda i: z3.Or(i == 0, A[i - 1] < A[i])
    holds = lambda st, p: z3.And(0 <= st, st <= p, ok(st), z3.ForAll([i], z3.Implies(z3.And(st < i, i <= p), z3.Not(ok(i)))), A[st] == A[p])
    ex.pc = []
    ex.prove("lemma group_start base", holds(z3.IntVal(0), z3.IntVal(0)), "lemma")
    ex.pc = [p >= 0, holds(st, p), A[p] <= A[p + 1]]
    ex.prove("lemma group_start step", z3.Or(holds(st, p + 1), holds(p + 1, p + 1)), "lemma")


UNITS = [dict(name="lemmas", body=lambda ex: None, post=lemmas),
         unit("lookup", lookup), unit("insertion", insertion), unit("erasure", erasure), unit("values", values),
         unit("merging of sorted sequences", merging(BASE), depth=1, opts=dict(prune="ground"), timeout=20),
         unit("merging members", forwarding), unit("construction", building, depth=1, timeout=20, opts=dict(prune="ground"))]
DRIVERS = [dict(src="drivers/M01.cpp", flags=["-O1"])]
EXPLANATION = "contracts of every member of the block map against an ordered map; merging by loop invariants over the two sorted sequences"
