"""N01: networks and their orthogonality centre"""
from spec import *
import unit_N02 as S
from models import tensor_dim, tensor_sizes

LEVEL = "other"
TUS = {"mp": ("sources/MPT.cpp", ["R quantit::.*"])}
NOTE = "moves of the centre, construction, rank checks and swaps are proved for every chain length and sequence of moves, relative to assumed contracts of the decomposition and of the products of tensors; these contracts and the states are checked on the compiled code for small chains (bounded); the numerical accuracy of the isometries is in floating point and only sampled"
EXPLANATION = "Contracts on the real functions, dense and block. move_oc: refuses exactly the sites outside the chain, with nothing modified; otherwise the centre ends on the site asked for and never leaves the chain, sites off the path are untouched, left and right isometries are kept, neighbouring bonds match, and the represented state is the same. check_ranks and check_one accept exactly the networks whose ranks and bonds fit; every constructor refuses exactly what they refuse and centres outside, and holds what it was given; copies and swaps carry tensors and centre, each object keeping its own centre variable. One move in any state is proved, so every sequence of moves is."
OPTS = dict(abstract_tensor=True)
T, AT, LISO, RISO, CONJ, RIGHT = TEN, S.AT, S.LISO, S.RISO, S.CONJ, S.RIGHT
STATE = z3.Function("represented state", AT, z3.DeclareSort("State"))
GLUE = z3.Function("contraction over the common bond", T, T, T)
LB = z3.Function("left bond", T, z3.DeclareSort("Bond"))
RB = z3.Function("right bond", T, z3.DeclareSort("Bond"))
MULD = z3.Function("mul by the values", T, T, T)
TR = z3.Function("t", T, T)
ONLEFT = z3.Function("multiply the left bond", T, T, T)     # (what carries the values, neighbour)
ONRIGHT = z3.Function("multiply the right bond", T, T, T)   # (neighbour, what carries the values)
U1, D1, V1, U2, D2, V2 = [z3.Function("svd %s split %d" % (x, s), T, T) for s in (1, 2) for x in "UDV"]


def algebra():
    """assumed contracts of the decomposition and of the products (checked on the compiled code by the drivers of L01, B06 and of this property):
    svd(x, 1) = (u, d, v) with x the product of u d and of the adjoint of v, a right isometry; svd(x, 2) the same with u a left isometry"""
    x, y = z3.Consts("x y", T)
    ax = []
    for w in (lambda v: RIGHT(CONJ(v)), lambda v: CONJ(RIGHT(v))):
        v = w(V1(x))
        n = ONRIGHT(y, MULD(U1(x), D1(x)))
        ax += [z3.ForAll([x], z3.And(RISO(v), RB(v) == RB(x)), patterns=[v]),
               z3.ForAll([x, y], z3.Implies(RB(y) == LB(x), z3.And(GLUE(n, v) == GLUE(y, x), LB(n) == LB(y), RB(n) == LB(v))), patterns=[z3.MultiPattern(n, v)])]
    u = U2(x)
    ax.append(z3.ForAll([x], z3.And(LISO(u), LB(u) == LB(x)), patterns=[u]))
    n = ONLEFT(CONJ(MULD(V2(x), D2(x))), y)
    ax.append(z3.ForAll([x, y], z3.Implies(RB(x) == LB(y), z3.And(GLUE(u, n) == GLUE(x, y), RB(n) == RB(y), RB(u) == LB(n))), patterns=[n]))
    s = z3.Const("s", AT)
    k, m = z3.Ints("k m")
    # the state depends on two neighbours through their contraction only
    for p in (z3.Store(z3.Store(s, k, x), m, y), z3.Store(z3.Store(s, m, y), k, x)):
        ax.append(z3.ForAll([s, k, m, x, y], z3.Implies(z3.And(m == k + 1, GLUE(x, y) == GLUE(s[k], s[m]), LB(x) == LB(s[k]), RB(y) == RB(s[m])), STATE(p) == STATE(s)), patterns=[STATE(p)]))
    return ax


def c_svd(c):
    ex = c.ex
    x, k = c.val(0), ints1(c.val(1))
    if k == 1:
        return Tup([U1(x), D1(x), V1(x)])
    if k == 2:
        return Tup([U2(x), D2(x), V2(x)])
    return c.ex.fresh_type(c.fn["ret"], "svd")


def ints1(v):
    try:
        return z3.simplify(zi(v)).as_long()
    except Exception:
        return None


def c_dot(block):
    def h(c):
        a, b = c.val(0), c.val(1)
        i, j = S.ints(c.ex.rv(c.args[2])), S.ints(c.ex.rv(c.args[3]))
        if (i, j) == ([2], [0]):
            return ONRIGHT(a, b)
        if block and (i, j) == ([0], [0]):
            return ONLEFT(a, b)
        if not block and (i, j) == ([1], [0]) and z3.is_app(a) and a.decl().name() in ("t", "conj"):
            # dense: the values and v are transposed first
            return ONLEFT(untransposed(a), b)
        return c.ex.fresh(T, "product")
    return h


def untransposed(a):
    """conj and transposition commute: t(x).conj() is read as conj(x), one transposition being what makes it a product over index 1"""
    if a.decl().eq(TR):
        return a.arg(0)
    if a.decl().eq(CONJ) and z3.is_app(a.arg(0)) and a.arg(0).decl().eq(TR):
        return CONJ(a.arg(0).arg(0))
    return z3.FreshConst(T, "not transposed")


def use(ex, block):
    R = "(quantit|at|torch)::"
    O = "(quantit::btensor|at::Tensor)::"
    ex.use.append((re.compile(R + "svd"), c_svd))
    ex.use.append((re.compile(R + "tensordot"), c_dot(block)))
    ex.use.append((re.compile(O + "conj"), S.c_conj))
    ex.use.append((re.compile(O + "permute"), S.c_permute))
    ex.use.append((re.compile(O + "mul"), lambda c: MULD(c.ex.rv(c.obj), c.val(0))))
    ex.use.append((re.compile(O + "t"), lambda c: TR(c.ex.rv(c.obj))))
    ex.use.append((re.compile(O + "operator\\*"), lambda c: MULD(c.ex.rv(c.obj), c.val(0))))


def bonds_ok(d, n):
    i = z3.Int("i")
    return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i + 1 < n), RB(d[i]) == LB(d[i + 1])), patterns=[d[i]])


def p_move(kind):
    def body(ex):
        f = ex.p.byqual[kind + "::move_oc"][0]
        ri = next(i for i, r in enumerate(ex.p.records) if r and r["name"] == kind)
        st = S.mk_state_rec(ex, ri)
        n, c0 = S.size_of(ex, st), S.oc_of(ex, st)
        i = z3.Int("i")
        ex.assume(z3.And(i >= -2 ** 31, i < 2 ** 31, z3.Implies(n > 0, c0 < n)))
        v0 = ex.rv(st)
        d0 = S.tens(ex, st).data
        ex.assume(z3.And(S.canon(S.tens(ex, st), n, c0), bonds_ok(d0, n)))
        use(ex, kind == "quantit::bMPS")

        def inv(side):
            def g(L):
                o = S.oc_of(ex, st)
                d = S.tens(ex, st).data
                j = z3.Int("j")
                rng = z3.And(z3.Or(o >= i, o == c0), o <= c0) if side < 0 else z3.And(o <= i, o < n, z3.Or(o >= c0, o == i))
                return [("range", z3.And(0 <= o, o < n, rng)), ("length", S.size_of(ex, st) == n), ("isometries", S.canon(S.tens(ex, st), n, o)), ("state", STATE(d) == STATE(d0)), ("bonds", bonds_ok(d, n)),
                        ("sites not passed untouched", z3.ForAll([j], z3.Implies(z3.Or(j < o, j > c0) if side < 0 else z3.Or(z3.And(j < c0, j < i), z3.And(j > o, j > c0)), d[j] == d0[j]), patterns=[d[j]]))]
            return g
        ex.loops_at = {("move_oc", 0): inv(-1), ("move_oc", 1): inv(1)}
        try:
            ex.call_fn(f, st, [i])
        except ThrowEx as e:
            ex.prove("only a site outside the chain is refused", z3.Or(i < 0, i >= n))
            ex.check("refused with an argument error, nothing modified", str(e) == "std::invalid_argument" and ex.rv(st) is v0, f["line"])
            return
        ex.prove("a site outside the chain is refused", z3.And(0 <= i, i < n))
        ex.prove("the center is the requested site", S.oc_of(ex, st) == i)
        d = S.tens(ex, st).data
        j = z3.Int("j")
        ex.prove("same length", S.size_of(ex, st) == n)
        ex.prove("isometries on both sides of the center", S.canon(S.tens(ex, st), n, i))
        ex.prove("the represented state is kept", STATE(d) == STATE(d0))
        ex.prove("bonds of neighbours match", bonds_ok(d, n))
        ex.prove("sites outside the path untouched", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n, z3.Or(z3.And(j < i, j < c0), z3.And(j > i, j > c0))), d[j] == d0[j])))
    return body


NETS = ("quantit::MPS", "quantit::bMPS", "quantit::MPO", "quantit::bMPO")
DIM = z3.Function("rank of a block tensor", T, I)
COMPAT = z3.Function("bonds compatible", T, T, B)     # check_product_compat(a, b, {2}, {0}), proved in B06


def rank(t, block):
    return DIM(t) if block else tensor_dim(t)


def matches(a, b, block):
    return COMPAT(a, b) if block else tensor_sizes(a)[2] == tensor_sizes(b)[0]


def legal(d, n, kind):
    """every tensor has the rank of the network, neighbours have the same bond"""
    block = "::b" in kind
    r = 3 if kind.endswith("S") else 4
    i = z3.Int("i")
    return z3.And(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), rank(d[i], block) == r)), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i + 1 < n), matches(d[i], d[i + 1], block))))


def c_compat(c):
    i, j = S.ints(c.ex.rv(c.args[2])), S.ints(c.ex.rv(c.args[3]))
    if (i, j) == ([2], [0]):
        return COMPAT(c.val(0), c.val(1))
    if (i, j) == ([0], [2]):
        return COMPAT(c.val(1), c.val(0))
    return c.ex.fresh(B, "other legs")


def net_use(ex):
    ex.use.append((re.compile("quantit::btensor::dim"), lambda c: (c.ex.assume(DIM(c.ex.rv(c.obj)) >= 0), DIM(c.ex.rv(c.obj)))[1]))
    ex.use.append((re.compile("quantit::btensor::check_product_compat"), c_compat))


def p_ranks(kind):
    def body(ex):
        f = ex.p.byqual[kind + "::check_ranks"][0]
        ri = next(i for i, r in enumerate(ex.p.records) if r and r["name"] == kind)
        st = ex.alloc(ex.fresh_rec(ri, "network"))
        n, d = zi(S.tens(ex, st).n), S.tens(ex, st).data
        ex.assume(n >= 0)
        net_use(ex)
        block = "::b" in kind
        r = 3 if kind.endswith("S") else 4
        j = z3.Int("j")
        OKAY = z3.Function("rank is right", I, B)
        MATCH = z3.Function("bond matches the next", I, B)
        ex.assume(z3.ForAll([j], OKAY(j) == (rank(d[j], block) == r), patterns=[OKAY(j)]))
        ex.assume(z3.ForAll([j], OKAY(j) == (rank(d[j], block) == r), patterns=[d[j]]))
        ex.assume(z3.ForAll([j], MATCH(j) == matches(d[j], d[j + 1], block), patterns=[MATCH(j)]))

        def upto(k, m):
            """ranks of the first k, bonds of the first m pairs"""
            return z3.And(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), OKAY(j)), patterns=[OKAY(j)]), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), MATCH(j)), patterns=[MATCH(j)]))

        def walk(L):
            i, x = zi(L.v("it").i), zi(L.v("next").i)
            ok = zt(L.v("all_rank_%d" % r))
            return [("iterators", z3.And(0 <= i, x == i + 1, x <= n)), ("so far", z3.Implies(ok, upto(x, i))), ("failed", z3.Implies(z3.Not(ok), z3.Not(z3.And(upto(n, n - 1)))))]

        def second(L):
            k = zi(L.k)
            prev = zi(L.v("prev_bond"))
            ok = ex.undecided()
            return [("previous bond", z3.And(z3.Implies(k == 0, prev == tensor_sizes(d[0])[0]), z3.Implies(z3.And(ok, k > 0), prev == tensor_sizes(d[k - 1])[2]))), ("ranks", upto(n, 0)), ("so far", z3.Implies(ok, upto(n, k - 1))), ("failed", z3.Implies(z3.Not(ok), z3.Not(upto(n, n - 1)))), ("range", z3.And(0 <= k, k <= n))]
        ex.loops_at = {("check_ranks", 0): walk} if block else {("check_ranks", -1): second}
        got = zt(ex.rv(ex.call_fn(f, st, [])))
        ex.prove("accepted: every rank and bond is right", z3.Implies(got, upto(n, n - 1)))
        ex.prove("refused: some rank or bond is wrong", z3.Implies(z3.Not(got), z3.Not(upto(n, n - 1))))
    return body


UNITS = [dict(name="move_oc " + k, tu="mp", body=p_move(k), opts=OPTS, axioms=[algebra]) for k in S.MPS]
LEGAL = z3.Function("ranks and bonds fit", AT, I, B)      # what check_ranks decides, proved above
LEGAL1 = z3.Function("rank and bonds fit", T, B)           # what check_one decides


def p_one(kind):
    """check_one: the tensor may be repeated along a chain"""
    def body(ex):
        f = ex.p.byqual[kind + "::check_one"][0]
        t = ex.fresh(T, "t")
        net_use(ex)
        got = zt(ex.rv(ex.call_fn(f, None, [ex.alloc(t)])))
        block = "::b" in kind
        ex.prove("the tensor has the rank of the network and fits itself", got == z3.And(rank(t, block) == (3 if kind.endswith("S") else 4), matches(t, t, block)))
    return body


def p_ctors(kind):
    def body(ex):
        short = kind.split("::")[1]
        ri = next(i for i, r in enumerate(ex.p.records) if r and r["name"] == kind)
        fs = [g for g in ex.p.byqual[kind + "::" + short]]
        k = ex.choose(len(fs))
        f = fs[k]
        ex.use.append((re.compile("quantit::b?MP[SO]::check_ranks"), lambda c: LEGAL(S.tens(ex, c.obj).data, zi(S.tens(ex, c.obj).n))))
        ex.use.append((re.compile("quantit::b?MP[SO]::check_one"), lambda c: LEGAL1(c.val(0))))
        centred = kind.endswith("S")
        n, oc = z3.Ints("n oc")
        d, t = z3.Const("given", AT), z3.Const("tensor", T)
        ex.assume(z3.And(0 <= n, n < 2 ** 60, 0 <= oc, oc < 2 ** 62))
        lv = ex.alloc(Struct(ri, {g["name"]: None for g in ex.p.all_fields(ri)}))
        pt = [ex.p.types[ex.p.deref_type(q["t"])]["s"] for q in f["params"]]
        src = None
        args, ok, want = [], z3.BoolVal(True), None
        exp_oc = z3.IntVal(0)
        j = z3.Int("j")
        for q, ty in zip(f["params"], pt):
            if ty == "unsigned long":
                if want is None:
                    args.append(n)
                    want = lambda v: zi(v.n) == n
                else:
                    args.append(oc)
                    exp_oc = oc
            elif ty.startswith("std::vector<") or ty.startswith("std::initializer_list<"):
                args.append(Vec(n, d) if ex.p.types[q["t"]]["k"] not in ("ref", "rref") else ex.alloc(Vec(n, d)))
                ok = LEGAL(d, n)
                want = lambda v: z3.And(zi(v.n) == n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), v.data[j] == d[j])))
            elif "normal_iterator" in ty:
                if src is None:
                    src = ex.alloc(Vec(n, d))
                    lo, hi = z3.Ints("lo hi")
                    ex.assume(z3.And(0 <= lo, lo <= hi, hi <= n))
                    args.append(It(src, lo))
                else:
                    args.append(It(src, hi))
                    ok = None
                    want = lambda v: z3.And(zi(v.n) == hi - lo, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < hi - lo), v.data[j] == d[lo + j])))
            elif re.fullmatch("quantit::b?MPT", ty):
                o = ex.alloc(ex.fresh_type(q["t"], "other"))
                S.net_write(ex, o, Vec(n, d))
                args.append(o)
                ok = LEGAL(d, n)
                want = lambda v: z3.And(zi(v.n) == n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), v.data[j] == d[j])))
            elif ty == kind:
                o = S.mk_state_rec(ex, ri, "other") if centred else ex.alloc(ex.fresh_rec(ri, "other"))
                S.net_write(ex, o, Vec(n, d))
                if centred:
                    exp_oc = S.oc_of(ex, o)
                args.append(o)
                want = lambda v: z3.And(zi(v.n) == n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), v.data[j] == d[j])))
                pt = ["copy"]
            elif ty in ("at::Tensor", "quantit::btensor"):
                args.append(ex.alloc(t))
                ok = LEGAL1(t)
                want = lambda v: z3.And(zi(v.n) == n, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), v.data[j] == t)))
            else:
                raise Unsupported("constructor of %s from %s" % (kind, ty))
        clamped = short == "bMPS" and pt == ["unsigned long", "unsigned long"]
        if centred and exp_oc is oc and not clamped:
            ok = z3.And(ok, z3.Or(oc < n, oc == 0))
        if clamped:
            exp_oc = z3.If(n == 0, 0, z3.If(oc < n, oc, n - 1))
        what = "%s(%s): " % (short, ", ".join(x.split("<")[0].split("::")[-1] for x in pt))
        try:
            ex.run_ctor(f, lv, args)
        except ThrowEx as e:
            ex.prove(what + "refused only when it does not fit", z3.Not(ok) if ok is not None else z3.BoolVal(True))
            ex.check(what + "an argument error", str(e) == "std::invalid_argument", f["line"])
            return
        v = S.tens(ex, lv)
        if ok is None:
            ok = LEGAL(v.data, zi(v.n))
        ex.prove(what + "what does not fit is refused", ok)
        ex.prove(what + "holds what it was given", want(v) if want else zi(v.n) == 0)
        if centred:
            ex.prove(what + "the center is the one asked for", S.oc_of(ex, lv) == exp_oc)
            if pt != ["copy"]:
                ex.prove(what + "the center is in the chain", z3.Or(S.oc_of(ex, lv) < zi(v.n), S.oc_of(ex, lv) == 0))
            r = ex.rv(lv).f["oc"]
            ex.check(what + "its own center is what it moves", isinstance(r, Ptr) and r.lv.root == lv.root and [tuple(map(str, x)) for x in r.lv.path] == [tuple(map(str, x)) for x in lv.fld("orthogonality_center").fld("value").path], f["line"])
    return body


def p_swap(kind):
    def body(ex):
        f = ex.p.byqual[kind + "::swap"][0]
        ri = next(i for i, r in enumerate(ex.p.records) if r and r["name"] == kind)
        a, b = S.mk_state_rec(ex, ri, "a"), S.mk_state_rec(ex, ri, "b")
        va, vb = [(S.tens(ex, x), S.oc_of(ex, x)) for x in (a, b)]
        ex.call_fn(f, a, [b])
        for x, (t, o) in ((a, vb), (b, va)):
            ex.prove("contents and centers are exchanged", z3.And(zi(S.tens(ex, x).n) == zi(t.n), S.tens(ex, x).data == t.data, S.oc_of(ex, x) == o))
            ex.check("each keeps its own center variable", ex.rv(x).f["oc"].lv.root == x.root, f["line"])
    return body


UNITS += [dict(name="check_ranks " + k, tu="mp", body=p_ranks(k), opts=OPTS) for k in NETS]
UNITS += [dict(name="check_one " + k, tu="mp", body=p_one(k), opts=OPTS) for k in NETS]
UNITS += [dict(name="constructors " + k, tu="mp", body=p_ctors(k), opts=OPTS) for k in NETS]
UNITS += [dict(name="swap " + k, tu="mp", body=p_swap(k), opts=OPTS) for k in S.MPS]
DRIVERS = [dict(src="drivers/N01.cpp", libs=BTLIBS + ["MPT", "dmrg", "dmrg_logger", "models", "operators", "LinearAlgebra", "btensor_linalg"])]
