"""T01: dimension lists and the generalised contraction"""
from spec import *
from models import tensor_dim, tensor_sizes, TSUM

LEVEL = "proof"
NOTE = ("Every obligation generated from the list helpers, from compute_shape and from the three tensorgdot forms by dimension lists is discharged for all "
        "list lengths, shapes and ranks: list results entry by entry; refusal of inconsistent shapes; permutations, result shape, matrix sizes and "
        "broadcast sums; each form stores beta*input+alpha*product in the result, whether or not the output has a matrix view. Torch's permute, reshape, "
        "sum and addmm are assumed (uninterpreted), 64 bit products do not wrap, dimensions count from the start. tensorgdot_ by number of "
        "dimensions is not proved: it is only run. All forms are also compiled and run against explicit sums on random shapes and layouts.")
TUS = {"dm": ("sources/dimension_manip.cpp", ["R quantit::.*"]), "tg": ("sources/tensorgdot.cpp", ["R quantit::.*"])}


def pick(ex, name, nargs, first=""):
    c = [f for f in ex.p.byqual.get("quantit::" + name, []) if len(f["params"]) == nargs and first in ex.p.ts(f["params"][-1]["t"])]
    if not c:
        raise ContractMismatch("no " + name)
    return c[0]


def p_prod(ex):
    f = pick(ex, "prod", 1)
    a = ex.fresh_type(f["params"][0]["t"], "dims")
    ex.loops_spec = {0: lambda L: [("product so far", zi(L.v("out", "^long$")) == PROD(arr(a), 0, L.k))]}
    r = ex.rv(ex.call_fn(f, None, [ex.alloc(a)]))
    ex.prove("product of the list", zi(r) == PROD(arr(a), 0, zi(a.n)))


def c_prod(c):
    a = c.ex.rv(c.args[0])
    return PROD(arr(a), 0, zi(a.n))


def p_prod3(ex):
    f = pick(ex, "prod", 3)
    a = ex.fresh_type(f["params"][0]["t"], "dims")
    s, n = ex.fresh_type(f["params"][1]["t"], "start"), ex.fresh_type(f["params"][2]["t"], "n")
    ex.loops_spec = {0: lambda L: [("product so far", zi(L.v("out", "^long$")) == PROD(arr(L.v("A_dims")), 0, L.k))]}
    try:
        r = ex.rv(ex.call_fn(f, None, [ex.alloc(a), ex.alloc(s), ex.alloc(n)]))
    except ThrowEx:
        ex.prove("an error only beyond the end", s + n > zi(a.n))
        return
    ex.prove("beyond the end is refused", s + n <= zi(a.n))
    j = z3.FreshConst(I, "j")
    ex.prove("product of the sub-range", zi(r) == PROD(z3.Lambda([j], z3.Select(arr(a), s + j)), 0, n))


def p_reverse(ex):
    f = pick(ex, "reverse", 1)
    a = ex.fresh_type(f["params"][0]["t"], "dims")
    r = ex.rv(ex.call_fn(f, None, [ex.alloc(a)]))
    ex.prove("as many dimensions", zi(r.n) == zi(a.n))
    ex.prove("in reverse order", forall(a.n, lambda i: r.get(i) == a.get(zi(a.n) - 1 - i)))


def p_slice(ex):
    f = pick(ex, "slice", 3)
    a = ex.fresh_type(ex.p.deref_type(f["params"][0]["t"]), "in")
    s, n = ex.fresh_type(f["params"][1]["t"], "start"), ex.fresh_type(f["params"][2]["t"], "n")
    try:
        r = ex.rv(ex.call_fn(f, None, [ex.alloc(a), ex.alloc(s), ex.alloc(n)]))
    except ThrowEx:
        ex.prove("an error only beyond the end", s + n > zi(a.n))
        return
    ex.prove("beyond the end is refused", s + n <= zi(a.n))
    ex.prove("length of the slice", zi(r.n) == n)
    ex.prove("the sub-range", forall(n, lambda i: r.get(i) == a.get(s + i)))


def p_concat(ex):
    f = pick(ex, "concat", 1)
    a = ex.fresh_type(f["params"][0]["t"], "lists")
    ln, el = a.data.n, a.data.data
    n = zi(a.n)
    ex.assume(forall(n, lambda i: ln[i] >= 0))
    i, j = z3.Ints("i j")

    def mono(L):
        # sum_mono on the lengths
        k = zi(L.k)
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k, k <= n), z3.And(SUM(ln, 0, i) >= 0, SUM(ln, 0, i) + ln[i] <= SUM(ln, 0, k))), patterns=[SUM(ln, 0, i)]))
        ex.lemmas_used.add("sum_mono")

    def parts(o, k):
        return z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < k, 0 <= j, j < ln[i]), o.get(SUM(ln, 0, i) + j) == el[i][j]), patterns=[el[i][j]])

    def fill(L):
        mono(L)
        o = L.v("out", "vector<long")
        return [("length", zi(o.n) == SUM(ln, 0, zi(L.k))), ("lists so far", parts(o, zi(L.k)))]
    ex.loops_spec = {0: lambda L: [("total length", zi(L.v("size")) == SUM(ln, 0, zi(L.k)))], 1: fill}
    r = ex.rv(ex.call_fn(f, None, [ex.alloc(a)]))
    ex.prove("length is the sum of the lengths", zi(r.n) == SUM(ln, 0, n))
    ex.prove("the lists one after the other", parts(r, n))

AB = z3.ArraySort(I, z3.BoolSort())
# number of dimensions below i that are not contracted, product of their sizes, product of the sizes contracted by the matrix product,
# the operand after summation of the dimensions broadcast by the other one
FREE = RecFun("FREE", [AB], I, lambda b: z3.IntVal(0), lambda a, acc, i: acc + z3.If(z3.Select(a[0], i), z3.IntVal(0), z3.IntVal(1)))
FPROD = RecFun("FPROD", [AB, AI], I, lambda b, s: z3.IntVal(1), lambda a, acc, i: z3.If(z3.Select(a[0], i), acc, acc * z3.Select(a[1], i)))


def cs(d1, d2, s1, s2, i):
    x, y = s1[d1[i]], s2[d2[i]]
    return x, y


CPROD = RecFun("CPROD", [AI, AI, AI, AI], I, lambda *a: z3.IntVal(1),
               lambda a, acc, i: z3.If(z3.Or(a[2][a[0][i]] == 1, a[3][a[1][i]] == 1), acc, acc * a[2][a[0][i]]))
SUM1 = RecFun("SUM1", [TEN, AI, AI, AI, AI], TEN, lambda t, *a: t,
              lambda a, acc, i: z3.If(a[4][a[2][i]] == 1, TSUM(acc, a[1][i]), acc))
SUM2 = RecFun("SUM2", [TEN, AI, AI, AI, AI], TEN, lambda t, *a: t,
              lambda a, acc, i: z3.If(z3.And(a[4][a[2][i]] != 1, a[3][a[1][i]] == 1), TSUM(acc, a[2][i]), acc))


def p_shape(ex):
    f = pick(ex, "compute_shape", 7)
    P = [x["t"] for x in f["params"]]
    add, t1, t2, in1, in2 = [ex.alloc(ex.fresh_type(ex.p.deref_type(t), nm)) for t, nm in zip(P[:5], ("add", "t1", "t2", "input1", "input2"))]
    ex.write(t1, ex.rv(in1))
    ex.write(t2, ex.rv(in2))
    v1, v2, va = ex.rv(in1), ex.rv(in2), ex.rv(add)
    D1, D2 = ex.alloc(ex.fresh_type(P[5], "dims1")), ex.alloc(ex.fresh_type(P[6], "dims2"))
    d1, d2 = ex.rv(D1), ex.rv(D2)
    r1, r2, s1, s2 = tensor_dim(v1), tensor_dim(v2), tensor_sizes(v1), tensor_sizes(v2)
    for v in (v1, v2, va):
        ex.assume(tensor_dim(v) >= 0)
    ex.assume(forall(d1.n, lambda i: z3.And(0 <= d1.get(i), d1.get(i) < r1)))
    ex.assume(forall(d2.n, lambda i: z3.And(0 <= d2.get(i), d2.get(i) < r2)))
    ex.assumptions.add("dimensions counted from the start (torch wraps the negative ones)")
    n = zi(d1.n)
    A1, A2 = arr(d1), arr(d2)
    fa = (A1, A2, s1, s2)
    b1, b2 = z3.Const("contracted1", AB), z3.Const("contracted2", AB)
    i, j = z3.Ints("i j")
    for A, b in ((A1, b1), (A2, b2)):
        # ghost: the set of the contracted dimensions
        w = z3.Function("where_%s" % b, I, I)
        ex.assume(z3.ForAll([i], z3.Implies(b[i], z3.And(0 <= w(i), w(i) < zi((d1 if b is b1 else d2).n), A[w(i)] == i)), patterns=[b[i]]))
        ex.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < zi((d1 if b is b1 else d2).n)), b[A[j]]), patterns=[A[j]]))
    dup = {}

    def bits(c):
        """torch: the set of the listed dimensions; repeated dimensions and ranks above 64 are refused"""
        d = c.val(0)
        b = b1 if z3.eq(d.data, A1) else b2 if z3.eq(d.data, A2) else None
        if b is None:
            raise ContractMismatch("dimension list")
        w = z3.Function("where_%s" % b, I, I)
        if not ex.branch(ex.fresh(z3.BoolSort(), "distinct")):
            raise ThrowEx("c10::Error")
        ex.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < zi(d.n)), w(d.get(j)) == j), patterns=[d.get(j)]))
        return Struct("bits", {"b": b})
    ex.use.append((re.compile("at::dim_list_to_bitset"), bits))
    ex.use.append((re.compile("std::bitset::operator\\[\\]"), lambda c: simp(z3.Select(ex.rv(c.obj).f["b"], zi(c.val(0))))))

    ex.use.append((re.compile("std::bitset::reference::operator bool"), lambda c: ex.rv(c.obj)))

    def mono(b, k):
        k = zi(k)
        ex.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.And(FREE(b, 0, j) >= 0, FREE(b, 0, j) + z3.If(b[j], 0, 1) <= FREE(b, 0, k))), patterns=[FREE(b, 0, j)]))
        ex.assume(z3.Implies(k >= 0, FREE(b, 0, k) >= 0))
        ex.lemmas_used.add("free_mono")

    def sums(L):
        k = zi(L.k)
        u1, u2 = ex.rv(t1), ex.rv(t2)
        return [("contracted size", zi(L.v("csize", "^long")) == CPROD(*fa, 0, k)),
                ("first operand", u1 == SUM1(v1, *fa, 0, k)), ("second operand", u2 == SUM2(v2, *fa, 0, k)),
                ("other dimensions of the first operand", forall(r1, lambda i: z3.Implies(z3.Not(b1[i]), tensor_sizes(u1)[i] == s1[i]))),
                ("other dimensions of the second operand", forall(r2, lambda i: z3.Implies(z3.Not(b2[i]), tensor_sizes(u2)[i] == s2[i]))),
                ("ranks", z3.And(tensor_dim(u1) == r1, tensor_dim(u2) == r2)),
                ("matching", forall(k, lambda i: z3.Or(s1[A1[i]] == s2[A2[i]], s1[A1[i]] == 1, s2[A2[i]] == 1)))]

    def free(b, k, o, f, start=0):
        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zi(k), z3.Not(b[i])), o.get(start + FREE(b, 0, i)) == f(i)), patterns=[FREE(b, 0, i)])

    def v(L, nm):
        return L.v(nm, "vector<long", {"p1": 0, "p2": 1, "rsizes": 2}[nm])
    nf1, nf2 = FREE(b1, 0, r1), FREE(b2, 0, r2)

    def st1(p1, rs, k):
        return [("length of the permutation", zi(p1.n) == FREE(b1, 0, k)), ("length of the result shape", zi(rs.n) == FREE(b1, 0, k)),
                ("kept dimensions first", free(b1, k, p1, lambda i: i)), ("sizes of the kept dimensions", free(b1, k, rs, lambda i: s1[i]))]

    def first(L):
        k = zi(L.k)
        mono(b1, k)
        mono(b1, k + 1)
        return st1(v(L, "p1"), v(L, "rsizes"), k) + [("size of the kept part", zi(L.v("size1", "^long")) == FPROD(b1, s1, 0, k))]

    def second(L):
        p1 = v(L, "p1")
        return [("length", zi(p1.n) == nf1 + L.k), ("kept dimensions first", free(b1, r1, p1, lambda i: i)),
                ("then the contracted ones", forall(L.k, lambda i: p1.get(nf1 + i) == A1[i]))]

    def third(L):
        p2 = v(L, "p2")
        return [("length", zi(p2.n) == L.k), ("contracted dimensions first", forall(L.k, lambda i: p2.get(i) == A2[i]))]

    def fourth(L):
        k = zi(L.k)
        mono(b1, r1)
        mono(b2, k)
        mono(b2, k + 1)
        p2, rs = v(L, "p2"), v(L, "rsizes")
        return [("length", zi(p2.n) == n + FREE(b2, 0, k)), ("length of the result shape", zi(rs.n) == nf1 + FREE(b2, 0, k)),
                ("contracted dimensions first", forall(n, lambda i: p2.get(i) == A2[i])), ("then the kept ones", free(b2, k, p2, lambda i: i, n)),
                ("sizes of the first operand", free(b1, r1, rs, lambda i: s1[i])), ("sizes of the second operand", free(b2, k, rs, lambda i: s2[i], nf1)),
                ("size of the kept part", zi(L.v("size2", "^long")) == FPROD(b2, s2, 0, k))]
    ex.loops_spec = {0: sums, 1: first, 2: second, 3: third, 4: fourth}
    mono(b1, r1)
    try:
        ret = ex.rv(ex.call_fn(f, None, [add, t1, t2, in1, in2, D1, D2]))
    except ThrowEx:
        return
    p1, p2, rs = [ex.rv(x) for x in ret.v[:3]]
    z1, zc, z2 = [zi(ex.rv(x)) for x in ret.v[3:]]
    mono(b2, r2)
    ex.prove("lists of different length are refused", zi(d2.n) == n)
    ex.prove("mismatched dimensions are refused", forall(n, lambda i: z3.Or(s1[A1[i]] == s2[A2[i]], s1[A1[i]] == 1, s2[A2[i]] == 1)))
    ex.prove("an input of another rank is refused", tensor_dim(va) == nf1 + nf2)
    ex.prove("sizes of the input: kept dimensions of the first operand", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < r1, z3.Not(b1[i])), tensor_sizes(va)[FREE(b1, 0, i)] == s1[i])))
    ex.prove("sizes of the input: then those of the second operand", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < r2, z3.Not(b2[i])), tensor_sizes(va)[nf1 + FREE(b2, 0, i)] == s2[i])))
    ex.prove("result shape is that of the input", z3.And(zi(rs.n) == tensor_dim(va), forall(rs.n, lambda i: rs.get(i) == tensor_sizes(va)[i])))
    ex.prove("first permutation", z3.And(zi(p1.n) == nf1 + n, free(b1, r1, p1, lambda i: i), forall(n, lambda i: p1.get(nf1 + i) == A1[i])))
    ex.prove("second permutation", z3.And(zi(p2.n) == nf2 + n, free(b2, r2, p2, lambda i: i, n), forall(n, lambda i: p2.get(i) == A2[i])))
    ex.prove("rows of the matrix product", z1 == FPROD(b1, s1, 0, r1))
    ex.prove("columns of the matrix product", z2 == FPROD(b2, s2, 0, r2))
    ex.prove("size of the contracted dimensions", zc == CPROD(*fa, 0, n))
    ex.prove("broadcast dimensions of the first operand are summed", ex.rv(t1) == SUM1(v1, *fa, 0, n))
    ex.prove("broadcast dimensions of the second operand are summed", ex.rv(t2) == SUM2(v2, *fa, 0, n))
    ex.prove("the operands are unchanged", z3.And(ex.rv(in1) == v1, ex.rv(in2) == v2, ex.rv(add) == va))


def lemmas(ex):
    lemma_obligations(ex)
    b = z3.Const("b", AB)
    j, k = z3.Ints("j k")
    g = lambda k: z3.And(FREE(b, 0, j) >= 0, FREE(b, 0, j) + z3.If(b[j], 0, 1) <= FREE(b, 0, k))
    ex.pc = [k == 0]
    ex.prove("lemma free_mono nonnegative base", FREE(b, 0, k) >= 0, "lemma")
    ex.pc = [k >= 0, FREE(b, 0, k) >= 0]
    ex.prove("lemma free_mono nonnegative step", FREE(b, 0, k + 1) >= 0, "lemma")
    ex.pc = [j >= 0, FREE(b, 0, j) >= 0, k == j + 1]
    ex.prove("lemma free_mono base", g(k), "lemma")
    ex.pc = [j >= 0, k >= j + 1, g(k)]
    ex.prove("lemma free_mono step", g(k + 1), "lemma")


MM = z3.Function("matrix_product_added", TEN, TEN, TEN, OPQ, OPQ, TEN)   # beta*self + alpha*(m1 x m2)
RESH2 = z3.Function("as_matrix", TEN, I, I, TEN)
RESH = z3.Function("reshaped", TEN, I, AI, TEN)
PERM = z3.Function("permuted", TEN, I, AI, TEN)


def torch_forms(ex, output):
    """assumed contracts of torch: a reshape either shares the storage of its argument (a write to one shows in the other) or is a copy"""
    st = dict(view=None, alias=None)

    def lv(c, x):
        while isinstance(x, Ptr):
            x = x.lv
        return x

    def reshape(c):
        t, d = ex.rv(c.obj), c.val(0)
        if simp(d.n) == 2:
            return RESH2(t, zi(d.get(0)), zi(d.get(1)))
        return RESH(t, zi(d.n), d.data)

    def permute(c):
        d = c.val(0)
        return PERM(ex.rv(c.obj), zi(d.n), d.data)

    def aliased():
        if st["alias"] is None:
            st["alias"] = ex.fresh(z3.BoolSort(), "reshape_is_a_view")
        return st["alias"]

    def store(target, r):
        ex.write(target, r)
        # the view's storage is that of the output
        if ex.branch(aliased()):
            o = st["o"]
            ex.write(output, RESH(r, *o))

    def addmm_(c):
        r = MM(ex.rv(c.obj), c.val(0), c.val(1), c.val(2), c.val(3))
        store(c.obj, r)
        return c.obj

    def addmm_out(c):
        r = MM(c.val(1), c.val(2), c.val(3), c.val(4), c.val(5))
        store(lv(c, c.args[0]), r)
        return c.args[0]

    def copy_(c):
        ex.write(c.obj, c.val(0))
        return c.obj
    for rx, h in (("at::Tensor::reshape", reshape), ("at::Tensor::permute", permute), ("at::Tensor::addmm_", addmm_), ("at::addmm_out", addmm_out),
                  ("at::addmm", lambda c: MM(*[c.val(i) for i in range(5)])), ("at::Tensor::copy_", copy_),
                  ("at::(Tensor|TensorBase)::is_alias_of", lambda c: aliased())):
        ex.use.append((re.compile(rx), h))
    return st


def form(name, n, kind):
    def body(ex):
        f = pick(ex, name, n)
        P = f["params"]
        T = {p["name"]: ex.alloc(ex.fresh(OPQ, p["name"]) if "Scalar" in ex.p.ts(p["t"]) else ex.fresh_type(ex.p.deref_type(p["t"]), p["name"])) for p in P}
        A = [T[p["name"]] for p in P]
        V = [ex.rv(a) for a in A]
        out, o0 = A[0], V[0]
        add = V[1] if kind == "out" else o0
        ops = V[2:4] if kind == "out" else V[1:3]
        lists = V[-4:-2]
        beta, alpha = V[-2:]
        for v in V[:len(V) - 4]:
            ex.assume(tensor_dim(v) >= 0)
        st = torch_forms(ex, out)
        r1, r2 = [ex.fresh(TEN, "summed%d" % k) for k in (1, 2)]
        p1, p2, rs = [Vec(ex.fresh(I, k + "_n"), ex.fresh(AI, k)) for k in ("p1", "p2", "rsizes")]
        z1, zc, z2 = [ex.fresh(I, k) for k in ("size1", "csize", "size2")]
        st["o"] = (zi(rs.n), rs.data)

        def shape(c):
            """contract proved by the unit compute_shape, which also states when it refuses"""
            a = [c.val(i) for i in range(7)]
            for x, y, w in ((a[0], add, "input"), (a[1], ops[0], "first operand"), (a[2], ops[1], "second operand"), (a[3], ops[0], "first operand"), (a[4], ops[1], "second operand")):
                ex.prove("shapes of the %s" % w, x == y)
            for k in (0, 1):
                ex.prove("dimensions contracted", z3.BoolVal(z3.eq(a[5 + k].data, lists[k].data) and z3.eq(zi(a[5 + k].n), zi(lists[k].n))))
            if not ex.branch(ex.fresh(z3.BoolSort(), "consistent")):
                raise ThrowEx("c10::Error")
            ex.write(c.args[1], r1)
            ex.write(c.args[2], r2)
            ex.assume(z3.And(tensor_dim(add) == zi(rs.n), forall(rs.n, lambda i: rs.get(i) == tensor_sizes(add)[i])))
            return Tup([p1, p2, rs, z1, zc, z2])
        ex.use.append((re.compile("quantit::compute_shape"), shape))
        m = MM(RESH2(add, z1, z2), RESH2(PERM(r1, zi(p1.n), p1.data), z1, zc), RESH2(PERM(r2, zi(p2.n), p2.data), zc, z2), beta, alpha)
        want = RESH(m, zi(rs.n), rs.data)
        try:
            r = ex.call_fn(f, None, A)
        except ThrowEx:
            ex.prove("a refused contraction leaves the output unchanged", ex.rv(out) == o0)
            return
        ex.prove("beta times the input plus alpha times the contraction, in the shape of the result", ex.rv(r) == want)
        if kind != "value":
            ex.prove("the result is stored in the output", ex.rv(out) == want)
            ex.prove("the output has the shape of the result", z3.And(tensor_dim(o0) == zi(rs.n), forall(rs.n, lambda i: rs.get(i) == tensor_sizes(o0)[i])))
        else:
            ex.prove("the input is unchanged", ex.rv(out) == o0)
        for a, v in list(zip(A, V))[1:]:
            if z3.is_expr(v):
                ex.prove("operands are unchanged", ex.rv(a) == v)
    return dict(name="%s%s" % (name, "" if kind != "" else ""), tu="tg", body=body)


UNITS = [dict(name="lemmas", body=lambda ex: None, post=lemmas),
         dict(name="compute_shape", tu="tg", body=p_shape, depth=1, opts=dict(prune="ground")),
         dict(name="prod", tu="dm", body=p_prod, bounded=3), dict(name="prod of a sub-range", tu="dm", body=p_prod3, bounded=3),
         dict(name="reverse", tu="dm", body=p_reverse), dict(name="slice", tu="dm", body=p_slice), dict(name="concat", tu="dm", body=p_concat),
         form("tensorgdot", 7, "value"), form("tensorgdot_", 7, "in place"), form("tensorgdot_out", 8, "out")]
DRIVERS = [dict(src="drivers/T01.cpp", libs=BTLIBS)]
EXPLANATION = ("contracts over recursively defined sums, products and counts of kept dimensions; loop invariants for the two loops of each list helper and the five "
               "loops of compute_shape; the tensorgdot forms are checked against compute_shape's contract")
