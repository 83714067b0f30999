"""B06: contraction of block tensors"""
from spec import *
from models import tensor_dim, tensor_sizes
import unit_T01 as T

LEVEL = "other"
TUS = {"bt": ("sources/btensor.cpp", ["R quantit::.*"])}
Q_ = "quantit::btensor::"
OPTS = dict(abstract_map=True, prune="ground")
FREE = T.FREE


def tensor(ex, name):
    t = ex.alloc(ex.fresh_rec([g["rec"] for g in ex.p.byqual[Q_ + "block"]][0], name))
    b = Bt(ex, t)
    assume_inv(ex, b)
    block_offsets_ok(ex, b)
    return t, b


def dims(ex, f, k, name):
    d = ex.fresh_type(f["params"][k]["t"], name)
    ex.assume(zi(d.n) >= 0)
    return d


CANC, SAME = [z3.Function(n, I, I, z3.BoolSort()) for n in ("charges_cancel", "sizes_agree")]
OKP = z3.Function("PAIR_OK", I, z3.BoolSort())


def pair(ex, a, b, d1, d2, k):
    """names for: sections j of the dimensions of pair k have opposite charges, have the same size; the whole pair matches"""
    j = z3.Int("cj")
    s, t = SUM(arr(a.sections_by_dim), 0, zi(d1.get(k))), SUM(arr(b.sections_by_dim), 0, zi(d2.get(k)))
    n = a.sections_by_dim.get(zi(d1.get(k)))
    canc = lambda j: CANC(k, j) == (qop(a.c_vals.get(s + j), b.c_vals.get(t + j)) == qe)
    ex.assume(z3.ForAll([j], canc(j), patterns=[CANC(k, j)]))
    ex.assume(z3.ForAll([j], SAME(k, j) == (a.sections_sizes.get(s + j) == b.sections_sizes.get(t + j)), patterns=[SAME(k, j)]))
    ex.assume(OKP(k) == z3.And(n == b.sections_by_dim.get(zi(d2.get(k))), z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), SAME(k, j)), patterns=[SAME(k, j)]),
                               z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), CANC(k, j)), patterns=[CANC(k, j)])))
    return canc


def compat(throws):
    def body(ex):
        fs = [g for g in ex.p.byqual[Q_ + "check_product_compat"]]
        f = next(g for g in fs if tests(g) == throws)
        x, a = tensor(ex, "in1")
        y, b = tensor(ex, "in2")
        ox, oy = ex.rv(x), ex.rv(y)
        d1, d2 = dims(ex, f, 2, "dims1"), dims(ex, f, 3, "dims2")
        ra, rb = zi(a.rank), zi(b.rank)
        if throws:
            ex.assume(zi(d1.n) == zi(d2.n))
        k = z3.FreshConst(I, "k")
        for d, r in ((d1, ra), (d2, rb)):
            ex.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < zi(d.n)), z3.And(0 <= d.get(k), d.get(k) < r)), patterns=[d.get(k)] if z3.is_app(d.get(k)) else []))
            ex.assume(zi(r) < 2 ** 31)
        for v in (a, b):
            ex.assume(forall(v.rank, lambda i: v.sections_by_dim.get(i) < 2 ** 31))
        ex.assumptions.add("fewer than 2^31 sections in a dimension")
        st = dict(k=z3.IntVal(0))

        def outer(L):
            st["k"] = zi(L.k)
            kk = zi(L.k)
            for d, v in ((d1, a), (d2, b)):
                x = d.get(kk)
                ex.assume(z3.Implies(z3.And(0 <= kk, kk < zi(d.n)), z3.And(0 <= x, x < zi(v.rank), v.sections_by_dim.get(x) >= 0, SUM(arr(v.sections_by_dim), 0, x) >= 0)))
            pair(ex, a, b, d1, d2, kk)
            w = z3.FreshConst(I, "w")
            ok = zb(L.v("ok_CR", "bool"))
            k = zi(L.k)
            if not throws:
                return [("all pairs so far match", z3.Implies(ok, z3.And(zi(d1.n) == zi(d2.n), z3.ForAll([w], z3.Implies(z3.And(0 <= w, w < k), OKP(w)), patterns=[OKP(w)])))),
                        ("a failure: the lengths differ or the last pair does not match", z3.Implies(z3.Not(ok), z3.If(k == 0, zi(d1.n) != zi(d2.n), z3.And(k > 0, z3.Not(OKP(k - 1))))))]
            return [("dimensions tested so far match", ok), ("every pair so far", z3.ForAll([w], z3.Implies(z3.And(0 <= w, w < L.k), OKP(w)), patterns=[OKP(w)]))]

        def inner(L):
            dx, dy = zi(d1.get(st["k"])), zi(d2.get(st["k"]))
            s, t = SUM(arr(a.sections_by_dim), 0, dx), SUM(arr(b.sections_by_dim), 0, dy)
            j = z3.FreshConst(I, "j")
            ok = zb(L.v("ok_CR", "bool"))
            i1, i2 = zi(L.v("it1").i), zi(L.v("it2").i)
            n = i1 - s
            K = zi(st["k"])
            canc = pair(ex, a, b, d1, d2, K)
            g = lambda j: CANC(K, j)
            for x in (n, n - 1):
                ex.assume(canc(x))
            return [("positions", z3.And(0 <= n, n <= a.sections_by_dim.get(dx), i2 == t + n)),
                    ("charges cancel so far", z3.Implies(ok, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < n), g(j)), patterns=[g(j)]))),
                    ("a failure: the last pair of charges does not cancel", z3.Implies(z3.Not(ok), z3.And(n > 0, z3.Not(g(n - 1)))))]
        def c_equal(c):
            """standard library: equality of the sequences, here named by SAME"""
            K = zi(st["k"])
            p, q, u = [ex.rv(z) for z in c.args[:3]]
            if len(c.args) != 3 or getattr(p.lv, "path", None) == getattr(u.lv, "path", 0) and p.lv == u.lv:
                return NotImplemented
            dx, dy = zi(d1.get(K)), zi(d2.get(K))
            ex.check("sizes compared are those of the pair of dimensions", z3.And(zi(p.i) == SUM(arr(a.sections_by_dim), 0, dx), zi(q.i) == zi(p.i) + a.sections_by_dim.get(dx), zi(u.i) == SUM(arr(b.sections_by_dim), 0, dy),
                                                                                  same_value(ex.read(p.lv), a.sections_sizes), same_value(ex.read(u.lv), b.sections_sizes)))
            j = z3.FreshConst(I, "j")
            e = ex.fresh(z3.BoolSort(), "sizes_equal")
            ex.assume(e == z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < a.sections_by_dim.get(dx)), SAME(K, j)), patterns=[SAME(K, j)]))
            return e
        ex.use.append((re.compile("std::equal"), c_equal))
        ex.loops_at = {("check_product_compat", 0): outer, ("check_product_compat", 1): inner}
        n = zi(d1.n)
        w = z3.FreshConst(I, "w")
        allok = z3.ForAll([w], z3.Implies(z3.And(0 <= w, w < n), OKP(w)), patterns=[OKP(w)])
        # OKP names the condition pair() at the positions reached
        try:
            r = ex.rv(ex.call_fn(f, None, [x, y, d1, d2]))
        except ThrowEx:
            ex.prove("an error only for dimensions that do not match", z3.BoolVal(throws))
            ex.prove("an error only when some pair of dimensions does not match", z3.Not(OKP(st["k"])) if throws else z3.BoolVal(False))
            return
        if throws:
            ex.prove("contracted dimensions that do not match are refused", z3.And(zb(r), allok))
        else:
            ex.prove("accepted only when the dimensions match", z3.Implies(zb(r), z3.And(n == zi(d2.n), allok)))
            ex.prove("refused only when some pair does not match", z3.Implies(z3.Not(zb(r)), z3.Or(n != zi(d2.n), z3.Not(OKP(st["k"])), z3.Not(OKP(st["k"] - 1)))))
        ex.prove("the tensors are unchanged", z3.And(same_value(ex.rv(x), ox), same_value(ex.rv(y), oy)))
    return body


def tests(g):
    """the instantiation that throws"""
    import json
    return "torchCheckFail" in json.dumps(g["body_"] if "body_" in g else g.get("body"))


def p_tdot(ex):
    """axes of the product: permutations that put the contracted dimensions together, section counts of the result"""
    f = ex.p.find("quantit::compute_tdot_shape")
    x, a = tensor(ex, "input1")
    y, b = tensor(ex, "input2")
    ox, oy = ex.rv(x), ex.rv(y)
    d1, d2 = dims(ex, f, 2, "dims1"), dims(ex, f, 3, "dims2")
    r1, r2 = zi(a.rank), zi(b.rank)
    A1, A2 = arr(d1), arr(d2)
    n = zi(d1.n)
    b1, b2 = z3.Const("contracted1", T.AB), z3.Const("contracted2", T.AB)
    i, j = z3.Ints("i j")
    distinct = z3.Bool("distinct dimensions")
    for A, bb, d in ((A1, b1, d1), (A2, b2, d2)):
        w = z3.Function("where_%s" % bb, I, I)
        ex.assume(z3.ForAll([i], z3.Implies(bb[i], z3.And(0 <= w(i), w(i) < zi(d.n), A[w(i)] == i)), patterns=[bb[i]]))
        ex.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < zi(d.n)), bb[A[j]]), patterns=[A[j]]))

    def bits(c):
        """torch: the set of the listed dimensions; repeated dimensions and ranks above 64 are refused"""
        d = c.val(0)
        bb = b1 if z3.eq(d.data, A1) else b2 if z3.eq(d.data, A2) else None
        if bb is None:
            raise ContractMismatch("dimension list")
        w = z3.Function("where_%s" % bb, I, I)
        ex.check("rank given with the list of dimensions", zi(c.val(1)) == (r1 if bb is b1 else r2))
        if not ex.branch(ex.fresh(z3.BoolSort(), "distinct")):
            raise ThrowEx("c10::Error (repeated dimension)")
        ex.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < zi(d.n)), w(d.get(j)) == j), patterns=[d.get(j)]))
        return Struct("bits", {"b": bb})
    ex.use.append((re.compile("at::dim_list_to_bitset"), bits))
    ex.use.append((re.compile("std::bitset::operator\\[\\]"), lambda c: simp(z3.Select(ex.rv(c.obj).f["b"], zi(c.val(0))))))
    ex.use.append((re.compile("std::bitset::reference::operator bool"), lambda c: ex.rv(c.obj)))
    same_type = z3.Bool("same type of charges")
    ex.use.append((re.compile("quantit::(v|any_)quantity(_cref)?::same_type"), lambda c: same_type))
    match = z3.Bool("the contracted dimensions match")
    tested = []

    def c_compat(c):
        """contract proved by the unit check_product_compat (throwing)"""
        u = [ex.rv(z) for z in c.args]
        ex.check("the dimensions contracted are tested", z3.And(same_value(u[0], ox), same_value(u[1], oy), zi(u[2].n) == n, zi(u[3].n) == zi(d2.n), u[2].data == A1, u[3].data == A2))
        ex.check("dimensions in range when tested", z3.And(forall(n, lambda i: z3.And(0 <= d1.get(i), d1.get(i) < r1, 0 <= d2.get(i), d2.get(i) < r2)), n == zi(d2.n)))
        tested.append(1)
        if not ex.branch(match):
            raise ThrowEx("c10::Error (no match)")
        return z3.BoolVal(True)
    ex.use.append((re.compile(Q_ + "check_product_compat"), c_compat))

    def mono(bb, k):
        k = zi(k)
        ex.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), z3.And(FREE(bb, 0, j) >= 0, FREE(bb, 0, j) + z3.If(bb[j], 0, 1) <= FREE(bb, 0, k))), patterns=[FREE(bb, 0, j)]))
        ex.assume(z3.Implies(k >= 0, FREE(bb, 0, k) >= 0))
        ex.lemmas_used.add("free_mono")

    def free(bb, k, o, g, start=0):
        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zi(k), z3.Not(bb[i])), o.get(start + FREE(bb, 0, i)) == g(i)), patterns=[FREE(bb, 0, i)])
    S1, S2 = arr(a.sections_by_dim), arr(b.sections_by_dim)

    def v(L, nm):
        return L.v(nm, "vector<long", {"p1": 0, "p2": 1, "out_section_by_dim": 2}[nm])
    nf1, nf2 = FREE(b1, 0, r1), FREE(b2, 0, r2)
    inr = lambda k: z3.And(0 <= d1.get(k), d1.get(k) < r1, 0 <= d2.get(k), d2.get(k) < r2)

    def first(L):
        k = zi(L.k)
        mono(b1, k)
        mono(b1, k + 1)
        p1, rs = v(L, "p1"), v(L, "out_section_by_dim")
        return [("length of the permutation", zi(p1.n) == FREE(b1, 0, k)), ("length of the result", zi(rs.n) == FREE(b1, 0, k)),
                ("kept dimensions first", free(b1, k, p1, lambda i: i)), ("section counts of the kept dimensions", free(b1, k, rs, lambda i: S1[i]))]

    def second(L):
        p1 = v(L, "p1")
        return [("length", zi(p1.n) == nf1 + L.k), ("kept dimensions first", free(b1, r1, p1, lambda i: i)), ("then the contracted ones", forall(L.k, lambda i: p1.get(nf1 + i) == A1[i]))]

    def third(L):
        p2 = v(L, "p2")
        return [("length", zi(p2.n) == L.k), ("contracted dimensions first", forall(L.k, lambda i: p2.get(i) == A2[i]))]

    def fourth(L):
        k = zi(L.k)
        mono(b1, r1)
        mono(b2, k)
        mono(b2, k + 1)
        p2, rs = v(L, "p2"), v(L, "out_section_by_dim")
        return [("length", zi(p2.n) == n + FREE(b2, 0, k)), ("length of the result", zi(rs.n) == nf1 + FREE(b2, 0, k)),
                ("contracted dimensions first", forall(n, lambda i: p2.get(i) == A2[i])), ("then the kept ones", free(b2, k, p2, lambda i: i, n)),
                ("section counts of the first tensor", free(b1, r1, rs, lambda i: S1[i])), ("section counts of the second tensor", free(b2, k, rs, lambda i: S2[i], nf1))]
    ex.loops_at = {("compute_tdot_shape", 0): lambda L: [("dimensions in range so far", forall(L.k, inr))],
                   ("compute_tdot_shape", 1): first, ("compute_tdot_shape", 2): second, ("compute_tdot_shape", 3): third, ("compute_tdot_shape", 4): fourth}
    try:
        ret = ex.rv(ex.call_fn(f, None, [x, y, d1, d2]))
    except ThrowEx as e:
        why = str(e)
        if "repeated" not in why:
            w = z3.FreshConst(I, "w")
            good = z3.And(zi(d2.n) == n, same_type, z3.ForAll([w], z3.Implies(z3.And(0 <= w, w < n), inr(w))), match)
            ex.prove("an error only for dimensions that cannot be contracted", z3.Not(good))
        return
    p1, p2, rs = [ex.rv(z) for z in ret.v[:3]]
    mono(b2, r2)
    ex.prove("lists of different length are refused", zi(d2.n) == n)
    ex.prove("dimensions out of range are refused", forall(n, inr))
    ex.prove("dimensions that do not match are refused", z3.And(z3.BoolVal(bool(tested)), match))
    ex.prove("charges of different type are refused", same_type)
    ex.prove("first permutation: kept dimensions in order, then the contracted ones", z3.And(zi(p1.n) == nf1 + n, free(b1, r1, p1, lambda i: i), forall(n, lambda i: p1.get(nf1 + i) == A1[i])))
    ex.prove("second permutation: contracted dimensions, then the kept ones in order", z3.And(zi(p2.n) == nf2 + n, free(b2, r2, p2, lambda i: i, n), forall(n, lambda i: p2.get(i) == A2[i])))
    ex.prove("section counts of the result", z3.And(zi(rs.n) == nf1 + nf2, free(b1, r1, rs, lambda i: S1[i]), free(b2, r2, rs, lambda i: S2[i], nf1)))
    ex.prove("the tensors are unchanged", z3.And(same_value(ex.rv(x), ox), same_value(ex.rv(y), oy)))


def p_sections(ex):
    """sections and charges of the result: those of the kept dimensions of the first tensor, then of the second"""
    f = ex.p.find("quantit::compute_tdot_cval_sectSize")
    x, a = tensor(ex, "left")
    y, b = tensor(ex, "right")
    ox, oy = ex.rv(x), ex.rv(y)
    p1, p2 = dims(ex, f, 2, "perm_left"), dims(ex, f, 3, "perm_right")
    m, out_l = z3.Ints("dim_l out_l")
    n1, n2 = zi(p1.n), zi(p2.n)
    # from compute_tdot_shape
    ex.assume(z3.And(0 <= m, m <= n1, m <= n2, out_l >= 0))
    ex.assume(forall(n1, lambda i: z3.And(0 <= p1.get(i), p1.get(i) < zi(a.rank))))
    ex.assume(forall(n2, lambda i: z3.And(0 <= p2.get(i), p2.get(i) < zi(b.rank))))
    W1, W2 = z3.Const("counts1", AI), z3.Const("counts2", AI)
    k, i = z3.Ints("k i")
    ex.assume(z3.ForAll([k], W1[k] == arr(a.sections_by_dim)[p1.get(k)], patterns=[W1[k]]))
    ex.assume(z3.ForAll([k], W2[k] == arr(b.sections_by_dim)[p2.get(k)], patterns=[W2[k]]))
    N1, N2 = lambda k: SUM(W1, 0, k), lambda k: SUM(W2, m, k)
    # ghost names of the position of section i of group k, in the result and in the tensors
    G = {}
    for t, (N, v, p) in enumerate(((N1, a, p1), (lambda k: N1(n1 - m) + N2(k), b, p2))):
        pn, ps = z3.Function("in_result%d" % t, I, I, I), z3.Function("in_source%d" % t, I, I, I)
        S = lambda k, v=v, p=p: SUM(arr(v.sections_by_dim), 0, p.get(k))
        ex.assume(z3.ForAll([k, i], z3.And(pn(k, i) == N(k) + i, ps(k, i) == S(k) + i), patterns=[pn(k, i)]))
        ex.assume(z3.ForAll([k, i], z3.And(pn(k, i) == N(k) + i, ps(k, i) == S(k) + i), patterns=[ps(k, i)]))
        G[t] = (pn, ps)

    def group(t, o, src, lo, n):
        pn, ps = G[t]
        W = (W1, W2)[t]
        return z3.ForAll([k, i], z3.Implies(z3.And(lo <= k, k < n, 0 <= i, i < W[k]), o.get(pn(k, i)) == src.get(ps(k, i))), patterns=[pn(k, i)])

    def below(W, lo, n, hi):
        ex.assume(z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < n, n <= hi), z3.And(SUM(W, lo, k) >= 0, SUM(W, lo, k) + W[k] <= SUM(W, lo, n), W[k] >= 0)), patterns=[SUM(W, lo, k)]))
        ex.assume(z3.Implies(z3.And(lo <= n, n <= hi), SUM(W, lo, n) >= 0))
        ex.lemmas_used.add("sum_mono")

    def outs(L):
        return L.v("out_section_sizes", "vector<long"), L.v("out_cvals", "any_quantity_vector")

    def first(L):
        n = zi(L.k)
        ss, cv = outs(L)
        below(W1, 0, n, n1 - m), below(W1, 0, n + 1, n1 - m)
        return [("lengths", z3.And(zi(ss.n) == N1(n), zi(cv.n) == N1(n))), ("sizes so far", group(0, ss, a.sections_sizes, 0, n)), ("charges so far", group(0, cv, a.c_vals, 0, n))]

    def second(L):
        n = zi(L.v("i", "^unsigned long$"))
        ss, cv = outs(L)
        T1 = N1(n1 - m)
        below(W1, 0, n1 - m, n1 - m)
        below(W2, m, n, n2), below(W2, m, n + 1, n2)
        return [("position", z3.And(m <= n, n <= n2)), ("lengths", z3.And(zi(ss.n) == T1 + N2(n), zi(cv.n) == T1 + N2(n))),
                ("sizes of the first tensor", group(0, ss, a.sections_sizes, 0, n1 - m)), ("charges of the first tensor", group(0, cv, a.c_vals, 0, n1 - m)),
                ("sizes so far", group(1, ss, b.sections_sizes, m, n)), ("charges so far", group(1, cv, b.c_vals, m, n))]
    ex.loops_at = {("compute_tdot_cval_sectSize", 0): first, ("compute_tdot_cval_sectSize", 1): second}
    ret = ex.rv(ex.call_fn(f, None, [x, y, p1, p2, m, out_l]))
    cv, ss = [ex.rv(z) for z in ret.v[:2]]
    tot = N1(n1 - m) + N2(n2)
    ex.prove("one size and one charge per section", z3.And(zi(cv.n) == tot, zi(ss.n) == tot))
    ex.prove("sections of the first tensor", z3.And(group(0, ss, a.sections_sizes, 0, n1 - m), group(0, cv, a.c_vals, 0, n1 - m)))
    ex.prove("then sections of the second tensor", z3.And(group(1, ss, b.sections_sizes, m, n2), group(1, cv, b.c_vals, m, n2)))
    ex.prove("the tensors are unchanged", z3.And(same_value(ex.rv(x), ox), same_value(ex.rv(y), oy)))


NOTE = ("Deductive, for all tensors and dimension lists: the compatibility test accepts exactly dimensions with the same sections and opposite charges, compute_tdot_shape refuses lists of different length, dimensions "
        "out of range and unequal charge types and computes the axis permutations and section counts of the result, compute_tdot_cval_sectSize gives its sections and charges in order. The accumulation over matching "
        "blocks and the numeric content are explored on the compiled code against dense contraction (bounded), so the whole property is claimed as bounded.")
EXPLANATION = ("obligations generated from the clang AST of the compatibility test and of the two functions that compute the shape of a contraction, on every run; random structures, dimension lists and operands on the "
               "compiled code against dense contraction")
UNITS = [dict(name="lemmas", body=lambda ex: None, post=T.lemmas),
         dict(name="check_product_compat", tu="bt", body=compat(False), opts=OPTS), dict(name="check_product_compat (throwing)", tu="bt", body=compat(True), opts=OPTS),
         dict(name="compute_tdot_shape", tu="bt", body=p_tdot, opts=OPTS), dict(name="compute_tdot_cval_sectSize", tu="bt", body=p_sections, opts=OPTS)]
DRIVERS = [dict(src="drivers/B06.cpp", libs=BTLIBS)]
