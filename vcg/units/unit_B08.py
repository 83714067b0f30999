"""B08: shapes, views and assignments of parts of block tensors"""
from spec import *
import unit_T01 as T
from unit_B02 import dim_size, c_sizes, off

LEVEL = "other"
TUS = {"bt": ("sources/btensor.cpp", ["R quantit::.*"])}
Q_ = "quantit::btensor::"
OPTS = dict(abstract_map=True, prune="ground")
FREE = T.FREE
# product of the inverses of the charges of the sections selected in the first dimensions: b[k] for a dimension with a selected element, whose section is at place pos[k]
SELP = RecFun("SELP", [T.AB, AQ, AI], Q, lambda b, cv, pos: qe, lambda a, acc, i: z3.If(a[0][i], qop(acc, qinv(z3.Select(a[1], a[2][i]))), acc))


def setup(ex, rec):
    t = ex.alloc(ex.fresh_rec(rec, "b"))
    b = Bt(ex, t)
    assume_inv(ex, b)
    block_offsets_ok(ex, b)
    return t, b


def ghosts(ex, b, d, n):
    """for each dimension with a selected element: the section that contains it (by the lemma sum_containing)"""
    drop = z3.Const("dropped", T.AB)
    sec = z3.Const("section_of", AI)
    k = z3.Int("gk")
    ex.assume(z3.ForAll([k], drop[k] == (d.get(k) != -1), patterns=[drop[k]]))
    return drop, sec


def containing(ex, b, d, sec, k, m=None):
    """instance of sum_containing for dimension k, and of sum_mono around section m"""
    k = zi(k)
    o, n, e, w = off(b, k), b.sections_by_dim.get(k), d.get(k), sec[k]
    ss = arr(b.sections_sizes)
    ok = z3.And(0 <= k, k < zi(b.rank))
    ex.assume(z3.Implies(ok, z3.And(n >= 0, o >= 0, o + n == off(b, k + 1), off(b, k + 1) <= off(b, b.rank))))
    ex.assume(z3.Implies(z3.And(ok, 0 <= e, e < dim_size(b, k)), z3.And(0 <= w, w < n, SUM(ss, o, o + w) <= e, e < SUM(ss, o, o + w + 1))))
    ex.lemmas_used.add("sum_containing")
    if m is not None:
        for x in (m, m + 1):
            ex.assume(z3.Implies(z3.And(ok, 0 <= e, e < dim_size(b, k), 0 <= x, x <= n), z3.And(z3.Implies(x >= w + 1, SUM(ss, o, o + x) >= SUM(ss, o, o + w + 1)), z3.Implies(x <= w, SUM(ss, o, o + x) <= SUM(ss, o, o + w)))))
        ex.lemmas_used.add("sum_mono")


def inside(b, d, k):
    return z3.Or(d.get(k) == -1, z3.And(0 <= d.get(k), d.get(k) < dim_size(b, k)))


def p_basis(ex):
    """sections and local indices of the selected elements"""
    f = ex.p.find("quantit::to_block_basis")
    t, b = setup(ex, [g["rec"] for g in ex.p.byqual[Q_ + "block"]][0])
    d = ex.fresh_type(ex.p.deref_type(f["params"][0]["t"]), "dims")
    r, ss = zi(b.rank), b.sections_sizes
    k = z3.FreshConst(I, "k")
    ex.assume(zi(d.n) == r)
    # checked by shape_from, which is called first
    ex.assume(forall(r, lambda i: inside(b, d, i)))
    drop, sec = ghosts(ex, b, d, r)
    loc = lambda i: d.get(i) - SUM(arr(ss), off(b, i), off(b, i) + sec[i])

    def outer(L):
        n = ex.outer_k = zi(L.k)
        ex.assume(z3.Implies(z3.And(0 <= n, n < r), inside(b, d, n)))
        containing(ex, b, d, sec, n)
        bl, el = L.v("blocks", "vector<long"), L.v("element", "vector<at::indexing")
        it = lambda nm: zi(L.v(nm).i)
        return [("lengths", z3.And(zi(bl.n) == r, zi(el.n) == r)), ("positions", z3.And(it("blockit") == n, it("elementit") == n, it("section_dimit") == n, it("sections_sizeit") == off(b, n), n <= r)),
                ("sections so far", allp(k, z3.Implies(z3.And(0 <= k, k < r), bl.get(k) == z3.If(k < n, z3.If(d.get(k) == -1, -1, sec[k]), 0)), bl.get(k))),
                ("indices so far", filters(el, n))]

    def filters(el, n):
        x = el.get(k)
        return allp(k, z3.Implies(z3.And(0 <= k, k < n), z3.If(d.get(k) == -1, whole(x), z3.And(x.f["kind"] == 1, x.f["start"] == loc(k)))), x.f["kind"])

    def whole(x):
        S = ex.whole_slice
        return z3.And(x.f["kind"] == 2, x.f["start"] == S.f["start"], x.f["stop"] == S.f["stop"], x.f["step"] == S.f["step"])

    def inner(L):
        n = getattr(ex, "outer_k", z3.IntVal(0))
        o = off(b, n)
        m = zi(L.v("sectionsize_beg").i) - o
        containing(ex, b, d, sec, n, m)
        bl = L.v("blocks", "vector<long")
        return [("position", z3.And(0 <= m, m <= b.sections_by_dim.get(n))), ("rest of the index", zi(L.v("index", "^long$")) + SUM(arr(ss), o, o + m) == d.get(n)), ("not past", zi(L.v("index", "^long$")) >= 0),
                ("section reached", bl.get(n) == m), ("length", zi(bl.n) == r),
                ("other sections", allp(k, z3.Implies(z3.And(0 <= k, k < r, k != n), bl.get(k) == z3.If(k < n, z3.If(d.get(k) == -1, -1, sec[k]), 0)), bl.get(k)))]
    ex.whole_slice = models.mk_slice() if hasattr(models, "mk_slice") else Struct("s", {"start": 0, "stop": 2 ** 63 - 1, "step": 1})
    ex.loops_at = {("to_block_basis", 0): outer, ("to_block_basis", 1): inner}
    ret = ex.rv(ex.call_fn(f, None, [ex.alloc(d), ex.alloc(b.sections_by_dim), ex.alloc(ss), r]))
    bl, el = [ex.rv(x) for x in ret.v[:2]]
    ex.prove("one entry per dimension", z3.And(zi(bl.n) == r, zi(el.n) == r))
    ex.prove("sections of the selected elements", forall(r, lambda i: bl.get(i) == z3.If(d.get(i) == -1, -1, sec[i])))
    ex.prove("index of each selected element in its section, the others are kept whole", filters(el, r))


def p_shape(ex):
    """structure of a view: the dimensions kept, with the charges of the selected sections in the selection rule"""
    f = next(g for g in ex.p.byqual[Q_ + "shape_from"] if len(g["params"]) == 1 and "vector<long" in ex.p.ts(ex.p.deref_type(g["params"][0]["t"])) + ex.p.ts(g["params"][0]["t"]))
    t, b = setup(ex, f["rec"])
    old = ex.rv(t)
    d = ex.fresh_type(ex.p.deref_type(f["params"][0]["t"]), "dims")
    r, sb, ss, cv = zi(b.rank), b.sections_by_dim, b.sections_sizes, b.c_vals
    ex.assume(zi(d.n) >= 0)
    for _, g in bt_inv(b):
        ex.assume(g)
    k, i = z3.Ints("k i")
    drop, sec = ghosts(ex, b, d, r)
    pos = z3.Const("place_of_section", AI)
    ex.assume(z3.ForAll([k], pos[k] == off(b, k) + sec[k], patterns=[pos[k]]))
    ex.use.append((re.compile(Q_ + "sizes"), c_sizes))
    INS = z3.Const("inside", T.AB)
    ex.assume(z3.ForAll([k], INS[k] == inside(b, d, k), patterns=[INS[k]]))
    good = z3.And(zi(d.n) == r, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < r), INS[k]), patterns=[INS[k]]))
    sel = lambda n: SELP(drop, qarr(cv), pos, 0, n)
    sel0 = sel_rule(b)

    def mono(n):
        n = zi(n)
        ex.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(FREE(drop, 0, k) >= 0, FREE(drop, 0, k) + z3.If(drop[k], 0, 1) <= FREE(drop, 0, n))), patterns=[FREE(drop, 0, k)]))
        ex.assume(z3.Implies(n >= 0, z3.And(FREE(drop, 0, n) >= 0, FREE(drop, 0, n) <= n)))
        ex.lemmas_used.add("free_mono")

    def tests(L):
        it = zi(L.v("it_dims").i)
        ex.assume(INS[it] == inside(b, d, it))
        v = zb(L.v("size_compat", "bool"))
        return [("positions", z3.And(0 <= it, it <= r, zi(L.v("it_size").i) == it)),
                ("inside so far", z3.Implies(v, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < it), INS[k]), patterns=[INS[k]]))),
                ("not inside", z3.Implies(z3.Not(v), z3.Exists([k], z3.And(0 <= k, k < it, z3.Not(INS[k])))))]

    def kept(o, n):
        return z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n, z3.Not(drop[k])), o.get(FREE(drop, 0, k)) == sb.get(k)), patterns=[FREE(drop, 0, k)])

    def outer(L):
        n = ex.outer_k = zi(L.k)
        for x in (n, n + 1, r):
            mono(x)
        ex.assume(drop[n] == (d.get(n) != -1))
        ex.assume(pos[n] == off(b, n) + sec[n])
        ex.assume(INS[n] == inside(b, d, n))
        ex.assume(z3.Implies(z3.And(good, 0 <= n, n < r), inside(b, d, n)))
        containing(ex, b, d, sec, n)
        o = L.v("out_sections_by_dim", "vector<long")
        F = FREE(drop, 0, n)
        ex.assume(z3.Implies(forall(F, lambda x: o.get(x) >= 0), SUM(arr(o), 0, F) >= 0))
        ex.lemmas_used.add("sum_mono")
        return [("positions", z3.And(zi(L.v("i", "^unsigned long$")) == n, zi(L.v("in_secbd_it").i) == n, zi(L.v("out_secbd_it").i) == FREE(drop, 0, n), n <= r)),
                ("dimensions kept so far", zi(L.v("out_rank", "^unsigned long$")) == FREE(drop, 0, n)), ("length", zi(o.n) == r), ("section counts so far", kept(o, n)), ("section counts not negative", forall(FREE(drop, 0, n), lambda x: o.get(x) >= 0)),
                ("charges of the sections selected so far", L.v("out_sel_rule", "any_quantity") == qop(sel0, sel(n)))]

    def inner(L):
        n = getattr(ex, "outer_k", z3.IntVal(0))
        o = off(b, n)
        m = zi(L.v("sec_sizes_beg").i) - o
        containing(ex, b, d, sec, n, m)
        el = zi(L.v("el_index", "^long$"))
        return [("position", z3.And(0 <= m, m <= sb.get(n))), ("rest of the index", el + SUM(arr(ss), o, o + m) == d.get(n)), ("not past", z3.If(d.get(n) == -1, m == 0, el >= 0))]
    G = [z3.Function(s, I, I, I) for s in ("place_in_view", "place_in_tensor")]

    def group(o, v, n, N):
        return z3.ForAll([k, i], z3.Implies(z3.And(0 <= k, k < n, z3.Not(drop[k]), 0 <= i, i < sb.get(k)), o.get(G[0](k, i)) == v.get(G[1](k, i))), patterns=[G[0](k, i)])
    st = {}

    def fill(L):
        n = zi(L.k)
        o = L.v("out_sections_by_dim", "vector<long")
        N = lambda n: SUM(arr(o), 0, FREE(drop, 0, n))
        if "g" not in st or not z3.eq(st["g"], arr(o)):
            st["g"] = arr(o)
            for pat in (G[0](k, i), G[1](k, i)):
                ex.assume(z3.ForAll([k, i], z3.And(G[0](k, i) == N(k) + i, G[1](k, i) == off(b, k) + i), patterns=[pat]))
        for x in (n, n + 1, r):
            mono(x)
        ex.assume(drop[n] == (d.get(n) != -1))
        ex.assume(z3.Implies(z3.And(0 <= n, n < r), z3.And(off(b, n) >= 0, sb.get(n) >= 0, off(b, n) + sb.get(n) == off(b, n + 1), off(b, n + 1) <= off(b, r))))
        for x in (n, n + 1):
            # sum_mono along the dimensions kept
            ex.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < x, x <= r, z3.Not(drop[k])), z3.And(N(k) >= 0, N(k) + sb.get(k) <= N(x))), patterns=[FREE(drop, 0, k)]))
            ex.assume(z3.Implies(z3.And(0 <= x, x <= r), z3.And(0 <= N(x), N(x) <= N(r))))
        ex.lemmas_used.add("sum_mono")
        os, oc = L.v("out_sections_sizes", "vector<long"), L.v("out_c_vals", "any_quantity_vector")
        it = lambda nm: zi(L.v(nm).i)
        return [("lengths", z3.And(zi(os.n) == N(r), zi(oc.n) == N(r))),
                ("positions in the tensor", z3.And(it("in_secdim_it") == n, it("in_secsizes_it") == off(b, n), it("in_c_vals_it") == off(b, n), n <= r)),
                ("positions in the view", z3.And(it("out_secdim_it") == FREE(drop, 0, n), it("out_secsize_it") == N(n), it("out_c_vals_it") == N(n))),
                ("sizes not negative", forall(os.n, lambda x: os.get(x) >= 0)),
                ("sizes so far", group(os, ss, n, N)), ("charges so far", group(oc, cv, n, N))]
    nm = "shape_from"
    ex.loops_at = {(nm, 0): tests, (nm, 1): outer, (nm, 2): inner, (nm, 3): fill}
    whole = ex.fresh_rec(f["rec"], "new")
    ex.use.append((re.compile(r"quantit::flat_map::flat_map::ctor"), lambda c: NotImplemented if c.args else Vec(z3.IntVal(0), whole.f["blocks_list"].data)))
    ctor_contract(ex, "the view is valid")
    try:
        ret = ex.rv(ex.call_fn(f, t, [ex.alloc(d)]))
    except ThrowEx:
        ex.prove("an error only for an element that the tensor does not have", z3.Not(good))
        return
    ex.prove("elements that the tensor does not have are refused", good)
    c = ex.last_ctor
    N = lambda n: SUM(arr(c["sb"]), 0, FREE(drop, 0, n))
    ex.prove("rank is the number of dimensions kept", zi(c["rank"]) == FREE(drop, 0, r))
    ex.prove("section counts of the dimensions kept, in order", z3.And(zi(c["sb"].n) == FREE(drop, 0, r), kept(c["sb"], r)))
    ex.prove("section sizes of the dimensions kept", group(c["ss"], ss, r, N))
    ex.prove("charges of the dimensions kept", group(c["cv"], cv, r, N))
    ex.prove("selection rule: divided by the charges of the selected sections", c["sel"] == qop(sel0, sel(r)))
    ex.prove("no block", z3.BoolVal(c["bl"] is None))
    ex.prove("the tensor is unchanged", same_value(ex.rv(t), old))


NOTE = "to_block_basis and shape_from(dims) are proved for every tensor and every list of dimensions; the shape composition of several tensors, the views with their blocks and the assignments through views are decided by a bounded comparison with dense tensors"
EXPLANATION = "shape_from(dims): an error exactly when the list has another length than the rank or selects an element that the tensor does not have; otherwise the view keeps the sections, sizes and charges of the dimensions left at -1, in order, and its selection rule is divided by the charges of the sections selected, and no block. to_block_basis: the section and the index in the section of every selected element. Block content of views, assignments through views and the composition of shapes are compared with dense indexing by the driver (bounded)."
UNITS = [dict(name="lemmas", body=lambda ex: None, post=T.lemmas), dict(name="to_block_basis", tu="bt", body=p_basis, opts=OPTS), dict(name="shape_from", tu="bt", body=p_shape, opts=OPTS, axioms=[q_axioms])]
DRIVERS = [dict(src="drivers/B08.cpp", libs=BTLIBS)]
