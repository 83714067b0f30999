"""B02: section and element queries"""
from spec import *

LEVEL = "proof"
NOTE = ("Every obligation generated from the real query functions of sources/btensor.cpp is discharged for all ranks, section counts and sizes: the "
        "section queries return the entries the prefix sums designate, refuse exactly the indices beyond the end, and the element decomposition is "
        "the unique block index and offset. Assumes 64 bit sums do not wrap, the assumed contracts of std::vector, std::reduce and the charge "
        "sequence in vcg/models.py, the extractor and the generator. The compiled code is also run against the contract on random structures.")
TUS = {"bt": ("sources/btensor.cpp", ["R quantit::.*"])}
Q_ = "quantit::btensor::"


def setup(ex, f, pos=0):
    t = ex.alloc(ex.fresh_rec(f["rec"], "b"))
    b = Bt(ex, t)
    assume_inv(ex, b, pos)
    block_offsets_ok(ex, b)
    return t, b


def off(b, i):
    return SUM(arr(b.sections_by_dim), 0, i)


def refusing(ex, f, t, args, bad, good):
    """f throws exactly when bad; otherwise good(result)"""
    try:
        r = ex.call_fn(f, t, args)
    except ThrowEx:
        ex.prove("an error only for an index beyond the end", bad)
        return
    ex.prove("an index beyond the end is refused", z3.Not(bad))
    good(r)


def section_query(name, results):
    def body(ex):
        f = ex.p.find(Q_ + name)
        t, b = setup(ex, f)
        d = ex.fresh_type(f["params"][0]["t"], "dim")
        s = ex.fresh_type(f["params"][1]["t"], "section")
        sb, r = b.sections_by_dim, zi(b.rank)
        bad = z3.Or(d >= r, s >= sb.get(d))

        def good(ret):
            want = dict(size=b.sections_sizes.get(off(b, d) + s), q=b.c_vals.get(off(b, d) + s))
            v = ex.rv(ret)
            vs = [ex.rv(x) for x in v.v] if isinstance(v, Tup) else [v]
            for k, x in zip(results, vs):
                if isinstance(x, Ptr):
                    x = ex.rv(x.lv)
                if not z3.is_expr(x):
                    raise Unsupported("result %r" % (x,))
                ex.prove("the %s declared for the section" % k, x == want[k])
        refusing(ex, f, t, [ex.alloc(d), ex.alloc(s)], bad, good)
    return dict(name=name, tu="bt", body=body, bounded=3)


def range_query(name, checked, two=False, nth=0):
    def body(ex):
        c = [f for f in ex.p.byqual.get(Q_ + name, [])]
        if len(c) <= nth:
            raise ContractMismatch("no " + name)
        f = c[nth]
        t, b = setup(ex, f)
        d = ex.fresh_type(f["params"][0]["t"], "dim")
        r = zi(b.rank)
        if not checked:
            ex.assume(d < r)

        def good(ret):
            v = ex.rv(ret)
            for k in range(0, len(v.v), 2):
                lo, hi = ex.rv(v.v[k]), ex.rv(v.v[k + 1])
                ex.prove("range of the sections of the dimension", z3.And(zi(lo.i) == off(b, d), zi(hi.i) == off(b, d + 1)))
                ex.prove("range inside the lists", z3.And(zi(lo.i) >= 0, zi(hi.i) <= zi(ex.read(lo.lv).n)))
        refusing(ex, f, t, [ex.alloc(d)], d >= r if checked else z3.BoolVal(False), good)
    return dict(name="%s%s" % (name, nth or ""), tu="bt", body=body, bounded=3)


def dim_size(b, i):
    return SUM(arr(b.sections_sizes), off(b, i), off(b, i + 1))


def sizes(ex):
    f = ex.p.find(Q_ + "sizes")
    t, b = setup(ex, f)
    r = zi(b.rank)

    def inv(L):
        o = L.v("out", "vector<long")
        return [("length", zi(o.n) == r), ("sizes so far", forall(L.k, lambda i: o.get(i) == dim_size(b, i)))]
    ex.loops_spec = {0: inv}
    o = ex.rv(ex.call_fn(f, t, []))
    ex.prove("one size per dimension", zi(o.n) == r)
    ex.prove("size of a dimension is the sum of the sizes of its sections", forall(r, lambda i: o.get(i) == dim_size(b, i)))


def c_sizes(c):
    """contract proved by the unit sizes"""
    ex = c.ex
    b = Bt(ex, c.obj)
    o = Vec(zi(b.rank), ex.fresh(AI, "full_size"))
    i = z3.FreshConst(I, "q")
    ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zi(b.rank)), z3.And(o.get(i) == dim_size(b, i), o.get(i) >= 0)), patterns=[z3.Select(o.data, i)]))
    return o


def element(ex):
    """element_conserved_qtt: the charge of the section that contains the element"""
    f = ex.p.find(Q_ + "element_conserved_qtt")
    t, b = setup(ex, f)
    d = ex.fresh_type(f["params"][0]["t"], "dim")
    e = ex.fresh_type(f["params"][1]["t"], "element")
    r = zi(b.rank)
    ex.use.append((re.compile(Q_ + "sizes"), c_sizes))
    ss, cv = b.sections_sizes, b.c_vals
    o = off(b, d)
    # ghost: the section that contains the element
    w = ex.fresh(I, "containing_section")
    tot = SUM(arr(ss), o, off(b, d + 1))
    inside = z3.And(d < r, e < tot)
    ex.assume(z3.Implies(inside, z3.And(0 <= w, w < b.sections_by_dim.get(d),
                                        SUM(arr(ss), o, o + w) <= e, e < SUM(arr(ss), o, o + w + 1))))
    ex.lemmas_used.add("sum_containing")

    def mono(k):
        # monotone prefix sums (lemma sum_mono)
        ex.assume(z3.Implies(z3.And(0 <= k, k <= b.sections_by_dim.get(d), d < r), z3.And(
            z3.Implies(k >= w + 1, SUM(arr(ss), o, o + k) >= SUM(arr(ss), o, o + w + 1)),
            z3.Implies(k <= w, SUM(arr(ss), o, o + k) <= SUM(arr(ss), o, o + w)))))

    def inv(L):
        mono(zi(L.k))
        mono(zi(L.k) + 1)
        el = zi(L.par(1))
        return [("rest of the element index", el + SUM(arr(ss), o, o + zi(L.k)) == e), ("not past", el >= 0),
                ("section list", z3.And(zi(L.v("it_qt").i) == o + L.k, zi(L.v("it_size").i) == o + L.k)),
                ("not past the containing section", zi(L.k) <= w)]
    ex.loops_spec = {0: inv}

    def good(q):
        ex.prove("charge of the containing section", ex.rv(q) == cv.get(o + w))
    refusing(ex, f, t, [ex.alloc(d), ex.alloc(e)], z3.Not(inside), good)


def decompose(ex):
    f = ex.p.find(Q_ + "element_index_decompose")
    t, b = setup(ex, f)
    e = ex.alloc(ex.fresh_type(f["params"][0]["t"], "element_index"))
    ev = ex.rv(e)
    r = zi(b.rank)
    sb, ss = b.sections_by_dim, b.sections_sizes
    ex.use.append((re.compile(Q_ + "sizes"), c_sizes))
    ex.assume(zi(ev.n) == r)
    ex.assume(r < 1 << 31)
    ex.assumptions.add("rank below 2^31 (element_index_decompose counts dimensions in int)")
    i = z3.FreshConst(I, "q")
    ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < r), z3.And(0 <= ev.get(i), ev.get(i) < dim_size(b, i))), patterns=[ev.get(i)]))

    def done(bl, su, i):
        o = off(b, i)
        return z3.And(0 <= bl.get(i), bl.get(i) < sb.get(i), 0 <= su.get(i), su.get(i) < z3.Select(arr(ss), o + bl.get(i)),
                      SUM(arr(ss), o, o + bl.get(i)) + su.get(i) == ev.get(i))

    def outer(L):
        bl, su = L.v("blockind", "vector<long", 1), L.v("subelind", "vector<long", 2)
        return [("lengths", z3.And(zi(bl.n) == r, zi(su.n) == r)),
                ("section reached", zi(L.v("section_size_it", "iterator").i) == off(b, zi(L.k))),
                ("decomposed so far", forall(L.k, lambda i: done(bl, su, i)))]

    def inner(L):
        d = zi(L.v("dim", r"^int$"))
        it = zi(L.v("section_size_it", "iterator").i)
        ind, bi = zi(L.v("ind", "^long$", 0)), zi(L.v("block_ind", "^long$", 1))
        return [("rest", ind + SUM(arr(ss), off(b, d), it) == ev.get(d)), ("not negative", ind >= 0),
                ("position", z3.And(bi >= 0, it == off(b, d) + bi, bi <= sb.get(d)))]
    ex.loops_spec = {0: outer, 1: inner}
    ret = ex.rv(ex.call_fn(f, t, [e]))
    bl, su = [ex.rv(x) for x in ret.v]
    ex.prove("one entry per dimension", z3.And(zi(bl.n) == r, zi(su.n) == r))
    ex.prove("block index and offset of the element in every dimension", forall(r, lambda i: done(bl, su, i)))


UNITS = [dict(name="lemmas", body=lambda ex: None, post=lemma_obligations),
         section_query("section_size", ["size"]), section_query("section_conserved_qtt", ["q"]),
         section_query("section_size_cqtt", ["size", "q"]),
         range_query("section_conserved_qtt_range", True), range_query("section_conserved_qtt_range", True, nth=1),
         range_query("section_sizes", False), range_query("section_cqtts", False), range_query("section_sizes_cqtts", False),
         dict(name="sizes", tu="bt", body=sizes, bounded=3),
         dict(name="element_conserved_qtt", tu="bt", body=element, bounded=3),
         dict(name="element_index_decompose", tu="bt", body=decompose, bounded=2)]
DRIVERS = [dict(src="drivers/B02.cpp", libs=BTLIBS)]
EXPLANATION = ("one contract per query function of btensor: result equals the list entry at the prefix sum of the section counts; error exactly beyond "
               "the end; element decomposition by loop invariants over the walk through the sections")
