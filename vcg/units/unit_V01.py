"""V01: sequences of type erased charges"""
from spec import *

LEVEL = "proof"
NOTE = ("Every operation of any_quantity_vector, through the virtual interface down to the typed storage, is proved to act as std::vector does on the same "
        "values, for every length and position; permutation of groups by two nested loop invariants. Proved for the instantiation quantity<Z,Z,C<2>>. Assumes the "
        "models of std::vector, unique_ptr and boost iterator_interface; insertion of reverse ranges is only exercised by the driver.")
TUS = {"aq": ("sources/any_quantity.cpp", ["R quantit::.*"])}
S_ = "quantit::quantity<quantit::conserved::Z, quantit::conserved::Z, quantit::conserved::C<2>>"
QV_ = "quantit::quantity_vector<" + S_
V_ = "quantit::any_quantity_vector::"
OPTS = dict(exact32=False, abstract_q=False)


class Lst:
    """a list of charges in memory"""

    def __init__(self, ex, name, null=False):
        self.ex = ex
        srec = ex.p.find(S_ + "::inverse_")["rec"]
        qrec = [f["rec"] for f in ex.p.funcs.values() if f["qual"].startswith(QV_) and f["name"] == "virtual_permute"]
        if not qrec:
            raise ContractMismatch("no sequence of %s in this tree" % S_)
        ex.vec_rec, self.srec = qrec[0], srec
        self.arec = ex.p.find(V_ + "push_back")["rec"]
        self.null = null
        if null:
            self.vlv = None
            self.n0 = 0
        else:
            sh = ("vec", ex.shape([t for t, x in enumerate(ex.p.types) if x.get("rec") == srec and x["k"] == "rec"][0]))
            self.vlv = ex.alloc(ex.fresh_shape(sh, name))
            v = ex.read(self.vlv)
            ex.assume(zi(v.n) >= 0)
            self.n0, self.d0 = zi(v.n), v.data
        self.at = ex.alloc(Struct(self.arec, {"ptr": Ptr(self.vlv)}))

    def elem(self, name):
        """a charge of the element type"""
        return self.ex.alloc(self.ex.fresh_rec(self.srec, name))


def now(ex, a):
    """the sequence an any_quantity_vector (or a pointer to a sequence) holds"""
    v = ex.rv(a)
    if isinstance(v, Struct) and "ptr" in v.f:
        v = v.f["ptr"]
    if isinstance(v, Ptr):
        return ex.read(v.lv) if v.lv is not None else None
    return v


def leaves(t):
    out = []
    tmap(lambda a: out.append(a), t)
    return out


def same_at(d, i, e, j=None):
    """element i of the storage d equals the element (storage e at j, or value e)"""
    return z3.And([z3.Select(x, zi(i)) == (zt(y) if j is None else z3.Select(y, zi(j))) for x, y in zip(leaves(d), leaves(e))])


def is_list(ex, v, n, f, lab):
    """v has n elements, the i-th one described by f(i) -> list of (condition, storage, index or None)"""
    if v is None:
        ex.prove(lab + ": length", z3.BoolVal(False) if not z3.is_expr(n) and n != 0 else zi(n) == 0)
        return
    ex.prove(lab + ": length", zi(v.n) == n)
    q = z3.FreshConst(I, "q")
    ex.prove(lab + ": elements", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < n), z3.And([z3.Implies(c, same_at(v.data, q, d, j)) for c, d, j in f(q)]))))


def it(ex, l, i, const=True):
    """an iterator of the erased interface at position i"""
    f = ex.p.find(V_ + ("cbegin" if const else "begin"), 0)
    b = ex.call_fn(f, l.at, [])
    v = ex.rv(b)
    return ex.alloc(Struct(v.rec, dict(v.f, it=It(v.f["it"].lv, i))))


def pos_of(ex, r, l):
    v = ex.rv(r)
    p = v.f["it"]
    return p


def fs(ex, name, n, kinds=None):
    out = [f for f in ex.p.byqual.get(V_ + name, []) if len(f["params"]) == n and f.get("body_") is not None]
    if kinds:
        out = [f for f in out if kinds([ex.p.ts(x["t"]) for x in f["params"]])]
    if not out:
        raise ContractMismatch("no %s of any_quantity_vector in this tree" % name)
    return out


def raises(ex, f, a, args, lab):
    try:
        ex.call_fn(f, a, args)
        ex.prove(lab, z3.BoolVal(False))
    except ThrowEx:
        ex.prove(lab, z3.BoolVal(True))


def access(ex):
    l = Lst(ex, "l")
    i = ex.fresh(I, "i")
    ex.assume(i >= 0)
    for f in fs(ex, "operator[]", 1):
        l = Lst(ex, "l")
        ex.assume(i < l.n0)
        r = ex.call_fn(f, l.at, [i])
        ex.prove("element at the position", same_at(l.d0, i, ex.rv(r)) if not isinstance(ex.rv(r), Ptr) else same_at(l.d0, i, ex.read(ex.rv(r).lv)))
        if not f.get("const"):
            e = ex.rv(l.elem("new"))
            ex.write(ref(ex, r), e)
            is_list(ex, now(ex, l.at), l.n0, lambda q: [(q == i, e, None), (q != i, l.d0, q)], "assignment through the reference")
        z = Lst(ex, "z", null=True)
        raises(ex, f, z.at, [0], "access to an empty list raises")
    for f in fs(ex, "at", 1):
        l = Lst(ex, "l")
        try:
            r = ex.call_fn(f, l.at, [i])
            ex.prove("checked access inside", i < l.n0)
            ex.prove("checked element at the position", same_at(l.d0, i, ex.rv(r)))
        except ThrowEx:
            ex.prove("checked access raises only outside", i >= l.n0)
        raises(ex, f, Lst(ex, "z", null=True).at, [0], "checked access to an empty list raises")


def ref(ex, r):
    v = r if isinstance(r, LV) and not isinstance(ex.rv(r), Ptr) else ex.rv(r)
    return v.lv if isinstance(v, Ptr) else v


def measure(ex):
    l = Lst(ex, "l")
    for name, want in (("size", lambda l: l.n0), ("empty", lambda l: l.n0 == 0)):
        for f in fs(ex, name, 0):
            r = ex.rv(ex.call_fn(f, l.at, []))
            ex.prove(name, zt(r) == zt(want(l)))
            z = Lst(ex, "z", null=True)
            ex.prove(name + " of a default constructed list", zt(ex.rv(ex.call_fn(f, z.at, []))) == (zi(0) if name == "size" else z3.BoolVal(True)))
    ex.assume(l.n0 > 0)
    for name, i in (("front", 0), ("back", l.n0 - 1)):
        for f in fs(ex, name, 0):
            ex.prove(name, same_at(l.d0, i, ex.rv(ex.call_fn(f, l.at, []))))
    for f in fs(ex, "begin", 0) + fs(ex, "cbegin", 0):
        ex.prove("begin is the first position", zi(pos_of(ex, ex.call_fn(f, l.at, []), l).i) == 0)
    for f in fs(ex, "end", 0) + fs(ex, "cend", 0):
        ex.prove("end is past the last position", zi(pos_of(ex, ex.call_fn(f, l.at, []), l).i) == l.n0)
    is_list(ex, now(ex, l.at), l.n0, lambda q: [(z3.BoolVal(True), l.d0, q)], "queries change nothing")


def modify(ex):
    T = z3.BoolVal(True)
    for null in (False, True):
        l = Lst(ex, "l", null)
        e = l.elem("e")
        ev = ex.rv(e)
        f, = fs(ex, "push_back", 1)
        ex.call_fn(f, l.at, [e])
        is_list(ex, now(ex, l.at), l.n0 + 1, lambda q: [(q == l.n0, ev, None)] + ([] if null else [(q < l.n0, l.d0, q)]), "push_back")
        l = Lst(ex, "l", null)
        n = ex.fresh(I, "n")
        ex.assume(n >= 0)
        f, = fs(ex, "resize", 2)
        ex.call_fn(f, l.at, [n, e])
        is_list(ex, now(ex, l.at), n, lambda q: [(q >= l.n0, ev, None)] + ([] if null else [(q < l.n0, l.d0, q)]), "resize with a value")
    l = Lst(ex, "l")
    f, = fs(ex, "resize", 1)
    ex.call_fn(f, l.at, [n])
    v = now(ex, l.at)
    zero = tmap(lambda a: z3.IntVal(0), l.d0)
    is_list(ex, v, n, lambda q: [(q < l.n0, l.d0, q), (q >= l.n0, zero, None)], "resize")
    l = Lst(ex, "l")
    ex.assume(l.n0 > 0)
    f, = fs(ex, "pop_back", 0)
    ex.call_fn(f, l.at, [])
    is_list(ex, now(ex, l.at), l.n0 - 1, lambda q: [(T, l.d0, q)], "pop_back")
    for null in (False, True):
        l = Lst(ex, "l", null)
        f, = fs(ex, "clear", 0)
        ex.call_fn(f, l.at, [])
        is_list(ex, now(ex, l.at), 0, lambda q: [], "clear")
        l = Lst(ex, "l", null)
        for nm in ("reserve", "shrink_to_fit"):
            f = fs(ex, nm, 1 if nm == "reserve" else 0)[0]
            ex.call_fn(f, l.at, [n] if nm == "reserve" else [])
            is_list(ex, now(ex, l.at), l.n0, lambda q: [] if null else [(T, l.d0, q)], nm)


def insertion(ex):
    l, o = Lst(ex, "l"), Lst(ex, "other")
    p, n, a, b = [ex.fresh(I, x) for x in ("pos", "count", "first", "last")]
    ex.assume(z3.And(0 <= p, p <= l.n0, n >= 0, 0 <= a, a <= b, b <= o.n0))
    e = l.elem("e")
    ev = ex.rv(e)

    def result(r, k, mid, l, lab):
        is_list(ex, now(ex, l.at), l.n0 + k, lambda q: [(q < p, l.d0, q), (q >= p + k, l.d0, q - k), (z3.And(p <= q, q < p + k),) + mid(q)], lab)
        ex.prove(lab + ": position returned", zi(pos_of(ex, r, l).i) == p)
    f, = fs(ex, "insert", 2)
    result(ex.call_fn(f, l.at, [it(ex, l, p), e]), z3.IntVal(1), lambda q: (ev, None), l, "insert one")
    l2 = Lst(ex, "l")
    ex.assume(p <= l2.n0)
    f, = fs(ex, "insert", 3, lambda t: "long" in t[1])
    result(ex.call_fn(f, l2.at, [it(ex, l2, p), n, e]), n, lambda q: (ev, None), l2, "insert copies")
    l3 = Lst(ex, "l")
    ex.assume(p <= l3.n0)
    f, = fs(ex, "insert", 3, lambda t: "long" not in t[1] and "reverse" not in t[1])
    result(ex.call_fn(f, l3.at, [it(ex, l3, p), it(ex, o, a), it(ex, o, b)]), b - a, lambda q: (o.d0, a + q - p), l3, "insert a range")
    is_list(ex, now(ex, o.at), o.n0, lambda q: [(z3.BoolVal(True), o.d0, q)], "insert a range leaves its source alone")
    z = Lst(ex, "z", null=True)
    raises(ex, fs(ex, "insert", 2)[0], z.at, [ex.alloc(ex.rv(it(ex, o, a))), e], "insertion in a list of unknown type raises")


def erasure(ex):
    l = Lst(ex, "l")
    p, a, b = [ex.fresh(I, x) for x in ("pos", "first", "last")]
    ex.assume(z3.And(0 <= p, p < l.n0))
    f, = fs(ex, "erase", 1)
    r = ex.call_fn(f, l.at, [it(ex, l, p)])
    is_list(ex, now(ex, l.at), l.n0 - 1, lambda q: [(q < p, l.d0, q), (q >= p, l.d0, q + 1)], "erase one")
    ex.prove("erase one: position returned", zi(pos_of(ex, r, l).i) == p)
    l2 = Lst(ex, "l")
    ex.assume(z3.And(0 <= a, a <= b, b <= l2.n0))
    f, = fs(ex, "erase", 2)
    r = ex.call_fn(f, l2.at, [it(ex, l2, a), it(ex, l2, b)])
    is_list(ex, now(ex, l2.at), l2.n0 - (b - a), lambda q: [(q < a, l2.d0, q), (q >= a, l2.d0, q + (b - a))], "erase a range")
    ex.prove("erase a range: position returned", zi(pos_of(ex, r, l2).i) == a)


def values(ex):
    """copies, assignment, swap, comparison"""
    T = z3.BoolVal(True)
    arec = Lst(ex, "x").arec
    ctors = [f for f in ex.p.funcs.values() if f.get("rec") == arec and f["kind"] == "ctor" and len(f["params"]) == 1 and f.get("body_") is not None]
    seen = 0
    for null in (False, True):
        for f in ctors:
            t = ex.p.ts(f["params"][0]["t"])
            if "any_quantity_vector" in t or re.search(r"const quantit::vquantity_vector ?&", t):
                if null and "any_quantity_vector" not in t:
                    continue
                l = Lst(ex, "l", null)
                d = ex.alloc(Struct(arec, {"ptr": Ptr(None)}))
                ex.run_ctor(f, d, [l.at if "any_quantity_vector" in t else l.vlv])
                seen += 1
                is_list(ex, now(ex, d), l.n0, lambda q: [] if null else [(T, l.d0, q)], "construction from " + t)
                if "&&" not in t and not null:
                    ex.call_fn(fs(ex, "push_back", 1)[0], d, [l.elem("e")])
                    is_list(ex, now(ex, l.at), l.n0, lambda q: [(T, l.d0, q)], "construction from %s does not share storage" % t)
    ex.prove("copy constructors found", z3.BoolVal(seen >= 4))
    n = ex.fresh(I, "n")
    ex.assume(n >= 0)
    l = Lst(ex, "l")
    e = l.elem("e")
    ev = ex.rv(e)
    f = [f for f in ex.p.funcs.values() if f.get("rec") == arec and f["kind"] == "ctor" and len(f["params"]) == 2][0]
    d = ex.alloc(Struct(arec, {"ptr": Ptr(None)}))
    ex.run_ctor(f, d, [n, e])
    is_list(ex, now(ex, d), n, lambda q: [(T, ev, None)], "construction from a count and a value")
    a, b = Lst(ex, "a"), Lst(ex, "b")
    f, = fs(ex, "operator=", 1)
    ex.call_fn(f, a.at, [ex.alloc(Struct(arec, {"ptr": Ptr(ex.alloc(ex.read(b.vlv)))}))])
    is_list(ex, now(ex, a.at), b.n0, lambda q: [(T, b.d0, q)], "assignment")
    a, b = Lst(ex, "a"), Lst(ex, "b")
    f, = fs(ex, "swap", 1)
    ex.call_fn(f, a.at, [b.at])
    is_list(ex, now(ex, a.at), b.n0, lambda q: [(T, b.d0, q)], "swap")
    is_list(ex, now(ex, b.at), a.n0, lambda q: [(T, a.d0, q)], "swap other side")
    z = Lst(ex, "z", null=True)
    a = Lst(ex, "a")
    for nm in ("operator==", "operator!="):
        f, = fs(ex, nm, 1)
        eq = nm == "operator=="
        r = zb(ex.rv(ex.call_fn(f, z.at, [Lst(ex, "y", null=True).at])))
        ex.prove(nm + " of two default constructed lists", r == z3.BoolVal(eq))
        for x, y in ((z, a), (a, z)):
            r = zb(ex.rv(ex.call_fn(f, x.at, [y.at])))
            ex.prove(nm + " of a list and a default constructed one", r == ((a.n0 == 0) if eq else (a.n0 != 0)))


def permute(ex):
    l = Lst(ex, "l")
    f = [g for g in ex.p.byqual.get(V_ + "permute", [])][0]
    t64 = [t for t in f["params"] if "vector" in ex.p.ts(t["t"])][0]["t"]
    rep = ex.alloc(ex.fresh_type(ex.p.deref_type(t64), "repetition"))
    perm = ex.alloc(ex.fresh_type(ex.p.deref_type(t64), "permutation"))
    rv, pv = ex.rv(rep), ex.rv(perm)
    ex.assume(z3.And(zi(rv.n) >= 0, zi(pv.n) >= 0))
    g = z3.FreshConst(I, "g")
    R, PI = arr(rv), arr(pv)
    m, ng = zi(pv.n), zi(rv.n)
    ex.assume(forall(ng, lambda i: z3.Select(R, i) >= 0))
    ex.assume(z3.ForAll([g], z3.Implies(z3.And(0 <= g, g < m), z3.And(0 <= z3.Select(PI, g), z3.Select(PI, g) < ng)), patterns=[z3.Select(PI, g)]))
    j = z3.FreshConst(I, "j")
    W = z3.Const("group_lengths", AI)                    # lengths of the groups in the order of the result
    ex.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < m), z3.Select(W, j) == z3.Select(R, z3.Select(PI, j))), patterns=[z3.Select(W, j)]))
    ex.assume(SUM(R, 0, ng) == l.n0)                      # the groups tile the list
    ex.assume(SUM(W, 0, m) == l.n0)                       # every group appears (a permutation)
    # ghost: source position of each position of the result (well defined: lemma permute_source)
    SRC = z3.Function("SRC", I, I)
    ex.lemmas_used.add("permute_source")

    def here(k, i):
        """definition of SRC at group k, offset i, and the monotone prefix sums around it"""
        pk = z3.Select(PI, k)
        inside = z3.And(0 <= k, k < m)
        ex.assume(z3.Implies(inside, z3.And(z3.Select(W, k) == z3.Select(R, pk), 0 <= pk, pk < ng, z3.Select(R, pk) >= 0,
                                            SUM(W, 0, k + 1) <= SUM(W, 0, m), SUM(R, 0, pk + 1) <= SUM(R, 0, ng), SUM(R, 0, pk) >= 0, SUM(W, 0, k) >= 0)))
        ex.lemmas_used.add("sum_mono")
        ex.assume(z3.Implies(z3.And(inside, 0 <= i, i < z3.Select(R, pk)), SRC(SUM(W, 0, k) + i) == SUM(R, 0, pk) + i))

    def done(out, p):
        q = z3.FreshConst(I, "q")
        return z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < p), z3.And(same_at(out.data, q, l.d0, SRC(q)))))

    def outer(L):
        out, p = L.v("out", "quantity_vector", 0), zi(L.v("p", "^unsigned long$", 0))
        k = zi(L.k)
        here(k, z3.IntVal(0))
        return [("position", p == SUM(W, 0, k)), ("group", z3.And(zi(L.par(0).i) == k, k <= m)), ("length", zi(out.n) == l.n0), ("moved so far", done(out, p))]

    def inner(L):
        out, p = L.v("out", "quantity_vector", 0), zi(L.v("p", "^unsigned long$", 0))
        i = zi(L.k)
        k = zi(L.par(0).i)
        here(k, i)
        pk = z3.Select(PI, k)
        return [("position in the group", z3.And(p == SUM(W, 0, k) + i, i <= z3.Select(R, pk))), ("length", zi(out.n) == l.n0), ("moved so far", done(out, p))]
    ex.loops_spec = {0: outer, 1: inner}
    u = ex.opts.get("unroll")
    for k in range(u or 0):
        for i in range(u):
            here(z3.IntVal(k), z3.IntVal(i))
    if u:
        ex.assume(z3.And([m <= u] + [z3.Select(R, i) <= u for i in range(u)]))
    r = ex.call_fn(f, l.at, [It(perm, 0), It(perm, m), rep])
    out = now(ex, r)
    ex.prove("same length", zi(out.n) == l.n0)
    ex.prove("element by element the group the permutation designates", done(out, l.n0))
    is_list(ex, now(ex, l.at), l.n0, lambda q: [(z3.BoolVal(True), l.d0, q)], "permutation leaves its source alone")
    z = Lst(ex, "z", null=True)
    r = ex.call_fn(f, z.at, [It(perm, 0), It(perm, m), rep])
    ex.prove("permutation of a default constructed list", z3.BoolVal(now(ex, r) is None))


def unit(name, body, **kw):
    return dict(name=name, tu="aq", body=body, opts=OPTS, **kw)


UNITS = [dict(name="lemmas", body=lambda ex: None, post=lemma_obligations),
         unit("access", access), unit("size, ends and iterators", measure), unit("growth and shrinking", modify), unit("insert", insertion), unit("erase", erasure),
         unit("copies and comparison", values), unit("permute", permute, bounded=2)]
DRIVERS = [dict(src="drivers/V01.cpp", libs=["any_quantity", "groups"])]
EXPLANATION = ("contracts on every operation of the erased list, executed through virtual dispatch and iterator conversion down to the storage; group "
               "permutation by nested loop invariants with a ghost source position")
