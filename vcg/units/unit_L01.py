"""L01: how many values a truncation keeps, and what it cuts"""
from spec import *
from models import tensor_dim, tensor_sizes

LEVEL = "proof"
NOTE = ("Proved for all lengths, bounds and thresholds: the number of values compute_last_index and compute_first_index_ascending keep is the smallest that the "
        "discarded weight, the minimum and the maximum allow, no value is read out of bounds; the dense truncations and the truncated dense svd and eigh cut "
        "every factor at that number and return them in their documented order; the threshold search of the block form. Torch arithmetic is uninterpreted. "
        "The distribution of the cut over the blocks (truncate_impl) is not proved: the compiled functions are run against the definition on random tensors, "
        "dense and block. Decomposing a tensor without any stored block is refused by the library.")
TUS = {"la": ("sources/LinearAlgebra.cpp", ["R quantit::.*"]), "bl": ("sources/btensor_linalg.cpp", ["R quantit::.*"])}

# torch, uninterpreted
AT = z3.Function("value_at", TEN, I, TEN)                  # d[..., i]
HEAD = z3.Function("head", TEN, I, TEN)                    # u[..., :n]
ABS = z3.Function("t_abs", TEN, TEN)
POW = z3.Function("t_pow", TEN, OPQ, TEN)
ADD = z3.Function("t_add", TEN, TEN, TEN)
MULS = z3.Function("t_scaled", TEN, OPQ, TEN)
ONE = z3.Const("ones", TEN)
EXCEEDS = z3.Function("some_exceed", TEN, TEN, z3.BoolSort())   # some entry of the first is greater than that of the second
NLAST = z3.Function("last_dimension", TEN, I)


def W(d, p, i):
    return POW(ABS(AT(d, i)), p)


# weight of the j+1 last values of a spectrum of n values / of the j+1 first ones
TAIL = RecFun("TAIL", [TEN, OPQ, I], TEN, lambda d, p, n: W(d, p, n - 1), lambda a, acc, j: ADD(acc, W(a[0], a[1], a[2] - 2 - j)))
LEAD = RecFun("LEAD", [TEN, OPQ], TEN, lambda d, p: W(d, p, z3.IntVal(0)), lambda a, acc, j: ADD(acc, W(a[0], a[1], j + 1)))


def torch_forms(ex):
    use = lambda rx, h: ex.use.append((re.compile(rx), h))

    def index(c):
        it = c.val(0)
        if simp(it.n) != 2 or simp(it.get(0).f["kind"]) != 0:
            raise ContractMismatch("index expression")
        e, t = it.get(1), ex.rv(c.obj)
        k = simp(e.f["kind"])
        nn = NLAST(t)
        if k == 1:
            i = zi(e.f["start"])
            ex.check("index inside the last dimension", z3.And(-nn <= i, i < nn))
            return AT(t, simp(z3.If(i < 0, i + nn, i)))
        a, b = zi(e.f["start"]), zi(e.f["stop"])
        if k != 2 or simp(a) != 0:
            raise ContractMismatch("index expression")
        b = z3.If(b < 0, b + nn, b)
        return HEAD(t, simp(z3.If(b < 0, 0, z3.If(b > nn, nn, b))))
    use("at::Tensor::index", index)

    def isub(c):
        r = ADD(ex.rv(c.obj), c.val(0))
        ex.write(c.obj, r)
        return c.obj
    use(r"at::Tensor::operator\+=", isub)
    use("at::Tensor::abs", lambda c: ABS(ex.rv(c.obj)))
    use("at::Tensor::pow", lambda c: POW(ex.rv(c.obj), c.val(0)))
    use("at::pow", lambda c: POW(c.val(0), c.val(1)))
    use(r"torch::ones", lambda c: ONE)
    use(r"at::operator\*", lambda c: MULS(c.val(0), c.val(1)))
    use(r"at::operator>|at::gt|at::Tensor::gt", lambda c: Struct("cmp", {"r": EXCEEDS(c.val(-2) if len(c.args) > 1 else ex.rv(c.obj), c.val(-1))}))
    use("at::Tensor::any", lambda c: ex.rv(c.obj))
    use("at::Tensor::item", lambda c: ex.rv(c.obj))
    use("c10::Scalar::to", lambda c: ex.rv(c.obj).f["r"])
    return use


def p_last(ex):
    f = ex.p.byqual["quantit::compute_last_index"][0]
    d = ex.fresh(TEN, "d")
    tol, pw = ex.fresh(OPQ, "tol"), ex.fresh(OPQ, "pow")
    mn, mx = [ex.fresh_type(f["params"][i]["t"], nm) for i, nm in ((3, "min"), (4, "max"))]
    torch_forms(ex)
    n = NLAST(d)
    ex.assume(z3.And(n >= 1, n < 2**62, tensor_dim(d) >= 1, tensor_sizes(d)[tensor_dim(d) - 1] == n))
    lim = POW(MULS(ONE, tol), pw)
    over = lambda s: EXCEEDS(TAIL(d, pw, n, 0, n - 1 - s), lim)     # discarding all but s values is too much
    s_ = z3.Int("s")

    def inv(L):
        s = zi(L.v("last_index")) + 1
        return [("size", z3.And(s == n - L.k, s >= z3.If(mn < n, mn, n), s >= 0)),
                ("weight discarded so far", z3.Implies(s >= 1, L.v("trunc_val") == TAIL(d, pw, n, 0, n - s))),
                ("everything discarded may be", z3.ForAll([s_], z3.Implies(z3.And(s <= s_, s_ < n), z3.Or(z3.Not(over(s_)), s_ + 1 > mx))))]
    ex.loops_spec = {0: inv}
    r = ex.rv(ex.call_fn(f, None, [ex.alloc(x) for x in (d, tol, pw, mn, mx)]))
    s = zi(r) + 1
    lo = z3.If(mn < n, mn, n)
    ex.prove("never fewer than the minimum", s >= lo)
    ex.prove("a prefix of the spectrum", z3.And(0 <= s, s <= n))
    ex.prove("whatever is discarded is within the tolerance or beyond the maximum", z3.ForAll([s_], z3.Implies(z3.And(s <= s_, s_ < n), z3.Or(z3.Not(over(s_)), s_ + 1 > mx))))
    ex.prove("nothing more can be discarded", z3.Or(s == lo, z3.And(over(s - 1), s <= mx)))


def p_first(ex):
    f = ex.p.byqual["quantit::compute_first_index_ascending"][0]
    d = ex.fresh(TEN, "d")
    tol, pw = ex.fresh(OPQ, "tol"), ex.fresh(OPQ, "pow")
    mn, mx = [ex.fresh_type(f["params"][i]["t"], nm) for i, nm in ((3, "min"), (4, "max"))]
    torch_forms(ex)
    n = NLAST(d)
    ex.assume(z3.And(n >= 1, n < 2**62, tensor_dim(d) >= 1, tensor_sizes(d)[tensor_dim(d) - 1] == n))
    lim = POW(MULS(ONE, tol), pw)
    over = lambda s: EXCEEDS(LEAD(d, pw, 0, n - 1 - s), lim)
    s_ = z3.Int("s")
    lo = z3.If(mn < n, mn, n)
    fine = lambda s: z3.ForAll([s_], z3.Implies(z3.And(s <= s_, s_ < n), z3.Or(z3.Not(over(s_)), s_ + 1 > mx)))

    def inv(L):
        k = zi(L.v("first_index"))
        return [("size", z3.And(k == L.k, n - k >= lo, n - k >= 0)), ("weight discarded so far", z3.Implies(k < n, L.v("trunc_val") == LEAD(d, pw, 0, k))),
                ("everything discarded may be", fine(n - k))]
    ex.loops_spec = {0: inv}
    r = ex.rv(ex.call_fn(f, None, [ex.alloc(x) for x in (d, tol, pw, mn, mx)]))
    s = n - zi(r)
    ex.prove("never fewer than the minimum", s >= lo)
    ex.prove("a suffix of the spectrum", z3.And(0 <= s, s <= n))
    ex.prove("whatever is discarded is within the tolerance or beyond the maximum", fine(s))
    ex.prove("nothing more can be discarded", z3.Or(s == lo, z3.And(over(s - 1), s <= mx)))


LASTI = z3.Function("last_index_kept", TEN, OPQ, OPQ, I, I, I)


def c_last(ex):
    """contract of compute_last_index, proved by its own unit"""
    def h(c):
        a = [c.val(i) for i in range(5)]
        r = LASTI(*a[:3], zi(a[3]), zi(a[4]))
        ex.assume(z3.And(r >= -1, r < NLAST(a[0])))
        return r
    ex.use.append((re.compile("quantit::compute_last_index"), h))
    return lambda d, tol, pw, mn, mx: LASTI(d, tol, pw, zi(mn), zi(mx)) + 1


def cut(rx, kinds):
    """truncations of dense factors: kinds lists the parameters in order: u and v factors, d the spectrum, (..) a tuple of them"""
    def body(ex):
        fs = [f for f in ex.p.byqual["quantit::truncate"] if [ex.p.ts(x["t"]).count("at::Tensor") for x in f["params"]] == rx]
        if len(fs) != 1:
            raise ContractMismatch("truncate")
        f = fs[0]
        torch_forms(ex)
        keep = c_last(ex)
        T = {k: ex.fresh(TEN, k) for k in kinds}
        for t in T.values():
            ex.assume(NLAST(t) == NLAST(T["d"]))
        ex.assume(z3.And(NLAST(T["d"]) >= 1, NLAST(T["d"]) < 2**62))
        ex.assumptions.add("the factors have the spectrum's length along their last dimension")
        tol, pw = ex.fresh(OPQ, "tol"), ex.fresh(OPQ, "pow")
        m = len(f["params"])
        mn, mx = ex.fresh_type(f["params"][m - 3]["t"], "min"), ex.fresh_type(f["params"][m - 2]["t"], "max")
        head = [ex.alloc(T[k]) for k in kinds] if len(rx) > 5 else [ex.alloc(Tup([T[k] for k in kinds]))]
        r = ex.rv(ex.call_fn(f, None, head + [ex.alloc(x) for x in (tol, mn, mx, pw)]))
        s = keep(T["d"], tol, pw, mn, mx)
        for i, k in enumerate(kinds):
            ex.prove("component %d of the result is the kept prefix of component %d of the argument" % (i, i), ex.rv(r.v[i]) == HEAD(T[k], s))
    return body


SIZE_MAX = (1 << 64) - 1


def wrapper(name, nargs, ncomp):
    """the truncated decompositions hand the untruncated factors and every bound to truncate"""
    def body(ex):
        fs = [f for f in ex.p.byqual["quantit::" + name] if len(f["params"]) == nargs and "unsigned" in ex.p.ts(f["params"][1]["t"])]
        if len(fs) != 1:
            raise ContractMismatch(name)
        f = fs[0]
        torch_forms(ex)
        keep = c_last(ex)
        A, split = ex.fresh(TEN, "A"), ex.fresh_type(f["params"][1]["t"], "split")
        tol, pw = ex.fresh(OPQ, "tol"), ex.fresh(OPQ, "pow")
        D = [z3.Function("%s%d" % (name, k), TEN, I, TEN)(A, split) for k in range(ncomp)]
        FLIP = z3.Function("t_flip", TEN, TEN)
        sp = D[1] if ncomp == 3 else FLIP(D[0])
        for t in D + [FLIP(x) for x in D]:
            ex.assume(NLAST(t) == NLAST(sp))
        ex.assume(z3.And(NLAST(sp) >= 1, NLAST(sp) < 2**62))

        def dec(c):
            if len(c.args) != 2:
                return NotImplemented
            ex.prove("decomposes the argument at the requested place", z3.And(c.val(0) == A, zi(c.val(1)) == split))
            return Tup(list(D))

        def flip(c):
            v = c.val(0)
            if simp(v.n) != 1 or simp(v.get(0)) != -1:
                raise ContractMismatch("flip")
            return FLIP(ex.rv(c.obj))
        ex.use.append((re.compile("quantit::" + name), dec))
        ex.use.append((re.compile("at::Tensor::flip"), flip))
        if nargs == 6:
            mn, mx = ex.fresh_type(f["params"][3]["t"], "min"), ex.fresh_type(f["params"][4]["t"], "max")
            args = [A, split, tol, mn, mx, pw]
        else:
            mn, mx = z3.IntVal(1), z3.IntVal(SIZE_MAX)
            args = [A, split, tol, pw]
        r = ex.rv(ex.call_fn(f, None, [ex.alloc(x) for x in args]))
        s = keep(sp, tol, pw, mn, mx)
        for k in range(ncomp):
            ex.prove("component %d is the kept part of component %d of the decomposition" % (k, k), ex.rv(r.v[k]) == HEAD(D[k] if ncomp == 3 else FLIP(D[k]), s))
    return body


def p_lower(ty):
    def body(ex):
        fs = [f for f in ex.p.byqual["quantit::lower_bound_impl2"] if "TensorAccessor<%s," % ty in ex.p.ts(f["params"][0]["t"]) and "Packed" not in ex.p.ts(f["params"][0]["t"])]
        if len(fs) != 1:
            raise ContractMismatch("lower_bound_impl2")
        f = fs[0]
        R = z3.RealSort()
        v = z3.Const("values", z3.ArraySort(I, R))
        n, x = ex.fresh(I, "n"), ex.fresh(R, "val")
        ex.assume(z3.And(n >= 0, n < 2**62))
        acc = ex.alloc(Struct("accessor", {}))
        ex.use.append((re.compile("at::TensorAccessor(Base)?::size"), lambda c: n))

        def at(c):
            i = zi(c.val(0))
            ex.check("inside the block", z3.And(0 <= i, i < n))
            return ex.alloc(z3.Select(v, i))
        ex.use.append((re.compile(r"at::TensorAccessor(Base)?::operator\[\]"), at))
        ex.loops_spec = {0: lambda L: [("position", z3.And(zi(L.v("i")) == L.k, L.k <= n)), ("all kept", forall(L.k, lambda i: v[i] >= x))]}
        r = zi(ex.rv(ex.call_fn(f, None, [acc, ex.alloc(x)])))
        ex.prove("a position of the list", z3.And(0 <= r, r <= n))
        ex.prove("every value before is at least the bound", forall(r, lambda i: v[i] >= x))
        ex.prove("the value there is below the bound", z3.Implies(r < n, v[r] < x))
    return body


UNITS = [dict(name="compute_last_index", tu="la", body=p_last), dict(name="compute_first_index_ascending", tu="la", body=p_first),
         dict(name="truncate(u,d,v)", tu="la", body=cut([1, 1, 1, 0, 0, 0, 0], "udv")), dict(name="truncate(u,e)", tu="la", body=cut([1, 1, 0, 0, 0, 0], "ud")),
         dict(name="truncate(tuple of three)", tu="la", body=cut([3, 0, 0, 0, 0], "udv")), dict(name="truncate(tuple of two)", tu="la", body=cut([2, 0, 0, 0, 0], "ud")),
         dict(name="svd, all bounds", tu="la", body=wrapper("svd", 6, 3)), dict(name="svd, tolerance", tu="la", body=wrapper("svd", 4, 3)),
         dict(name="eigh, all bounds", tu="la", body=wrapper("eigh", 6, 2)), dict(name="eigh, tolerance", tu="la", body=wrapper("eigh", 4, 2)),
         dict(name="lower_bound double", tu="bl", body=p_lower("double")), dict(name="lower_bound float", tu="bl", body=p_lower("float"))]
DRIVERS = [dict(src="drivers/L01.cpp", libs=BTLIBS + ["LinearAlgebra", "btensor_linalg"])]
EXPLANATION = ("contracts over the running error of the discarded values with torch operations uninterpreted; dense truncations and decompositions by contract of the "
               "index search; block truncations run against the definition")
