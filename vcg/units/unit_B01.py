"""B01: block enumeration and counting"""
from spec import *

LEVEL = "proof"
NOTE = ("Every obligation generated from the real odometer functions is discharged for all ranks and section counts (mixed radix position "
        "increases by exactly one, wraps to zero at the end, grid respected). Assumes 64 bit sums and products do not wrap, the assumed contracts of "
        "std::vector / ArrayRef in vcg/models.py, the extractor and the generator. The compiled code is also run against the contract on every grid "
        "up to rank 4 with up to 3 sections per dimension.")
TUS = {"bt": ("sources/btensor.cpp", ["R quantit::.*"])}


def odometer(name, getf, arrays):
    """contract: VAL(index') = VAL(index)+1 - (everything was at its maximum ? number of blocks : 0), and every
    entry stays in its grid"""

    def body(ex):
        f = getf(ex)
        this, args, idx, sz, r = arrays(ex, f)
        i0 = ex.rv(idx)
        ex.assume(zi(i0.n) == r)
        ex.assume(forall(r, lambda i: z3.And(sz.get(i) >= 1, 0 <= i0.get(i), i0.get(i) < sz.get(i))))
        s, a0 = arr(sz), arr(i0)

        def inv(L):
            ix = ex.rv(idx)
            c = zb(L.v("cond_add", r"^bool$"))
            k = zi(L.k)
            P = PROD(s, 0, k)
            return [("carry", VAL(arr(ix), s, 0, k) == VAL(a0, s, 0, k) + 1 - z3.If(c, P, 0)),
                    ("carry means all earlier were last", z3.Implies(c, VAL(a0, s, 0, k) + 1 == P)),
                    ("no carry means not last", z3.Implies(z3.Not(c), VAL(a0, s, 0, k) + 1 < P)),
                    ("value range", z3.And(P >= 1, VAL(a0, s, 0, k) >= 0, VAL(a0, s, 0, k) < P)),
                    ("rest untouched", forall(r, lambda i: ix.get(i) == a0[i], k)),
                    ("in grid", forall(r, lambda i: z3.And(0 <= ix.get(i), ix.get(i) < sz.get(i)))),
                    ("length", zi(ix.n) == r)]
        ex.loops_spec = {0: inv}
        ex.call_fn(f, this, args)
        ix = ex.rv(idx)
        N = PROD(s, 0, r)
        v0, v1 = VAL(a0, s, 0, r), VAL(arr(ix), s, 0, r)
        ex.prove("the successor in the enumeration, the first one after the last", v1 == z3.If(v0 + 1 == N, 0, v0 + 1))
        ex.prove("stays in the grid", z3.And(zi(ix.n) == r, forall(r, lambda i: z3.And(0 <= ix.get(i), ix.get(i) < sz.get(i)))))
        ex.prove("position below the number of blocks", z3.And(v0 >= 0, v0 < N))
    return dict(name=name, tu="bt", body=body, bounded=3)


def bi_arrays(ex, f):
    t = ex.alloc(ex.fresh_rec(f["rec"], "b"))
    b = Bt(ex, t)
    assume_inv(ex, b, 1)
    idx = ex.alloc(ex.fresh_type(f["params"][0]["t"], "block_index"))
    return t, [idx], idx, b.sections_by_dim, zi(b.rank)


def left_arrays(ex, f):
    idx = ex.alloc(ex.fresh_type(f["params"][0]["t"], "index"))
    sz = ex.alloc(ex.fresh_type(f["params"][1]["t"], "max_index"))
    r = ex.fresh(I, "rank")
    ex.assume(z3.And(r >= 0, r == zi(ex.rv(sz).n)))
    return None, [idx, sz, r], idx, ex.rv(sz), r


def c_block_increment(c):
    """contract proved by the unit block_increment"""
    ex = c.ex
    b = Bt(ex, c.obj)
    sb, r = b.sections_by_dim, zi(b.rank)
    i0 = c.val(0)
    ex.prove("block_increment requires an index of the grid", z3.And(zi(i0.n) == r, in_grid(i0, sb, r)))
    n = Vec(i0.n, ex.fresh(AI, "next"))
    ex.write(c.args[0], n)
    N = PROD(arr(sb), 0, r)
    v0, v1 = VAL(arr(i0), arr(sb), 0, r), VAL(arr(n), arr(sb), 0, r)
    ex.assume(z3.And(v1 == z3.If(v0 + 1 == N, 0, v0 + 1), v0 >= 0, v0 < N, in_grid(n, sb, r)))
    pos_def(ex, b, n)


def pos_def(ex, b, bi):
    """ghost: meaning of POS_OK at the position of bi (well defined by lemma val_injective)"""
    sb, cv, r = b.sections_by_dim, b.c_vals, zi(b.rank)
    v = VAL(arr(bi), arr(sb), 0, r)
    ex.assume(z3.Implies(in_grid(bi, sb, r), POS_OK(v) == (QSUM(qarr(cv), arr(sb), arr(bi), 0, r) == sel_rule(b))))


def max_size(ex):
    """number of grid positions below the search length whose charge equals the selection rule"""
    f = ex.p.find("quantit::btensor::btensor_compute_max_size", 2)
    t = ex.alloc(ex.fresh_rec(f["rec"], "b"))
    b = Bt(ex, t)
    assume_inv(ex, b, 1)
    block_offsets_ok(ex, b)
    mx = ex.fresh(I, "max")
    ex.assume(mx >= 0)
    sb, cv, r = b.sections_by_dim, b.c_vals, zi(b.rank)
    ex.use.append((re.compile("quantit::btensor::block_increment"), c_block_increment))
    N = PROD(arr(sb), 0, r)
    pos_def(ex, b, Vec(r, z3.K(I, z3.IntVal(0))))

    def outer(L):
        bi = L.v("block_index", "vector<long")
        v = VAL(arr(bi), arr(sb), 0, r)
        pos_def(ex, b, bi)
        return [("index length", zi(bi.n) == r), ("index in grid", in_grid(bi, sb, r)),
                ("position is the iteration", z3.Implies(zi(L.k) < N, v == L.k)),
                ("counted so far", zi(L.v("block_num", "unsigned long", 0)) == CNT(0, 0, L.k))]

    def inner(L):
        bi = L.v("block_index", "vector<long")
        q = L.v("qt", "any_quantity$")
        it = L.v("__begin2", "block_prop_iter", 0)
        return [("partial charge", q == QSUM(qarr(cv), arr(sb), arr(bi), 0, L.k)),
                ("section list reached", zi(it.f["val_iter"].i) == SUM(arr(sb), 0, L.k)),
                ("view position", z3.And(zi(it.f["block_index"].i) == zi(L.k), zi(it.f["section_by_dim"].i) == zi(L.k), zi(L.k) <= r))]
    ex.loops_spec = {0: outer, 1: inner}
    lemma_val_zero(ex, z3.K(I, z3.IntVal(0)), arr(sb), r)
    lemma_prod_pos(ex, arr(sb), r)
    ret = ex.rv(ex.call_fn(f, None, [t, mx]))
    n = z3.If(mx <= N, mx, N)
    ex.prove("one block for rank zero", z3.Implies(r == 0, ret == 1))
    ex.prove("counts exactly the allowed positions", z3.Implies(r > 0, ret == CNT(0, 0, n)))


UNITS = [dict(name="lemmas", body=lambda ex: None, post=lemma_obligations),
         dict(name="btensor_compute_max_size", tu="bt", body=max_size, axioms=[q_axioms], bounded=3),
         odometer("block_increment", lambda ex: ex.p.find("quantit::btensor::block_increment"), bi_arrays),
         odometer("increment_index_left", lambda ex: ex.p.find("quantit::increment_index_left"), left_arrays)]
DRIVERS = [dict(src="drivers/B01.cpp", libs=BTLIBS)]
EXPLANATION = "deductive proof of the odometer"
