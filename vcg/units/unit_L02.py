"""L02: structure of the block decompositions"""
from spec import *
from models import tensor_dim, tensor_sizes

LEVEL = "other"
NOTE = ("The numerical kernels (torch svd and eigh) are outside deductive reach; only the composition of a block index with its slices is proved. Exactness of the "
        "decompositions (product of the factors, orthogonality, charges, validity) is checked by running the compiled functions on random block tensors of "
        "bounded size, so the property is claimed as bounded.")
TUS = {"bl": ("sources/btensor_linalg.cpp", ["R quantit::.*"])}


def p_index(ex):
    f = ex.p.byqual["quantit::LA_helpers::build_index_slice"][0]
    P = [ex.p.deref_type(x["t"]) for x in f["params"]]
    o, rb, cb = [ex.fresh_type(t, nm) for t, nm in zip(P, ("others", "row", "col"))]
    r = ex.rv(ex.call_fn(f, None, [ex.alloc(x) for x in (o, rb, cb)]))
    bi, sl = ex.rv(r.v[0]), ex.rv(r.v[1])
    sl = sl.f["_M_elems"] if isinstance(sl, Struct) else sl
    n = zi(o.n)
    ex.prove("one index per dimension", zi(bi.n) == n + 2)
    ex.prove("the indices of the other dimensions", forall(n, lambda i: bi.get(i) == o.get(i)))
    ex.prove("then row and column", z3.And(bi.get(n) == rb.v[0], bi.get(n + 1) == cb.v[0]))
    ex.prove("slices of the row and of the column", z3.And(zi(sl.get(0).f["kind"]) == 0,
             *[z3.And(zi(sl.get(k).f["kind"]) == 2, zi(sl.get(k).f["start"]) == zi(s.v[1].f["start"]), zi(sl.get(k).f["stop"]) == zi(s.v[1].f["stop"])) for k, s in ((1, rb), (2, cb))]))


UNITS = [dict(name="build_index_slice", tu="bl", body=p_index)]
DRIVERS = [dict(src="drivers/L02.cpp", libs=BTLIBS + ["LinearAlgebra", "btensor_linalg"])]
EXPLANATION = ("svd and eigh of random block tensors multiplied back, with validity and orthogonality of the factors, within stated sizes; index composition under contract")
