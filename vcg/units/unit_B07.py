"""B07: element-wise arithmetic of block tensors"""
from spec import *
from engine import OPQ

LEVEL = "other"
TUS = {"bt": ("sources/btensor.cpp", ["R quantit::.*"])}
Q_ = "quantit::btensor::"
H_ = "quantit::mul_helpers::"
OPTS = dict(abstract_map=True, prune="ground")
TADD = z3.Function("tensor_add", TEN, TEN, OPQ, TEN)
TMUL = z3.Function("tensor_scale", TEN, OPQ, TEN)
TCOPY = z3.Function("tensor_copy", TEN, TEN)      # a tensor of the same content in storage of its own


def tensor(ex, f, name, valid=True):
    t = ex.alloc(ex.fresh_rec([g["rec"] for g in ex.p.byqual[Q_ + "block"]][0], name))
    b = Bt(ex, t)
    if valid:
        assume_inv(ex, b)
        block_offsets_ok(ex, b)
    return t, b


def same_parts(a, b):
    eq = lambda x, y: z3.And(zi(x.n) == zi(y.n), forall(x.n, lambda i: x.get(i) == y.get(i)))
    return z3.And(eq(a.c_vals, b.c_vals), sel_rule(a) == sel_rule(b), eq(a.sections_by_dim, b.sections_by_dim), eq(a.sections_sizes, b.sections_sizes))


def c_eq(c):
    """contract proved by the units of V01"""
    x, y = c.ex.rv(c.obj), c.ex.rv(c.args[0])
    return z3.And(zi(x.n) == zi(y.n), forall(x.n, lambda i: x.get(i) == y.get(i)))


def p_check(ex):
    """tensors of different structure or selection rule are refused"""
    f = ex.p.find(Q_ + "add_tensor_check")
    x, a = tensor(ex, f, "a", False)
    y, b = tensor(ex, f, "b", False)
    ox, oy = ex.rv(x), ex.rv(y)
    for v in (a, b):
        for p in (v.c_vals, v.sections_by_dim, v.sections_sizes):
            ex.assume(zi(p.n) >= 0)
    ex.use.append((re.compile(r"quantit::any_quantity_vector::operator=="), c_eq))
    try:
        ex.call_fn(f, None, [x, y])
    except ThrowEx:
        ex.prove("an error only for tensors of different structure", z3.Not(same_parts(a, b)))
        return
    ex.prove("tensors of different structure are refused", same_parts(a, b))
    ex.prove("the tensors are unchanged", z3.And(same_value(ex.rv(x), ox), same_value(ex.rv(y), oy)))


def c_check(c):
    """contract proved by the unit add_tensor_check"""
    ex = c.ex
    a, b = [Bt(ex, x if isinstance(x, LV) else ex.alloc(x)) for x in c.args[:2]]
    s = ex.fresh(z3.BoolSort(), "same_structure")
    ex.assume(s == same_parts(a, b))
    ex.summed = (a, b)
    if not ex.branch(s):
        raise ThrowEx("non_matching")
    return None


def adder(name, inplace):
    def body(ex):
        f = next(g for g in ex.p.byqual[Q_ + name] if len(g["params"]) == 2 and ex.p.ts(g["params"][0]["t"]) == "const quantit::btensor &")
        t, a = tensor(ex, f, "a")
        o, b = tensor(ex, f, "b")
        ot, oo = ex.rv(t), ex.rv(o)
        al = z3.Const("alpha", OPQ)
        merged = []

        def c_clone(c):
            return TCOPY(ex.rv(c.obj))

        def c_merge(c):
            """contract proved by the units of M01 for merge: entries of the other map are added, colliding entries are given to the first function and the others to the second one"""
            mine, other = ex.rv(c.obj), ex.rv(c.args[0])
            ex.prove("the blocks of the other tensor are merged", same_value(other, oo.f["blocks_list"]))
            src = ot.f["blocks_list"]
            q = z3.FreshConst(I, "q")
            K, v = key_at(src, q)
            K2, v2 = key_at(mine, q)
            inr = z3.And(0 <= q, q < zi(src.n))
            x = z3.FreshConst(I, "x")
            ex.prove("they are merged into the blocks of the first tensor" + ("" if inplace else ", each of them copied"),
                     z3.And(zi(mine.n) == zi(src.n), allp(q, z3.Implies(inr, v2 == (v if inplace else TCOPY(v))), v2), allp([q, x], z3.Implies(inr, K2.get(x) == K.get(x)), K2.get(x))))
            ta, tb, tx = [ex.alloc(ex.fresh(TEN, n)) for n in ("mine", "theirs", "alone")]
            va, vb, vx = ex.rv(ta), ex.rv(tb), ex.rv(tx)
            ex.apply(c.args[1], [ta, tb])
            ex.prove("a block of both: the sum with the factor", z3.And(ex.rv(ta) == TADD(va, vb, al), ex.rv(tb) == vb))
            ex.inplace_ops = 0
            ex.apply(c.args[2], [tx])
            ex.prove("a block of the other tensor only: multiplied by the factor", ex.rv(tx) == TMUL(vx, al))
            ex.prove("into a new tensor: the block of the other tensor is left alone", z3.BoolVal(ex.inplace_ops == 0))
            ex.write(c.obj, ex.fresh_rec(f["rec"], "merged").f["blocks_list"])
            merged.append(ex.rv(c.obj))
            return None

        def c_add_(c):
            ex.inplace_ops = getattr(ex, "inplace_ops", 0) + 1
            ex.write(c.obj, TADD(ex.rv(c.obj), ex.rv(c.args[0]), ex.rv(c.args[1])))
            return c.obj

        def c_mul_(c):
            ex.inplace_ops = getattr(ex, "inplace_ops", 0) + 1
            ex.write(c.obj, TMUL(ex.rv(c.obj), ex.rv(c.args[0])))
            return c.obj
        blocks_from_sequence(ex)
        ex.use.append((re.compile(r"quantit::flat_map::merge"), c_merge))
        ex.use.append((re.compile(r"at::Tensor::clone"), c_clone))
        ex.use.append((re.compile(r"at::Tensor::add_"), c_add_))
        ex.use.append((re.compile(r"at::Tensor::mul_"), c_mul_))
        ex.use.append((re.compile(r"at::Tensor::mul"), lambda c: TMUL(ex.rv(c.obj), ex.rv(c.args[0])) if ex.rv(c.args[0]).sort() == OPQ else NotImplemented))
        ex.use.append((re.compile(Q_ + "add_tensor_check"), c_check))

        def copies(L):
            m, src = L.v("out", "btensor").f["blocks_list"], ot.f["blocks_list"]
            q, x = z3.FreshConst(I, "q"), z3.FreshConst(I, "x")
            K, v = key_at(src, q)
            K2, v2 = key_at(m, q)
            k = zi(L.k)
            return [("length", zi(m.n) == zi(src.n)), ("blocks copied so far", allp(q, z3.Implies(z3.And(0 <= q, q < zi(src.n)), v2 == z3.If(q < k, TCOPY(v), v)), v2)),
                    ("indices", allp([q, x], z3.Implies(z3.And(0 <= q, q < zi(src.n)), K2.get(x) == K.get(x)), K2.get(x))),
                    ("structure of the copy", z3.And([same_value(L.v("out", "btensor").f[k], ot.f[k]) for k in ot.f if k not in ("blocks_list", "_options")]))]
        ex.loops_at = {(name, 0): copies}
        try:
            ret = ex.call_fn(f, t, [o, ex.alloc(al)])
        except ThrowEx:
            ex.prove("an error only for tensors of different structure", z3.Not(same_parts(Bt(ex, ex.alloc(ot)), Bt(ex, ex.alloc(oo)))))
            ex.prove("a refused sum leaves the tensors unchanged", z3.And(same_value(ex.rv(t), ot), same_value(ex.rv(o), oo)))
            return
        ex.prove("tensors of different structure are refused", same_parts(Bt(ex, ex.alloc(ot)), Bt(ex, ex.alloc(oo))))
        ex.prove("the blocks are merged", z3.BoolVal(len(merged) == 1))
        R = ex.rv(ret)
        ex.prove("the blocks of the result are the merged ones", same_value(R.f["blocks_list"], merged[-1]))
        ex.prove("the structure of the result is that of the operands", z3.And([same_value(R.f[k], ot.f[k]) for k in ot.f if k not in ("blocks_list", "_options")]))
        if inplace:
            ex.prove("a reference to the tensor is returned", z3.BoolVal(ret == t))
        else:
            ex.prove("the first operand is unchanged", same_value(ex.rv(t), ot))
        ex.prove("the other operand is unchanged", same_value(ex.rv(o), oo))
    return body


def index(ex, f, i, name):
    v = ex.fresh_type(ex.p.deref_type(f["params"][i]["t"]), name)
    ex.assume(zi(v.n) >= 0)
    return v


def p_match(ex):
    """two blocks are multiplied when their indices agree from the end, along every dimension that is not broadcast"""
    f = ex.p.find(H_ + "match_index")
    n = z3.Int("smaller_rank")
    mask, a, b = [index(ex, f, i, s) for i, s in ((1, "mask"), (2, "a"), (3, "b"))]
    # called by the broadcast operations with indices of the two tensors
    ex.assume(z3.And(0 <= n, zi(mask.n) == n, zi(a.n) >= n, zi(b.n) >= n))
    j = z3.FreshConst(I, "j")
    at = lambda v, j: v.get(zi(v.n) - j)
    agree = lambda m: z3.ForAll([j], z3.Implies(z3.And(1 <= j, j <= m), z3.Or(at(mask, j) != 0, at(a, j) == at(b, j))))

    def loop(L):
        i = zi(L.v("i", "^unsigned long$"))
        return [("count", z3.And(1 <= i, i <= n + 1)),
                ("positions", z3.And(zi(L.v("a_it").i) == zi(a.n) - i + 1, zi(L.v("b_it").i) == zi(b.n) - i + 1, zi(L.v("mask_it").i) == n - i + 1)),
                ("agree so far", zb(L.v("out", "bool")) == agree(i - 1))]
    ex.loops_at = {("match_index", 0): loop}
    r = ex.rv(ex.call_fn(f, None, [n, mask, ex.alloc(a), ex.alloc(b)]))
    ex.prove("a match exactly when the indices agree along the dimensions that are not broadcast", zb(r) == agree(n))


def p_out(ex):
    """the index of the product of two blocks: that of the tensor which is not broadcast"""
    f = ex.p.find(H_ + "out_index")
    n = z3.Int("smaller_rank")
    a, b = [index(ex, f, i, s) for i, s in ((1, "large"), (2, "small"))]
    ex.assume(z3.And(zi(b.n) == n, zi(a.n) >= n))
    d = zi(a.n) - n
    mx = lambda x, y: z3.If(x < y, y, x)
    x = z3.FreshConst(I, "x")
    val = lambda o, k: allp(x, z3.Implies(z3.And(0 <= x, x < zi(a.n)), o.get(x) == z3.If(x >= k, mx(a.get(x), b.get(x - d)), a.get(x))), o.get(x))

    def loop(L):
        s = zi(L.v("small_it").i)
        o = L.v("out", "vector<long")
        return [("positions", z3.And(0 <= s, s <= n, zi(L.v("large_it").i) == s + d, zi(L.v("out_it").i) == s + d)), ("length", zi(o.n) == zi(a.n)), ("index so far", val(o, s + d))]
    ex.loops_at = {("out_index", 0): loop}
    o = ex.rv(ex.call_fn(f, None, [n, ex.alloc(a), ex.alloc(b)]))
    ex.prove("leading dimensions of the larger tensor, then the larger of the two indices", z3.And(zi(o.n) == zi(a.n), val(o, d)))


NOTE = ("Deductive, for all tensors: operands of different structure or selection rule are refused and left alone, the sum merges the blocks of the two operands (merge: M01) with the sum of common blocks and the scaled "
        "block of the other operand alone, in place or into copies of the blocks, and the matching and index of blocks in broadcast products. Broadcast shapes, scalar operations and numeric content are explored on the "
        "compiled code against dense arithmetic (bounded), so the whole property is claimed as bounded.")
EXPLANATION = ("obligations generated from the clang AST of the sum, its compatibility test and the matching of blocks in products, on every run; random structures and operands on the compiled code against dense "
               "arithmetic")
UNITS = [dict(name="add_tensor_check", tu="bt", body=p_check, opts=OPTS), dict(name="add", tu="bt", body=adder("add", False), opts=OPTS), dict(name="add_", tu="bt", body=adder("add_", True), opts=OPTS),
         dict(name="match_index", tu="bt", body=p_match, opts=OPTS), dict(name="out_index", tu="bt", body=p_out, opts=OPTS)]
DRIVERS = [dict(src="drivers/B07.cpp", libs=BTLIBS)]
