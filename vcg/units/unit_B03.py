"""B03: validity of block tensors"""
from spec import *

LEVEL = "other"
TUS = {"bt": ("sources/btensor.cpp", ["R quantit::.*"])}
Q_ = "quantit::btensor::"
OPTS = dict(abstract_map=True, prune="ground")
OKB = z3.Function("BLOCK_OK", I, z3.BoolSort())


def counts_ok(b):
    sb, ss, cv = b["sb"], b["ss"], b["cv"]
    return z3.And(zi(sb.n) == zi(b["rank"]), SUM(arr(sb), 0, zi(sb.n)) == zi(ss.n), zi(ss.n) == zi(cv.n))


def nonneg(sb):
    return forall(sb.n, lambda i: sb.get(i) >= 0)


def no_block(v):
    x = v.f["blocks_list"]
    if isinstance(x, Struct):
        x = x.f["content"]
    return zi(x.n) == 0


def block_is_ok(b, key, val):
    return z3.And([f for _, f in block_ok(b, key, val)])


def p_check(ex):
    """the validity test: an empty message exactly for a valid tensor"""
    f = ex.p.find(Q_ + "check_tensor")
    t = ex.alloc(ex.fresh_rec(f["params"][0] and ex.p.deref_type(f["params"][0]["t"]) and [g["rec"] for g in ex.p.byqual[Q_ + "block"]][0], "T"))
    b = Bt(ex, t)
    old = ex.rv(t)
    p = parts_of(b)
    sb, ss, bl, r = b.sections_by_dim, b.sections_sizes, b.blocks_list, zi(b.rank)
    ex.assume(z3.And(r >= 0, zi(sb.n) >= 0, nonneg(sb), nonneg(ss)))
    i, q = z3.FreshConst(I, "i"), z3.FreshConst(I, "q")
    ex.assume(z3.Implies(zi(sb.n) == r, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < r), z3.And(SUM(arr(sb), 0, i) >= 0, SUM(arr(sb), 0, i) + sb.get(i) == SUM(arr(sb), 0, i + 1), SUM(arr(sb), 0, i + 1) <= SUM(arr(sb), 0, r))),
                                                  patterns=[SUM(arr(sb), 0, i)])))
    ex.lemmas_used.add("sum_mono")
    n = zi(bl.n)

    def entry():
        return key_at(bl, getattr(ex, "outer_k", z3.IntVal(0)))
    size = lambda v, key, i: z3.Select(models.tensor_sizes(v), i) == ss.get(SUM(arr(sb), 0, i) + key.get(i))

    def outer(L):
        ex.outer_k = k = zi(L.k)
        key, val = key_at(bl, k)
        ex.assume(OKB(k) == block_is_ok(p, key, val))
        ex.assume(models.tensor_dim(val) >= 0)
        x = z3.FreshConst(I, "x")
        ex.assume(z3.ForAll([x], models.tensor_sizes(val)[x] >= 0, patterns=[models.tensor_sizes(val)[x]]))
        m = zi(L.v("M", "basic_string").f["len"])
        w = z3.FreshConst(I, "w")
        return [("length of the message", m >= 0), ("no message so far: every block so far is valid", z3.Implies(m == 0, z3.ForAll([w], z3.Implies(z3.And(0 <= w, w < k), OKB(w)), patterns=[OKB(w)]))),
                ("a message: some block so far is not valid", z3.Implies(m > 0, z3.Exists([w], z3.And(0 <= w, w < k, z3.Not(OKB(w))))))]

    def in_range(L):
        key, val = entry()
        x = z3.FreshConst(I, "x")
        g = lambda x: z3.And(0 <= key.get(x), key.get(x) < sb.get(x))
        v = L.v("in_range", "bool")
        return [("inside the grid so far", zb(v) == z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < zi(L.k)), g(x))))]

    def charge(L):
        key, val = entry()
        return [("charge of the first dimensions", L.v("sel_test", "any_quantity") == QSUM(qarr(p["cv"]), arr(sb), arr(key), 0, zi(L.k)))]

    def shape(L):
        key, val = entry()
        m = zi(L.v("sub", "basic_string").f["len"])
        x = z3.FreshConst(I, "x")
        return [("length of the message", m >= 0), ("no message: sizes right so far", z3.Implies(m == 0, z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < zi(L.k)), size(val, key, x))))),
                ("a message: some size is wrong", z3.Implies(m > 0, z3.Exists([x], z3.And(0 <= x, x < zi(L.k), z3.Not(size(val, key, x))))))]
    nm = "check_tensor"
    ex.loops_at = {(nm, 0): outer, (nm, 1): in_range, (nm, 2): charge, (nm, 3): shape}
    try:
        res = ex.rv(ex.call_fn(f, None, [t]))
    except ThrowEx:
        ex.prove("the test itself never fails", z3.BoolVal(False))
        return
    m = zi(res.f["len"])
    w = z3.FreshConst(I, "w")
    valid = z3.And(counts_ok(p), z3.ForAll([w], z3.Implies(z3.And(0 <= w, w < n), OKB(w)), patterns=[OKB(w)]))
    ex.prove("no message only for a valid tensor", z3.Implies(m == 0, valid))
    ex.prove("a message only for an invalid tensor", z3.Implies(m != 0, z3.Not(valid)))
    ex.prove("the tensor tested is unchanged", same_value(ex.rv(t), old))


def p_rule(ex):
    """conservation rule: the combined charge of the sections of the block is the selection rule"""
    f = ex.p.find(Q_ + "block_conservation_rule_test")
    t = ex.alloc(ex.fresh_rec(f["rec"], "b"))
    b = Bt(ex, t)
    assume_inv(ex, b)
    block_offsets_ok(ex, b)
    old = ex.rv(t)
    bi = ex.fresh_type(f["params"][0]["t"], "block_index")
    sb, cv, r = b.sections_by_dim, b.c_vals, zi(b.rank)
    ex.assume(z3.And(zi(bi.n) == r, in_grid(bi, sb, r)))

    def loop(L):
        it = L.v("__begin1", "block_prop_iter", 0)
        return [("charge of the first dimensions", L.v("out", "any_quantity") == QSUM(qarr(cv), arr(sb), arr(bi), 0, L.k)),
                ("section list reached", zi(it.f["val_iter"].i) == SUM(arr(sb), 0, L.k)),
                ("view position", z3.And(zi(it.f["block_index"].i) == zi(L.k), zi(it.f["section_by_dim"].i) == zi(L.k), zi(L.k) <= r))]
    ex.loops_at = {("block_conservation_rule_test", 0): loop}
    ret = ex.rv(ex.call_fn(f, t, [bi]))
    ex.prove("allowed exactly when the charges combine to the selection rule", zb(ret) == (QSUM(qarr(cv), arr(sb), arr(bi), 0, r) == sel_rule(b)))
    ex.prove("the tensor is unchanged", same_value(ex.rv(t), old))


def p_block(ex):
    """checked creation of a block"""
    f = ex.p.find(Q_ + "block")
    t = ex.alloc(ex.fresh_rec(f["rec"], "b"))
    b = Bt(ex, t)
    assume_inv(ex, b)
    block_offsets_ok(ex, b)
    old = ex.rv(t)
    bi = ex.fresh_type(ex.p.deref_type(f["params"][0]["t"]), "block_index")
    sb, cv, r = b.sections_by_dim, b.c_vals, zi(b.rank)
    ex.assume(zi(bi.n) >= 0)
    charge = QSUM(qarr(cv), arr(sb), arr(bi), 0, r)
    good = z3.And(zi(bi.n) == r, in_grid(bi, sb, r), charge == sel_rule(b))
    got = []

    def c_rule(c):
        x = ex.rv(c.args[0])
        ex.check("conservation rule asked for an index of the grid", z3.And(zi(x.n) == r, in_grid(x, sb, r)))
        ex.check("conservation rule of the tensor itself", same_value(ex.rv(c.obj), old))
        return QSUM(qarr(cv), arr(sb), arr(x), 0, r) == sel_rule(b)

    def c_at(c):
        got.append(1)
        ex.prove("looks up the block index given", same_value(ex.rv(c.args[0]), bi))
        x = t.fld("blocks_list")
        ex.prove("in the blocks of the tensor", z3.BoolVal(c.obj.__dict__ == x.__dict__ if hasattr(x, "__dict__") else repr(c.obj) == repr(x)))
        ex.blk = ex.alloc(ex.fresh_type(ex.p.deref_type(c.fn["ret"]), "block"))
        return ex.blk
    ex.use.append((re.compile(Q_ + "block_conservation_rule_test"), c_rule))
    ex.use.append((re.compile(Q_ + "block_quantities"), lambda c: OPAQUE))
    ex.use.append((re.compile(r"quantit::flat_map::operator\[\]"), c_at))
    k = z3.FreshConst(I, "k")
    ex.loops_at = {("block", 0): lambda L: [("in the grid so far", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < zi(L.k)), z3.And(0 <= bi.get(k), bi.get(k) < sb.get(k)))))]}
    try:
        ret = ex.call_fn(f, t, [ex.alloc(bi)])
    except ThrowEx:
        ex.prove("an error only for a block outside the grid or not allowed", z3.Not(good))
        ex.prove("a refused block leaves the tensor unchanged", same_value(ex.rv(t), old))
        return
    ex.prove("a block outside the grid or not allowed is refused", good)
    ex.prove("returns the block of the index given", z3.BoolVal(bool(got) and ret == ex.blk))
    ex.prove("the structure is unchanged", z3.And([same_value(ex.rv(t).f[k], old.f[k]) for k in old.f if k != "_options"]))


def ctor_of(n):
    def pick(ex):
        c = [f for f in ex.p.byqual[Q_ + "btensor"] if len(f["params"]) == n and "vec_list" not in ex.p.ts(f["params"][0]["t"]) and "tuple" not in ex.p.ts(f["params"][0]["t"])]
        if not c:
            raise ContractMismatch("no constructor from parts")
        return c[0]
    return pick


def p_parts(n):
    """the constructors from parts accept exactly the parts of a valid tensor and hold them"""
    def body(ex):
        f = ctor_of(n)(ex)
        A = [ex.fresh_type(ex.p.deref_type(x["t"]), x["name"]) for x in f["params"]]
        if n == 7:
            r, bl, sb, ss, cv, sel, opt = A
        else:
            sb, cv, ss, sel, opt = A
            r, bl = zi(sb.n), None
        for v in (sb, ss, cv) + ((bl,) if bl is not None else ()):
            ex.assume(zi(v.n) >= 0)
        VALID = z3.Const("parts_are_those_of_a_valid_tensor", z3.BoolSort())
        seen = []

        def c_check(c):
            """contract proved by the unit check_tensor"""
            v = ex.rv(c.args[0])
            g = z3.And(zi(v.f["rank"]) == r, same_value(v.f["sections_by_dim"], sb), same_value(v.f["sections_sizes"], ss), same_value(v.f["c_vals"], cv),
                       sel_rule(Bt(ex, ex.alloc(v))) == sel, same_value(v.f["blocks_list"], bl) if bl is not None else no_block(v))
            ex.prove("the tensor tested is made of the parts given", g)
            seen.append(1)
            m = ex.fresh(I, "message")
            ex.assume(z3.And(m >= 0, (m == 0) == VALID))
            return models.mkstr(m)
        ex.use.append((re.compile(Q_ + "check_tensor"), c_check))
        blocks_from_sequence(ex)
        whole = ex.fresh_rec(f["rec"], "new")

        def c_empty(c):
            return NotImplemented if c.args else Vec(z3.IntVal(0), whole.f["blocks_list"].data)
        ex.use.append((re.compile(r"quantit::flat_map::flat_map::ctor"), c_empty))
        ex.use.append((re.compile(r"torch::empty"), lambda c: ex.fresh(TEN, "empty")))
        ex.use.append((re.compile(r"at::(Tensor|TensorBase)::options"), lambda c: OPAQUE))
        lv = ex.alloc(whole)
        try:
            ex.run_ctor(f, lv, [ex.alloc(a) if not z3.is_int(a) else a for a in A])
        except ThrowEx:
            ex.prove("an error only for invalid parts", z3.Not(VALID))
            return
        ex.prove("the parts are tested", z3.BoolVal(bool(seen)))
        ex.prove("invalid parts are refused", VALID)
        v = ex.rv(lv)
        ex.prove("the tensor holds the parts given", z3.And(zi(v.f["rank"]) == r, same_value(v.f["sections_by_dim"], sb), same_value(v.f["sections_sizes"], ss), same_value(v.f["c_vals"], cv),
                                                     sel_rule(Bt(ex, lv)) == sel, same_value(v.f["blocks_list"], bl) if bl is not None else no_block(v)))
    return body


NOTE = ("Deductive: the validity test answers exactly validity, the conservation rule test is the combined charge against the selection rule, block() creates exactly the allowed blocks of the grid and "
        "leaves the tensor unchanged when it refuses, and the constructors from parts accept exactly the parts of valid tensors, for every tensor. The operations that use these are under contract in B04 "
        "and B09; histories of the other operations are explored on the compiled code (bounded), so the whole property is claimed as bounded.")
EXPLANATION = ("obligations generated from the clang AST of the validity test, checked block creation and the constructors on every run; random parts (corrupted), block indices and histories of operations on the "
               "compiled code against an independent validity test")
UNITS = [dict(name="check_tensor", tu="bt", body=p_check, opts=OPTS), dict(name="block_conservation_rule_test", tu="bt", body=p_rule, opts=OPTS), dict(name="block", tu="bt", body=p_block, opts=OPTS),
         dict(name="constructor from parts", tu="bt", body=p_parts(7), opts=OPTS), dict(name="constructor without blocks", tu="bt", body=p_parts(5), opts=OPTS)]
DRIVERS = [dict(src="drivers/B03.cpp", libs=BTLIBS)]
