"""B04: permutations of block tensors"""
from spec import *

LEVEL = "proof"
TUS = {"bt": ("sources/btensor.cpp", ["R quantit::.*"])}
Q_ = "quantit::btensor::"
TPERM = z3.Function("tensor_permute", TEN, AI, TEN)
OPTS = dict(abstract_map=True, prune="ground")


def setup(ex, f):
    t = ex.alloc(ex.fresh_rec(f["rec"], "b"))
    b = Bt(ex, t)
    assume_inv(ex, b)
    block_offsets_ok(ex, b)
    return t, b


def c_tensor_permute(c):
    """torch: the sizes are permuted"""
    t, p = c.ex.rv(c.obj), c.ex.rv(c.args[0])
    r = TPERM(t, arr(p))
    c.ex.check("permutation of a tensor by as many dimensions", models.tensor_dim(t) == zi(p.n))
    k = z3.FreshConst(I, "k")
    c.ex.assume(models.tensor_dim(r) == models.tensor_dim(t))
    c.ex.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < zi(p.n)), models.tensor_sizes(r)[k] == models.tensor_sizes(t)[p.get(k)]), patterns=[models.tensor_sizes(r)[k]]))
    return r


PN, PS = [z3.Function(n, I, I, I) for n in ("place_in_result", "place_in_source")]


def places(ex, N, S, P):
    """ghost names of the positions of section i of dimension k of the result: in the result and in the tensor"""
    k, i = z3.Ints("k i")
    ex.assume(z3.ForAll([k, i], PN(k, i) == N(k) + i, patterns=[PN(k, i)]))
    ex.assume(z3.ForAll([k, i], z3.And(PS(k, i) == S(P[k]) + i, PN(k, i) == N(k) + i), patterns=[PS(k, i)]))
    ex.assume(z3.ForAll([k, i], PS(k, i) == S(P[k]) + i, patterns=[PN(k, i)]))


def group(o, v, n, W):
    """the sections of the first n dimensions of the result are those of the dimensions designated"""
    k, i = z3.Ints("k i")
    return z3.ForAll([k, i], z3.Implies(z3.And(0 <= k, k < n, 0 <= i, i < W[k]), o.get(PN(k, i)) == v.get(PS(k, i))), patterns=[PN(k, i)])


def c_cv_permute(c):
    """contract proved by the unit permute of V01, with its preconditions"""
    ex = c.ex
    cv, rep = ex.rv(c.obj), ex.rv(c.args[2])
    lo, hi = [ex.rv(x) for x in c.args[:2]]
    p = ex.rv(lo.lv)
    W, P, r, N, S = ex.groups
    m, ng = zi(hi.i), zi(rep.n)
    k = z3.FreshConst(I, "k")
    rng = lambda n, f: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), f))
    ex.check("the permutation of the charges starts at its first entry", zi(lo.i) == 0)
    ex.check("one group per dimension", z3.And(m == ng, ng == r))
    ex.check("the charges are grouped by the sections of the dimensions", z3.And(rng(r, rep.get(k) == ex.sb0.get(k)), zi(cv.n) == S(r)))
    ex.check("the permutation of the charges is that of the dimensions", rng(r, p.get(k) == P[k]))
    ex.check("every group appears", N(r) == S(r))
    o = ex.fresh_type(c.fn["ret"], "charges")
    ex.assume(zi(o.n) == zi(cv.n))
    ex.assume(group(o, cv, r, W))
    return o


def p_permute(ex):
    f = ex.p.find(Q_ + "permute")
    t, b = setup(ex, f)
    b0 = ex.rv(t)
    a = ex.fresh_type(f["params"][0]["t"], "permutation")
    ex.use.append((re.compile(r"at::Tensor::permute"), c_tensor_permute))
    ex.use.append((re.compile(r"quantit::any_quantity_vector::permute"), c_cv_permute))
    r, sb, ss, cv, bl = zi(b.rank), b.sections_by_dim, b.sections_sizes, b.c_vals, b.blocks_list
    S = lambda i: SUM(arr(sb), 0, i)
    P = z3.Const("P", AI)        # the permutation counted from the start
    k, j = z3.Ints("k j")
    ex.assume(z3.ForAll([k], z3.Select(P, k) == z3.If(a.get(k) < 0, a.get(k) + r, a.get(k)), patterns=[a.get(k)]))
    ex.assume(z3.ForAll([k], z3.Select(P, k) == z3.If(a.get(k) < 0, a.get(k) + r, a.get(k)), patterns=[z3.Select(P, k)]))
    good = z3.And(zi(a.n) == r, is_perm(P, r))
    W = z3.Const("W", AI)        # section counts in the order of the result
    ex.assume(z3.ForAll([k], z3.Select(W, k) == z3.Select(arr(sb), z3.Select(P, k)), patterns=[z3.Select(W, k)]))
    N = lambda i: SUM(W, 0, i)
    places(ex, N, S, P)
    ex.groups, ex.sb0 = (W, P, r, N, S), sb
    lemma_perm_sum(ex, arr(sb), W, P, r)

    def mono(k):
        """sum_mono around group k"""
        pk = z3.Select(P, k)
        ex.assume(z3.Implies(z3.And(good, 0 <= k, k < r), z3.And(N(k) >= 0, N(k) + z3.Select(W, k) == N(k + 1), N(k + 1) <= N(r), z3.Select(W, k) >= 0, z3.Select(W, k) == z3.Select(arr(sb), pk),
                                                                 S(pk) >= 0, S(pk) + z3.Select(arr(sb), pk) == S(pk + 1), S(pk + 1) <= S(r))))
        ex.lemmas_used.add("sum_mono")
    pm = lambda L: L.v("permutation", "vector<long", 0)

    def used(L):
        u, x = L.v("used", "vector<long"), z3.FreshConst(I, "x")
        n = zi(L.k)
        return [("marks", z3.And(zi(u.n) == r, z3.ForAll([x], z3.Or(u.get(x) == 0, z3.Exists([j], z3.And(0 <= j, j < n, z3.Select(P, j) == x)))))),
                ("dimensions so far are in range and marked", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= P[k], P[k] < r, u.get(P[k]) == 1)), patterns=[P[k]])),
                ("no repetition so far", z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < n), P[j] != P[k]), patterns=[z3.MultiPattern(P[j], P[k])]))]

    def counts(L):
        o = L.v("out_section_by_dim")
        return [("length", zi(o.n) == r), ("section counts so far", forall(L.k, lambda i: o.get(i) == W[i]))]

    def moved(o, n):
        """the first n entries of o are the blocks of the tensor, moved and permuted"""
        q, x = z3.FreshConst(I, "q"), z3.FreshConst(I, "x")
        K1, v1 = key_at(bl, q)
        K2, v2 = key_at(o, q)
        inr = z3.And(0 <= q, q < zi(n))
        return [("number of dimensions of the indices", allp(q, z3.Implies(inr, K2.n == r), K2.n)),
                ("content of the blocks", allp(q, z3.Implies(inr, v2 == TPERM(v1, ex.pm_)), v2)),
                ("indices of the blocks", allp([q, x], z3.Implies(z3.And(inr, 0 <= x, x < r), K2.get(x) == K1.get(P[x])), K2.get(x)))]

    def blocks(L):
        o = L.v("out_block_list")
        ex.pm_ = arr(pm(L))
        assume_block(ex, b, zi(L.k))
        return [("length", zi(o.n) == L.k)] + moved(o, L.k)

    def index(L):
        o = L.v("out", "vector|index_list")
        ix = L.par(1)
        return [("length", zi(o.n) == r), ("index so far", forall(L.k, lambda i: o.get(i) == ix.get(P[i])))]

    def below(n):
        ex.assume(z3.Implies(good, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n, n <= r), z3.And(N(k) >= 0, N(k) + W[k] <= N(n))), patterns=[N(k)])))

    def sizes(L):
        o, n = L.v("out_section_sizes"), zi(L.k)
        ex.group_k = n
        mono(n), below(n)
        return [("length", zi(o.n) == zi(ss.n)), ("position", zi(L.v("p", "^unsigned long$")) == N(n)), ("not negative", forall(o.n, lambda x: o.get(x) >= 0)), ("sizes so far", group(o, ss, n, W))]

    def inner(L):
        o, n, i = L.v("out_section_sizes"), getattr(ex, "group_k", z3.IntVal(0)), zi(L.k)
        mono(n), below(n)
        q = z3.FreshConst(I, "i")
        return [("length", zi(o.n) == zi(ss.n)), ("position", zi(L.v("p", "^unsigned long$")) == N(n) + i), ("inside the dimension", i <= W[n]), ("not negative", forall(o.n, lambda x: o.get(x) >= 0)), ("sizes so far", group(o, ss, n, W)),
                ("sizes of this dimension", z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < i), o.get(PN(n, q)) == ss.get(PS(n, q))), patterns=[PN(n, q)]))]
    def positive(L):
        p = pm(L)
        return [("length", zi(p.n) == r), ("counted from the start", allp(k, z3.Implies(z3.And(0 <= k, k < zi(L.k)), p.get(k) == P[k]), p.get(k), P[k]))]
    nm = "permute"
    ex.loops_at = {(nm, 0): positive, (nm, 1): used, (nm, 2): counts, (nm, 3): blocks, (nm, 4): sizes, (nm, 5): inner, (nm + "()", 0): index}

    def hook(t):
        assume_block(ex, b, t)
        c = ex.last_ctor
        key1, v1 = key_at(bl, t)
        key2, v2 = key_at(c["bl"], t)
        x = z3.FreshConst(I, "x")
        fact = z3.Implies(t < zi(bl.n), z3.And(key2.n == r, z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < r), key2.get(x) == key1.get(P[x])), patterns=[key2.get(x)]), v2 == TPERM(v1, ex.pm_)))
        ex.prove("the block moved", fact)
        ex.assume(fact)
        lemma_perm_charge(ex, qarr(cv), arr(sb), arr(key1), qarr(c["cv"]), arr(c["sb"]), arr(key2), P, r)
        x = z3.FreshConst(I, "x")
        pre = (z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < r), z3.And(c["sb"].get(x) == W[x], 0 <= P[x], P[x] < r, W[x] == sb.get(P[x]), W[x] >= 0)), patterns=[c["sb"].get(x)]))
        ex.prove("section counts", pre)
        ex.assume(pre)
        # frame: the section counts of the result are W
        ex.assume(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k <= r), SUM(arr(c["sb"]), 0, k) == N(k)), patterns=[SUM(arr(c["sb"]), 0, k)]))
        ex.lemmas_used.add("frame_SUM")
        for lab, o, v in (("sizes", c["ss"], ss), ("charges", c["cv"], cv)):
            g = z3.Implies(t < zi(bl.n), allp(x, z3.Implies(z3.And(0 <= x, x < r), z3.And(o.get(PN(x, key2.get(x))) == v.get(PS(x, key2.get(x))), PN(x, key2.get(x)) == SUM(arr(c["sb"]), 0, x) + key2.get(x), PS(x, key2.get(x)) == SUM(arr(sb), 0, P[x]) + key1.get(P[x]))), key2.get(x)))
            ex.prove("%s of the sections of a block" % lab, g)
            ex.assume(g)
        ex.assume(z3.Implies(t < zi(bl.n), z3.And(models.tensor_dim(v2) == models.tensor_dim(v1),
                  z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < r), models.tensor_sizes(v2)[x] == models.tensor_sizes(v1)[P[x]]), patterns=[models.tensor_sizes(v2)[x]]))))
    blocks_from_sequence(ex)
    ctor_contract(ex, "result", hook)
    try:
        res = ex.rv(ex.call_fn(f, t, [ex.alloc(a)]))
    except ThrowEx:
        ex.prove("an error only for a malformed permutation", z3.Not(good))
        ex.prove("a refused permutation leaves the tensor unchanged", same_value(ex.rv(t), b0))
        return
    ex.prove("a malformed permutation is refused", good)
    c = ex.last_ctor
    i = z3.FreshConst(I, "i")
    ex.prove("section counts of the designated dimension", forall(r, lambda i: c["sb"].get(i) == sb.get(P[i])))
    ex.prove("sizes of the designated dimension", group(c["ss"], ss, r, W))
    ex.prove("charges of the designated dimension", group(c["cv"], cv, r, W))
    ex.prove("selection rule unchanged", c["sel"] == sel_rule(b))
    ex.prove("number of blocks unchanged", zi(c["bl"].n) == zi(bl.n))
    for label, g in moved(c["bl"], bl.n):
        ex.prove("each block moved and permuted: " + label, g)
    ex.prove("the operand is unchanged", same_value(ex.rv(t), b0))


def transposer(name):
    """transpose and transpose_: the permutation asked for exchanges the two dimensions (permute is used by its contract)"""
    def body(ex):
        f = ex.p.find(Q_ + name)
        t, b = setup(ex, f)
        b0 = ex.rv(t)
        r = zi(b.rank)
        d = [ex.fresh_type(x["t"], "d%d" % i) for i, x in enumerate(f["params"])]
        pos = [z3.If(x < 0, x + r, x) for x in d]
        good = z3.And(*[z3.And(0 <= x, x < r) for x in pos])
        seen = []

        def c_permute(c):
            a = ex.rv(c.args[0])
            seen.append(a)
            k = z3.FreshConst(I, "k")
            ex.prove("permutes the tensor itself", same_value(ex.rv(c.obj), b0))
            ex.prove("one entry per dimension", zi(a.n) == r)
            ex.prove("the permutation exchanges the two dimensions", z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < r), a.get(k) == z3.If(k == pos[0], pos[1], z3.If(k == pos[1], pos[0], k)))))
            return c.obj if name.endswith("_") else ex.fresh_type(c.fn["ret"], "permuted")
        ex.use.append((re.compile(r"quantit::btensor::permute_?"), c_permute))
        try:
            ex.call_fn(f, t, d)
        except ThrowEx:
            ex.prove("an error only for a dimension the tensor does not have", z3.Not(good))
            ex.prove("a refused transposition leaves the tensor unchanged", same_value(ex.rv(t), b0))
            return
        ex.prove("a dimension the tensor does not have is refused", good)
        ex.prove("a permutation was made", z3.BoolVal(len(seen) == 1))
    return body


def p_permute_(ex):
    """permute_: the value computed by permute replaces the tensor"""
    f = ex.p.find(Q_ + "permute_")
    t, b = setup(ex, f)
    b0 = ex.rv(t)
    a = ex.fresh_type(f["params"][0]["t"], "permutation")
    out = []

    def c_permute(c):
        ex.prove("permutes the tensor itself by the permutation given", z3.And(same_value(ex.rv(c.obj), b0), same_value(ex.rv(c.args[0]), a)))
        r = ex.fresh_type(c.fn["ret"], "permuted")
        out.append(ex.rv(r))
        return r
    ex.use.append((re.compile(r"quantit::btensor::permute"), c_permute))
    r = ex.call_fn(f, t, [ex.alloc(a)])
    ex.prove("the tensor becomes its permutation", same_value(ex.rv(t), out[0]))
    ex.prove("a reference to the tensor is returned", z3.BoolVal(r == t or ex.rv(r) is ex.rv(t)))


NOTE = ("Deductive: permute, permute_, transpose and transpose_ meet their contracts for every tensor, rank and argument (sections, sizes and charges of each dimension, every block moved to the "
        "permuted index and permuted, selection rule and number of blocks unchanged, result valid, operand unchanged, malformed permutations refused). Assumed: models of the standard library, the "
        "contract of at::Tensor::permute, of any_quantity_vector::permute (proved under V01), of the block map built from a sequence (M01), the part constructors' contract (B03); 64 bit sums of sizes "
        "do not wrap. The dense content as a whole is additionally compared on the compiled code for random tensors (bounded).")
EXPLANATION = ("obligations generated from the clang AST of permute, permute_, transpose, transpose_ on every run, with loop invariants; the lemmas on rearranged sums are proved by induction; "
               "the driver replays random tensors on the compiled code against dense permutation")
UNITS = [dict(name="transpose", tu="bt", body=transposer("transpose"), opts=OPTS), dict(name="transpose_", tu="bt", body=transposer("transpose_"), opts=OPTS),
         dict(name="permute_", tu="bt", body=p_permute_, opts=OPTS), dict(name="lemmas", body=lambda ex: None, post=perm_lemma_obligations), dict(name="permute", tu="bt", body=p_permute, opts=OPTS)]
DRIVERS = [dict(src="drivers/B04.cpp", libs=BTLIBS)]
