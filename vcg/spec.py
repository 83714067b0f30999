"""Specification vocabulary shared by the contracts: block tensor representation invariant, lemmas."""
import z3
from engine import *
import engine as E
import models  # noqa: registers the models of the libraries

LEMMAS = []   # (name, proof obligations) proved by solve.py with everything else


def arr(v):
    """z3 array behind a Vec of scalars"""
    return v.data


def forall(n, f, lo=0):
    i = z3.FreshConst(I, "q")
    b = f(i)
    return z3.ForAll([i], z3.Implies(z3.And(zi(lo) <= i, i < zi(n)), zb(b)))


class Bt:
    """view of a btensor value"""

    def __init__(self, ex, v):
        self.ex, self.v0 = ex, v

    def __getattr__(self, n):
        v = self.ex.rv(self.v0)
        if n in v.f:
            return v.f[n]
        raise ContractMismatch("btensor has no member %s" % n)


def bt_inv(b, pos=0):
    """representation invariant of the block structure (without the stored blocks)"""
    sb, ss, cv = b.sections_by_dim, b.sections_sizes, b.c_vals
    r = zi(b.rank)
    tot = SUM(arr(sb), 0, r)
    return [("rank is the number of dimensions", z3.And(r >= 0, zi(sb.n) == r)),
            ("section counts are not negative", forall(r, lambda i: sb.get(i) >= pos)),
            ("one size per section", zi(ss.n) == tot),
            ("one conserved value per section", zi(cv.n) == tot),
            ("section sizes are not negative", forall(tot, lambda i: ss.get(i) >= 0))]


def lemma_sum_mono(ex, a, i, j):
    """0<=i<=j and a nonnegative on [i,j) imply SUM(a,0,i) <= SUM(a,0,j).  Proved as lemma 'sum_mono' by induction"""
    i, j = zi(i), zi(j)
    k = z3.FreshConst(I, "q")
    ex.assume(z3.Implies(z3.And(0 <= i, i <= j, z3.ForAll([k], z3.Implies(z3.And(i <= k, k < j), z3.Select(a, k) >= 0))),
                         SUM(a, 0, i) <= SUM(a, 0, j)))
    ex.lemmas_used.add("sum_mono")


def lemma_val_zero(ex, a, s, n):
    k = z3.FreshConst(I, "q")
    ex.assume(z3.Implies(z3.And(zi(n) >= 0, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < zi(n)), z3.Select(a, k) == 0))), VAL(a, s, 0, n) == 0))
    ex.lemmas_used.add("val_zero")


def lemma_prod_pos(ex, s, n):
    k = z3.FreshConst(I, "q")
    ex.assume(z3.Implies(z3.And(zi(n) >= 0, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < zi(n)), z3.Select(s, k) >= 1))), PROD(s, 0, n) >= 1))
    ex.lemmas_used.add("prod_pos")


def induction(ex, name, hyp, goal, lo=0):
    """hyp(n) => goal(n) for all n>=lo by induction; hyp must be downward closed (proved too)"""
    n = z3.Int("n")
    ex.pc = [n == lo, hyp(n)]
    ex.prove("lemma %s base" % name, goal(n), "lemma")
    ex.pc = [n >= lo, hyp(n + 1)]
    ex.prove("lemma %s hypotheses restrict" % name, hyp(n), "lemma")
    ex.pc = [n >= lo, hyp(n + 1), goal(n)]
    ex.prove("lemma %s step" % name, goal(n + 1), "lemma")


def lemma_obligations(ex):
    """the induction proofs of the lemmas"""
    a = z3.Const("a", AI)
    i, j, k, n = z3.Ints("i j k n")
    nn = lambda lo, hi: z3.ForAll([k], z3.Implies(z3.And(lo <= k, k < hi), z3.Select(a, k) >= 0))
    ex.pc = [0 <= i, i <= j]
    ex.prove("lemma sum_mono base", z3.Implies(j == i, SUM(a, 0, i) <= SUM(a, 0, j)), "lemma")
    ex.pc = [0 <= i, i <= j, nn(i, j + 1), z3.Implies(nn(i, j), SUM(a, 0, i) <= SUM(a, 0, j))]
    ex.prove("lemma sum_mono step", SUM(a, 0, i) <= SUM(a, 0, j + 1), "lemma")
    # permute_source: (group, offset) is determined by the position it starts at
    ex.pc = [0 <= i, i < j, SUM(a, 0, i + 1) <= SUM(a, 0, j), 0 <= n, n < z3.Select(a, i), k >= 0]
    ex.prove("lemma permute_source", SUM(a, 0, i) + n != SUM(a, 0, j) + k, "lemma")
    o, e, w = z3.Ints("o e w")
    ex.pc = [o <= i, i <= j, nn(i, j + 1), z3.Implies(nn(i, j), SUM(a, o, i) <= SUM(a, o, j))]
    ex.prove("lemma sum_mono_from step", SUM(a, o, i) <= SUM(a, o, j + 1), "lemma")
    # sum_containing: 0 <= e < SUM(a,o,o+n) gives w in [0,n) with SUM(a,o,o+w) <= e < SUM(a,o,o+w+1)
    holds = lambda w, n: z3.And(0 <= w, w < n, SUM(a, o, o + w) <= e, e < SUM(a, o, o + w + 1))
    ex.pc = [n == 0, e >= 0, e < SUM(a, o, o + n)]
    ex.prove("lemma sum_containing base", z3.BoolVal(False), "lemma")
    ex.pc = [n >= 0, e >= 0, e < SUM(a, o, o + n + 1), z3.Implies(e < SUM(a, o, o + n), holds(w, n))]
    ex.prove("lemma sum_containing step", z3.Or(holds(w, n + 1), holds(n, n + 1)), "lemma")
    s = z3.Const("s", AI)
    allk = lambda n, f: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), f(k)))
    induction(ex, "val_zero", lambda n: allk(n, lambda k: a[k] == 0), lambda n: VAL(a, s, 0, n) == 0)
    induction(ex, "prod_pos", lambda n: allk(n, lambda k: s[k] >= 1), lambda n: PROD(s, 0, n) >= 1)
    grid = lambda x, n: allk(n, lambda k: z3.And(0 <= x[k], x[k] < s[k]))
    induction(ex, "val_range", lambda n: grid(a, n), lambda n: z3.And(0 <= VAL(a, s, 0, n), VAL(a, s, 0, n) < PROD(s, 0, n), PROD(s, 0, n) >= 1))
    # frame: two arrays equal below n have the same value (all recursive functions of the contracts)
    b = z3.Const("b", AI)
    same = lambda n: allk(n, lambda k: a[k] == b[k])
    for nm, F in (("SUM", SUM), ("PROD", PROD)):
        induction(ex, "frame_" + nm, same, lambda n, F=F: F(a, 0, n) == F(b, 0, n))
    induction(ex, "frame_VAL", same, lambda n: VAL(a, s, 0, n) == VAL(b, s, 0, n))
    # cnt_range: counting a predicate over [lo,hi)
    c, lo = (lambda n: CNT(0, 0, n)), z3.Int("lo")
    rng = lambda n: z3.And(c(lo) <= c(n), c(n) - c(lo) <= n - lo, c(lo) >= 0)
    ex.pc = [n == 0]
    ex.prove("lemma cnt_range nonnegative base", c(n) >= 0, "lemma")
    ex.pc = [n >= 0, c(n) >= 0]
    ex.prove("lemma cnt_range nonnegative step", c(n + 1) >= 0, "lemma")
    ex.pc = [n >= lo, lo >= 0, c(lo) >= 0, rng(n)]
    ex.prove("lemma cnt_range step", rng(n + 1), "lemma")
    for nm, tot, bad in (("all", lambda n: c(n) - c(lo) == n - lo, lambda x: z3.Not(POS_OK(x))), ("none", lambda n: c(n) == c(lo), POS_OK)):
        ex.pc = [n >= lo, lo >= 0, z3.Or(tot(n), z3.And(lo <= w, w < n, bad(w)))]
        ex.prove("lemma cnt_range %s step" % nm, z3.Or(tot(n + 1), z3.And(lo <= w, w < n + 1, bad(w)), bad(n)), "lemma")
    # val_injective: two indices of the grid with the same position are the same. Step: the last digits agree
    # (x + p*u == y + p*v with 0<=x,y<p forces u==v), the rest is the induction hypothesis
    n, u, v, x, y, p = z3.Ints("n u v x y p")
    ex.pc = [p >= 1, 0 <= x, x < p, 0 <= y, y < p, u > v, p * (u - v) >= p]
    ex.prove("lemma val_injective digit", x + u * p != y + v * p, "lemma")
    ex.pc = [p >= 1, u > v]
    ex.prove("lemma val_injective factor", p * (u - v) >= p, "lemma")


def assume_inv(ex, b, pos=0):
    for _, f in bt_inv(b, pos):
        ex.assume(f)

BTLIBS = ["btensor", "any_quantity", "groups", "dimension_manip", "torch_formatter", "tensorgdot"]

# combined charge of a block: fold of the charges of its sections
QSUM = RecFun("QSUM", [AQ, AI, AI], Q, lambda cv, sb, bi: qe,
              lambda ar, acc, i: qop(acc, z3.Select(ar[0], SUM(ar[1], 0, i) + z3.Select(ar[2], i))))
POS_OK = z3.Function("POS_OK", I, z3.BoolSort())
CNT = RecFun("CNT", [I], I, lambda d: z3.IntVal(0), lambda ar, acc, i: acc + z3.If(POS_OK(i), z3.IntVal(1), z3.IntVal(0)))


def qarr(v):
    return v.data


def in_grid(bi, sb, r):
    return forall(r, lambda i: z3.And(0 <= bi.get(i), bi.get(i) < sb.get(i)))


def block_offsets_ok(ex, b, r=None):
    """for a block index in the grid every section offset is inside the section lists"""
    sb = b.sections_by_dim
    i = z3.FreshConst(I, "q")
    ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < zi(b.rank)),
                                        z3.And(SUM(arr(sb), 0, i) >= 0, SUM(arr(sb), 0, i) + sb.get(i) == SUM(arr(sb), 0, i + 1),
                                               SUM(arr(sb), 0, i + 1) <= SUM(arr(sb), 0, zi(b.rank)))),
                        patterns=[SUM(arr(sb), 0, i)]))
    ex.lemmas_used.add("sum_mono")


def sel_rule(b):
    """the charge held by the selection rule member"""
    s = b.selection_rule
    if isinstance(s, Struct):
        s = s.f["value"]
    return s


def cnt_span(ex, lo, hi, pat=None):
    """lemma cnt_range for one range: the count of POS_OK over it, and over its parts"""
    c = lambda n: CNT(0, 0, n)
    lo, hi = zi(lo), zi(hi)
    w, x = z3.Function("fails_between", I, I, I)(lo, hi), z3.Function("holds_between", I, I, I)(lo, hi)
    ex.assume(z3.Implies(z3.And(0 <= lo, lo <= hi), z3.And(
        c(lo) <= c(hi), c(hi) - c(lo) <= hi - lo, c(lo) >= 0,
        z3.Or(c(hi) - c(lo) == hi - lo, z3.And(lo <= w, w < hi, z3.Not(POS_OK(w)))),
        z3.Or(c(hi) == c(lo), z3.And(lo <= x, x < hi, POS_OK(x))))))
    if pat is not None:
        i = z3.FreshConst(I, "i")
        ex.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= lo, lo <= i, i <= hi), z3.And(
            c(lo) <= c(i), c(i) - c(lo) <= i - lo, c(i) <= c(hi), c(hi) - c(i) <= hi - i)), patterns=[pat(i)]))
    ex.lemmas_used.add("cnt_range")


# ---- sums over a permuted list
QFOLD = RecFun("QFOLD", [AQ], Q, lambda c: qe, lambda ar, acc, i: qop(acc, z3.Select(ar[0], i)))


def perm_lemma_obligations(ex):
    """the sum (and the combined charge) of a list is that of any rearrangement of it.  A sum is written F, its elements combine by op with unit u"""
    lemma_obligations(ex)
    i, j, k, m, n = z3.Ints("i j k m n")
    p, D, D2 = z3.Const("p", AI), z3.Const("D", AI), z3.Const("D2", AI)
    allk = lambda n, f: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), f(k)))
    for nm, F, A, srt, op, u in (("SUM", SUM, AI, I, lambda x, y: x + y, z3.IntVal(0)), ("QFOLD", QFOLD, AQ, Q, qop, qe)):
        a, f, g, h = [z3.Const(x + nm, A) for x in "afgh"]
        v = z3.Const("v" + nm, srt)
        x, y, t = [z3.Const(c + nm, srt) for c in "xyt"]
        ac = [op(u, u) == u, z3.ForAll([x], op(x, u) == x), z3.ForAll([x, y], op(x, y) == op(y, x)), z3.ForAll([x, y, t], op(op(x, y), t) == op(op(x, t), y))]
        # equal lists
        induction(ex, "perm_%s frame" % nm, lambda n: allk(n, lambda k: f[k] == g[k]), lambda n: F(f, 0, n) == F(g, 0, n))
        # one entry replaced, where the unit was
        upd = lambda n: allk(n, lambda k: g[k] == z3.If(k == i, v, f[k]))
        ex.pc = ac + [0 <= i, f[i] == u, n == i, upd(n + 1), F(f, 0, n) == F(g, 0, n)]
        ex.prove("lemma perm_%s entry" % nm, F(g, 0, n + 1) == op(F(f, 0, n + 1), v), "lemma")
        ex.pc = ac + [0 <= i, n > i, upd(n + 1), F(g, 0, n) == op(F(f, 0, n), v)]
        ex.prove("lemma perm_%s entry step" % nm, F(g, 0, n + 1) == op(F(f, 0, n + 1), v), "lemma")
        # D marks the positions among the first m images; f is a restricted to the marks
        inj = z3.And(allk(n, lambda k: z3.And(0 <= p[k], p[k] < n)), z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < n), p[j] != p[k])))
        marks = lambda D, m: z3.And(z3.ForAll([k], z3.Or(D[k] == 0, D[k] == 1)), z3.ForAll([k], z3.Implies(D[k] == 1, z3.Exists([j], z3.And(0 <= j, j < m, p[j] == k)))),
                                    SUM(D, 0, n) == m)
        restr = lambda D, f: z3.ForAll([k], f[k] == z3.If(D[k] == 1, a[k], u), patterns=[f[k]])
        w = z3.Const("w" + nm, A)
        ex.pc = [0 <= m, m < n, inj, marks(D, m), restr(D, f), F(w, 0, m) == F(f, 0, n), w[m] == a[p[m]],
                 D2 == z3.Store(D, p[m], 1), restr(D2, g)]
        base = list(ex.pc)
        ex.prove("lemma perm_%s next image is new" % nm, D[p[m]] == 0, "lemma")
        ex.pc = base + [D[p[m]] == 0]
        ex.prove("lemma perm_%s restriction changes one entry" % nm, z3.And(f[p[m]] == u, allk(n, lambda k: g[k] == z3.If(k == p[m], a[p[m]], f[k]))), "lemma")
        # instances of 'entry' for D and for f
        ex.pc = base + [D[p[m]] == 0, SUM(D2, 0, n) == SUM(D, 0, n) + 1, F(g, 0, n) == op(F(f, 0, n), a[p[m]])]
        ex.prove("lemma perm_%s marks" % nm, marks(D2, m + 1), "lemma")
        ex.prove("lemma perm_%s partial" % nm, F(w, 0, m + 1) == F(g, 0, n), "lemma")
        # all marked when there are as many marks as positions
        full = lambda n: z3.And(SUM(D, 0, n) <= n, z3.Implies(SUM(D, 0, n) == n, allk(n, lambda k: D[k] == 1)))
        ex.pc = [n >= 0, D[n] <= 1, full(n)]
        ex.prove("lemma perm_%s all marked" % nm, full(n + 1), "lemma")
    # no mark at the start: the sums over no image and over a list of units
    for nm, F, A, u in (("SUM", SUM, AI, z3.IntVal(0)), ("QFOLD", QFOLD, AQ, qe)):
        a = z3.Const("a" + nm, A)
        induction(ex, "perm_%s units" % nm, lambda n: z3.And(qop(qe, qe) == qe, allk(n, lambda k: a[k] == u)), lambda n: F(a, 0, n) == u)
    # the charge of a block is the fold of the charges of its sections
    cv, sb, bi = z3.Const("cv", AQ), z3.Const("sb", AI), z3.Const("bi", AI)
    c = z3.Const("c", AQ)
    induction(ex, "block_charge", lambda n: allk(n, lambda k: c[k] == z3.Select(cv, SUM(sb, 0, k) + bi[k])), lambda n: QSUM(cv, sb, bi, 0, n) == QFOLD(c, 0, n))


def is_perm(p, n):
    j, k = z3.FreshConst(I, "j"), z3.FreshConst(I, "k")
    return z3.And(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= z3.Select(p, k), z3.Select(p, k) < n)), patterns=[z3.Select(p, k)]),
                  z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < n), z3.Select(p, j) != z3.Select(p, k)), patterns=[z3.MultiPattern(z3.Select(p, j), z3.Select(p, k))]))


def lemma_perm_sum(ex, a, w, p, n):
    """p a permutation of [0,n) and w the list a rearranged by it: same sum"""
    k = z3.FreshConst(I, "k")
    ex.assume(z3.Implies(z3.And(is_perm(p, n), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.Select(w, k) == z3.Select(a, z3.Select(p, k))))), SUM(w, 0, n) == SUM(a, 0, n)))
    ex.lemmas_used.add("perm_SUM")


def lemma_perm_charge(ex, cv, sb, bi, cv2, sb2, bi2, p, n):
    """the block bi2 of the rearranged structure has the charge of the block bi"""
    k = z3.FreshConst(I, "k")
    ex.assume(z3.Implies(z3.And(is_perm(p, n), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.Select(cv2, SUM(sb2, 0, k) + z3.Select(bi2, k)) ==
                                                                      z3.Select(cv, SUM(sb, 0, z3.Select(p, k)) + z3.Select(bi, z3.Select(p, k)))))),
                         QSUM(cv2, sb2, bi2, 0, n) == QSUM(cv, sb, bi, 0, n)))
    ex.lemmas_used.add("perm_QFOLD")


# ---- stored blocks
def block_ok(b, key, val):
    """facts (label, formula) of one stored block: b gives rank, sections_by_dim, sections_sizes, c_vals, sel"""
    r, sb, ss, cv = zi(b["rank"]), b["sb"], b["ss"], b["cv"]
    i = z3.FreshConst(I, "i")
    return [("a stored block has one index per dimension", zi(key.n) == r),
            ("a stored block is in the grid of sections", in_grid(key, sb, r)),
            ("a stored block has the shape of its sections", z3.And(tensor_dim_(val) == r, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < r), z3.Select(tensor_sizes_(val), i) == ss.get(SUM(arr(sb), 0, i) + key.get(i))),
                                                                                                    patterns=[z3.Select(tensor_sizes_(val), i)]))),
            ("a stored block is allowed by the selection rule", QSUM(qarr(cv), arr(sb), arr(key), 0, r) == b["sel"])]


def tensor_dim_(t):
    return models.tensor_dim(t)


def tensor_sizes_(t):
    return models.tensor_sizes(t)


def parts_of(b):
    return dict(rank=b.rank, sb=b.sections_by_dim, ss=b.sections_sizes, cv=b.c_vals, sel=sel_rule(b))


def key_at(bl, t):
    """key and content of entry t of a block list"""
    k, v = bl.data.v
    return Vec(z3.Select(k.n, t), z3.Select(k.data, t)), z3.Select(v, t)


def assume_block(ex, b, t):
    """the stored block number t is valid"""
    bl = b.blocks_list
    k, v = key_at(bl, t)
    for _, f in block_ok(parts_of(b), k, v):
        ex.assume(z3.Implies(z3.And(0 <= t, t < zi(bl.n)), f))


class Parts:
    pass


def valid_parts(ex, what, p, bl, hook=None):
    """obligations: a tensor with these parts is valid"""
    q = Parts()
    q.rank, q.sections_by_dim, q.sections_sizes, q.c_vals = p["rank"], p["sb"], p["ss"], p["cv"]
    t = ex.fresh(I, "entry")
    ex.assume(t >= 0)
    if hook:
        hook(t)
    for label, f in bt_inv(q):
        ex.prove("%s: %s" % (what, label), f)
        ex.assume(f)
    if bl is None:
        return
    k, v = key_at(bl, t)
    for label, f in block_ok(p, k, v):
        ex.prove("%s: %s" % (what, label), z3.Implies(t < zi(bl.n), f))


def ctor_contract(ex, what, hook=None):
    """contract of the constructors of a block tensor from its parts (proved by the units of B03): the parts given are those of a valid tensor, and the
    tensor holds them"""
    def h(c):
        n = len(c.args)
        A = [ex.rv(a) for a in c.args]
        rec = c.fn["rec"]
        if n == 7:
            r, bl, sb, ss, cv, sel, opt = A
        elif n == 5:
            sb, cv, ss, sel, opt = A
            r, bl = zi(sb.n), None
        else:
            return NotImplemented
        if isinstance(sel, Struct):
            sel = sel.f["value"]
        if isinstance(bl, Struct):
            bl = bl.f["content"]
        if bl is not None and z3.eq(simp(zi(bl.n)) if z3.is_expr(simp(zi(bl.n))) else z3.IntVal(simp(zi(bl.n))), z3.IntVal(0)):
            bl = None
        ex.last_ctor = dict(rank=r, sb=sb, ss=ss, cv=cv, sel=sel, bl=bl)
        valid_parts(ex, what, dict(rank=r, sb=sb, ss=ss, cv=cv, sel=sel), bl, hook)
        f = dict(rank=r, sections_by_dim=sb, sections_sizes=ss, c_vals=cv, selection_rule=sel, _options=opt)
        s = ex.fresh_rec(rec, "new")
        if bl is None:
            bl = Vec(z3.IntVal(0), s.f["blocks_list"].data)
        f["blocks_list"] = bl
        for k, v in f.items():
            if isinstance(s.f[k], Struct) and not isinstance(v, Struct):
                v = Struct(s.f[k].rec, {"value": v})
            s.f[k] = v
        return s
    ex.use.append((re.compile(r"quantit::btensor::btensor::ctor"), h))


def same_value(a, b):
    """two values are the same, component by component"""
    if a is b:
        return z3.BoolVal(True)
    if isinstance(a, Struct) and isinstance(b, Struct) and set(a.f) == set(b.f):
        return z3.And([same_value(a.f[k], b.f[k]) for k in a.f])
    if isinstance(a, Vec) and isinstance(b, Vec):
        return z3.And(zi(a.n) == zi(b.n), same_value(a.data, b.data))
    if hasattr(a, "v") and hasattr(b, "v") and len(a.v) == len(b.v):
        return z3.And([same_value(x, y) for x, y in zip(a.v, b.v)])
    if hasattr(a, "data") and hasattr(b, "data"):
        return z3.And(a.n == b.n, same_value(a.data, b.data))
    if z3.is_expr(a) and z3.is_expr(b):
        return a == b
    if type(a) == type(b) and isinstance(a, (int, bool, type(None), Opaque)):
        return z3.BoolVal(a == b or isinstance(a, Opaque))
    raise Unsupported("comparison of %s" % type(a).__name__)


class LoopSpecs(dict):
    """chooses the invariant of a loop by what is in scope: [(predicate on the loop view, invariant)], first that applies; a loop nobody claims has none"""

    def __init__(self, cases):
        super().__init__()
        self.cases = cases

    def get(self, o, default=None):
        return self.choose

    def __contains__(self, o):
        return True

    def __getitem__(self, o):
        return self.choose

    def choose(self, L):
        for p, f in self.cases:
            if p(L):
                return f(L)
        return []


def in_scope(*names):
    def p(L):
        seen = set()
        f = L.frame
        while f is not None:
            seen |= set(f.names)
            f = f.lexical
        return all((n[1:] not in seen) if n[0] == "!" else (n in seen) for n in names)
    return p


def blocks_from_sequence(ex):
    """contract of the construction of the block map from a sequence of entries (proved by M01): it holds these entries.  The order of the entries is
    not part of what is stated about block lists here"""
    def h(c):
        if len(c.args) < 1:
            return NotImplemented
        v = c.ex.rv(c.args[0])
        return v if isinstance(v, Vec) else NotImplemented
    ex.use.append((re.compile(r"quantit::flat_map::flat_map::ctor"), h))


def allp(v, body, *pats):
    """a quantified formula with those of the given patterns that are usable"""
    vs = v if isinstance(v, list) else [v]

    def has(p, x):
        return p.eq(x) or any(has(c, x) for c in p.children())
    def clean(p):
        return not z3.is_quantifier(p) and not (z3.is_app(p) and p.decl().kind() in (z3.Z3_OP_ITE, z3.Z3_OP_EQ, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_CONST_ARRAY)) and all(clean(c) for c in p.children())
    ok = [p for p in pats if z3.is_expr(p) and clean(p) and not z3.is_quantifier(p) and not z3.is_var(p) and z3.is_app(p) and p.num_args() > 0 and p.decl().kind() in (z3.Z3_OP_SELECT, z3.Z3_OP_UNINTERPRETED)
          and all(has(p, x) for x in vs)]
    return z3.ForAll(vs, body, patterns=ok) if ok else z3.ForAll(vs, body)
