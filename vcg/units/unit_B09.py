"""B09: charge transformations of block tensors"""
from spec import *

LEVEL = "proof"
TUS = {"bt": ("sources/btensor.cpp", ["R quantit::.*"])}
Q_ = "quantit::btensor::"
OPTS = dict(abstract_map=True, prune="ground")


def setup(ex, f):
    t = ex.alloc(ex.fresh_rec(f["rec"], "b"))
    b = Bt(ex, t)
    assume_inv(ex, b)
    block_offsets_ok(ex, b)
    return t, b


def frame(ex, new, old, but):
    """every part of the tensor other than those named is unchanged"""
    ex.prove("sections, sizes and blocks unchanged", z3.And([same_value(new.f[k], old.f[k]) for k in old.f if k not in but and k != "_options"]))


def charges(o, v, n, g):
    """the first n charges of o are those of v transformed by g, the following ones those of v"""
    i = z3.FreshConst(I, "i")
    return allp(i, o.get(i) == z3.If(z3.And(0 <= i, i < zi(n)), g(i, v.get(i)), v.get(i)), o.get(i))


def charge_lemmas(ex):
    """the charge of a block whose section charges are inverted, or shifted in one dimension"""
    cv, c2 = z3.Consts("cv c2", AQ)
    sb, bi = z3.Consts("sb bi", AI)
    k, n, d = z3.Ints("k n d")
    s, x, y = z3.Consts("s x y", Q)
    # the inverse in a commutative group
    ex.pc = q_axioms()
    ex.prove("lemma inverse of the neutral element", qinv(qe) == qe, "lemma")
    ex.pc = q_axioms() + [qop(qop(x, qinv(x)), qop(y, qinv(y))) == qe]
    ex.prove("lemma inverse is one", qop(qop(qinv(x), qinv(y)), qop(x, y)) == qe, "lemma")
    ex.pc = q_axioms() + [qop(x, y) == qe, qop(qop(x, y), qinv(y)) == qinv(y)]
    ex.prove("lemma inverse is unique", x == qinv(y), "lemma")
    inv = z3.ForAll([x, y], qinv(qop(x, y)) == qop(qinv(x), qinv(y)))
    at = lambda k: SUM(sb, 0, k) + z3.Select(bi, k)
    allk = lambda n, f: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), f(k)))
    induction(ex, "inverse_charge", lambda n: z3.And(inv, qinv(qe) == qe, allk(n, lambda k: c2[at(k)] == qinv(cv[at(k)]))), lambda n: QSUM(c2, sb, bi, 0, n) == qinv(QSUM(cv, sb, bi, 0, n)))
    grp = z3.And(*q_axioms())
    induction(ex, "shifted_charge", lambda n: z3.And(grp, d >= 0, allk(n, lambda k: c2[at(k)] == z3.If(k == d, qop(cv[at(k)], s), cv[at(k)]))),
              lambda n: QSUM(c2, sb, bi, 0, n) == z3.If(d < n, qop(QSUM(cv, sb, bi, 0, n), s), QSUM(cv, sb, bi, 0, n)))


def still_valid(ex, b, old, law, per):
    """a stored block of a valid tensor is still allowed: law is the conclusion of the lemma for its charge, per its hypothesis on the section of dimension k"""
    o = Bt(ex, ex.alloc(old))
    t, k = ex.fresh(I, "entry"), z3.FreshConst(I, "k")
    assume_block(ex, o, t)
    key, _ = key_at(old.f["blocks_list"], t)
    r, sb = zi(o.rank), o.sections_by_dim
    inr = z3.And(0 <= t, t < zi(o.blocks_list.n))
    at = lambda k: SUM(arr(sb), 0, k) + key.get(k)
    ex.prove("hypothesis of the charge lemma", z3.Implies(inr, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < r), per(k, b.c_vals.get(at(k)), o.c_vals.get(at(k)))))))
    ex.assume(z3.Implies(inr, law(QSUM(qarr(b.c_vals), arr(sb), arr(key), 0, r), QSUM(qarr(o.c_vals), arr(sb), arr(key), 0, r))))
    ex.lemmas_used.add("charge lemma")
    ex.prove("a stored block is allowed by the new selection rule", z3.Implies(inr, QSUM(qarr(b.c_vals), arr(sb), arr(key), 0, r) == sel_rule(b)))


def p_inverse(ex):
    f = ex.p.find(Q_ + "inverse_cvals_")
    t, b = setup(ex, f)
    old = ex.rv(t)
    cv0, sel0 = old.f["c_vals"], sel_rule(b)
    ex.loops_at = {("inverse_cvals_", 0): lambda L: [("length", zi(b.c_vals.n) == zi(cv0.n)), ("inverted so far", charges(b.c_vals, cv0, L.k, lambda i, q: qinv(q)))]}
    r = ex.call_fn(f, t, [])
    ex.prove("every charge inverted", z3.And(zi(b.c_vals.n) == zi(cv0.n), charges(b.c_vals, cv0, cv0.n, lambda i, q: qinv(q))))
    ex.prove("selection rule inverted", sel_rule(b) == qinv(sel0))
    frame(ex, ex.rv(t), old, ("c_vals", "selection_rule"))
    ex.prove("a reference to the tensor is returned", z3.BoolVal(r == t))
    still_valid(ex, b, old, lambda n, o: n == qinv(o), lambda k, n, o: n == qinv(o))


def shift_parts(ex, b, d):
    sb = b.sections_by_dim
    lo = SUM(arr(sb), 0, d)
    return lo, lo + sb.get(d)


def shifted(o, v, lo, hi, s):
    i = z3.FreshConst(I, "i")
    return allp(i, o.get(i) == z3.If(z3.And(lo <= i, i < hi), qop(v.get(i), s), v.get(i)), o.get(i))


def shifter(name, rule, empty_only):
    def body(ex):
        f = ex.p.find(Q_ + name)
        t, b = setup(ex, f)
        old = ex.rv(t)
        cv0, sel0 = old.f["c_vals"], sel_rule(b)
        a = [ex.fresh_type(ex.p.deref_type(x["t"]), "a%d" % i) for i, x in enumerate(f["params"])]
        s, d = a[0], zi(a[1])
        r = zi(b.rank)
        good = z3.And(0 <= d, d < r)
        lo, hi = shift_parts(ex, b, d)
        ex.assume(z3.Implies(good, z3.And(0 <= lo, hi == SUM(arr(b.sections_by_dim), 0, d + 1), hi <= SUM(arr(b.sections_by_dim), 0, r))))
        ex.loops_at = {("shift_impl", 0): lambda L: [("length", zi(b.c_vals.n) == zi(cv0.n)), ("position", z3.And(zi(L.v("c_vals_it").i) == lo + zi(L.k), lo + zi(L.k) <= hi)), ("shifted so far", shifted(b.c_vals, cv0, lo, lo + zi(L.k), s))]}
        try:
            ret = ex.call_fn(f, t, [ex.alloc(a[0]), a[1]])
        except ThrowEx:
            ex.prove("an error only for a dimension the tensor does not have" + (" or a tensor with blocks" if empty_only else ""), z3.Or(z3.Not(good), *([zi(old.f["blocks_list"].n) != 0] if empty_only else [])))
            ex.prove("a refused shift leaves the tensor unchanged", same_value(ex.rv(t), old))
            return
        ex.prove("a dimension the tensor does not have is refused", good)
        ex.prove("charges of the dimension shifted, the others unchanged", z3.And(zi(b.c_vals.n) == zi(cv0.n), shifted(b.c_vals, cv0, lo, hi, s)))
        ex.prove("selection rule" + (" shifted" if rule else " unchanged"), sel_rule(b) == (qop(sel0, s) if rule else sel0))
        frame(ex, ex.rv(t), old, ("c_vals", "selection_rule"))
        ex.prove("a reference to the tensor is returned", z3.BoolVal(ret == t))
        if empty_only:
            ex.prove("only a tensor without blocks", zi(old.f["blocks_list"].n) == 0)
        else:
            k, S = z3.FreshConst(I, "k"), lambda n: SUM(arr(b.sections_by_dim), 0, n)
            ex.assume(z3.ForAll([k], z3.And(z3.Implies(z3.And(good, 0 <= k, k < d), S(k) + b.sections_by_dim.get(k) <= lo), z3.Implies(z3.And(good, d < k, k < r), hi <= S(k))), patterns=[S(k)]))
            ex.lemmas_used.add("sum_mono")
            still_valid(ex, b, old, lambda n, o: n == qop(o, s), lambda k, n, o: n == z3.If(k == d, qop(o, s), o))
    return body


def p_neutral(ex):
    f = ex.p.find(Q_ + "neutral_shape_")
    t, b = setup(ex, f)
    old = ex.rv(t)
    cv0 = old.f["c_vals"]
    ex.loops_at = {("neutral_shape_", 0): lambda L: [("length", zi(b.c_vals.n) == zi(cv0.n)), ("neutral so far", charges(b.c_vals, cv0, L.k, lambda i, q: qe))]}
    try:
        ex.call_fn(f, t, [])
    except ThrowEx:
        ex.prove("an error only for a tensor with blocks", zi(old.f["blocks_list"].n) != 0)
        ex.prove("a refused tensor is unchanged", same_value(ex.rv(t), old))
        return
    ex.prove("only a tensor without blocks", zi(old.f["blocks_list"].n) == 0)
    ex.prove("every charge neutral", z3.And(zi(b.c_vals.n) == zi(cv0.n), charges(b.c_vals, cv0, cv0.n, lambda i, q: qe)))
    ex.prove("selection rule neutral", sel_rule(b) == qe)
    frame(ex, ex.rv(t), old, ("c_vals", "selection_rule"))


def ruler(name, g):
    def body(ex):
        f = ex.p.find(Q_ + name)
        t, b = setup(ex, f)
        old, sel0 = ex.rv(t), sel_rule(b)
        s = ex.fresh_type(ex.p.deref_type(f["params"][0]["t"]), "value")
        try:
            ret = ex.call_fn(f, t, [ex.alloc(s)])
        except ThrowEx:
            ex.prove("an error only for a tensor with blocks", zi(old.f["blocks_list"].n) != 0)
            ex.prove("a refused tensor is unchanged", same_value(ex.rv(t), old))
            return
        ex.prove("only a tensor without blocks", zi(old.f["blocks_list"].n) == 0)
        ex.prove("selection rule", sel_rule(b) == g(sel0, s))
        frame(ex, ex.rv(t), old, ("selection_rule",))
        ex.prove("a reference to the tensor is returned", z3.BoolVal(ret == t))
    return body


def copier(name, inplace, arg=None):
    """out of place form: the in place form applied to a copy"""
    def body(ex):
        f = ex.p.find(Q_ + name)
        t, b = setup(ex, f)
        old = ex.rv(t)
        a = [ex.fresh_type(ex.p.deref_type(x["t"]), "a%d" % i) for i, x in enumerate(f["params"])]
        out = []

        def h(c):
            out.append(ex.fresh_rec(f["rec"], "transformed"))
            ex.prove("applied to a copy of the tensor", z3.And(z3.BoolVal(c.obj != t), same_value(ex.rv(c.obj), old)))
            ex.prove("with the arguments given", z3.And([z3.BoolVal(True)] + [same_value(ex.rv(x), y) for x, y in zip(c.args, a)]))
            ex.write(c.obj, out[-1])
            return c.obj
        ex.use.append((re.compile(Q_ + inplace), h))
        blocks_from_sequence(ex)
        r = ex.rv(ex.call_fn(f, t, [ex.alloc(x) if not z3.is_int(x) else x for x in a]))
        ex.prove("returns the transformed copy", z3.And(z3.BoolVal(len(out) == 1), same_value(r, out[0])))
        ex.prove("the operand is unchanged", same_value(ex.rv(t), old))
    return body


NOTE = ("Deductive: every charge transformation meets its contract for every tensor, dimension, shift and group (charges, selection rule, everything else unchanged, stored blocks still allowed, "
        "refusals leave the tensor unchanged). Assumed: models of the standard library, the group axioms for charges (proved for the groups under C01 and C02 bounded), deep content of blocks is not touched "
        "because the block list is not; the conjugation of block contents is torch's and is checked by the driver only.")
EXPLANATION = "obligations generated from the clang AST of the charge transformations on every run; the effect on the charge of a block is proved by induction; the driver replays random tensors on the compiled code"
UNITS = [dict(name="lemmas", body=lambda ex: None, post=charge_lemmas),
         dict(name="inverse_cvals_", tu="bt", body=p_inverse, opts=OPTS),
         dict(name="cval_shift_", tu="bt", body=shifter("cval_shift_", True, False), opts=OPTS),
         dict(name="non_conserving_cval_shift_", tu="bt", body=shifter("non_conserving_cval_shift_", False, True), opts=OPTS),
         dict(name="neutral_shape_", tu="bt", body=p_neutral, opts=OPTS),
         dict(name="set_selection_rule_", tu="bt", body=ruler("set_selection_rule_", lambda o, s: s), opts=OPTS),
         dict(name="shift_selection_rule_", tu="bt", body=ruler("shift_selection_rule_", lambda o, s: qop(o, s)), opts=OPTS),
         dict(name="inverse_cvals", tu="bt", body=copier("inverse_cvals", "inverse_cvals_"), opts=OPTS),
         dict(name="cval_shift", tu="bt", body=copier("cval_shift", "cval_shift_"), opts=OPTS),
         dict(name="neutral_shape", tu="bt", body=copier("neutral_shape", "neutral_shape_"), opts=OPTS)]
DRIVERS = [dict(src="drivers/B09.cpp", libs=BTLIBS)]
