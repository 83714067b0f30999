"""C02: composite and type erased charges"""
from spec import *

LEVEL = "proof"
NOTE = ("For each of the 14 composite types the library instantiates, every member function acts component by component with the group of the component, and "
        "refuses operands of another composite type with std::bad_cast; every constructor, assignment and operator of any_quantity is proved to give an "
        "independent value equal to the operation on the composites held. Assumes the models of std::tuple, std::unique_ptr and dynamic_cast. The compiled "
        "code is run against component arithmetic over random histories.")
TUS = {"aq": ("sources/any_quantity.cpp", ["R quantit::.*"])}
A_ = "quantit::any_quantity::"
QC = "quantit::quantity<"
OPTS = dict(exact32=True, abstract_q=False)


def qrecs(p):
    """records of the composite types instantiated by the library: index -> list of moduli (None: integers)"""
    out = {}
    for f in p.funcs.values():
        m = re.fullmatch(r"(quantit::quantity<(.*)>)::inverse_", f["qual"])
        full = any(g.get("rec") == f.get("rec") and g["name"] == "operator*" for g in p.funcs.values())  # explicitly instantiated
        if m and full and "rec" in f and f.get("body_") is not None:
            out[f["rec"]] = ([int(x[2:-1]) if x[0] == "C" else None for x in re.findall(r"conserved::(C<\d+>|Z)", m.group(2))],
                             m.group(1).replace("quantit::", "").replace("conserved::", ""))
    return out


class Q:
    """a composite charge in memory"""

    def __init__(self, ex, rec, mods, name, small=True):
        self.ex, self.rec, self.mods = ex, rec, mods
        self.at = ex.alloc(ex.fresh_rec(rec, name))
        self.x = self.now()
        for v, m in zip(self.x, mods):
            # canonical components; integers in the range where a combination fits 16 bits
            ex.assume(z3.And(v >= 0, v < m) if m else z3.And(v >= -16383, v <= 16383))

    def now(self):
        return comps(self.ex, self.at)


def comps(ex, lv):
    v = ex.rv(lv)
    if isinstance(v, Ptr):
        v = ex.read(v.lv)
    return [zi(ex.rv(c).f["val"]) for c in v.f["val"].v]


def rep(v, m):
    return v % m if m else v


def eqs(xs, ys):
    return z3.And([zi(x) == zi(y) for x, y in zip(xs, ys)] + [z3.BoolVal(len(xs) == len(ys))])


def lex(xs, ys, lt):
    r = z3.BoolVal(False)
    for x, y in reversed(list(zip(xs, ys))):
        r = z3.Or(lt(x, y), z3.And(x == y, r))
    return r


def prod(a, b):
    return [rep(x + y, m) for x, y, m in zip(a.x, b.x, a.mods)]


def inv_(a):
    return [rep(-x, m) for x, m in zip(a.x, a.mods)]


def meth(ex, rec, name, pred):
    fs = [f for f in ex.p.funcs.values() if f.get("rec") == rec and f["name"] == name and f.get("body_") is not None and pred(f)]
    if not fs:
        raise ContractMismatch("no member %s of %s under contract in this tree" % (name, ex.p.records[rec].get("qual")))
    return fs


def ptypes(ex, f):
    return [ex.p.T(ex.p.deref_type(q["t"])) for q in f["params"]]


def is_rv(ex, f, i):
    return ex.p.T(f["params"][i]["t"])["k"] == "rref"


def composite(k):
    """every member of the k-th composite type"""
    def body(ex):
        recs = sorted(qrecs(ex.p).items())
        if k >= len(recs):
            raise ContractMismatch("the library instantiates only %d composite types" % len(recs))
        rec, (mods, nm) = recs[k]
        other = [(r, x[0]) for r, x in recs][(k + 1) % len(recs)]

        def two():
            return Q(ex, rec, mods, "a"), Q(ex, rec, mods, "b")

        def wrong(f, lab):
            # a composite charge of another type
            if ptypes(ex, f)[0].get("rec") == rec:
                return
            a, c = Q(ex, rec, mods, "a"), Q(ex, other[0], other[1], "other")
            try:
                ex.call_fn(f, a.at, [c.at] + [z3.BoolVal(True)] * (len(f["params"]) - 1))
                ex.prove(lab + " refuses a charge of another composite type", z3.BoolVal(False))
            except ThrowEx as e:
                ex.prove(lab + " refuses a charge of another composite type", z3.BoolVal("bad_cast" in str(e.t)))
                ex.prove(lab + " refusal leaves both alone", z3.And(eqs(a.now(), a.x), eqs(c.now(), c.x)))

        def one_arg(name):
            return meth(ex, rec, name, lambda f: len(f["params"]) == 1)
        for n in ("op", "operator*=", "operator+="):
            for f in meth(ex, rec, n, lambda f: True):
                a, b = two()
                c = ex.fresh(z3.BoolSort(), "cond") if len(f["params"]) == 2 else z3.BoolVal(True)
                r = ex.call_fn(f, a.at, [b.at] + ([c] if len(f["params"]) == 2 else []))
                ex.prove(nm + "::" + n + " combines every component", eqs(a.now(), [z3.If(c, p, x) for p, x in zip(prod(a, b), a.x)]))
                ex.prove(nm + "::" + n + " leaves the operand alone", eqs(b.now(), b.x))
                ex.prove(nm + "::" + n + " returns the combination", eqs(comps(ex, r), a.now()))
                wrong(f, nm + "::" + n)
        for f in one_arg("op_to"):
            a, b = two()
            ex.call_fn(f, a.at, [b.at])
            ex.prove(nm + "::op_to combines into the argument", z3.And(eqs(b.now(), prod(a, b)), eqs(a.now(), a.x)))
            wrong(f, nm + "::op_to")
        for n in ("operator*", "operator+"):
            for f in one_arg(n):
                a, b = two()
                r = ex.call_fn(f, a.at, [b.at])
                ex.prove(nm + "::" + n + " is the combination", eqs(comps(ex, r), prod(a, b)))
                ex.prove(nm + "::" + n + " leaves this alone", eqs(a.now(), a.x))
                if not is_rv(ex, f, 0):
                    ex.prove(nm + "::" + n + " leaves the operand alone", eqs(b.now(), b.x))
        for f in one_arg("operator="):
            a, b = two()
            ex.call_fn(f, a.at, [b.at])
            ex.prove(nm + "::operator= copies the value", z3.And(eqs(a.now(), b.x), eqs(b.now(), b.x)))
            wrong(f, nm + "::operator=")
        for n, want in (("operator==", lambda a, b: eqs(a.x, b.x)), ("is_equal", lambda a, b: eqs(a.x, b.x)),
                        ("operator!=", lambda a, b: z3.Not(eqs(a.x, b.x))), ("is_different", lambda a, b: z3.Not(eqs(a.x, b.x))),
                        ("operator<", lambda a, b: lex(a.x, b.x, lambda x, y: x < y)), ("is_lesser", lambda a, b: lex(a.x, b.x, lambda x, y: x < y)),
                        ("operator>", lambda a, b: lex(a.x, b.x, lambda x, y: x > y)), ("is_greater", lambda a, b: lex(a.x, b.x, lambda x, y: x > y))):
            for f in one_arg(n):
                a, b = two()
                r = ex.call_fn(f, a.at, [b.at])
                ex.prove(nm + "::" + n + " compares all the components", zb(ex.rv(r)) == want(a, b))
                ex.prove(nm + "::" + n + " changes nothing", z3.And(eqs(a.now(), a.x), eqs(b.now(), b.x)))
                wrong(f, nm + "::" + n)
        for f in one_arg("distance2"):
            a, b = two()
            r = ex.call_fn(f, a.at, [b.at])
            ex.prove(nm + "::distance2 is the sum over the components", zi(ex.rv(r)) == sum(((x - y) * (x - y) for x, y in zip(a.x, b.x)), z3.IntVal(0)))
            wrong(f, nm + "::distance2")
        for f in one_arg("swap"):
            a, b = two()
            ex.call_fn(f, a.at, [b.at])
            ex.prove(nm + "::swap exchanges the values", z3.And(eqs(a.now(), b.x), eqs(b.now(), a.x)))
            wrong(f, nm + "::swap")
        a, b = two()
        f, = meth(ex, rec, "inverse_", lambda f: True)
        r = ex.call_fn(f, a.at, [])
        ex.prove(nm + "::inverse_ inverts every component", z3.And(eqs(a.now(), inv_(a)), eqs(comps(ex, r), inv_(a))))
        for n, want in (("clone", lambda: b.x), ("make_neutral", lambda: [z3.IntVal(0)] * len(mods))):
            f, = meth(ex, rec, n, lambda f: True)
            r = ex.rv(ex.call_fn(f, b.at, []))
            ex.prove(nm + "::" + n + " gives a value of the same composite type", z3.BoolVal(ex.read(r.lv).rec == rec))
            ex.prove(nm + "::" + n + " has the expected components", eqs(comps(ex, r), want()))
            # independence of the source
            ex.call_fn(meth(ex, rec, "inverse_", lambda f: True)[0], r.lv, [])
            ex.prove(nm + "::" + n + " does not share storage", eqs(b.now(), b.x))
        f, = meth(ex, rec, "same_type", lambda f: True)
        a, b = two()
        c = Q(ex, other[0], other[1], "other")
        ex.prove(nm + "::same_type", z3.And(zb(ex.rv(ex.call_fn(f, a.at, [b.at]))), z3.Not(zb(ex.rv(ex.call_fn(f, a.at, [c.at]))))))
    return body


def hold(ex, rec, mods, name):
    """an any_quantity holding a composite charge of the given type"""
    q = Q(ex, rec, mods, name)
    ar = ex.p.find(A_ + "inverse_")["rec"]
    return ex.alloc(Struct(ar, {"impl": Ptr(q.at)})), q


def held(ex, a):
    """the composite now held by an any_quantity or designated by a reference"""
    v = ex.rv(a)
    if isinstance(v, Struct) and "impl" in v.f:
        v = v.f["impl"]
    if isinstance(v, Ptr):
        if v.lv is None:
            return None, [], None
        return ex.read(v.lv).rec, comps(ex, v.lv), v.lv
    return v.rec, comps(ex, a if isinstance(a, LV) else ex.alloc(v)), a


def erased(ex):
    p = ex.p
    recs = sorted((r, x[0]) for r, x in qrecs(p).items())
    two_c = [r for r in recs if len(r[1]) == 3][0]
    dif = [r for r in recs if len(r[1]) == 1][0]
    ar = p.find(A_ + "inverse_")["rec"]
    inverse_comp = [f for f in p.funcs.values() if f.get("rec") == two_c[0] and f["name"] == "inverse_"][0]

    def kind(f, i):
        """what the parameter is: an any_quantity, or the interface type"""
        return "any" if ptypes(ex, f)[i].get("rec") == ar else "ref"

    def operand(f, i, rq):
        a, q = hold(ex, rq[0], rq[1], "operand")
        return (a if kind(f, i) == "any" else q.at), q

    def is_value(a, rec, xs, lab):
        r, c, at = held(ex, a)
        ex.prove(lab + ": composite type", z3.BoolVal(r == rec))
        if r == rec:
            ex.prove(lab + ": value", eqs(c, xs))
        return at

    def untouched(q, lab):
        ex.prove(lab + " leaves its operand alone", eqs(q.now(), q.x))

    def independent(at, q, lab):
        if at is None:
            return
        if ex.read(at).rec == two_c[0]:
            ex.call_fn(inverse_comp, at, [])
            ex.prove(lab + " does not share storage", eqs(q.now(), q.x))
    mem = [f for f in p.funcs.values() if f.get("rec") == ar and f.get("body_") is not None]
    # construction
    n = 0
    for f in mem:
        if f["kind"] != "ctor" or len(f["params"]) != 1:
            continue
        t = ptypes(ex, f)[0]
        if t.get("rec") == ar and not is_rv(ex, f, 0) or ("vquantity" in p.ts(p.deref_type(f["params"][0]["t"])) and "unique_ptr" not in p.ts(p.deref_type(f["params"][0]["t"]))):
            src, q = operand(f, 0, two_c)
            d = ex.alloc(Struct(ar, {"impl": Ptr(None)}))
            ex.run_ctor(f, d, [src])
            at = is_value(d, two_c[0], q.x, "copy construction")
            untouched(q, "copy construction")
            independent(at, q, "copy construction")
            n += 1
    ex.prove("copy constructors found", z3.BoolVal(n == 2))
    # assignment: same and different composite types
    n = 0
    for f in mem:
        if f["name"] != "operator=":
            continue
        for dst in (two_c, dif):
            a, qa = hold(ex, dst[0], dst[1], "target")
            src, q = operand(f, 0, two_c)
            ex.call_fn(f, a, [src])
            lab = "assignment from %s%s" % (p.ts(f["params"][0]["t"]), "" if dst is two_c else " of another composite type")
            at = is_value(a, two_c[0], q.x, lab)
            if not is_rv(ex, f, 0):
                untouched(q, lab)
                independent(at, q, lab)
            n += 1
    ex.prove("assignments found", z3.BoolVal(n >= 8))
    # self assignment and assignment from a moved from value
    for f in mem:
        if f["name"] == "operator=" and kind(f, 0) == "any":
            a, qa = hold(ex, two_c[0], two_c[1], "self")
            ex.call_fn(f, a, [a])
            is_value(a, two_c[0], qa.x, "self assignment")
    # in place combination
    for f in mem:
        if f["name"] in ("operator*=", "operator+=", "op"):
            a, qa = hold(ex, two_c[0], two_c[1], "a")
            b, qb = operand(f, 0, two_c)
            c = ex.fresh(z3.BoolSort(), "cond") if len(f["params"]) == 2 else z3.BoolVal(True)
            r = ex.call_fn(f, a, [b] + ([c] if len(f["params"]) == 2 else []))
            want = [z3.If(c, u, x) for u, x in zip(prod(qa, qb), qa.x)]
            is_value(a, two_c[0], want, f["name"])
            is_value(r, two_c[0], want, f["name"] + " result")
            untouched(qb, f["name"])
            b, qb = operand(f, 0, dif)
            a, qa = hold(ex, two_c[0], two_c[1], "a")
            try:
                ex.call_fn(f, a, [b] + ([z3.BoolVal(True)] if len(f["params"]) == 2 else []))
                ex.prove(f["name"] + " refuses a charge of another composite type", z3.BoolVal(False))
            except ThrowEx:
                is_value(a, two_c[0], qa.x, f["name"] + " refused")
        if f["name"] in ("inverse", "inverse_", "neutral", "get", "inv") and not f["params"]:
            a, qa = hold(ex, two_c[0], two_c[1], "a")
            r = ex.call_fn(f, a, [])
            want = [z3.IntVal(0)] * len(qa.x) if f["name"] == "neutral" else qa.x if f["name"] == "get" else inv_(qa)
            at = is_value(r, two_c[0], want, f["name"])
            if f["name"] == "inverse_":
                is_value(a, two_c[0], want, "inverse_ in place")
            elif f["name"] == "neutral" or (f["name"] == "inverse" and f.get("const")):
                untouched(qa, f["name"])
                independent(at, qa, f["name"])
        if f["name"] == "swap":
            for rq in (two_c, dif) if kind(f, 0) == "any" else (two_c,):
                a, qa = hold(ex, two_c[0], two_c[1], "a")
                b, qb = operand(f, 0, rq)
                ex.call_fn(f, a, [b])
                is_value(a, rq[0], qb.x, "swap")
                is_value(b, two_c[0], qa.x, "swap other side")
    # out of place combination: all the overloads on references and temporaries
    n = 0
    for f in p.funcs.values():
        if f.get("body_") is None or strip(f["qual"]) not in ("quantit::operator*", "quantit::operator+") or len(f["params"]) != 2 or p.rec_of(f["ret"]) != ar:
            continue
        if not all("any_quantity" in p.ts(x["t"]) or "vquantity" in p.ts(x["t"]) for x in f["params"]):
            continue
        n += 1
        lab = "%s(%s)" % (f["name"], ", ".join(p.ts(x["t"]) for x in f["params"]))
        for bad in (False, True):
            a, qa = operand(f, 0, two_c)
            b, qb = operand(f, 1, dif if bad else two_c)
            try:
                r = ex.call_fn(f, None, [a, b])
            except ThrowEx:
                ex.prove(lab + " raises only for different composite types", z3.BoolVal(bad))
                continue
            if bad:
                ex.prove(lab + " refuses a charge of another composite type", z3.BoolVal(False))
                continue
            at = is_value(r, two_c[0], prod(qa, qb), lab)
            for i, q in ((0, qa), (1, qb)):
                if not is_rv(ex, f, i):
                    untouched(q, lab)
            for i, q in ((0, qa), (1, qb)):
                if not is_rv(ex, f, i):
                    independent(at, q, lab)
    ex.prove("out of place combinations found", z3.BoolVal(n == 8))
    for name, want in (("quantit::vquantity::inverse", inv_), ("quantit::vquantity::inv", inv_), ("quantit::vquantity::neutral", lambda q: [z3.IntVal(0)] * len(q.x))):
        f = p.find(name, 0)
        q = Q(ex, two_c[0], two_c[1], "v")
        r = ex.call_fn(f, q.at, [])
        at = is_value(r, two_c[0], want(q), name)
        untouched(q, name)
        independent(at, q, name)
    for name, want in (("==", lambda a, b: eqs(a.x, b.x)), ("!=", lambda a, b: z3.Not(eqs(a.x, b.x))),
                       ("<", lambda a, b: lex(a.x, b.x, lambda x, y: x < y)), (">", lambda a, b: lex(a.x, b.x, lambda x, y: x > y))):
        f = p.find("quantit::operator" + name, 2, lambda f: "vquantity" in p.ts(f["params"][0]["t"]))
        a, b = Q(ex, two_c[0], two_c[1], "a"), Q(ex, two_c[0], two_c[1], "b")
        ex.prove("vquantity " + name, zb(ex.rv(ex.call_fn(f, None, [a.at, b.at]))) == want(a, b))
        c = Q(ex, dif[0], dif[1], "c")
        try:
            ex.call_fn(f, None, [a.at, c.at])
            ex.prove("vquantity %s refuses a charge of another composite type" % name, z3.BoolVal(False))
        except ThrowEx:
            pass


UNITS = [dict(name="composite type %d" % i, tu="aq", body=composite(i), opts=OPTS) for i in range(14)]
UNITS += [dict(name="any_quantity", tu="aq", body=erased, opts=OPTS)]
DRIVERS = [dict(src="drivers/C02.cpp", libs=["any_quantity", "groups"])]
EXPLANATION = ("contracts on every member of every instantiated composite type and on every operation of the type-erased value; operands of another "
               "composite type are refused")
