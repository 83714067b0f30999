"""C01: elementary charges"""
from spec import *

LEVEL = "proof"
NOTE = ("Every member of C<N> and of Z that builds, combines, inverts or compares charges meets its contract for all 16 bit arguments and, with N kept "
        "symbolic, for every modulus 1..65535; the group laws are proved over the real operations. Exact 16 and 32 bit machine arithmetic. Assumes the "
        "extractor, the generator, and that sums of integer charges stay within 16 bits. The compiled code is also run on all values of 21 moduli.")
TUS = {"ch": ("vcg/tu/charges.cpp", ["R quantit::conserved::.*", "F verif_use"])}
C_ = "quantit::conserved::C<5>::"   # the instantiation whose argument is made symbolic
Z_ = "quantit::conserved::Z::"


class Cyc:
    """the cyclic group of symbolic order"""
    tag = "C"

    def __init__(self, ex):
        self.ex = ex
        self.N = ex.fresh(I, "N")
        ex.assume(z3.And(self.N >= 1, self.N <= 65535))
        ex.symbols["mod"] = self.N
        self.rec = ex.p.find(C_ + "inverse_")["rec"]
        self.q = C_

    def rep(self, x):
        return x % self.N

    def valid(self, x):
        return z3.And(x >= 0, x < self.N)


class Int:
    tag = "Z"

    def __init__(self, ex):
        self.ex = ex
        self.rec = ex.p.find(Z_ + "inverse_")["rec"]
        self.q = Z_

    def rep(self, x):
        return x

    def valid(self, x):
        return z3.And(x >= -32767, x <= 32767)


def mk(g, name):
    a = g.ex.alloc(g.ex.fresh_rec(g.rec, name))
    x = val(g, a)
    g.ex.assume(g.valid(x))
    return a, x


def val(g, a):
    return zi(g.ex.rv(a).f["val"])


def call(g, name, this, args, np=None, where=None):
    f = g.ex.p.find(g.q + name, len(args) if np is None else np, where)
    return g.ex.call_fn(f, this, [zrv(g, a) for a in args])


def zrv(g, a):
    """by value arguments are passed as copies"""
    v = g.ex.rv(a)
    return g.ex.alloc(v) if isinstance(v, Struct) else v


def same(g, a, x, label):
    g.ex.prove(label, z3.And(val(g, a) == x, g.valid(val(g, a))))


def fits(g, *xs):
    # the documented range of integer charges
    if g.tag == "Z":
        for x in xs:
            g.ex.assume(g.valid(x))


def neutral(g):
    e = g.ex.alloc(g.ex.fresh_rec(g.rec, "e"))
    g.ex.run_ctor(g.ex.p.find(g.q + g.tag, 0), e, [])
    return e


def construct(G):
    def body(ex):
        g = G(ex)
        a = ex.alloc(ex.fresh_rec(g.rec, "c"))
        v = ex.fresh(I, "value")
        ex.assume(z3.And(v >= (-32768 if g.tag == "C" else -32767), v <= 32767))
        f = ex.p.find(g.q + g.tag, 1, lambda f: ex.p.T(f["params"][0]["t"])["k"] == "int")
        ex.run_ctor(f, a, [v])
        if g.tag == "Z":
            same(g, a, v, "stores the integer itself")
        else:
            # canonical and congruent to the argument; the quotient is the ghost witness
            n = z3.If(v >= 0, v, -v)
            k = z3.If(v >= 0, -(n / g.N), n / g.N + z3.If(n % g.N != 0, 1, 0))
            ex.prove("stores a canonical representative", g.valid(val(g, a)))
            ex.prove("congruent to the argument", val(g, a) == v + k * g.N)
        b = neutral(g)
        same(g, b, z3.IntVal(0), "default value is the neutral element")
    return body


def combine(G, name, np):
    """op, op with condition, += and *= : in place combination"""
    def body(ex):
        g = G(ex)
        a, x = mk(g, "a")
        b, y = mk(g, "b")
        fits(g, x + y)
        args = [b]
        c = z3.BoolVal(True)
        if np == 2:
            c = ex.fresh(z3.BoolSort(), "cond")
            args.append(c)
        r = call(g, name, a, args)
        same(g, a, z3.If(c, g.rep(x + y), x), "combines the represented integers, exactly when asked to")
        ex.prove("returns the combined charge", val(g, r) == val(g, a))
        ex.prove("the operand is untouched", val(g, b) == y)
    return body


def outplace(G, name):
    def body(ex):
        g = G(ex)
        a, x = mk(g, "a")
        b, y = mk(g, "b")
        fits(g, x + y)
        f = free(g, name)
        r = ex.call_fn(f, None, [zrv(g, a), zrv(g, b)])
        ex.prove("combination of the represented integers", z3.And(val(g, r) == g.rep(x + y), g.valid(val(g, r))))
    return body


def free(g, name):
    """the overload of a free (or friend) function for this group"""
    for qn in ("quantit::conserved::" + name, g.q + name):
        for f in g.ex.p.byqual.get(qn, []):
            if f["params"] and g.ex.p.rec_of(f["params"][0]["t"]) == g.rec:
                return f
    raise ContractMismatch("no function %s under contract in this tree" % name)


def inverse(G):
    def body(ex):
        g = G(ex)
        a, x = mk(g, "a")
        r = call(g, "inverse", a, [])
        same(g, r, g.rep(-x), "inverse represents the opposite integer")
        ex.prove("out of place inverse leaves the charge alone", val(g, a) == x)
        s = call(g, "inverse_", a, [])
        same(g, a, g.rep(-x), "in place inverse represents the opposite integer")
        ex.prove("returns the inverted charge", val(g, s) == val(g, a))
        b = ex.alloc(ex.rv(r))
        call(g, "op", b, [ex.alloc(Struct(g.rec, dict(ex.rv(b).f, val=x)))])
        ex.prove("a charge combined with its inverse is neutral", val(g, b) == 0)
    return body


def laws(G):
    def body(ex):
        g = G(ex)
        (a, x), (b, y), (c, w) = mk(g, "a"), mk(g, "b"), mk(g, "c")
        fits(g, x + y, y + w, x + y + w)

        def op(u, v):
            r = zrv(g, u)
            call(g, "op", r, [v])
            return r
        ab, ba = op(a, b), op(b, a)
        ex.prove("commutative", val(g, ab) == val(g, ba))
        ex.prove("associative", val(g, op(ab, c)) == val(g, op(a, op(b, c))))
        e = neutral(g)
        ex.prove("neutral element", z3.And(val(g, op(a, e)) == x, val(g, op(e, a)) == x))
    return body


def compare(G):
    def body(ex):
        g = G(ex)
        a, x = mk(g, "a")
        b, y = mk(g, "b")
        for name, want in (("operator==", x == y), ("operator!=", x != y), ("operator<", x < y), ("operator>", x > y)):
            r = call(g, name, a, [b])
            ex.prove(name + " is the comparison of the canonical values", zb(r) == want)
        ex.prove("get_val", zi(ex.rv(call(g, "get_val", a, []))) == x)
        for name, f in (("distance2 member", lambda: call(g, "distance2", a, [b])),
                        ("distance2", lambda: ex.call_fn(free(g, "distance2"), None, [zrv(g, a), zrv(g, b)]))):
            ex.prove(name + " is the squared difference", zi(ex.rv(f())) == (x - y) * (x - y))
        ex.call_fn(ex.p.find(g.q + "swap", 1), a, [b])
        ex.prove("swap exchanges", z3.And(val(g, a) == y, val(g, b) == x))
        ex.call_fn(free(g, "swap"), None, [a, b])
        ex.prove("free swap exchanges", z3.And(val(g, a) == x, val(g, b) == y))
    return body


UNITS = []
O32 = dict(exact32=True)
for G, t in ((Cyc, "C<N>"), (Int, "Z")):
    UNITS += [dict(name=t + " constructors", tu="ch", body=construct(G), opts=O32),
              dict(name=t + " inverse", tu="ch", body=inverse(G), opts=O32),
              dict(name=t + " laws", tu="ch", body=laws(G), opts=O32),
              dict(name=t + " comparisons", tu="ch", body=compare(G), opts=O32)]
    UNITS += [dict(name=t + " " + n + "/%d" % k, tu="ch", body=combine(G, n, k), opts=O32)
              for n, k in (("op", 1), ("op", 2), ("operator+=", 1), ("operator*=", 1))]
    UNITS += [dict(name=t + " " + n, tu="ch", body=outplace(G, n), opts=O32) for n in ("operator+", "operator*", "op")]
DRIVERS = [dict(src="drivers/C01.cpp", libs=[], flags=["-O1"])]
EXPLANATION = ("contracts on every operation of the two elementary groups, with the modulus a symbolic constant: the value after the operation is the "
               "canonical representative of the mathematical result; group laws as lemmas over the real operations")
