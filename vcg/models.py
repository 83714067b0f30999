"""Contracts assumed for the C++ standard library, boost::stl_interfaces and torch/c10 entry points (trusted base).

Every model is a small executable contract; obligations it raises (ranges, non emptiness) are checked at each call.
"""
import z3

from engine import *
import engine

REGISTERED = []


def doc(name, text):
    REGISTERED.append((name, text))


# ------------------------------------------------------------------ type shapes
@type_shape(r"^(std::vector|std::initializer_list|c10::ArrayRef|std::array|c10::SmallVector)<")
def _vec_shape(ex, T):
    s = T["s"]
    if s.startswith("std::vector<std::_Bit"):
        return ("opaque",)
    return ("vec", ex.shape(ex.rec_targ(T, 0)))


@type_shape(r"^std::(tuple|pair)<")
def _tup_shape(ex, T):
    r = ex.p.records[T["rec"]]
    ta = r["targs"]
    if ta and "pack" in ta[0]:
        ta = ta[0]["pack"]
    return ("tup", [ex.shape(a["type"]) for a in ta])


@type_shape(r"^std::(__cxx11::)?basic_string<")
def _str_shape(ex, T):
    return ("struct", "str", [("len", ("leaf", I, None))])


@type_shape(r"^at::Tensor(Base)?$")
def _ten_shape(ex, T):
    return ("leaf", TEN, None)


@type_shape(r"^quantit::btensor$")
def _bten_shape(ex, T):
    """units working on networks may take block tensors as opaque values"""
    if ex.opts.get("abstract_tensor"):
        return ("leaf", TEN, None)
    return concrete_shape(ex, T)


@type_shape(r"^(quantit::any_quantity|quantit::any_quantity_cref|quantit::vquantity)$")
def _q_shape(ex, T):
    if ex.opts.get("abstract_q"):
        return ("leaf", Q, None)
    return concrete_shape(ex, T)


@type_shape(r"^quantit::any_quantity_vector$")
def _qv_shape(ex, T):
    if ex.opts.get("abstract_q"):
        return ("vec", ("leaf", Q, None))
    return concrete_shape(ex, T)


@type_shape(r"^quantit::quantity_vector<")
def _qvi_shape(ex, T):
    # derives from std::vector without data of its own
    if not T["s"].endswith(">"):
        return concrete_shape(ex, T)      # nested type
    return ("vec", ex.shape(ex.rec_targ(T, 0)))


@type_shape(r"^quantit::flat_map<")
def _fm_shape(ex, T):
    if ex.opts.get("abstract_map"):
        return ("vec", ("tup", [ex.shape(ex.rec_targ(T, 0)), ex.shape(ex.rec_targ(T, 1))]))
    return concrete_shape(ex, T)


def concrete_shape(ex, T):
    return ("struct", T["rec"], [(f["name"], ex.shape(f["t"])) for f in ex.p.all_fields(T["rec"])])


@type_shape(r"^at::indexing::Slice$")
def _slice_shape(ex, T):
    return ("struct", "slice", [(f, ("leaf", I, None)) for f in ("start", "stop", "step")])


@type_shape(r"^at::indexing::TensorIndex$")
def _tidx_shape(ex, T):
    # kind: 0 ellipsis, 1 integer, 2 slice, 3 none
    return ("struct", "tindex", [(f, ("leaf", I, None)) for f in ("kind", "start", "stop", "step")])


@type_shape(r"^(c10::TensorOptions|c10::Scalar|std::allocator|c10::ScalarType|caffe2::TypeMeta|std::less<|fmt::)")
def _opq(ex, T):
    return ("opaque",)


# key type of the generic map (units set opts['keysort'])
tensor_dim = z3.Function("tensor_dim", TEN, I)
tensor_sizes = z3.Function("tensor_sizes", TEN, AI)
TSUM = z3.Function("tensor_sum", TEN, I, TEN)   # sum over one dimension, which is kept with size 1


# ------------------------------------------------------------------ helpers
def mkstr(n):
    return Struct("str", {"len": n})


def vec_of(c, x):
    v = c.ex.rv(x)
    if not isinstance(v, Vec):
        raise Unsupported("expected a sequence, got %s" % type(v).__name__)
    return v


def lv_of(c, x):
    return x if isinstance(x, LV) else c.ex.alloc(c.ex.rv(x))


def as_seq_lv(c, x):
    """lvalue of the sequence designated by x"""
    lv = lv_of(c, x)
    vec_of(c, lv)
    return lv


def shift_insert(ex, v, pos, cnt, newdata):
    """sequence v with cnt elements inserted at pos; element j of the insertion is newdata(j)"""
    i = z3.FreshConst(I, "ins")

    def leafop(a):
        raise NotImplementedError
    old = v.data

    def build(j):
        before = tmap(lambda a: z3.Select(a, j), old)
        after = tmap(lambda a: z3.Select(a, j - zi(cnt)), old)
        mid = newdata(j - zi(pos))
        return tmap(lambda x, y, m: z3.If(j < zi(pos), zt(x), z3.If(j < zi(pos) + zi(cnt), zt(m), zt(y))), before, after, mid)
    body = build(i)
    data = tmap(lambda b: z3.Lambda([i], b), body)
    return Vec(simp(zi(v.n) + zi(cnt)), data)


def shift_erase(ex, v, pos, cnt):
    i = z3.FreshConst(I, "era")
    data = tmap(lambda a: z3.Lambda([i], z3.If(i < zi(pos), z3.Select(a, i), z3.Select(a, i + zi(cnt)))), v.data)
    return Vec(simp(zi(v.n) - zi(cnt)), data)


def map_range(v, lo, n, f):
    """elements lo..lo+n replaced by f(j), j the offset from lo"""
    i = z3.FreshConst(I, "mr")
    body = tmap(lambda a, m: z3.If(z3.And(i >= zi(lo), i < zi(lo) + zi(n)), zt(m), z3.Select(a, i)), v.data, f(i - zi(lo)))
    return Vec(v.n, tmap(lambda b: z3.Lambda([i], b), body))


def const_data(ex, elem):
    return tmap(lambda x: z3.K(I, zt(x)), elem)


def zero_elem(ex, t):
    sh = ex.shape(t)
    if sh[0] == "leaf":
        if sh[1] == I:
            return 0
        if sh[1] == B:
            return False
        if sh[1] == z3.RealSort():
            return z3.RealVal(0)
    if sh[0] == "vec":
        return Vec(0, ex.fresh_shape(sh, "e").data)
    if sh[0] == "tup":
        r = ex.p.records[ex.p.T(t)["rec"]]
        ta = r["targs"]
        if ta and "pack" in ta[0]:
            ta = ta[0]["pack"]
        return Tup([zero_elem(ex, a["type"]) for a in ta])
    if sh[0] == "struct" and isinstance(sh[1], int):
        return ex.value_init(t)
    return ex.fresh_shape(sh, "default")


def elem_type(c, T):
    return c.ex.rec_targ(T, 0)


def it_range(c, a, b):
    """(sequence value, lo, hi) of two iterators over the same sequence"""
    a, b = c.val(a), c.val(b)
    if not isinstance(a, It) or not isinstance(b, It):
        raise Unsupported("iterator range of %s" % type(a).__name__)
    if a.rev:
        raise Unsupported("reverse range")
    return c.ex.read(a.lv), a.i, b.i


# ------------------------------------------------------------------ std::vector and views
VEC = r"(std::vector|std::initializer_list|c10::ArrayRef|std::array)"
VX = VEC[:-1] + r"|quantit::any_quantity_vector|quantit::flat_map)"


def is_abs(c):
    v = c.ex.rv(c.obj)
    return isinstance(v, Vec)


@ctor_model(r"^(std::vector|c10::ArrayRef|std::initializer_list|quantit::quantity_vector)<")
def _vec_ctor(c, T):
    ex = c.ex
    if T["s"].startswith("quantit::") and not T["s"].endswith(">"):
        return NotImplemented
    a = c.args
    et = elem_type(c, T)
    empty = ex.fresh_shape(("vec", ex.shape(et)), "vec").data if True else None
    vals = [ex.rv(x) for x in a]
    vals = [v for v in vals if not isinstance(v, Opaque) or v.what != "alloc"]
    pt = [ex.p.ts(ex.p.deref_type(t)) for t in c.fn["pt"]]
    if not vals:
        return Vec(0, empty)
    if len(vals) == 1:
        v = vals[0]
        if isinstance(v, Vec):
            if c.fn["ck"] == "move" and isinstance(a[0], LV):
                ex.moved(a[0], v)
            return v
        if "c10::ArrayRef" in T["s"] and c.fn["ck"] == "other":
            return Vec(1, tmap(lambda x: z3.K(I, zt(x)), v))
        if isinstance(v, (int,)) or (z3.is_expr(v) and v.sort() == I):
            ex.check("vector size non negative", zi(v) >= 0)
            return Vec(v, const_data(ex, zero_elem(ex, et)))
        return NotImplemented
    if len(vals) == 2:
        if isinstance(vals[0], It) and isinstance(vals[1], It):
            s = ex.read(vals[0].lv)
            lo, hi = vals[0].i, vals[1].i
            if vals[0].rev and vals[1].rev:
                lo, hi = hi, lo
                ex.check("iterator range valid", z3.And(0 <= zi(lo), zi(lo) <= zi(hi), zi(hi) <= zi(s.n)))
                j = z3.FreshConst(I, "cp")
                return Vec(simp(zi(hi) - zi(lo)), tmap(lambda x: z3.Lambda([j], z3.Select(x, zi(hi) - 1 - j)), s.data))
            ex.check("iterator range valid", z3.And(0 <= zi(lo), zi(lo) <= zi(hi), zi(hi) <= zi(s.n)))
            j = z3.FreshConst(I, "cp")
            return Vec(simp(zi(hi) - zi(lo)), tmap(lambda x: z3.Lambda([j], z3.Select(x, j + zi(lo))), s.data) if not z3.is_int_value(z3.simplify(zi(lo))) or simp(zi(lo)) != 0 else s.data)
        if is_term(vals[0]) and "ArrayRef" not in T["s"]:
            ex.check("vector size non negative", zi(vals[0]) >= 0)
            return Vec(vals[0], const_data(ex, vals[1]))
        if isinstance(vals[0], Vec):
            return vals[0]
        if isinstance(vals[0], It) and "ArrayRef" in T["s"]:
            s = ex.read(vals[0].lv)
            j = z3.FreshConst(I, "ar")
            return Vec(vals[1], tmap(lambda x: z3.Lambda([j], z3.Select(x, j + zi(vals[0].i))), s.data))
    return NotImplemented


@ctor_model(r"^std::allocator<")
def _alloc_ctor(c, T):
    return Opaque("alloc")


INDEX_MAX, INDEX_MIN = (1 << 63) - 1, -(1 << 63)


@ctor_model(r"^c10::optional<long>$")
def _opt_ctor(c, T):
    v = c.val(0) if c.args else None
    if isinstance(v, Struct):
        return v
    if is_term(v):
        return Struct("optional", {"has": True, "v": v})
    return Struct("optional", {"has": False, "v": 0})


@ctor_model(r"^at::indexing::Slice$")
def _slice_ctor(c, T):
    """torch: an omitted start is the first index, an omitted stop is past the last one, an omitted step is 1"""
    a = [c.val(i) for i in range(len(c.args))]
    if len(a) == 1 and isinstance(a[0], Struct) and a[0].rec == "slice":
        return a[0]
    a += [Struct("optional", {"has": False, "v": 0})] * (3 - len(a))
    if a[2].f["has"] and simp(a[2].f["v"]) != 1:
        raise Unsupported("slice with a step")
    return Struct("slice", {"start": a[0].f["v"] if a[0].f["has"] else 0, "stop": a[1].f["v"] if a[1].f["has"] else INDEX_MAX, "step": 1})


@ctor_model(r"^at::indexing::TensorIndex$")
def _tidx_ctor(c, T):
    v = c.val(0)
    P = c.ex.p.ts(c.ex.p.deref_type(c.fn["pt"][0]))
    mk = lambda k, a, b: Struct("tindex", {"kind": k, "start": a, "stop": b, "step": 1})
    if "Ellipsis" in P:
        return mk(0, 0, 0)
    if isinstance(v, Struct) and v.rec == "slice":
        return mk(2, v.f["start"], v.f["stop"])
    if isinstance(v, Struct) and v.rec == "tindex":
        return v
    if "nullopt" in P:
        return mk(3, 0, 0)
    if P in ("long", "int"):
        return mk(1, v, 0)
    return NotImplemented


@ctor_model(r"^(std::(less|greater|multiplies|plus|minus|equal_to|logical_or|logical_and)<|c10::TensorOptions|c10::Scalar|c10::optional|c10::nullopt|fmt::|std::(invalid_argument|out_of_range|runtime_error|logic_error|domain_error|bad_cast)|caffe2::TypeMeta|torch::TensorOptions|std::integral_constant)")
def _opq_ctor(c, T):
    if T["s"].startswith("c10::TensorOptions"):
        return OPAQUE
    if T["s"] == "c10::Scalar" and len(c.args) == 1 and z3.is_expr(c.val(0)) and c.val(0).sort() == OPQ:
        return c.val(0)
    return Opaque(T["s"])


@ctor_model(r"^std::(__cxx11::)?basic_string<")
def _str_ctor(c, T):
    if not c.args:
        return mkstr(0)
    v = c.val(0)
    if isinstance(v, Struct) and v.rec == "str":
        return v
    lit = c.node["args"][0]
    while lit and lit.get("k") == "ImplicitCastExpr":
        lit = lit["e"]
    if lit and lit.get("k") == "StringLiteral":
        return mkstr(len(lit["v"]))
    return NotImplemented


@ctor_model(r"^__gnu_cxx::__normal_iterator<")
def _it_ctor(c, T):
    return c.val(0) if c.args else Ptr(None)


@ctor_model(r"^std::reverse_iterator<")
def _rit_ctor(c, T):
    v = c.val(0)
    if isinstance(v, It):
        return v if v.rev else It(v.lv, v.i, True, v.kind)
    return NotImplemented


@ctor_model(r"^std::(tuple|pair)<")
def _tup_ctor(c, T):
    ex = c.ex
    if len(c.args) == 1 and c.fn["ck"] in ("copy", "move"):
        return c.val(0)
    r = ex.p.records[T["rec"]]
    ta = r["targs"]
    if ta and "pack" in ta[0]:
        ta = ta[0]["pack"]
    if len(c.args) == 1 and isinstance(c.val(0), Tup) and len(ta) == len(c.val(0).v):
        return c.val(0)
    if not c.args:
        return Tup([ex.value_init(a["type"]) for a in ta])
    if len(c.args) != len(ta):
        return NotImplemented
    out = []
    for a, x in zip(ta, c.args):
        k = ex.p.T(a["type"])["k"]
        if k in ("ref", "rref"):
            out.append(Ptr(lv_of(c, x)))
        else:
            out.append(conv_elem(ex, ex.rv(x), a["type"]))
    return Tup(out)


def conv_elem(ex, v, t):
    return v


@ctor_model(r"^quantit::(any_quantity|any_quantity_cref|vquantity)$")
def _q_ctor(c, T):
    if not c.ex.opts.get("abstract_q"):
        return NotImplemented
    if not c.args:
        return c.ex.fresh(Q, "qnull")
    return qval(c, 0)


@ctor_model(r"^quantit::any_quantity_ref$")
def _qr_ctor(c, T):
    if not c.ex.opts.get("abstract_q"):
        return NotImplemented
    v = c.val(0)
    if isinstance(v, Ptr):
        return v
    return Ptr(lv_of(c, c.args[0]))


@ctor_model(r"^quantit::any_quantity_vector$")
def _qv_ctor(c, T):
    ex = c.ex
    if not ex.opts.get("abstract_q"):
        return NotImplemented
    vals = [ex.rv(x) for x in c.args]
    if not vals:
        return Vec(0, ex.fresh(AQ, "qv"))
    if len(vals) == 1 and isinstance(vals[0], Vec):
        if c.fn["ck"] == "move" and isinstance(c.args[0], LV):
            ex.moved(c.args[0], vals[0])
        return vals[0]
    if len(vals) == 2 and is_term(vals[0]) and z3.is_expr(zt(vals[1])) and zt(qv(ex, vals[1])).sort() == Q and zt(vals[0]).sort() == I:
        return Vec(vals[0], z3.K(I, qv(ex, vals[1])))
    if len(vals) == 2 and isinstance(vals[0], It):
        s = ex.read(vals[0].lv)
        j = z3.FreshConst(I, "cp")
        return Vec(simp(zi(vals[1].i) - zi(vals[0].i)), z3.Lambda([j], z3.Select(s.data, j + zi(vals[0].i))))
    return NotImplemented


def qv(ex, v):
    if isinstance(v, Ptr):
        v = ex.read(v.lv)
    return v


def qval(c, i):
    return qv(c.ex, c.val(i))


@model(VX + r"::(operator\[\]|at)")
def _v_index(c):
    if not is_abs(c):
        return NotImplemented
    v = c.self()
    i = c.val(0)
    if not is_term(i):
        return NotImplemented
    if c.fn["name"] == "at":
        ok = z3.And(zi(i) >= 0, zi(i) < zi(v.n))
        if not c.ex.branch(ok):
            raise ThrowEx("std::out_of_range")
    else:
        c.ex.check("index in bounds", z3.And(zi(i) >= 0, zi(i) < zi(v.n)), c.node.get("l"))
    lv = c.obj.idx(i)
    if c.ex.p.ts(c.fn["ret"]) == "quantit::any_quantity_ref":
        return Ptr(lv)
    return lv


@model(VX + r"::(size|length)")
def _v_size(c):
    if not is_abs(c):
        return NotImplemented
    return c.self().n


@model(VX + r"::empty")
def _v_empty(c):
    if not is_abs(c):
        return NotImplemented
    return simp(zi(c.self().n) == 0)


@model(VX + r"::(begin|cbegin|data)")
def _v_begin(c):
    if not is_abs(c):
        return NotImplemented
    return It(c.obj, 0)


@model(VX + r"::(end|cend)")
def _v_end(c):
    if not is_abs(c):
        return NotImplemented
    return It(c.obj, c.self().n)


@model(VX + r"::(rbegin|crbegin)")
def _v_rbegin(c):
    if not is_abs(c):
        return NotImplemented
    return It(c.obj, c.self().n, True)


@model(VX + r"::(rend|crend)")
def _v_rend(c):
    if not is_abs(c):
        return NotImplemented
    return It(c.obj, 0, True)


@model(VX + r"::(back|front)")
def _v_back(c):
    if not is_abs(c):
        return NotImplemented
    v = c.self()
    c.ex.check("back/front of a non empty sequence", zi(v.n) > 0, c.node.get("l"))
    return c.obj.idx(simp(zi(v.n) - 1) if c.fn["name"] == "back" else 0)


@model(VX + r"::(push_back|emplace_back)")
def _v_push(c):
    if not is_abs(c):
        return NotImplemented
    v = c.self()
    x = qv(c.ex, c.val(0)) if len(c.args) == 1 else Tup([c.val(i) for i in range(len(c.args))])
    w = v.set(v.n, x)
    w.n = simp(zi(v.n) + 1)
    c.ex.write(c.obj, w)
    return c.obj.idx(v.n)


@model(VX + r"::pop_back")
def _v_pop(c):
    if not is_abs(c):
        return NotImplemented
    v = c.self()
    c.ex.check("pop_back of a non empty sequence", zi(v.n) > 0, c.node.get("l"))
    c.ex.write(c.obj, Vec(simp(zi(v.n) - 1), v.data))


@model(VX + r"::(reserve|shrink_to_fit)")
def _v_reserve(c):
    if not is_abs(c):
        return NotImplemented
    return None


@model(VX + r"::capacity")
def _v_cap(c):
    if not is_abs(c):
        return NotImplemented
    v = c.self()
    n = c.ex.fresh(I, "cap")
    c.ex.assume(n >= zi(v.n))
    return n


@model(VX + r"::clear")
def _v_clear(c):
    if not is_abs(c):
        return NotImplemented
    c.ex.write(c.obj, Vec(0, c.self().data))


@model(VX + r"::resize")
def _v_resize(c):
    if not is_abs(c):
        return NotImplemented
    v = c.self()
    n = c.val(0)
    if len(c.args) > 1:
        e = c.val(1)
    else:
        T = c.ex.p.records[c.fn["rec"]]
        e = zero_elem(c.ex, T["targs"][0]["type"]) if T.get("targs") else qe
    if not isinstance(n, int) and c.ex.entails(zi(n) <= zi(v.n)):
        # shorter: the elements kept do not change, those beyond the length are not observable
        c.ex.write(c.obj, Vec(n, v.data))
        return
    j = z3.FreshConst(I, "rs")
    d = tmap(lambda a, x: z3.Lambda([j], z3.If(j < zi(v.n), z3.Select(a, j), zt(x))), v.data, e)
    c.ex.write(c.obj, Vec(n, d))


@model(r"(std::vector|quantit::any_quantity_vector)::(erase)")
def _v_erase(c):
    if not is_abs(c):
        return NotImplemented
    v = c.self()
    it = c.val(0)
    if not isinstance(it, It):
        return NotImplemented
    if len(c.args) == 1:
        c.ex.check("erase position valid", z3.And(zi(it.i) >= 0, zi(it.i) < zi(v.n)), c.node.get("l"))
        c.ex.write(c.obj, shift_erase(c.ex, v, it.i, 1))
    else:
        b = c.val(1)
        c.ex.check("erase range valid", z3.And(zi(it.i) >= 0, zi(it.i) <= zi(b.i), zi(b.i) <= zi(v.n)), c.node.get("l"))
        c.ex.write(c.obj, shift_erase(c.ex, v, it.i, simp(zi(b.i) - zi(it.i))))
    return It(c.obj, it.i)


@model(r"(std::vector|quantit::any_quantity_vector)::(insert|emplace)")
def _v_insert(c):
    if not is_abs(c):
        return NotImplemented
    v = c.self()
    it = c.val(0)
    if not isinstance(it, It):
        return NotImplemented
    ex = c.ex
    ex.check("insert position valid", z3.And(zi(it.i) >= 0, zi(it.i) <= zi(v.n)), c.node.get("l"))
    if len(c.args) == 2:
        x = qv(ex, c.val(1))
        if isinstance(x, Vec) and not isinstance(v.data, Vec):
            ex.write(c.obj, shift_insert(ex, v, it.i, x.n, lambda j: tmap(lambda a: z3.Select(a, j), x.data)))
            return It(c.obj, it.i)
        ex.write(c.obj, shift_insert(ex, v, it.i, 1, lambda j: x))
        return It(c.obj, it.i)
    if len(c.args) == 3:
        a, b = c.val(1), c.val(2)
        if isinstance(a, It):
            s = ex.read(a.lv)
            ex.check("inserted range valid", z3.And(zi(a.i) >= 0, zi(a.i) <= zi(b.i), zi(b.i) <= zi(s.n)), c.node.get("l"))
            ex.write(c.obj, shift_insert(ex, v, it.i, simp(zi(b.i) - zi(a.i)), lambda j: tmap(lambda x: z3.Select(x, j + zi(a.i)), s.data)))
            return It(c.obj, it.i)
        if c.fn["name"] == "insert" and is_term(a):
            ex.write(c.obj, shift_insert(ex, v, it.i, a, lambda j: b))
            return It(c.obj, it.i)
        ex.write(c.obj, shift_insert(ex, v, it.i, 1, lambda j: Tup([a, b])))
        return It(c.obj, it.i)
    return NotImplemented


@model(r"(std::vector|std::tuple|std::pair|std::initializer_list|c10::ArrayRef|quantit::any_quantity_vector)::operator=")
def _v_assign(c):
    v = c.val(0)
    if isinstance(v, (Vec, Tup)) or (z3.is_expr(v)):
        dst = c.ex.rv(c.obj)
        if isinstance(dst, Tup) and isinstance(v, Tup) and any(isinstance(x, Ptr) for x in dst.v):
            # std::tie(...) = tuple
            for d, x in zip(dst.v, v.v):
                if isinstance(d, Ptr):
                    c.ex.write(d.lv, x)
            return c.obj
        if isinstance(v, Vec) and isinstance(c.args[0], LV) and c.ex.p.T(c.fn["pt"][0])["k"] == "rref":
            c.ex.moved(c.args[0], v)
        c.ex.write(c.obj, v)
        return c.obj
    return NotImplemented


@model(r"quantit::swap")
def _f_swap(c):
    if len(c.args) == 2 and all(isinstance(a, LV) for a in c.args) and all(isinstance(c.ex.read(a), Vec) or z3.is_expr(c.ex.read(a)) for a in c.args):
        return _swap(c)
    return NotImplemented


@model(r"quantit::any_quantity(_ref)?::swap")
def _m_swap(c):
    a, b = c.self(), c.val(0)
    if z3.is_expr(a) and z3.is_expr(b):
        c.ex.write(c.obj, b)
        c.ex.write(c.args[0], a)
        return None
    return NotImplemented


@model(r"(std::vector|std::tuple|std::pair|quantit::any_quantity_vector|quantit::flat_map)::swap")
def _v_swap(c):
    a, b = c.self(), c.val(0)
    if isinstance(a, (Vec, Tup)):
        c.ex.write(c.obj, b)
        c.ex.write(c.args[0], a)
        return None
    return NotImplemented


@model(r"c10::ArrayRef::vec")
def _ar_vec(c):
    return c.self()


@model(r"c10::ArrayRef::slice")
def _ar_slice(c):
    a, s = c.self(), zi(c.val(0))
    n = zi(c.val(1)) if len(c.args) > 1 else zi(a.n) - s
    if not c.ex.branch(z3.And(s + n <= zi(a.n), n >= 0)):
        raise ThrowEx("c10::Error")
    j = z3.FreshConst(I, "sl")
    return Vec(simp(n), tmap(lambda x: z3.Lambda([j], z3.Select(x, s + j)), a.data))


@model(r"c10::ArrayRef::equals")
def _ar_eq(c):
    return veq(c.self(), c.val(0))


@model(r"std::operator(==|!=)|c10::operator(==|!=)")
def _v_eq(c):
    a, b = c.val(0), c.val(1)
    op = c.fn["op"]
    if isinstance(a, Struct) and a.rec == "str" or isinstance(b, Struct) and b.rec == "str":
        lit = [x for x in c.node["args"]]
        for x in lit:
            y = x
            while y and y.get("k") in ("ImplicitCastExpr",):
                y = y["e"]
            if y and y.get("k") == "StringLiteral" and y["v"] == "":
                s = a if isinstance(a, Struct) else b
                e = zi(s.f["len"]) == 0
                return simp(e if op == "==" else z3.Not(e))
        return NotImplemented
    if isinstance(a, (Vec, Tup)) and isinstance(b, (Vec, Tup)):
        if isinstance(a, Tup) and any(isinstance(x, Struct) for x in a.v):
            return NotImplemented if not tuple_struct(c) else tuple_eq(c, a, b, op)
        e = veq(a, b)
        return simp(e if op == "==" else z3.Not(e))
    return NotImplemented


def tuple_struct(c):
    return True


def struct_cmp(c, x, y, name):
    """user comparison operator of two element values"""
    ex = c.ex
    cands = [f for f in ex.p.funcs.values() if f["name"] == name and (f.get("rec") == x.rec and len(f["params"]) == 1)]
    if not cands:
        raise Unsupported("no %s for tuple element" % name)
    return ex.call_fn(cands[0], ex.alloc(x), [ex.alloc(y)])


def tuple_eq(c, a, b, op):
    r = []
    for x, y in zip(a.v, b.v):
        r.append(zb(struct_cmp(c, x, y, "operator==")) if isinstance(x, Struct) else veq(x, y))
    e = conj(r)
    return simp(e if op == "==" else z3.Not(e))


@model(r"std::operator(<|>|<=|>=)")
def _v_lt(c):
    a, b = c.val(0), c.val(1)
    op = c.fn["op"]
    if isinstance(a, Tup) and isinstance(b, Tup):
        def lt(xs, ys):
            if not xs:
                return z3.BoolVal(False)
            x, y = xs[0], ys[0]
            if isinstance(x, Struct):
                l = zb(struct_cmp(c, x, y, "operator<"))
                g = zb(struct_cmp(c, y, x, "operator<"))
            else:
                l, g = zt(x) < zt(y), zt(y) < zt(x)
            return z3.Or(l, z3.And(z3.Not(g), lt(xs[1:], ys[1:])))
        if op == "<":
            return simp(lt(a.v, b.v))
        if op == ">":
            return simp(lt(b.v, a.v))
        if op == "<=":
            return simp(z3.Not(lt(b.v, a.v)))
        return simp(z3.Not(lt(a.v, b.v)))
    return NotImplemented


# ------------------------------------------------------------------ iterators
ITQ = r"(__gnu_cxx::__normal_iterator|boost::stl_interfaces::iterator_interface|std::reverse_iterator|quantit::flat_map::(const_)?iterator|quantit::vQuantiT_iterator::(const_)?cgroup_iterator|quantit::vQuantiT_iterator::virt_ptr_aritmetic)"


def it_self(c):
    v = c.ex.rv(c.obj)
    return v if isinstance(v, It) else None


@model(ITQ + r"::operator\*")
def _it_star(c):
    it = it_self(c)
    if it is None:
        return NotImplemented
    lv = c.ex.it_deref(it, c.node)
    if c.ex.p.ts(c.fn["ret"]) == "quantit::any_quantity_ref":
        return Ptr(lv)
    return lv


@model(ITQ + r"::operator->")
def _it_arrow(c):
    it = it_self(c)
    if it is None:
        return NotImplemented
    return Ptr(c.ex.it_deref(it, c.node))


@model(ITQ + r"::operator\[\]")
def _it_idx(c):
    it = it_self(c)
    if it is None:
        return NotImplemented
    return c.ex.it_deref(c.ex.it_add(it, c.val(0)), c.node)


@model(ITQ + r"::operator(\+\+|--)")
def _it_inc(c):
    it = it_self(c)
    if it is None:
        return NotImplemented
    c.ex.write(c.obj, c.ex.it_add(it, 1 if c.fn["op"] == "++" else -1))
    return it if c.args else c.obj


@model(ITQ + r"::operator(\+=|-=)")
def _it_addeq(c):
    it = it_self(c)
    if it is None:
        return NotImplemented
    d = c.val(0)
    c.ex.write(c.obj, c.ex.it_add(it, d if c.fn["op"] == "+=" else simp(-zi(d))))
    return c.obj


@model(ITQ + r"::operator(\+|-)")
def _it_plus(c):
    it = it_self(c)
    if it is None:
        return NotImplemented
    d = c.val(0)
    if isinstance(d, It):
        return simp(zi(it.i) - zi(d.i))
    return c.ex.it_add(it, d if c.fn["op"] == "+" else simp(-zi(d)))


@model(ITQ + r"::operator(==|!=|<|>|<=|>=)")
def _it_cmpm(c):
    it = it_self(c)
    if it is None:
        return NotImplemented
    return c.ex.compare(c.fn["op"], it, c.val(0))


@model(r"(__gnu_cxx|boost::stl_interfaces|boost::stl_interfaces::v1|std)::operator(==|!=|<|>|<=|>=)")
def _it_cmp(c):
    a, b = c.val(0), c.val(1)
    if isinstance(a, It) and isinstance(b, It):
        return c.ex.compare(c.fn["op"], a, b)
    return NotImplemented


@model(r"(__gnu_cxx|boost::stl_interfaces|std)::operator(-|\+)")
def _it_diff(c):
    a, b = c.val(0), c.val(1)
    if isinstance(a, It) and isinstance(b, It):
        r = zi(a.i) - zi(b.i)
        return simp(-r if a.rev else r)
    if isinstance(a, It):
        return c.ex.it_add(a, b if c.fn["op"] == "+" else simp(-zi(b)))
    if isinstance(b, It):
        return c.ex.it_add(b, a)
    return NotImplemented


class NegAddr:
    """null - p: the difference with which a null iterator is moved onto p"""

    def __init__(self, it):
        self.it = it


@model(r"__gnu_cxx::__normal_iterator::operator-=")
def _nit_sub(c):
    v, a = c.self(), c.val(0)
    if isinstance(v, Ptr) and v.lv is None and isinstance(a, NegAddr):
        c.ex.assumptions.add("pointer arithmetic through a null iterator restores the original address (quantity_vector::to_S_iterator)")
        c.ex.write(c.obj, a.it)
        return c.obj
    return NotImplemented


@model(r"__gnu_cxx::__normal_iterator::base|std::reverse_iterator::base")
def _it_base(c):
    it = it_self(c)
    if it is None:
        v = c.ex.rv(c.obj)
        if isinstance(v, Ptr) and v.lv is None:
            return v
        return NotImplemented
    return It(it.lv, it.i, False, it.kind)


@model(r"std::(begin|cbegin)")
def _begin(c):
    return It(as_seq_lv(c, c.args[0]), 0)


@model(r"std::(end|cend)")
def _end(c):
    lv = as_seq_lv(c, c.args[0])
    return It(lv, c.ex.read(lv).n)


@model(r"std::distance")
def _distance(c):
    a, b = c.val(0), c.val(1)
    if isinstance(a, It) and isinstance(b, It):
        r = zi(b.i) - zi(a.i)
        return simp(-r if a.rev else r)
    return NotImplemented


@model(r"std::(next|prev|advance)")
def _next(c):
    it = c.val(0)
    n = c.val(1) if len(c.args) > 1 else 1
    if c.fn["name"] == "prev":
        n = simp(-zi(n))
    r = c.ex.it_add(it, n)
    if c.fn["name"] == "advance":
        c.ex.write(c.args[0], r)
        return None
    return r


@model(r"std::iter_swap")
def _iter_swap(c):
    a = c.ex.it_deref(c.val(0), c.node)
    b = c.ex.it_deref(c.val(1), c.node)
    x, y = c.ex.read(a), c.ex.read(b)
    c.ex.write(a, y)
    c.ex.write(b, x)


@model(r"quantit::vQuantiT_iterator::cgroup_iterator::operator .*const_cgroup_iterator")
def _cg_it_conv(c):
    return c.self() if it_self(c) is not None else NotImplemented


@model(r"quantit::flat_map::(const_)?iterator::(base_reference|operator (?!=).*)")
def _fm_it_conv(c):
    if it_self(c) is None:
        return NotImplemented
    return c.obj


@ctor_model(r"^quantit::flat_map<.*::(const_)?iterator$")
def _fm_it_ctor(c, T):
    if not c.args:
        return Ptr(None)
    v = c.val(0)
    return v if isinstance(v, (It, Ptr)) else NotImplemented


@model(r"quantit::flat_map::(const_)?iterator::operator=")
def _fm_it_assign(c):
    v = c.val(0)
    if not isinstance(v, (It, Ptr)):
        return NotImplemented
    c.ex.write(c.obj, v)
    return c.obj


@model(r"std::(stable_sort|sort)")
def _sort(c):
    """the sorted rearrangement; only order and permutation facts for orders on one integer component"""
    ex = c.ex
    a, b = c.val(0), c.val(1)
    if not isinstance(a, It) or a.rev:
        return NotImplemented
    v = ex.read(a.lv)
    lo, hi = zi(a.i), zi(b.i)
    ex.check("sorted range valid", z3.And(0 <= lo, lo <= hi, hi <= zi(v.n)), c.node.get("l"))
    perm = z3.Function("sort_from!%d" % ex.fresh_n, I, I)
    inv = z3.Function("sort_to!%d" % ex.fresh_n, I, I)
    ex.fresh_n += 1
    w = map_range(v, lo, simp(hi - lo), lambda o: tmap(lambda t: z3.Select(t, perm(o + lo)), v.data))
    # named storage: lambdas of uninterpreted permutations do not combine well
    nd = ex.fresh_shape(("vec", vec_elem_shape(v.data)), "sorted").data
    j, k = z3.FreshConst(I, "j"), z3.FreshConst(I, "k")
    leaves = []
    tmap(lambda x, y: leaves.append((x, y)), nd, v.data)
    for x, y in leaves:
        ex.assume(z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi), z3.Select(x, j) == z3.Select(y, perm(j))), patterns=[z3.Select(x, j)]))
        ex.assume(z3.ForAll([j], z3.Implies(z3.Or(j < lo, j >= hi), z3.Select(x, j) == z3.Select(y, j)), patterns=[z3.Select(x, j)]))
    ex.assume(z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi), z3.And(lo <= perm(j), perm(j) < hi, inv(perm(j)) == j)), patterns=[perm(j)]))
    ex.assume(z3.ForAll([j], z3.Implies(z3.And(lo <= j, j < hi), z3.And(lo <= inv(j), inv(j) < hi, perm(inv(j)) == j)), patterns=[inv(j)]))
    ex.write(a.lv, Vec(v.n, nd))
    n0 = len(ex.pc)
    ex.pc.append(z3.And(lo <= j, j < k, k < hi))
    f = c.args[2] if len(c.args) > 2 else None

    def less(x, y):
        if f is None:
            return zb(functor(ex, "less", ex.read(a.lv.idx(x)), ex.read(a.lv.idx(y))))
        return zb(pure_pred(ex, f, [a.lv.idx(x), a.lv.idx(y)]))
    gt, lt = less(k, j), less(j, k)
    del ex.pc[n0:]
    stable = c.fn["name"] == "stable_sort"
    l0 = leaves[0][0]
    ex.assume(z3.ForAll([j, k], z3.Implies(z3.And(lo <= j, j < k, k < hi), z3.And([z3.Not(gt)] + ([z3.Or(lt, perm(j) < perm(k))] if stable else []))),
                        patterns=[z3.MultiPattern(z3.Select(l0, j), z3.Select(l0, k))]))
    ex.last_sort = (perm, inv, lo, hi)


def vec_elem_shape(d):
    if isinstance(d, Tup):
        return ("tup", [vec_elem_shape(x) for x in d.v])
    if isinstance(d, Struct):
        return ("struct", d.rec, [(k, vec_elem_shape(x)) for k, x in d.f.items()])
    if isinstance(d, Vec):
        raise Unsupported("sort of nested sequences")
    return ("leaf", d.sort().range(), None)


# ------------------------------------------------------------------ utility
@model(r"std::(move|forward|as_const|addressof)")
def _move(c):
    if len(c.args) != 1:
        return _copy(c)
    if c.fn["name"] == "addressof":
        return Ptr(c.args[0])
    return c.args[0]


@model(r"std::(get)")
def _get(c):
    a = c.args[0]
    lv = lv_of(c, a)
    v = c.ex.read(lv)
    ta = c.fn.get("targs", [])
    k = None
    if ta and "int" in ta[0]:
        k = int(ta[0]["int"])
    if isinstance(v, Tup) and k is not None:
        e = lv.tup(k)
        w = c.ex.read(e)
        if isinstance(w, Ptr) and w.lv is not None and c.ex.p.T(c.ex.p.deref_type(c.fn["ret"]))["k"] != "ptr":
            return w.lv
        return e
    return NotImplemented


@model(r"std::(make_tuple|make_pair|tuple_cat)")
def _mk(c):
    if c.fn["name"] == "tuple_cat":
        out = []
        for i in range(len(c.args)):
            out += list(c.val(i).v)
        return Tup(out)
    return Tup([c.ex.rv(a) for a in c.args])


@model(r"std::make_from_tuple")
def _make_from_tuple(c):
    v = c.val(0)
    if not isinstance(v, Tup) or not re.match(r"(const )?std::(pair|tuple)<", c.ex.p.ts(c.fn["ret"])):
        raise Unsupported("make_from_tuple of this type")
    return Tup(list(v.v))


@model(r"std::(tie|forward_as_tuple)")
def _tie(c):
    return Tup([Ptr(lv_of(c, a)) for a in c.args])


@model(r"std::swap|std::iter_swap")
def _swap(c):
    a, b = c.args
    x, y = c.ex.read(a), c.ex.read(b)
    if isinstance(x, Struct) and x.rec != "str":
        pass
    c.ex.write(a, y)
    c.ex.write(b, x)


@model(r"std::exchange")
def _exchange(c):
    o = c.ex.read(c.args[0])
    c.ex.write(c.args[0], c.val(1))
    return o


@model(r"std::(min|max)")
def _minmax(c):
    if len(c.args) < 2:
        return NotImplemented
    a, b = c.val(0), c.val(1)
    if not (is_term(a) and is_term(b)):
        return NotImplemented
    a, b = zt(a), zt(b)
    if a.sort() != b.sort():
        a, b = engine.zr(a), engine.zr(b)
    return simp(z3.If(b < a, b, a) if c.fn["name"] == "min" else z3.If(a < b, b, a))


@model(r"std::(abs|labs)|abs|labs")
def _abs(c):
    a = c.val(0)
    if not is_term(a):
        return NotImplemented
    return simp(z3.If(zt(a) < 0, -zt(a), zt(a)))


@model(r"std::numeric_limits::(max|min|lowest)")
def _limits(c):
    T = c.ex.p.T(c.fn["ret"])
    if T["k"] != "int":
        return NotImplemented
    b, s = T["bits"], T["sg"]
    if c.fn["name"] == "max":
        return (1 << (b - 1)) - 1 if s else (1 << b) - 1
    return -(1 << (b - 1)) if s else 0


@model(r"std::integral_constant::operator.*|std::integral_constant::operator bool")
def _ic(c):
    r = c.ex.p.records[c.fn["rec"]]
    return int(r["targs"][1]["int"]) != 0 if c.ex.p.T(c.fn["ret"])["k"] == "bool" else int(r["targs"][1]["int"])


@model(r"std::invoke")
def _invoke(c):
    return c.ex.apply(c.args[0], c.args[1:], None)


@model(r"std::apply")
def _apply(c):
    lv = lv_of(c, c.args[1])
    t = c.ex.read(lv)
    args = []
    for i, x in enumerate(t.v):
        args.append(x.lv if isinstance(x, Ptr) else lv.tup(i))
    return c.ex.apply(c.args[0], args, None)


@model(r"std::function::operator\(\)")
def _fn(c):
    return c.ex.apply(c.obj, c.args, None)


@model(r"__builtin_expect|std::launder")
def _bexp(c):
    return c.val(0)


@model(r"__assert_fail")
def _assert_fail(c):
    c.ex.prove("assert() in the code cannot fail", False, "safety", c.node.get("l"))
    raise PathEnd()


@model(r"std::sqrt|sqrt")
def _sqrt(c):
    x = engine.zr(c.val(0))
    r = c.ex.fresh(z3.RealSort(), "sqrt")
    c.ex.assume(z3.And(r >= 0, r * r == x))
    c.ex.assumptions.add("sqrt treated as the exact real square root")
    return r


@model(r"std::(less|greater|multiplies|plus|minus|equal_to|logical_or|logical_and)::operator\(\)")
def _functor(c):
    a, b = c.val(0), c.val(1)
    n = c.fn["qual"].split("<")[0].split("::")[1]
    return functor(c.ex, n, a, b, c)


def functor(ex, n, a, b, c=None):
    if n == "less" and ex.opts.get("keyless"):
        return ex.opts["keyless"](ex, a, b)
    if not (is_term(a) and is_term(b)):
        raise Unsupported("std::%s on %s" % (n, type(a).__name__))
    a, b = zt(a), zt(b)
    return simp({"less": lambda: a < b, "greater": lambda: a > b, "multiplies": lambda: a * b, "plus": lambda: a + b,
                 "minus": lambda: a - b, "equal_to": lambda: a == b,
                 "logical_or": lambda: z3.Or(zb(a), zb(b)), "logical_and": lambda: z3.And(zb(a), zb(b))}[n]())


# ------------------------------------------------------------------ unique_ptr
@model(r"std::make_unique")
def _mkuniq(c):
    ex = c.ex
    t = c.fn["targs"][0]["type"]
    T = ex.p.T(t)
    ri = T["rec"]
    if ex.shape(t)[0] == "vec":
        r = _vec_ctor(Call(ex, dict(c.fn, pt=c.fn["pt"] if "pt" in c.fn else [], ck="other"), None, c.args, c.node), T)
        return Ptr(ex.alloc(r)) if r is not NotImplemented else r
    if not c.args:
        v = ex.default_struct(ri)
        for f in ex.p.funcs.values():
            if f["kind"] == "ctor" and f["rec"] == ri and not f["params"] and f.get("body_"):
                v = ex.construct(f, [], t)
        return Ptr(ex.alloc(v))
    if len(c.args) == 1:
        v = c.val(0)
        if isinstance(v, Struct) and v.rec == ri:
            return Ptr(ex.alloc(v))
    for f in ex.p.funcs.values():
        if f["kind"] == "ctor" and f["rec"] == ri and len(f["params"]) == len(c.args) and f.get("body_"):
            if all(ex.fits(p["t"], ex.rv(a)) for p, a in zip(f["params"], c.args)):
                return Ptr(ex.alloc(ex.construct(f, c.args, t)))
    return NotImplemented


@ctor_model(r"^std::unique_ptr<")
def _uniq_ctor(c, T):
    if not c.args:
        return Ptr(None)
    v = c.val(0)
    if isinstance(v, Ptr):
        if isinstance(c.args[0], LV) and c.ex.p.T(c.fn["pt"][0])["k"] == "rref":
            c.ex.write(c.args[0], Ptr(None))
        return v
    return NotImplemented


@model(r"std::unique_ptr::(get|operator->)")
def _u_get(c):
    return c.self()


@model(r"std::unique_ptr::operator\*")
def _u_star(c):
    return c.ex.deref(c.self(), c.node)


@model(r"std::unique_ptr::operator bool")
def _u_bool(c):
    return c.self().lv is not None


@model(r"std::unique_ptr::operator=")
def _u_asg(c):
    v = c.val(0)
    if isinstance(c.args[0], LV):
        c.ex.write(c.args[0], Ptr(None))
    c.ex.write(c.obj, v)
    return c.obj


@model(r"std::unique_ptr::(swap)")
def _u_swap(c):
    a, b = c.self(), c.val(0)
    c.ex.write(c.obj, b)
    c.ex.write(c.args[0], a)


@type_shape(r"^std::unique_ptr<")
def _u_shape(ex, T):
    return ("opaque",)


# ------------------------------------------------------------------ strings / formatting
@model(r"fmt::(v\d+::)?(format|join|to_string)|std::to_string")
def _fmt(c):
    n = c.ex.fresh(I, "len")
    c.ex.assume(n >= 1)
    return mkstr(n)


@model(r"std::(__cxx11::)?basic_string::(operator\+=|append)")
def _s_app(c):
    s, x = c.self(), c.val(0)
    if isinstance(x, Struct):
        c.ex.write(c.obj, mkstr(simp(zi(s.f["len"]) + zi(x.f["len"]))))
        return c.obj
    n = c.ex.fresh(I, "len")
    c.ex.assume(n >= zi(s.f["len"]))
    c.ex.write(c.obj, mkstr(n))
    return c.obj


@model(r"std::operator\+")
def _s_cat(c):
    ls = [x.f["len"] if isinstance(x, Struct) and x.rec == "str" else None for x in (c.val(0), c.val(1))]
    if ls == [None, None]:
        return NotImplemented
    n = c.ex.fresh(I, "len")
    c.ex.assume(n >= z3.Sum([zi(l) for l in ls if l is not None]))
    if None not in ls:
        c.ex.assume(n == zi(ls[0]) + zi(ls[1]))
    return mkstr(n)


@model(r"std::(__cxx11::)?basic_string::(size|length)")
def _s_size(c):
    return c.self().f["len"]


@model(r"std::(__cxx11::)?basic_string::empty")
def _s_empty(c):
    return simp(zi(c.self().f["len"]) == 0)


@model(r"std::(__cxx11::)?basic_string::c_str")
def _s_cstr(c):
    return OPAQUE


# ------------------------------------------------------------------ algorithms with a closed form
def binop_of(ex, f, sort):
    """recognise + / * given as a callable, by running it on symbolic arguments"""
    if isinstance(f, Opaque):
        for n in ("plus", "multiplies"):
            if f.what.startswith("std::" + n):
                return "+" if n == "plus" else "*"
        raise Unsupported("reduce with %s" % f.what)
    x, y = z3.Int("bx!"), z3.Int("by!")
    snap = ex.snapshot()
    npc = len(ex.pc)
    ex.pc = ex.pc + [z3.And(x >= 0, x < 1 << 62, y >= 0, y < 1 << 62)]
    ex.suppress += 1
    r = ex.rv(ex.apply(f, [ex.alloc(x), ex.alloc(y)], None))
    ex.suppress -= 1
    ex.restore(snap)
    ex.pc = ex.pc[:npc]
    if z3.is_expr(r):
        r = z3.simplify(r)
        if r.eq(z3.simplify(x + y)):
            return "+"
        if r.eq(z3.simplify(x * y)):
            return "*"
    raise Unsupported("reduce with a user operation: %s" % r)


@model(r"std::(reduce|accumulate)")
def _reduce(c):
    ex = c.ex
    v, lo, hi = it_range(c, 0, 1)
    init = c.val(2) if len(c.args) > 2 else 0
    op = "+"
    if len(c.args) > 3:
        op = binop_of(ex, c.val(3), I)
    if not z3.is_expr(v.data) or v.data.sort() != AI:
        raise Unsupported("reduce over non integers")
    ex.check("iterator range valid", z3.And(0 <= zi(lo), zi(lo) <= zi(hi), zi(hi) <= zi(v.n)), c.node.get("l"))
    T = ex.p.T(ex.p.deref_type(c.fn["ret"]))
    if T["k"] == "int" and T["bits"] < 64:
        ex.assumptions.add("sums of section numbers and sizes fit in int (accumulators of std::reduce are int)")
    f = (SUM if op == "+" else PROD)(v.data, lo, hi)
    if T["k"] == "int" and T["bits"] < 32:
        return wrap_term(simp(zi(init) + f if op == "+" else zi(init) * f), T["bits"], T.get("signed", True))
    return simp(zi(init) + f) if op == "+" else (f if init == 1 else simp(zi(init) * f))


@model(r"std::iota")
def _iota(c):
    a, b = c.val(0), c.val(1)
    s = c.val(2)
    v = c.ex.read(a.lv)
    c.ex.write(a.lv, map_range(v, a.i, simp(zi(b.i) - zi(a.i)), lambda j: j + zi(s)))


@model(r"std::(copy|copy_backward|move|move_backward)")
def _copy(c):
    ex = c.ex
    if len(c.args) != 3:
        return NotImplemented
    a, b, d = c.val(0), c.val(1), c.val(2)
    if not isinstance(a, It) or not isinstance(d, It):
        return NotImplemented
    if a.rev or d.rev:
        raise Unsupported("copy on reverse iterators")
    s = ex.read(a.lv)
    n = simp(zi(b.i) - zi(a.i))
    back = c.fn["name"].endswith("backward")
    dst = simp(zi(d.i) - zi(n)) if back else d.i
    ex.check("source range valid", z3.And(zi(a.i) >= 0, zi(n) >= 0, zi(b.i) <= zi(s.n)), c.node.get("l"))
    t = ex.read(d.lv)
    ex.check("destination range valid", z3.Or(zi(n) == 0, z3.And(zi(dst) >= 0, zi(dst) + zi(n) <= zi(t.n))), c.node.get("l"))
    if a.lv.root == d.lv.root and str(a.lv.path) == str(d.lv.path):
        if back:
            ex.check("copy_backward destination not inside the source range", z3.Or(zi(n) == 0, zi(d.i) <= zi(a.i), zi(d.i) >= zi(b.i)), c.node.get("l"))
        else:
            ex.check("copy destination not inside the source range", z3.Or(zi(n) == 0, zi(d.i) < zi(a.i), zi(d.i) >= zi(b.i)), c.node.get("l"))
    ex.write(d.lv, map_range(t, dst, n, lambda j: tmap(lambda x: z3.Select(x, j + zi(a.i)), s.data)))
    return It(d.lv, dst if back else simp(zi(d.i) + zi(n)))


@model(r"std::(fill|fill_n)")
def _fill(c):
    a = c.val(0)
    if not isinstance(a, It):
        return NotImplemented
    n = c.val(1) if c.fn["name"] == "fill_n" else simp(zi(c.val(1).i) - zi(a.i))
    v = c.ex.read(a.lv)
    x = c.val(2)
    c.ex.check("fill range valid", z3.And(zi(a.i) >= 0, zi(a.i) + zi(n) <= zi(v.n)), c.node.get("l"))
    c.ex.write(a.lv, map_range(v, a.i, n, lambda j: x))
    return c.ex.it_add(a, n)


def pure_pred(ex, f, elems):
    """value of a side effect free callable on element lvalues, as one term (branches merged)"""
    snap = ex.snapshot()
    res = []

    def run():
        r = ex.rv(ex.apply(f, elems, None))
        res.append((list(ex.pc[len(snap[0]):]), r))
    outs = ex.subexplore(run, 60)
    for kind, pc, st in outs:
        if kind not in ("next", "end"):
            raise Unsupported("predicate throws or breaks")
        for r in snap[1]:
            if r in st and st[r] is not snap[1][r]:
                raise Unsupported("predicate with side effects")
    term = None
    for pc, r in reversed(res):
        term = zt(r) if term is None else z3.If(conj(pc), zt(r), term)
    return simp(term)


def stateful_any_all(c):
    """a predicate that keeps state between elements: a loop in order, stopped by the first element that decides.
    its invariant is keyed by (function, -1) and finds the present answer in ex.undecided"""
    ex = c.ex
    nm = c.fn["name"]
    cur, und = ex.alloc(c.val(0)), ex.alloc(z3.BoolVal(True))
    end = c.val(1)
    ex.undecided = lambda: zb(ex.read(und))

    def body():
        r = zb(ex.rv(ex.apply(c.args[2], [ex.it_deref(ex.read(cur), c.node)], None)))
        ex.write(und, simp(r) if nm == "all_of" else simp(z3.Not(r)))
    ex.loop(c.node, lambda: simp(z3.And(zb(ex.compare("!=", ex.read(cur), end)), zb(ex.read(und)))), body, lambda: ex.write(cur, ex.it_add(ex.read(cur), 1)))
    r = zb(ex.read(und))
    return simp(z3.Not(r)) if nm == "any_of" else r


@model(r"std::(any_of|all_of|none_of)")
def _anyof(c):
    ex = c.ex
    v, lo, hi = it_range(c, 0, 1)
    a = c.val(0)
    j = ex.fresh(I, "j")
    n0 = len(ex.pc)
    ex.pc.append(z3.And(j >= zi(lo), j < zi(hi), j >= 0, j < zi(v.n)))
    try:
        p = zb(pure_pred(ex, c.args[2], [a.lv.idx(j)]))
    except Unsupported as e:
        del ex.pc[n0:]
        if str(e) != "predicate with side effects":
            raise
        return stateful_any_all(c)
    del ex.pc[n0:]
    ex.check("iterator range valid", z3.And(0 <= zi(lo), zi(lo) <= zi(hi), zi(hi) <= zi(v.n)), c.node.get("l"))
    rng = z3.And(j >= zi(lo), j < zi(hi))
    if c.fn["name"] == "any_of":
        return z3.Exists([j], z3.And(rng, p))
    if c.fn["name"] == "all_of":
        return z3.ForAll([j], z3.Implies(rng, p))
    return z3.ForAll([j], z3.Implies(rng, z3.Not(p)))


@model(r"std::(find|find_if|find_if_not)")
def _find(c):
    ex = c.ex
    v, lo, hi = it_range(c, 0, 1)
    a = c.val(0)
    ex.check("iterator range valid", z3.And(0 <= zi(lo), zi(lo) <= zi(hi), zi(hi) <= zi(v.n)), c.node.get("l"))

    def pr(j):
        if c.fn["name"] == "find":
            return zb(veq(v.get(j), c.val(2)))
        n0 = len(ex.pc)
        ex.pc.append(z3.And(j >= zi(lo), j < zi(hi), j >= 0, j < zi(v.n)))
        p = zb(pure_pred(ex, c.args[2], [a.lv.idx(j)]))
        del ex.pc[n0:]
        return p if c.fn["name"] == "find_if" else z3.Not(p)
    r = ex.fresh(I, "found")
    j = ex.fresh(I, "j")
    ex.assume(z3.And(r >= zi(lo), r <= zi(hi), z3.ForAll([j], z3.Implies(z3.And(j >= zi(lo), j < r), z3.Not(pr(j)))),
                     z3.Implies(r < zi(hi), pr(r))))
    return It(a.lv, r)


@model(r"std::equal")
def _equal(c):
    ex = c.ex
    if len(c.args) not in (3, 4):
        return NotImplemented
    v, lo, hi = it_range(c, 0, 1)
    b = c.val(2)
    if not isinstance(b, It):
        return NotImplemented
    w = ex.read(b.lv)
    j = ex.fresh(I, "j")
    rng = z3.And(j >= 0, j < zi(hi) - zi(lo))
    e = z3.ForAll([j], z3.Implies(rng, veq(v.get(simp(j + zi(lo))), w.get(simp(j + zi(b.i))))))
    if len(c.args) == 4:
        d = c.val(3)
        if not isinstance(d, It):
            return NotImplemented
        return z3.And(zi(hi) - zi(lo) == zi(d.i) - zi(b.i), e)
    ex.check("second range long enough", zi(b.i) + zi(hi) - zi(lo) <= zi(w.n), c.node.get("l"))
    return e


# lower_bound / upper_bound: contract needs a partitioned range, which is an obligation
@model(r"std::(lower_bound|upper_bound)")
def _lb(c):
    ex = c.ex
    v, lo, hi = it_range(c, 0, 1)
    a = c.val(0)
    ex.check("iterator range valid", z3.And(0 <= zi(lo), zi(lo) <= zi(hi), zi(hi) <= zi(v.n)), c.node.get("l"))
    key = lv_of(c, c.args[2])
    low = c.fn["name"] == "lower_bound"

    def before(j):
        n0 = len(ex.pc)
        ex.pc.append(z3.And(j >= zi(lo), j < zi(hi), j >= 0, j < zi(v.n)))
        if len(c.args) > 3:
            args = [a.lv.idx(j), key] if low else [key, a.lv.idx(j)]
            p = zb(pure_pred(ex, c.args[3], args))
        else:
            x, y = v.get(j), ex.read(key)
            p = zb(functor(ex, "less", x, y) if low else functor(ex, "less", y, x))
        del ex.pc[n0:]
        return p if low else z3.Not(p)
    j, k = ex.fresh(I, "j"), ex.fresh(I, "k")
    ex.check("%s: range partitioned" % c.fn["name"],
             z3.ForAll([j, k], z3.Implies(z3.And(j >= zi(lo), j < k, k < zi(hi), before(k)), before(j))), c.node.get("l"))
    r = ex.fresh(I, "bound")
    ex.assume(z3.And(r >= zi(lo), r <= zi(hi),
                     z3.ForAll([j], z3.Implies(z3.And(j >= zi(lo), j < r), before(j))),
                     z3.ForAll([j], z3.Implies(z3.And(j >= r, j < zi(hi)), z3.Not(before(j))))))
    return It(a.lv, r)


# ------------------------------------------------------------------ algorithms executed as loops
def elementwise(ex, f, lv, lo, hi):
    """sequence after f was applied to each element of [lo,hi) when f only changes the element it is given; None otherwise"""
    if ex.opts.get("unroll"):
        return None
    v = ex.read(lv)
    j = ex.fresh(I, "each")
    snap = ex.snapshot()
    n0 = len(ex.pc)
    ow, ex.writes = ex.writes, []
    res = []
    ok = True
    try:
        ex.pc.append(z3.And(j >= zi(lo), j < zi(hi), j >= 0, j < zi(v.n)))
        n1 = len(ex.pc)
        fields = dict(ex.store)

        def run():
            ex.apply(f, [lv.idx(j)], None)
            res.append((list(ex.pc[n1:]), ex.read(lv.idx(j))))
        try:
            outs = ex.subexplore(run, 30)
        except Unsupported:
            outs = [("fail", None, None)]
        ok = all(o[0] in ("next", "end") for o in outs) and bool(res)
        for _, _, st in outs if ok else []:
            for r, x in fields.items():
                if r != lv.root and st.get(r) is not x:
                    ok = False
                if r == lv.root and st.get(r) is not x and not same_frame(fields, st, lv):
                    ok = False
    finally:
        ex.writes = ow
        ex.restore(snap)
        del ex.pc[n0:]
    if not ok:
        return None
    term = None
    for pc, r in reversed(res):
        term = r if term is None else tmap(lambda x, y: simp(z3.If(conj(pc), zt(x), zt(y))), r, term)
    return map_range(v, lo, simp(zi(hi) - zi(lo)), lambda o: tmap(lambda t: z3.substitute(zt(t), (j, o + zi(lo))), term))


def same_frame(a, b, lv):
    """stores a and b agree on the root of lv except below lv"""
    def go(x, y, path):
        if x is y:
            return True
        if not path:
            return True
        k, nm = path[0]
        if isinstance(x, Struct) and isinstance(y, Struct):
            return set(x.f) == set(y.f) and all(go(x.f[f], y.f[f], path[1:]) if f == nm else x.f[f] is y.f[f] for f in x.f)
        return False
    return go(a[lv.root], b[lv.root], lv.path)


@model(r"std::for_each")
def _for_each(c):
    ex = c.ex
    a, b = c.val(0), c.val(1)
    if isinstance(a, It) and isinstance(b, It) and not a.rev:
        v = ex.read(a.lv)
        if isinstance(v, Vec):
            w = elementwise(ex, c.args[2], a.lv, a.i, b.i)
            if w is not None:
                ex.check("iterator range valid", z3.And(0 <= zi(a.i), zi(a.i) <= zi(b.i), zi(b.i) <= zi(v.n)), c.node.get("l"))
                ex.write(a.lv, w)
                return ex.rv(c.args[2])
    cur = ex.alloc(c.val(0))
    end = c.val(1)
    f = c.args[2]
    ex.loop(c.node, lambda: ex.compare("!=", ex.read(cur), end),
            lambda: ex.apply(f, [ex.it_deref(ex.read(cur), c.node)], None),
            lambda: ex.write(cur, ex.it_add(ex.read(cur), 1)))
    return ex.rv(f)


@model(r"std::transform")
def _transform(c):
    ex = c.ex
    cur = ex.alloc(c.val(0))
    end = c.val(1)
    if len(c.args) == 4:
        out = ex.alloc(c.val(2))
        f = c.args[3]
        if not isinstance(ex.read(out), It):
            return NotImplemented

        def body():
            x = ex.rv(ex.apply(f, [ex.it_deref(ex.read(cur), c.node)], None))
            ex.write(ex.it_deref(ex.read(out), c.node), x)

        def inc():
            ex.write(cur, ex.it_add(ex.read(cur), 1))
            ex.write(out, ex.it_add(ex.read(out), 1))
    else:
        cur2 = ex.alloc(c.val(2))
        out = ex.alloc(c.val(3))
        f = c.args[4]

        def body():
            x = ex.rv(ex.apply(f, [ex.it_deref(ex.read(cur), c.node), ex.it_deref(ex.read(cur2), c.node)], None))
            ex.write(ex.it_deref(ex.read(out), c.node), x)

        def inc():
            for q in (cur, cur2, out):
                ex.write(q, ex.it_add(ex.read(q), 1))
    ex.loop(c.node, lambda: ex.compare("!=", ex.read(cur), end), body, inc)
    return ex.read(out)


# ------------------------------------------------------------------ quantities seen as abstract group elements
AQ_ = r"quantit::(any_quantity|any_quantity_cref|any_quantity_ref|vquantity)"


def qself(c):
    if not c.ex.opts.get("abstract_q"):
        return None
    v = c.ex.rv(c.obj)
    if isinstance(v, Ptr):
        return v.lv, c.ex.read(v.lv)
    return c.obj, v


@model(AQ_ + r"::(op|operator\*=|operator\+=)")
def _q_op(c):
    s = qself(c)
    if s is None:
        return NotImplemented
    lv, v = s
    x = qop(v, qval(c, 0))
    if len(c.args) > 1:
        x = simp(z3.If(zb(c.val(1)), x, v))
    c.ex.write(lv, x)
    return c.obj


@model(AQ_ + r"::operator=")
def _q_asg(c):
    s = qself(c)
    if s is None:
        return NotImplemented
    c.ex.write(s[0], qval(c, 0))
    return c.obj


@model(AQ_ + r"::(operator\*|operator\+)")
def _q_mul(c):
    s = qself(c)
    if s is None:
        return NotImplemented
    if not c.args:
        return c.obj
    return qop(s[1], qval(c, 0))


@model(r"quantit::operator(\*|\+|-)")
def _q_bin(c):
    if not c.ex.opts.get("abstract_q"):
        return NotImplemented
    a, b = qval(c, 0), qval(c, 1)
    if not (z3.is_expr(a) and a.sort() == Q and z3.is_expr(b) and b.sort() == Q):
        return NotImplemented
    return qop(a, b) if c.fn["op"] != "-" else qop(a, qinv(b))


@model(AQ_ + r"::neutral")
def _q_neutral(c):
    s = qself(c)
    if s is None:
        return NotImplemented
    return qe


@model(AQ_ + r"::(inverse|inv)")
def _q_inv(c):
    s = qself(c)
    if s is None:
        return NotImplemented
    return qinv(s[1])


@model(AQ_ + r"::(inverse_|inv_)")
def _q_inv_(c):
    s = qself(c)
    if s is None:
        return NotImplemented
    c.ex.write(s[0], qinv(s[1]))
    return c.obj


@model(AQ_ + r"::(operator==|operator!=|is_equal|is_different)|quantit::operator(==|!=)")
def _q_eq(c):
    if not c.ex.opts.get("abstract_q"):
        return NotImplemented
    if c.obj is not None:
        a, b = qself(c)[1], qval(c, 0)
    else:
        a, b = qval(c, 0), qval(c, 1)
    if not (z3.is_expr(a) and z3.is_expr(b) and a.sort() == Q and b.sort() == Q):
        return NotImplemented
    eq = c.fn["name"] in ("operator==", "is_equal")
    return simp(a == b if eq else a != b)


@model(AQ_ + r"::(get|operator.*cref.*|operator const quantit::vquantity &|operator quantit::vquantity &|get_const_ptr)")
def _q_get(c):
    s = qself(c)
    if s is None:
        return NotImplemented
    return s[0]


# ------------------------------------------------------------------ tensors
@model(r"at::(Tensor|TensorBase)::sizes")
def _t_sizes(c):
    t = c.self()
    n = tensor_dim(t)
    c.ex.pc.append(n >= 0)
    return Vec(n, tensor_sizes(t))


@model(r"at::(Tensor|TensorBase)::dim")
def _t_dim(c):
    t = c.self()
    c.ex.pc.append(tensor_dim(t) >= 0)
    return tensor_dim(t)


@model(r"at::(Tensor|TensorBase)::size")
def _t_size(c):
    t, d = c.self(), zi(c.val(0))
    c.ex.check("dimension of a tensor", z3.And(0 <= d, d < tensor_dim(t)), c.node.get("l"))
    return z3.Select(tensor_sizes(t), d)


@model(r"at::Tensor::sum")
def _t_sum(c):
    ex, t = c.ex, c.self()
    d = c.val(0)
    if isinstance(d, Vec):
        if simp(d.n) != 1:
            return NotImplemented
        d = d.get(0)
    if not is_term(d) or c.val(1) is not True:
        return NotImplemented
    ex.check("dimension of a tensor", z3.And(0 <= zi(d), zi(d) < tensor_dim(t)), c.node.get("l"))
    r = TSUM(t, zi(d))
    ex.assume(z3.And(tensor_dim(r) == tensor_dim(t), tensor_sizes(r) == z3.Store(tensor_sizes(t), zi(d), z3.IntVal(1))))
    return r


@model(r"c10::detail::torchCheckFail|c10::detail::torchInternalAssertFail")
def _t_fail(c):
    raise ThrowEx("c10::Error")


@model(r"c10::detail::torchCheckMsgImpl")
def _t_msg(c):
    return OPAQUE


@model(r"(at::Tensor|quantit::btensor)::operator=")
def _t_asg(c):
    v = c.val(0)
    if z3.is_expr(v) and v.sort() == TEN:
        c.ex.write(c.obj, v)
        return c.obj
    return NotImplemented


@ctor_model(r"^(at::Tensor|quantit::btensor)$")
def _t_ctor(c, T):
    if T["s"].endswith("btensor") and not c.ex.opts.get("abstract_tensor"):
        return NotImplemented
    if not c.args:
        return c.ex.fresh(TEN, "undef")
    v = c.val(0)
    if z3.is_expr(v) and v.sort() == TEN:
        return v
    return NotImplemented


@model(r"at::(Tensor|TensorBase)::(options)|c10::TensorOptions::.*|quantit::btensor::options|torch::(dtype|device)")
def _t_opt(c):
    if c.fn["ret"] is not None and c.fn["name"] == "operator=":
        return c.obj
    return OPAQUE


@model(r"boost::stl_interfaces::operator!=")
def _stl_ne(c):
    ex = c.ex
    a = c.val(0)
    if not isinstance(a, Struct):
        return NotImplemented
    todo = [a.rec]
    while todo:
        r = todo.pop(0)
        for f in ex.p.funcs.values():
            if f.get("rec") == r and f["name"] == "operator==" and f.get("body_") is not None:
                lv = [x if isinstance(x, LV) else ex.alloc(x) for x in c.args]
                return simp(z3.Not(zb(ex.rv(ex.call_fn(f, lv[0], [lv[1]])))))
        todo += ex.p.bases(r)
    return NotImplemented
