"""N02: the ground state search stays in the chain and restores the centre"""
from spec import *

LEVEL = "other"
TUS = {"dm": ("sources/dmrg.cpp", ["R quantit::.*"])}
NOTE = "the search (dmrg_impl, sweep, the pair update, the environments, the pairs of operators, the return of the centre) is proved for every chain length, starting centre, direction and iteration limit, relative to an assumed contract of the truncated decomposition; energies and the state are also checked on the compiled code for small chains (bounded)"
EXPLANATION = "Contracts on the real functions, for dense and block networks. generate_env gives the environments on both sides of the centre. compute_2sitesHamil gives one operator per neighbouring pair. A pair update is given a pair in the chain, contracts exactly that pair with its operator and its two environments, decomposes the result within the bond limits, touches no other site, and leaves environments and isometries as the next update needs them. A sweep updates the pairs in the cyclic order 0..R..0, so every pair is updated, and ends on the pair and direction it began with. dmrg_impl does at most the maximum number of sweeps, ends with the centre on its first site and the state in canonical form around it, and does not change the Hamiltonian."
MPS = ("quantit::MPS", "quantit::bMPS")
OPTS = dict(abstract_tensor=True)
T = TEN
AT = z3.ArraySort(I, T)
LISO = z3.Function("left_isometry", T, B)      # the isometry conditions are kept by what svd returns: assumed contract
RISO = z3.Function("right_isometry", T, B)
LENV = z3.Function("left_environment", T, T, T, T)    # compute_left_env(hamiltonian, state, previous)
RENV = z3.Function("right_environment", T, T, T, T)
TWO = z3.Function("two_sites_operator", T, T, T)


def canon(tens, n, c):
    """sites left of c are left isometries, sites right of it right isometries"""
    d = tens.data
    i = z3.Int("i")
    return z3.And(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < c), LISO(d[i])), patterns=[d[i]]), z3.ForAll([i], z3.Implies(z3.And(c < i, i < n), RISO(d[i])), patterns=[d[i]]))


def pair_canon(tens, n, oc):
    """the same, except for the two sites of the pair starting at oc"""
    d = tens.data
    i = z3.Int("i")
    return z3.And(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < oc), LISO(d[i])), patterns=[d[i]]), z3.ForAll([i], z3.Implies(z3.And(oc + 1 < i, i < n), RISO(d[i])), patterns=[d[i]]))


def envs_ok(E, H, S, n, oc):
    """every environment an update at oc uses is that of the present state. E[i + 1] is the environment at i"""
    i = z3.Int("i")
    return z3.And(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < oc), E[i + 1] == LENV(H[i], S[i], E[i])), patterns=[S[i]]), z3.ForAll([i], z3.Implies(z3.And(oc + 1 < i, i < n), E[i + 1] == RENV(H[i], S[i], E[i + 2])), patterns=[S[i]]))


def two_ok(two, H, n):
    i = z3.Int("i")
    return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n - 1), two[i] == TWO(H[i], H[i + 1])), patterns=[two[i]])



def mk_state(ex, t, name="state"):
    """a network of any length; its reference member is bound to its own centre, as every constructor does"""
    return mk_state_rec(ex, ex.p.types[ex.p.deref_type(t)]["rec"], name)


def mk_state_rec(ex, ri, name="state"):
    v = ex.fresh_rec(ri, name)
    st = ex.alloc(v)
    f = dict(v.f)
    f["oc"] = Ptr(st.fld("orthogonality_center").fld("value"))
    ex.write(st, Struct(v.rec, f))
    ex.assume(z3.And(zi(v.f["tensors"].n) >= 0, zi(v.f["orthogonality_center"].f["value"]) >= 0, zi(v.f["tensors"].n) < 2 ** 31))
    return st


def oc_of(ex, st):
    return zi(ex.rv(st).f["orthogonality_center"].f["value"])


def size_of(ex, st):
    return zi(ex.rv(st).f["tensors"].n)


# position in the cycle 0, 1, ..., R, R-1, ..., 1 of pairs, R the last pair
def valid(oc, step, R):
    return z3.And(0 <= oc, oc <= R, z3.If(R == 0, step == 0, z3.Or(z3.And(step == 1, oc < R), z3.And(step == -1, oc > 0))))


def phase(oc, step, R):
    return z3.If(step == 1, oc, z3.If(step == 0, 0, 2 * R - oc))


def at(ph, R):
    return z3.If(ph <= R, ph, 2 * R - ph)


def wrap(x, R):
    """x in [0, 4R) modulo 2R"""
    return z3.If(x < 2 * R, x, x - 2 * R)


def tens(ex, lv):
    return ex.rv(lv).f["tensors"]


def mk_net(ex, ty, n, name):
    """a network of n tensors with nothing else known"""
    v = ex.fresh_type(ty, name)
    lv = ex.alloc(v)
    ex.assume(zi(net(ex, lv).n) == n)
    return lv


def net(ex, lv):
    """the sequence of tensors of a network, of an environment holder"""
    v = ex.rv(lv)
    if "env" in v.f:
        v = v.f["env"]
    return v.f["tensors"]


def net_write(ex, lv, v):
    if "env" in ex.rv(lv).f:
        lv = lv.fld("env")
    ex.write(lv.fld("tensors"), v)


def mk_update(ex, ty, st, n):
    return mk_update_rec(ex, ex.p.types[ex.p.deref_type(ty)]["rec"], st, n)


def mk_update_rec(ex, ri, st, n):
    """the update functor, bound to a hamiltonian, its pairs, the center of the state and the environments"""
    f = {}
    for g in ex.p.all_fields(ri):
        if g["name"] == "oc":
            f["oc"] = Ptr(st.fld("orthogonality_center").fld("value"))
        elif g["name"] == "options":
            f["options"] = Ptr(ex.alloc(ex.fresh_type(g["t"], "options")))
        else:
            f[g["name"]] = Ptr(mk_net(ex, g["t"], {"hamil": n, "twosite_hamil": n - 1, "Env": n + 2}[g["name"]], g["name"]))
    return ex.alloc(Struct(ri, f))


def parts(ex, up):
    f = ex.rv(up).f
    return [net(ex, f[k].lv) for k in ("hamil", "twosite_hamil", "Env")]


def consistent(ex, st, up, oc):
    """what every update relies on and keeps"""
    H, W, E = parts(ex, up)
    S = tens(ex, st)
    n = zi(S.n)
    return z3.And(zi(H.n) == n, zi(W.n) == n - 1, zi(E.n) == n + 2, pair_canon(S, n, oc), envs_ok(E.data, H.data, S.data, n, oc), two_ok(W.data, H.data, n))


def havoc_tensors(ex, lv, name):
    v = net(ex, lv)
    net_write(ex, lv, Vec(v.n, ex.fresh(AT, name)))


def c_update(c):
    """two site update: works on the pair (oc, oc + 1), then moves oc by one step (proved below)"""
    ex = c.ex
    st, up = c.args[0], c.obj
    oc, step = oc_of(ex, st), zi(c.val(1))
    n = size_of(ex, st)
    ex.check("update: the active pair is in the chain", z3.And(0 <= oc, oc + 1 < n), c.node.get("l"))
    ex.check("update: the next pair is in the chain", z3.And(-1 <= step, step <= 1, 0 <= oc + step, oc + step + 1 < n), c.node.get("l"))
    ex.check("update: environments and isometries", consistent(ex, st, up, oc), c.node.get("l"))
    if hasattr(ex, "on_update"):
        ex.on_update(oc, step)
    havoc_tensors(ex, st, "updated")
    havoc_tensors(ex, ex.rv(up).f["Env"].lv, "env")
    ex.write(st.fld("orthogonality_center").fld("value"), oc + step)
    ex.assume(consistent(ex, st, up, oc + step))
    ex.assume(canon(tens(ex, st), n, z3.If(step == 1, oc + 1, oc)))
    return ex.fresh_type(c.fn["ret"], "energy")


def fresh_result(c):
    return c.ex.fresh_type(c.fn["ret"], "res")


def pure(name, nargs):
    """tensor functions of which only the arguments matter"""
    return z3.Function(name, *([T] * nargs), T)


CONJ = pure("conj", 1)
RIGHT = pure("permute to the right", 1)


def in_place(c):
    c.ex.write(c.obj, c.ex.fresh(T, "modified"))
    return c.obj


def in_place0(c):
    c.ex.write(c.args[0], c.ex.fresh(T, "modified"))
    return c.args[0]


def ints(v):
    try:
        n = z3.simplify(zi(v.n)).as_long()
        return [z3.simplify(zi(v.get(i))).as_long() for i in range(n)]
    except Exception:
        return None


def c_conj(c):
    return CONJ(c.val(0) if c.args else c.ex.rv(c.obj))


def c_permute(c):
    a = c.ex.rv(c.obj)
    if ints(c.ex.rv(c.args[0])) == [2, 0, 1]:
        return RIGHT(a)
    return c.ex.fresh(T, "permuted")


def c_svd(c):
    """assumed contract of the truncated decomposition: U is a left isometry, V (with its bond moved to the left) a right one"""
    ex = c.ex
    r = Tup([ex.fresh(T, x) for x in "UDV"])
    ex.svd = (c.val(0), c.val(1), c.val(3), c.val(4), r)
    ex.assume(LISO(r.v[0]))
    ex.assume(RISO(RIGHT(CONJ(r.v[2]))))
    return r


def c_tensordot(c):
    r = c.ex.fresh(T, "product")
    c.ex.products = getattr(c.ex, "products", []) + [(c.val(0), c.val(1), ints(c.ex.rv(c.args[2])), ints(c.ex.rv(c.args[3])), r)]
    return r


def c_two(c):
    ex = c.ex
    r = ex.fresh_type(c.fn["ret"], "ground")
    ex.two = ([c.val(i) for i in range(4)], r)
    return r


def tensor_use(ex):
    """contracts of what works on tensors: everything not named is an unknown value"""
    ex.use.append((re.compile("quantit::compute_left_env"), lambda c: LENV(c.val(0), c.val(1), c.val(2))))
    ex.use.append((re.compile("quantit::compute_right_env"), lambda c: RENV(c.val(0), c.val(1), c.val(2))))
    ex.use.append((re.compile("quantit::two_sites_update"), c_two))
    ex.use.append((re.compile("(quantit|at|torch)::svd"), c_svd))
    ex.use.append((re.compile("(quantit|at|torch)::tensordot"), c_tensordot))
    ex.use.append((re.compile("(quantit::btensor|at::Tensor)::conj"), c_conj))
    ex.use.append((re.compile("(quantit::btensor|at::Tensor)::permute"), c_permute))
    ex.use.append((re.compile("(quantit::btensor|at::Tensor)::(mul_|operator/=|operator-=|div_)"), in_place))
    ex.use.append((re.compile("(quantit|at|torch)::operator/="), in_place0))
    ex.use.append((re.compile("quantit::btensor::btensor::ctor"), lambda c: NotImplemented if len(c.args) == 1 else c.ex.fresh(T, "made")))
    ex.use.append((re.compile("(quantit::(btensor|torch_shape)|at::Tensor|at::TensorBase)::(pow|reshape_as|item|options|abs|inverse_cvals|neutral_selection_rule_)|(quantit|at|torch)::(sqrt|sum|shape_from|abs|ones_like|empty|shape_from)|quantit::details::edge_shape_prep"), fresh_result))


def p_update(kind):
    def body(ex):
        owner = "quantit::dmrg_2sites_update<%s>" % kind.replace("MPS", "MPO")
        f = ex.p.byqual[owner + "::operator()"][0]
        st = mk_state(ex, f["params"][0]["t"])
        n, oc = size_of(ex, st), oc_of(ex, st)
        ri = next(i for i, r in enumerate(ex.p.records) if r and r["name"] == "quantit::dmrg_2sites_update" and ex.p.types[r["fields"][0]["t"]]["s"].split("::")[-1].rstrip(" &") == kind.split("::")[-1].replace("MPS", "MPO"))
        up = mk_update_rec(ex, ri, st, n)
        step = z3.Int("step")
        ex.assume(z3.And(n >= 2, 0 <= oc, oc + 1 < n, -1 <= step, step <= 1, 0 <= oc + step, consistent(ex, st, up, oc)))
        tensor_use(ex)
        S, (H, W, E) = tens(ex, st), parts(ex, up)
        ex.products = []
        r = ex.call_fn(f, up, [st, step])
        S2, (H2, W2, E2) = tens(ex, st), parts(ex, up)
        i = z3.Int("i")
        fw = step == 1
        local = [x for x in ex.products if x[2] == [2] and x[3] == [0]]
        ex.prove("the pair is contracted over its common bond", z3.Or(*[z3.And(x[0] == S.data[oc], x[1] == S.data[oc + 1], ex.two[0][0] == x[4]) for x in local]))
        ex.prove("with the two site operator of that pair", ex.two[0][1] == W.data[oc])
        ex.prove("and the environments around it", z3.And(ex.two[0][2] == E.data[oc], ex.two[0][3] == E.data[oc + 3]))
        ex.prove("returns the energy of the pair", ex.rv(r) == ex.two[1].v[0])
        opt = ex.rv(ex.rv(up).f["options"].lv).f
        a, split, mn, mx, udv = ex.svd
        ex.prove("the updated pair is what is decomposed, between its two sites", z3.And(a == ex.two[1].v[1], zi(split) == 2))
        ex.prove("within the bond limits asked for", z3.And(zi(mn) == zi(opt["minimum_bond"]), zi(mx) == zi(opt["maximum_bond"])))
        ex.prove("oc moves one step", oc_of(ex, st) == oc + step)
        ex.prove("lengths", z3.And(zi(S2.n) == n, zi(E2.n) == n + 2))
        ex.prove("other sites untouched", z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, i != oc, i != oc + 1), S2.data[i] == S.data[i])))
        ex.prove("hamiltonian untouched", z3.And(H2.data == H.data, W2.data == W.data))
        ex.prove("environments and isometries for the next pair", consistent(ex, st, up, oc + step))
        ex.prove("the center is where the update left it", canon(S2, n, z3.If(fw, oc + 1, oc)))
    return body


def c_swap(c):
    a, b = c.ex.rv(c.obj), c.ex.rv(c.args[0])
    c.ex.write(c.obj, b)
    c.ex.write(c.args[0], a)


def base_use(ex):
    ex.use.append((re.compile("quantit::btensor::swap"), c_swap))


def p_sweep(kind):
    def body(ex):
        f = next(g for g in ex.p.byqual["quantit::sweep"] if kind + " &" == ex.p.ts(g["params"][0]["t"]))
        st = mk_state(ex, f["params"][0]["t"])
        R, N, step = z3.Ints("last_pair steps step")
        oc = oc_of(ex, st)
        n = size_of(ex, st)
        up = mk_update(ex, f["params"][1]["t"], st, n)
        ex.assume(z3.And(n >= 2, R == n - 2, valid(oc, step, R), N == z3.If(R == 0, 2, 2 * R), consistent(ex, st, up, oc)))
        ph = phase(oc, step, R)
        base_use(ex)
        ex.use.append((re.compile("quantit::dmrg_2sites_update::operator\\(\\)"), c_update))

        def inv(L):
            k = zi(L.v("i", "^unsigned long$"))
            ex.sweep_k = k
            s = zi(L.v("step", "^int$"))
            o = oc_of(ex, st)
            return [("count", z3.And(0 <= k, k <= N)), ("length", size_of(ex, st) == n), ("position", valid(o, s, R)), ("steps done", z3.Implies(R > 0, phase(o, s, R) == wrap(ph + k, R))),
                    ("environments and isometries", consistent(ex, st, up, o)), ("center", z3.Implies(k > 0, canon(tens(ex, st), n, centre(o, s, R))))]

        def on_update(o, s):
            ex.check("pair updated in turn", z3.Implies(R > 0, o == at(wrap(ph + getattr(ex, "sweep_k", z3.IntVal(0)), R), R)))
        ex.on_update = on_update
        ex.loops_at = {("sweep", 0): inv}
        r = ex.rv(ex.call_fn(f, None, [st, up, step, N, R, z3.IntVal(0)]))
        ex.prove("back where it started, in the same direction", z3.And(oc_of(ex, st) == oc, zi(r.v[1]) == step))
        ex.prove("same length", size_of(ex, st) == n)
        ex.prove("environments and isometries", consistent(ex, st, up, oc))
        ex.prove("the center is next to the pair", canon(tens(ex, st), n, centre(oc, step, R)))
    return body


def lemmas(ex):
    R, p, ph, k = z3.Ints("R p ph k")
    # the step at which pair p is updated, going right
    kk = z3.If(p >= ph, p - ph, p - ph + 2 * R)
    ex.prove("every pair is updated in a sweep", z3.ForAll([R, p, ph], z3.Implies(z3.And(R > 0, 0 <= p, p <= R, 0 <= ph, ph < 2 * R), z3.And(0 <= kk, kk < 2 * R, at(wrap(ph + kk, R), R) == p))))


def centre(oc, step, R):
    """site of the orthogonality center after at least one update: an update moving leftward left it on the first site of its pair, one right of oc"""
    return z3.If(z3.And(R > 0, z3.Or(oc == 0, z3.And(step == -1, oc != R))), oc + 1, oc)


def c_move_oc(c):
    """requires: the site is in the chain. the centre is there afterwards; the length is unchanged (proved in N01)"""
    ex = c.ex
    i = zi(c.val(0))
    ex.check("the site is in the chain", z3.And(0 <= i, i < size_of(ex, c.obj)), c.node.get("l"))
    if hasattr(ex, "on_move"):
        ex.on_move(oc_of(ex, c.obj), i)
    n = size_of(ex, c.obj)
    ex.check("the site said to be the center is the center", canon(tens(ex, c.obj), n, oc_of(ex, c.obj)), c.node.get("l"))
    havoc_tensors(ex, c.obj, "moved")
    ex.assume(canon(tens(ex, c.obj), n, i))
    ex.write(c.obj.fld("orthogonality_center").fld("value"), i)


def p_restore(kind):
    def body(ex):
        f = next(g for g in ex.p.byqual["quantit::restore_oc"] if kind + " &" == ex.p.ts(g["params"][0]["t"]))
        st = mk_state(ex, f["params"][0]["t"])
        R, first, step = z3.Ints("last_pair first_oc step")
        upd = z3.Bool("updated")
        n, oc = size_of(ex, st), oc_of(ex, st)
        ex.assume(z3.And(n >= 2, R == n - 2, valid(oc, step, R), 0 <= first, first < n, canon(tens(ex, st), n, z3.If(upd, centre(oc, step, R), first))))
        ex.use.append((re.compile("quantit::b?MPS::move_oc"), c_move_oc))

        def on_move(o, i):
            ex.check("the center is moved from the site it is on", o == z3.If(upd, centre(oc, step, R), first))
        ex.on_move = on_move
        ocref = st.fld("orthogonality_center").fld("value")
        ex.call_fn(f, None, [st, ocref, first, step, upd])
        ex.prove("the center is back on its first site", z3.And(oc_of(ex, st) == first, canon(tens(ex, st), n, first)))
        ex.prove("same length", size_of(ex, st) == n)
    return body


def c_sweep(c):
    """contract of sweep, proved above"""
    ex = c.ex
    st = c.args[0]
    step, N, R = zi(c.val(2)), zi(c.val(3)), zi(c.val(4))
    n, oc = size_of(ex, st), oc_of(ex, st)
    ex.check("sweep: the edges are those of the chain", z3.And(n >= 2, R == n - 2, zi(c.val(5)) == 0), c.node.get("l"))
    ex.check("sweep: the starting pair and direction", valid(oc, step, R), c.node.get("l"))
    ex.check("sweep: a full cycle of updates", N == z3.If(R == 0, 2, 2 * R), c.node.get("l"))
    up = c.args[1]
    ex.check("sweep: environments and isometries", consistent(ex, st, up, oc), c.node.get("l"))
    havoc_tensors(ex, st, "swept")
    havoc_tensors(ex, ex.rv(up).f["Env"].lv, "env")
    ex.assume(consistent(ex, st, up, oc))
    ex.assume(canon(tens(ex, st), n, centre(oc, step, R)))
    r = ex.fresh_type(c.fn["ret"], "energy")
    ex.energy = r.v[0]
    return Tup([r.v[0], step])


def c_restore(c):
    """contract of restore_oc, proved above"""
    ex = c.ex
    st = c.args[0]
    first = zi(c.val(2))
    n = size_of(ex, st)
    ex.check("restore_oc: the state the sweeps leave", z3.And(n >= 2, valid(oc_of(ex, st), zi(c.val(3)), n - 2), 0 <= first, first < n), c.node.get("l"))
    ex.restored = (zi(first), zt(c.val(4)))
    oc, step, R = oc_of(ex, st), zi(c.val(3)), n - 2
    ex.check("restore_oc: where the center is", canon(tens(ex, st), n, z3.If(zt(c.val(4)), centre(oc, step, R), first)), c.node.get("l"))
    havoc_tensors(ex, st, "restored")
    ex.assume(canon(tens(ex, st), n, first))
    ex.write(st.fld("orthogonality_center").fld("value"), first)


def p_impl(kind):
    def body(ex):
        f = next(g for g in ex.p.byqual["quantit::details::dmrg_impl"] if kind + " &" == ex.p.ts(g["params"][2]["t"]))
        st = mk_state(ex, f["params"][2]["t"])
        n, oc = size_of(ex, st), oc_of(ex, st)
        ex.assume(z3.And(n >= 2, oc < n))
        mk = lambda i, k: mk_net(ex, f["params"][i]["t"], k, "arg%d" % i)
        ham, two, env = mk(0, n), mk(1, n - 1), mk(4, n + 2)
        opt, log = [ex.alloc(ex.fresh_type(f["params"][i]["t"], "arg%d" % i)) for i in (3, 5)]
        H, W, E, S = net(ex, ham), net(ex, two), net(ex, env), tens(ex, st)
        ex.assume(z3.And(canon(S, n, oc), envs_given(E.data, H.data, S.data, n, oc), two_ok(W.data, H.data, n)))
        whole = ex.rv(st)
        mx = zi(ex.rv(opt).f["maximum_iterations"])
        base_use(ex)
        ex.use.append((re.compile("quantit::sweep"), c_sweep))
        ex.use.append((re.compile("quantit::restore_oc"), c_restore))
        ex.use.append((re.compile("quantit::(full|contract|btensor::(?!ctor|swap|operator=).*|operator.*|abs|dmrg_logger::.*)|at::(?!Tensor::ctor|Tensor::operator=$).*|torch::.*|c10::.*"), fresh_result))
        ex.energy = None

        def inv(L):
            k = zi(L.v("iteration", "^unsigned int$"))
            s = zi(L.v("step", "^int$"))
            o = oc_of(ex, st)
            up = Struct(0, {"hamil": Ptr(ham), "twosite_hamil": Ptr(two), "Env": Ptr(env)})
            return [("iterations", z3.And(0 <= k, k <= mx)), ("length", size_of(ex, st) == n), ("same pair and direction", z3.And(valid(o, s, n - 2), o == z3.If(oc == n - 1, n - 2, oc))),
                    ("environments and isometries", consistent(ex, st, ex.alloc(up), o)), ("center", canon(tens(ex, st), n, z3.If(k > 0, centre(o, s, n - 2), oc)))]
        ex.loops_at = {("dmrg_impl", 0): inv}
        try:
            r = ex.call_fn(f, None, [ham, two, st, opt, env, log])
        except ThrowEx as e:
            ex.check("only a state of zero norm is refused", str(e) == "std::invalid_argument" and kind == "quantit::MPS" and ex.rv(st) is whole, f["line"])
            return
        ex.prove("the center is back on its first site", z3.And(oc_of(ex, st) == oc, canon(tens(ex, st), n, oc)))
        ex.prove("same length", size_of(ex, st) == n)
        ex.prove("told whether the state was updated", ex.restored[1] == (mx > 0))
        ex.prove("asked for the original center", ex.restored[0] == oc)
        ex.prove("the hamiltonian is not modified", z3.And(net(ex, ham).data == H.data, net(ex, two).data == W.data))
    return body


def envs_given(E, H, S, n, oc):
    """generate_env: the environments on each side of the center"""
    i = z3.Int("i")
    return z3.And(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < oc), E[i + 1] == LENV(H[i], S[i], E[i])), patterns=[S[i]]), z3.ForAll([i], z3.Implies(z3.And(oc < i, i < n), E[i + 1] == RENV(H[i], S[i], E[i + 2])), patterns=[S[i]]))


def p_env(kind):
    def body(ex):
        f = next(g for g in ex.p.byqual["quantit::generate_env_impl"] if "const %s &" % kind == ex.p.ts(g["params"][1]["t"]))
        st = mk_state(ex, f["params"][1]["t"])
        n, oc = size_of(ex, st), oc_of(ex, st)
        ex.assume(z3.And(n >= 1, oc < n))
        ham = mk_net(ex, f["params"][0]["t"], n, "hamiltonian")
        env = ex.alloc(ex.fresh_type(f["params"][2]["t"], "Env"))
        H, S = net(ex, ham), tens(ex, st)
        tensor_use(ex)

        def left(L):
            k = zi(L.v("i", "^unsigned long$"))
            E = net(ex, env).data
            j = z3.Int("j")
            return [("range", z3.And(0 <= k, k <= oc)), ("length", zi(net(ex, env).n) == n + 2), ("left of i", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), E[j + 1] == LENV(H.data[j], S.data[j], E[j])), patterns=[S.data[j]]))]

        def right(L):
            k = zi(L.v("i", "^unsigned long$"))
            E = net(ex, env).data
            j = z3.Int("j")
            return [("range", z3.And(oc <= k, k < n)), ("length", zi(net(ex, env).n) == n + 2), ("left", envs_left(E, H.data, S.data, oc)), ("right of i", z3.ForAll([j], z3.Implies(z3.And(k < j, j < n), E[j + 1] == RENV(H.data[j], S.data[j], E[j + 2])), patterns=[S.data[j]]))]
        ex.loops_at = {("generate_env_impl", 0): left, ("generate_env_impl", 1): right}
        ex.call_fn(f, None, [ham, st, env])
        ex.prove("room for every site and both ends", zi(net(ex, env).n) == n + 2)
        ex.prove("environments on both sides of the center", envs_given(net(ex, env).data, H.data, S.data, n, oc))
        ex.prove("state and hamiltonian untouched", z3.And(tens(ex, st).data == S.data, net(ex, ham).data == H.data, oc_of(ex, st) == oc))
    return body


def envs_left(E, H, S, oc):
    j = z3.Int("j")
    return z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < oc), E[j + 1] == LENV(H[j], S[j], E[j])), patterns=[S[j]])


def p_pairs(kind):
    def body(ex):
        f = next(g for g in ex.p.byqual["quantit::compute_2sitesHamil_impl"] if "const %s &" % kind.replace("MPS", "MPO") == ex.p.ts(g["params"][0]["t"]))
        n = z3.Int("n")
        ex.assume(n >= 1)
        ham = mk_net(ex, f["params"][0]["t"], n, "hamiltonian")
        H = net(ex, ham)
        GLUE = z3.Function("contract the bond", T, T, T)
        TWOP = z3.Function("operator legs first", T, T)
        ex.assume(z3.ForAll([z3.Const("a", T), z3.Const("b", T)], TWO(z3.Const("a", T), z3.Const("b", T)) == TWOP(GLUE(z3.Const("a", T), z3.Const("b", T)))))
        ex.use.append((re.compile("(quantit|at|torch)::tensordot"), lambda c: GLUE(c.val(0), c.val(1)) if (ints(c.ex.rv(c.args[2])), ints(c.ex.rv(c.args[3]))) == ([2], [0]) else c.ex.fresh(T, "product")))
        ex.use.append((re.compile("(quantit::btensor|at::Tensor)::permute"), lambda c: TWOP(c.ex.rv(c.obj)) if ints(c.ex.rv(c.args[0])) == [0, 1, 3, 4, 2, 5] else c.ex.fresh(T, "permuted")))

        def inv(L):
            k = zi(L.v("i", "^unsigned long$"))
            o = L.v("out")
            j = z3.Int("j")
            return [("range", z3.And(0 <= k, k <= n - 1)), ("length", zi(o.f["tensors"].n) == n - 1), ("pairs so far", z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < k), o.f["tensors"].data[j] == TWO(H.data[j], H.data[j + 1])), patterns=[o.f["tensors"].data[j]]))]
        ex.loops_at = {("compute_2sitesHamil_impl", 0): inv}
        r = ex.rv(ex.call_fn(f, None, [ham])).f["tensors"]
        ex.prove("one operator per pair of neighbours", z3.And(zi(r.n) == n - 1, two_ok(r.data, H.data, n)))
    return body


UNITS = [dict(name="lemmas", body=lambda ex: None, post=lemmas)] + [dict(name=nm + " " + k, tu="dm", body=g(k), opts=OPTS) for nm, g in (("update", p_update), ("sweep", p_sweep), ("restore_oc", p_restore), ("dmrg_impl", p_impl), ("generate_env", p_env), ("two sites hamiltonian", p_pairs)) for k in MPS]
DRIVERS = [dict(src="drivers/N02.cpp", libs=BTLIBS + ["MPT", "dmrg", "dmrg_logger", "models", "operators", "LinearAlgebra", "btensor_linalg"])]
