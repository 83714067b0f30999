"""Discharges obligations with a portfolio of SMT solvers (command line, in parallel)."""
import concurrent.futures as cf
import subprocess
import tempfile
import time
import os
import re

import z3
from engine import unfoldings

BACKENDS = [("z3-new", lambda f, t: ["z3-new", "-T:%d" % t, f]),
            ("cvc5", lambda f, t: ["cvc5", "--lang=smt2", "--tlimit=%d" % (t * 1000), "--full-saturate-quant", f]),
            ("z3", lambda f, t: ["/usr/bin/z3" if os.path.exists("/usr/bin/z3") else "z3", "-T:%d" % t, f]),
            ("z3-new, instantiation by patterns only", lambda f, t: ["z3-new", "-T:%d" % t, "smt.mbqi=false", "auto_config=false", f])]


def smt2(o, depth=3):
    hy = list(o.hyps) + [z3.Not(o.goal)]
    hy = [x for x in hy + list(unfoldings(hy, depth)) if z3.is_expr(x)]
    a = (z3.Ast * (len(hy) - 1))(*[x.as_ast() for x in hy[:-1]])
    return z3.Z3_benchmark_to_smtlib_string(hy[0].ctx_ref(), "", "", "unknown", "", len(hy) - 1, a, hy[-1].as_ast())


def run(cmd, timeout):
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout + 5, text=True)
        out = p.stdout
    except subprocess.TimeoutExpired:
        out = "timeout"
    m = re.search(r"^(sat|unsat|unknown)$", out, re.M)
    st = m.group(1) if m else "unknown"
    if m and "(error" in out[:m.start()]:       # an answer to a query the solver did not fully understand is none
        st = "unknown"
    return st, out, time.time() - t0


def one(text, timeout, tmpd, idx):
    st0, backend, tt, output = "unknown", None, 0.0, ""
    f = os.path.join(tmpd, "o%d.smt2" % idx)
    with open(f, "w") as h:
        h.write(text)
    short, mid = min(2, timeout), min(6, timeout)
    tries = [(BACKENDS[0], short), (BACKENDS[2], short), (BACKENDS[3], mid), (BACKENDS[1], mid),
             (BACKENDS[0], timeout), (BACKENDS[2], timeout), (BACKENDS[1], timeout)]
    for (name, mk), to in tries:
        st, out, t = run(mk(f, to), to)
        tt += t
        if st in ("sat", "unsat"):
            st0, backend, output = st, name, out
            break
        output += "%s: %s\n" % (name, out[-300:])
    if st0 == "sat":
        with open(f, "a") as h:
            h.write("\n(get-model)\n")
        st, out, t = run(["z3-new", "-T:%d" % timeout, f], timeout)
        output = out[:20000]
    os.unlink(f)
    return dict(status=st0, backend=backend, time=tt, output=output)


def discharge_texts(obls, timeout=10, jobs=8):
    """obls: dicts with 'text'; identical queries are solved once"""
    tmpd = tempfile.mkdtemp(prefix="vcg")
    uniq = {}
    for i, o in enumerate(obls):
        uniq.setdefault(o["text"], []).append(i)
    out = [None] * len(obls)
    with cf.ThreadPoolExecutor(jobs) as ex:
        fu = {ex.submit(one, t, obls[ix[0]].get("timeout") or timeout, tmpd, ix[0]): ix for t, ix in uniq.items()}
        for f in cf.as_completed(fu):
            r = f.result()
            for n, j in enumerate(fu[f]):
                out[j] = dict(r, time=r["time"] if n == 0 else 0.0)
    os.rmdir(tmpd)
    return out


def retry(obls, timeout=45, jobs=8, most=8):
    """a last attempt at the few obligations left undecided: several configurations at once, the first answer counts"""
    left = [o for o in obls if o["status"] == "unknown"]
    if not left or len(left) > most:
        return
    cfgs = [("z3-new seed %d" % i, lambda f, t, i=i: ["z3-new", "-T:%d" % t, "smt.random_seed=%d" % i, "sat.random_seed=%d" % i, f]) for i in (1, 2, 3)] + \
           [("z3 seed %d" % i, lambda f, t, i=i: ["/usr/bin/z3", "-T:%d" % t, "smt.random_seed=%d" % i, f]) for i in (0, 1)] + \
           [("z3-new, split by relevancy", lambda f, t: ["z3-new", "-T:%d" % t, "smt.case_split=3", "smt.qi.eager_threshold=100", f]), BACKENDS[1]]
    tmpd = tempfile.mkdtemp(prefix="vcgr")
    for n, o in enumerate(left):
        f = os.path.join(tmpd, "r%d.smt2" % n)
        with open(f, "w") as h:
            h.write(o["text"])
        ps = [(nm, subprocess.Popen(mk(f, timeout), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for nm, mk in cfgs]
        t0 = time.time()
        while ps and time.time() - t0 < timeout + 3:
            for nm, p in list(ps):
                if p.poll() is None:
                    continue
                ps.remove((nm, p))
                po = p.stdout.read()
                m = re.search(r"^(sat|unsat|unknown)$", po, re.M)
                if m and "(error" not in po[:m.start()] and m.group(1) == "unsat" and o["status"] != "unsat":
                    o["status"], o["backend"] = "unsat", nm
            if o["status"] == "unsat":
                break
            time.sleep(0.05)
        for nm, p in ps:
            p.kill()
            p.wait()
        o["time"] += time.time() - t0
        os.unlink(f)
    os.rmdir(tmpd)


def definitions():
    """SMT-LIB definitions of the recursive specification functions (the obligations carry finitely many unfoldings only)"""
    from engine import RecFun
    import spec  # noqa: registers the functions of the contracts
    out = {}
    for r in RecFun.all:
        d = r.f
        vs = [z3.Const("rv%d" % i, d.domain(i)) for i in range(d.arity())]
        *ar, lo, hi = vs
        body = z3.If(hi <= lo, r.base(*ar), r.step(ar, d(*ar, lo, hi - 1), hi - 1))
        sig = " ".join("(rv%d %s)" % (i, d.domain(i).sexpr()) for i in range(d.arity()))
        out[d.name()] = "(define-fun-rec %s (%s) %s\n%s)" % (d.name(), sig, d.range().sexpr(), body.sexpr())
    return out


def with_definitions(text, defs):
    """replace the declarations of specification functions by their definitions"""
    lines = text.split("\n")
    decl, rest, used = [], [], []
    cur = ""
    for ln in lines:
        cur = cur + "\n" + ln if cur else ln
        if cur.count("(") > cur.count(")"):
            continue
        m = re.match(r"\(declare-fun (\S+) ", cur)
        if m and m.group(1) in defs:
            used.append(m.group(1))
        elif cur.startswith("(declare") or cur.startswith("(set-") or cur.startswith(";"):
            decl.append(cur)
        else:
            rest.append(cur)
        cur = ""
    # functions the definitions mention
    order = []

    def visit(n):
        if n in order:
            return
        for m in defs:
            if m != n and re.search(r"\(%s " % re.escape(m), defs[n]):
                visit(m)
        order.append(n)
    for n in used:
        visit(n)
    order.reverse()
    have = set(re.findall(r"\(declare-fun (\S+) ", "\n".join(decl)))
    for n in order:
        for nm, sg in (("qop", "(Qty Qty) Qty"), ("qe", "() Qty"), ("qinv", "(Qty) Qty"), ("POS_OK", "(Int) Bool")):
            if re.search(r"[( ]%s[ )]" % nm, defs[n]) and nm not in have:
                have.add(nm)
                decl.append("(declare-fun %s %s)" % (nm, sg))
    if any("Qty" in x for x in decl + [defs[n] for n in order]) and not any(x.startswith("(declare-sort Qty") for x in decl):
        decl.insert(0, "(declare-sort Qty 0)")
    decl.sort(key=lambda x: 0 if x.startswith(("(set", ";", "(declare-sort")) else 1)
    return "\n".join(decl + [defs[n] for n in reversed(order)] + rest)


def confirm(obls, timeout=10, jobs=8, per_label=6):
    """second opinion on obligations that were not discharged, with the specification functions fully defined.
    status becomes 'refuted' when a model exists that respects the definitions"""
    defs = definitions()
    tmpd = tempfile.mkdtemp(prefix="vcgc")
    seen, todo = {}, []
    for o in obls:
        k = (o["unit"], o["label"])
        if seen.get(k, 0) < per_label:
            seen[k] = seen.get(k, 0) + 1
            todo.append(o)

    def go(io):
        i, o = io
        f = os.path.join(tmpd, "c%d.smt2" % i)
        with open(f, "w") as h:
            h.write(with_definitions(o["text"], defs) + "\n(get-model)\n")
        st, out, t = run(["z3-new", "-T:%d" % timeout, f], timeout)
        os.unlink(f)
        return st, out, t
    with cf.ThreadPoolExecutor(jobs) as ex:
        for o, (st, out, t) in zip(todo, ex.map(go, enumerate(todo))):
            o["time"] += t
            o["confirm"] = st
            if st == "unsat":
                o["status"], o["backend"] = "unsat", "z3-new (defined functions)"
            elif st == "sat":
                o["status"], o["output"] = "refuted", out[:20000]
            elif "error" in out:
                o["output"] = (o.get("output") or "") + out[:500]
    os.rmdir(tmpd)
