"""Runs the check of one property: extraction, verification conditions, solvers, real-code driver, evidence."""
import concurrent.futures as cf
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
TORCH = "/opt/vp/torch-site/torch"
LLVM = "/usr/lib/llvm-18"
DEFS = ["-std=gnu++17", "-w", "-DFMT_HEADER_ONLY=1", "-DFMT_DEPRECATED_OSTREAM", "-D_GLIBCXX_USE_CXX11_ABI=0",
        "-DDOCTEST_CONFIG_DISABLE", "-DQUANTIT_VERIF"]
INCS = ["-I" + REPO + "/include", "-I" + REPO + "/extern/boost", "-I" + REPO + "/extern/doctest",
        "-isystem", TORCH + "/include", "-isystem", TORCH + "/include/torch/csrc/api/include"]
CACHE = os.path.join(VERIF, ".cache")


def sh(cmd, timeout=None, env=None, cwd=None):
    t0 = time.time()
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout, time.time() - t0
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b""
        return 124, o.decode(errors="replace") if isinstance(o, bytes) else o, time.time() - t0


_tree = {}


def tree_hash(dirs):
    key = tuple(dirs)
    if key in _tree:
        return _tree[key]
    h = hashlib.sha256()
    for d in dirs:
        if os.path.isfile(d):
            h.update(open(d, "rb").read())
            continue
        for r, ds, fs in sorted(os.walk(d)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(r, f)
                h.update(p.encode())
                try:
                    h.update(open(p, "rb").read())
                except OSError:
                    pass
    _tree[key] = h.hexdigest()[:24]
    return _tree[key]


def cached(key, make):
    """make(tmp path) -> (ok, log); result stored under key"""
    os.makedirs(CACHE, exist_ok=True)
    p = os.path.join(CACHE, key)
    if os.path.exists(p):
        return p, ""
    fd, tmp = tempfile.mkstemp(dir=CACHE)
    os.close(fd)
    ok, log = make(tmp)
    if not ok:
        if os.path.exists(tmp):
            os.unlink(tmp)
        return None, log
    os.chmod(tmp, 0o755)
    os.replace(tmp, p)
    return p, log


def build_qtx():
    src = os.path.join(HERE, "qtx.cpp")

    def make(tmp):
        rc, out, _ = sh(["clang++", "-O0", "-std=c++17", "-fno-rtti", "-I" + LLVM + "/include", src, "-o", tmp,
                         "-L" + LLVM + "/lib", "-l:libclang-cpp.so.18.1", "-l:libLLVM-18.so", "-Wl,-rpath," + LLVM + "/lib"], 600)
        return rc == 0, out
    return cached("qtx-" + tree_hash([src]), make)


def extract(qtx, tu, roots):
    """AST of one translation unit. tu: path under /repo or /verif"""
    src = tu if os.path.isabs(tu) else (os.path.join(REPO, tu) if tu.startswith(("sources", "include")) else os.path.join(VERIF, tu))
    key = hashlib.sha256((tree_hash([REPO + "/include", REPO + "/sources", src, qtx]) + src + repr(roots)).encode()).hexdigest()[:24]

    def make(tmp):
        rf = tmp + ".roots"
        with open(rf, "w") as f:
            for r in roots:
                f.write(r + "\n")
            f.write("P %s/include\nP %s/sources\nP %s/\n" % (REPO, REPO, VERIF))
        rc, out, _ = sh([qtx, tmp, rf, src, "--"] + DEFS + ["-O0"] + INCS + ["-resource-dir=" + LLVM + "/lib/clang/18"], 600)
        os.unlink(rf)
        return rc == 0 and os.path.getsize(tmp) > 0, out
    return cached("ast-" + key, make)


def compile_obj(src, flags):
    key = hashlib.sha256((tree_hash([REPO + "/include", REPO + "/sources", VERIF + "/drivers/common.h"]) +
                          tree_hash([src]) + src + repr(flags)).encode()).hexdigest()[:24]

    def make(tmp):
        rc, out, _ = sh(["g++", "-c", src, "-o", tmp] + DEFS + flags + INCS + ["-I" + VERIF + "/drivers"], 800)
        return rc == 0, out
    return cached("obj-%s-%s.o" % (os.path.basename(src), key), make)


def build_driver(d, pool):
    """compile the library sources of the current tree and the driver, link"""
    flags = d.get("flags", ["-O0"])
    srcs = [VERIF + "/" + d["src"]] + [REPO + "/sources/" + s + ".cpp" for s in d.get("libs", [])]
    objs = list(pool.map(lambda s: compile_obj(s, flags), srcs))
    for s, (o, log) in zip(srcs, objs):
        if o is None:
            return None, "compilation of %s failed:\n%s" % (s, log[-3000:])
    ol = [o for o, _ in objs]
    key = hashlib.sha256(repr(ol).encode()).hexdigest()[:24]

    def make(tmp):
        L = TORCH + "/lib"
        libs = [L + "/libtorch.so", L + "/libtorch_cpu.so", L + "/libc10.so"]
        rc, out, _ = sh(["g++", "-o", tmp] + ol + ["-Wl,--no-as-needed"] + libs + ["-Wl,-rpath," + L, "-Wl,--allow-shlib-undefined", "-lpthread", "-ldl"] + d.get("ldflags", []), 300)
        return rc == 0, out
    return cached("drv-" + key, make)


# ------------------------------------------------------------------ units
def gen_unit(args):
    """in a worker process: run the symbolic execution of one unit, return serialised obligations"""
    mod, name, asts, opts = args
    sys.path.insert(0, HERE)
    sys.path.insert(0, os.path.join(HERE, "units"))
    import engine
    from solve import smt2
    t0 = time.time()

    def late(*a):
        raise engine.Unsupported("symbolic execution exceeds its time limit")
    signal.signal(signal.SIGALRM, late)
    signal.alarm(150 if opts.get("tier") == "quick" else 1500)
    out = dict(unit=name, obls=[], error=None, assumptions=[], inlined=[], used=[], lemmas=[], cover=0, paths=0, nsafe=0, bounded=None)
    try:
        m = importlib.import_module(mod)
        u = [x for x in m.UNITS if x["name"] == name][0]
        o = dict(abstract_q=True, abstract_map=True)
        o.update(u.get("opts", {}))
        o.update(opts)
        out["bounded"] = o.get("unroll")
        prog = load(asts[u["tu"]]) if u.get("tu") else None
        ex = engine.Exec(prog, name, o)
        ex.lemmas_used = set()
        ex.tier = opts.get("tier", "quick")
        for a in u.get("axioms", []):
            ex.axioms += a()
        ex.explore(u["body"])
        if u.get("post"):
            ex.reset([])
            u["post"](ex)
        out["cover"], out["paths"] = ex.ncover, ex.npaths
        out["nsafe"] = getattr(ex, "nsafe", 0)
        for ob in ex.obls:
            out["obls"].append(dict(unit=name, label=ob.label, kind=ob.kind, line=ob.line, text=smt2(ob, max(u.get("depth", 3), (o.get("unroll") or 0) + 2)),
                                    timeout=u.get("timeout")))
        out["cut"] = bool(getattr(ex, "bounded_cut", False))
        out["assumptions"] = sorted(ex.assumptions)
        out["inlined"] = sorted(ex.inlined)
        out["used"] = sorted(ex.contracts_used)
        out["lemmas"] = sorted(ex.lemmas_used)
        if ex.ncover == 0:
            out["error"] = "vacuous: no path reaches the end of the unit"
    except engine.Unsupported as e:
        out["error"] = "%s: %s" % (type(e).__name__, e)
        if os.environ.get("VCG_DEBUG"):
            out["tb"] = traceback.format_exc(limit=-8)
    except Exception as e:
        out["error"] = "internal %s: %s" % (type(e).__name__, e)
        out["tb"] = traceback.format_exc(limit=-10)
    signal.alarm(0)
    out["time"] = time.time() - t0
    return out


_prog = {}


def load(path):
    import engine
    if path not in _prog:
        _prog[path] = engine.Program(path)
    return _prog[path]


def run_units(mod, units, asts, tier, extra=None, jobs=8):
    jobsl = []
    for u in units:
        o = dict(tier=tier)
        if extra:
            o.update(extra)
        jobsl.append((mod, u["name"], asts, o))
    ctx = mp.get_context("fork")
    res = {}

    def attempt(todo, n):
        ex = cf.ProcessPoolExecutor(min(n, max(1, len(todo))), mp_context=ctx)
        fu = {j[1]: ex.submit(gen_unit, j) for j in todo}
        end = time.time() + 700
        for nm, f in fu.items():
            try:
                res[nm] = f.result(timeout=max(1, end - time.time()))
            except Exception as e:      # a crash of the solver library takes its worker along
                res[nm] = dict(unit=nm, obls=[], error="internal %s: %s" % (type(e).__name__, e), assumptions=[], inlined=[], used=[], lemmas=[],
                               cover=0, paths=0, nsafe=0, bounded=None, time=0.0, crashed=True)
        for p in list((ex._processes or {}).values()):
            if any(not f.done() for f in fu.values()):
                p.kill()
        ex.shutdown(wait=True, cancel_futures=True)
    attempt(jobsl, jobs)
    for j in jobsl:
        if res[j[1]].get("crashed"):
            attempt([j], 1)
    return [res[j[1]] for j in jobsl]


def solve_all(outs, timeout, jobs=8):
    import solve
    flat = [ob for o in outs for ob in o["obls"]]
    res = solve.discharge_texts(flat, timeout, jobs)
    for ob, r in zip(flat, res):
        ob.update(r)
    solve.retry(flat)
    bad = [o for o in flat if o["status"] != "unsat"]
    if bad:
        solve.confirm(bad, min(timeout, 15), jobs)
    return flat


# ------------------------------------------------------------------ main
def main(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    sys.path.insert(0, HERE)
    sys.path.insert(0, os.path.join(HERE, "units"))
    modname = "unit_" + pid
    m = importlib.import_module(modname)
    UN = m.UNITS
    if tier == "quick":
        UN = [u for u in UN if not u.get("thorough_only")]
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    rdir = os.path.join(VERIF, "out", pid)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir, exist_ok=True)
    log = []

    def say(s):
        print("[%6.1fs] %s" % (time.time() - t0, s), flush=True)

    res = dict(drv=None, drverr=None, asts={}, extract_err=None)
    pool = cf.ThreadPoolExecutor(10)
    dpool = cf.ThreadPoolExecutor(8)
    drvs = getattr(m, "DRIVERS", [])

    def run_driver(d):
        drv, lg = build_driver(d, dpool)
        if drv is None:
            return dict(error="driver %s does not build against the current tree: %s" % (d["src"], lg[-2500:]))
        say("driver %s built" % d["src"])
        outf = os.path.join(work, os.path.basename(d["src"]) + ".out")
        env = dict(os.environ, OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", VERIF_SEED=str(seed), VERIF_TIER=tier)
        rc, out, t = sh([drv, tier, str(seed), outf], d.get("timeout", {}).get(tier, 300 if tier == "quick" else 3000), env=env, cwd=work)
        say("driver %s finished rc=%s in %.1fs" % (d["src"], rc, t))
        return dict(rc=rc, out=out, time=t, rec=read_driver(outf), src=d["src"])

    dfut = [pool.submit(run_driver, d) for d in drvs]

    tus = getattr(m, "TUS", {})
    if tus:
        qtx, lg = build_qtx()
        if qtx is None:
            res["extract_err"] = "extractor does not build: " + lg[-2000:]
        else:
            futs = {k: pool.submit(extract, qtx, v[0], v[1]) for k, v in tus.items()}
            for k, f in futs.items():
                p, lg = f.result()
                if p is None:
                    res["extract_err"] = "extraction of %s failed: %s" % (tus[k][0], lg[-2000:])
                else:
                    res["asts"][k] = p
        say("extraction done" if not res["extract_err"] else res["extract_err"])
    outs = []
    flat = []
    bouts = []
    bflat = []
    timeout = 12 if tier == "quick" else 60
    if not res["extract_err"]:
        un = [u for u in UN if not u.get("tu") or u["tu"] in res["asts"]]
        outs = run_units(modname, un, res["asts"], tier)
        say("%d units, %d obligations generated" % (len(outs), sum(len(o["obls"]) for o in outs)))
        flat = solve_all(outs, timeout)
        say("%d/%d discharged" % (sum(1 for o in flat if o["status"] == "unsat"), len(flat)))
        # stand-in for what could not be proved: the same contracts with loops unrolled to a stated bound
        badu = {o["unit"] for o in outs if o["error"]} | {o["unit"] for o in flat if o["status"] != "unsat"}
        again = [u for u in un if u["name"] in badu and u.get("bounded")]
        if again:
            bouts = []
            for u in again:
                bouts += run_units(modname, [u], res["asts"], tier, dict(unroll=u["bounded"]))
            bflat = solve_all(bouts, timeout)
            say("bounded stand-in for %s: %d/%d discharged" % (sorted(u["name"] for u in again), sum(1 for o in bflat if o["status"] == "unsat"), len(bflat)))
    dres = [f.result() for f in dfut]
    code = report(pid, tier, seed, m, UN, res, outs, flat, bouts, bflat, dres, rdir, t0, say)
    shutil.rmtree(work, ignore_errors=True)
    return code


def read_driver(path):
    rec = dict(evaluations=0, distinct=0, fails=[], samples=[], cur=None, done=False, counts={})
    try:
        for line in open(path, errors="replace"):
            line = line.rstrip("\n")
            if "\t" not in line:
                continue
            k, v = line.split("\t", 1)
            if k == "FAIL":
                rec["fails"].append(v)
            elif k == "SAMPLE":
                rec["samples"].append(v)
            elif k == "COUNT":
                a, b = v.rsplit("\t", 1)
                rec["counts"][a] = int(b)
            elif k == "EVAL":
                rec["evaluations"] = int(v)
            elif k == "DISTINCT":
                rec["distinct"] = int(v)
            elif k == "CUR":
                rec["cur"] = v
            elif k == "DONE":
                rec["done"] = True
    except OSError:
        pass
    return rec


def report(pid, tier, seed, m, UN, res, outs, flat, bouts, bflat, dres, rdir, t0, say):
    known = []
    kf = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))["findings"] if k["property"] == pid]
    violations = []   # (desc, replay dict, nofail)
    seenk = set()

    def is_known(s):
        for k in known:
            if k.get("match") and re.search(k["match"], s):
                seenk.add(k["what"])
                return True
        return False

    # 1. the real code
    undecided = []
    evals = distinct = 0
    samples = []
    counts = {}
    for d in dres:
        if "error" in d:
            undecided.append(d["error"])
            say("UNDECIDED " + d["error"][:1500])
            continue
        r = d["rec"]
        evals += r["evaluations"]
        distinct += r["distinct"]
        samples += r["samples"][:6]
        counts.update(r["counts"])
        new = [f for f in r["fails"] if not is_known(f)]
        for f in new[:20]:
            violations.append((f, dict(driver=d["src"], case=f, command="python3-vt check.py %s" % pid), False))
        if not r["done"] and not new:
            c = "the real code did not survive case: %s (exit %s)" % (r["cur"], d["rc"])
            if d["rc"] == 124:
                c = "the real code did not terminate on case: %s" % r["cur"]
            if r["cur"] is None:
                undecided.append("driver %s did not start: rc=%s %s" % (d["src"], d["rc"], d["out"][-500:]))
                say("UNDECIDED " + undecided[-1])
            elif not is_known(c):
                violations.append((c, dict(driver=d["src"], case=r["cur"], exit=d["rc"], output=d["out"][-3000:]), False))
    # 2. the proof
    if res["extract_err"]:
        undecided.append(res["extract_err"])
    st = {}
    nproved = 0
    for o in outs:
        if o["error"]:
            undecided.append("unit %s: %s" % (o["unit"], o["error"]))
            say("UNDECIDED unit %s: %s" % (o["unit"], o["error"]))
            if o.get("tb"):
                print(o["tb"])
    bad = [o for o in flat if o["status"] != "unsat"]
    for o in bad:
        say("NOT DISCHARGED [%s] %s: %s (line %s): %s" % (o["status"], o["unit"], o["label"], o["line"], o["kind"]))
    bst = {}
    for o in bouts:
        bst[o["unit"]] = "error" if o["error"] else "ok"
        if o["error"]:
            say("bounded stand-in of %s failed: %s" % (o["unit"], o["error"]))
    refuted = []
    bybad = {}
    for o in bad:
        bybad.setdefault(o["unit"], []).append(o)
    inv_bad = {u: any(o["kind"].startswith("inv") for o in v) for u, v in bybad.items()}
    for o in bflat:
        if o["status"] != "unsat":
            bst[o["unit"]] = "undecided"
            say("BOUNDED NOT DISCHARGED [%s] %s: %s (line %s)" % (o["status"], o["unit"], o["label"], o["line"]))
        if o["status"] == "refuted":
            refuted.append(("bounded", o))
    for o in bad:
        # a model of a negated contract is a refutation only when no invariant of the function failed too
        if o["status"] == "refuted" and not inv_bad[o["unit"]] and o["kind"] in ("post", "safety", "lemma") and not any(x[1]["unit"] == o["unit"] for x in refuted):
            if bst.get(o["unit"]) == "ok":
                continue
            refuted.append(("contract", o))
    refuted = [(w, o) for w, o in refuted if not is_known("obligation %s: %s" % (o["unit"], o["label"]))]
    if refuted:
        for w, o in refuted[:5]:
            rp = dict(failed_obligation="%s: %s" % (o["unit"], o["label"]), line=o["line"], verifier=o.get("backend"),
                      verifier_output=o.get("output", "")[:12000], mode=w)
            if not violations:
                violations.append(("obligation fails: %s: %s (line %s)" % (o["unit"], o["label"], o["line"]), rp, True))
            else:
                violations[0][1].setdefault("failed_obligations", []).append(rp)
    elif violations and bad:
        violations[0][1]["failed_obligations"] = [dict(obligation="%s: %s" % (o["unit"], o["label"]), status=o["status"]) for o in bad[:10]]
    proved = not undecided and not bad and len(flat) > 0
    byback = {}
    for o in flat:
        if o["status"] == "unsat":
            byback[o["backend"]] = byback.get(o["backend"], 0) + 1
    assum = set()
    funcs = set()
    used = set()
    for o in outs:
        assum |= set(o["assumptions"])
        funcs |= set(o["inlined"])
        used |= set(o["used"])
    assum |= set(getattr(m, "ASSUMPTIONS", []))
    try:
        import models
        assum |= set(models.ASSUMED.get(k) for k in [] if k)
    except Exception:
        pass
    proved_units = [o["unit"] for o in outs if not o["error"] and not any(x["status"] != "unsat" for x in o["obls"])]
    bounded_units = [u["name"] for u in UN if u["name"] not in proved_units and bst.get(u["name"]) == "ok"]
    level = m.LEVEL if proved or m.LEVEL != "proof" else "other"
    cov = dict(obligations=len(flat), discharged=sum(1 for o in flat if o["status"] == "unsat"),
               trivially_true_side_conditions=sum(o["nsafe"] for o in outs),
               checker_cmd="python3-vt check.py %s --tier %s" % (pid, tier),
               trusted_base=["the extractor vcg/qtx.cpp (prints clang's AST of the real sources)", "the verification condition generator vcg/engine.py",
                             "assumed library contracts vcg/models.py", "z3 / cvc5"],
               back_ends=byback, solver_seconds=round(sum(o.get("time", 0) for o in flat), 1),
               units_proved=proved_units, units_bounded=[dict(unit=u, bound="loops unrolled %s times" % [x for x in UN if x["name"] == u][0]["bounded"]) for u in bounded_units],
               undecided=undecided[:20], functions_verified=sorted(funcs), callee_contracts_used=sorted(used),
               paths=sum(o["paths"] for o in outs),
               real_code_evaluations=evals, real_code_distinct=distinct, samples=(samples or ["no driver"])[:12], real_code_counts=counts,
               evaluations=evals, distinct_nontrivial=distinct, rule=getattr(m, "RULE", "cases of the real-code driver; non-trivial when the structure is not empty"),
               explanation=m.EXPLANATION, not_proved=getattr(m, "NOT_PROVED", []))
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, wall_s=round(time.time() - t0, 1),
              assumptions=sorted(a for a in assum if a), violations=[v[0] for v in violations])
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    for k in known:
        if k.get("match") is None or k["what"] in seenk:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    say("level %s; proved units %d/%d; real code evaluations %d" % (level, len(proved_units), len(UN), evals))
    if not violations:
        say("OK")
        return 0
    # one line for the property: a failing input if there is one
    violations.sort(key=lambda v: v[2])
    d, rp, nofail = violations[0]
    rp["property"] = pid
    rp["description"] = d
    rp["all"] = [v[0] for v in violations][:50]
    rpath = os.path.join(rdir, "replay.json")
    json.dump(rp, open(rpath, "w"), indent=1)
    for v in violations[:8]:
        say("violated: " + v[0][:600])
    print("VIOLATION property=%s replay=%s%s" % (pid, os.path.relpath(rpath, VERIF), " no-failing-input-found" if nofail else ""))
    return 1
