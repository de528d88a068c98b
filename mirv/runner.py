"""Check runner: extract the MIR of the current tree, discharge a property's obligations, replay failures on the real code."""
import hashlib
import json
import multiprocessing as mp
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MIRV_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
T0 = time.time()


def log(*a):
    print("[%6.1f]" % (time.time() - T0), *a, flush=True)


def sh(cmd, env=None, cwd=None, timeout=1500):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


class BuildError(Exception):
    pass


def tree_hash(feats, what):
    h = hashlib.sha256(("%s %s " % (what, feats)).encode())
    roots = [REPO + "/src", VERIF + "/harness", VERIF + "/mirv/driver", REPO + "/derive", REPO + "/script"]
    for r in roots:
        for d, ds, fs in sorted(os.walk(r)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as x:
                    h.update(x.read())
    for f in ("Cargo.toml", "build.rs", "rust-toolchain"):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            h.update(open(p, "rb").read())
    return h.hexdigest()


def stamp(path, val):
    with open(path + ".stamp", "w") as f:
        f.write(val)


def fresh(path, val):
    try:
        return os.path.exists(path) and open(path + ".stamp").read() == val
    except OSError:
        return False


def nightly():
    rc, out = sh(["rustup", "run", "nightly", "rustc", "--print", "sysroot"])
    if rc:
        raise BuildError("no nightly toolchain: " + out)
    return out.strip().splitlines()[-1]


def harness_env(feats):
    """the harness crate refers to /repo by path; a different tree can be given with MIRV_REPO (development only)"""
    src = os.path.join(VERIF, "harness")
    if REPO == "/repo":
        return src
    d = os.path.join(BUILD, "harness")
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(src, d, ignore=shutil.ignore_patterns("target"))
    p = os.path.join(d, "Cargo.toml")
    s = open(p).read().replace('"/repo"', '"%s"' % REPO)
    open(p, "w").write(s)
    return d


def fargs(feats):
    return ["--no-default-features", "--features", ",".join(feats)] if feats else []


def build_driver(N):
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "mirv-driver")
    src = os.path.join(VERIF, "mirv/driver/main.rs")
    hh = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if fresh(out, hh):
        return out
    rc, o = sh(["rustup", "run", "nightly", "rustc", "-O", "--edition", "2021", "-A", "warnings", src, "-o", out])
    if rc:
        raise BuildError("driver does not build:\n" + o[-4000:])
    stamp(out, hh)
    return out


def build_mir(feats):
    N = nightly()
    drv = build_driver(N)
    tag = hashlib.sha256(",".join(sorted(feats)).encode()).hexdigest()[:10]
    out = os.path.join(BUILD, "mir-%s.jsonl" % tag)
    hh = tree_hash(sorted(feats), "mir")
    if fresh(out, hh):
        return out
    cwd = harness_env(feats)
    env = dict(LD_LIBRARY_PATH=N + "/lib", RUSTUP_TOOLCHAIN="1.74.0", RUSTC=N + "/bin/rustc",
               RUSTFLAGS="-Zalways-encode-mir -Zinline-mir=no -Awarnings --cfg mirv_hooks", CARGO_TARGET_DIR=os.path.join(BUILD, "tmir" + ("-asm" if "asm" in feats else "")),
               RUSTC_WRAPPER=drv, MIRV_CRATE="mirv_harness", MIRV_OUT=out, MIRV_SYSROOT=N)
    if os.path.exists(out):
        os.unlink(out)
    os.utime(os.path.join(cwd, "src/lib.rs"))
    rc, o = sh(["cargo", "build", "--release", "--offline", "--lib"] + fargs(feats), env=env, cwd=cwd)
    if rc or not os.path.exists(out):
        raise BuildError("MIR extraction failed:\n" + o[-6000:])
    stamp(out, hh)
    return out


def build_rpc(feats):
    feats = sorted(set(feats) | {"rpc"})
    hh = tree_hash(feats, "rpc")
    cwd = harness_env(feats)
    tgt = os.path.join(BUILD, "trpc" + ("-asm" if "asm" in feats else ""))
    tag = hashlib.sha256(",".join(feats).encode()).hexdigest()[:10]
    out = os.path.join(BUILD, "rpc-" + tag)
    if fresh(out, hh):
        return out
    os.utime(os.path.join(cwd, "src/lib.rs"))
    rc, o = sh(["cargo", "build", "--release", "--offline"] + fargs(feats), env=dict(RUSTUP_TOOLCHAIN="1.74.0", CARGO_TARGET_DIR=tgt, RUSTFLAGS="-Awarnings --cfg mirv_hooks"), cwd=cwd)
    b = os.path.join(tgt, "release/rpc")
    if rc or not os.path.exists(b):
        raise BuildError("replay binary does not build:\n" + o[-6000:])
    shutil.copy(b, out)
    stamp(out, hh)
    return out


# ---------------------------------------------------------------- workers
class TimeUp(BaseException):
    pass


def _alarm(*a):
    raise TimeUp()


G = {}


def _one(i):
    ob = G["obs"][i]
    lim = getattr(ob, "limit", None) or G["limit"]
    signal.signal(signal.SIGALRM, _alarm)
    t = time.time()
    signal.setitimer(signal.ITIMER_REAL, lim)
    try:
        try:
            sys.setrecursionlimit(20000)
            r = ob.run(G["prog"])
        except TimeUp:
            r = dict(name=ob.name, root=ob.root, status="unsupported", reason="time limit of %d s" % lim, clauses=0, paths=0, failed=[], contracts={},
                     functions=[], steps=0, queries=0, solver_time=0.0)
        except Exception:
            r = dict(name=ob.name, root=ob.root, status="unsupported", reason="tool failure: " + traceback.format_exc()[-600:], clauses=0, paths=0,
                     failed=[], contracts={}, functions=[], steps=0, queries=0, solver_time=0.0)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
    except TimeUp:
        r = dict(name=ob.name, root=ob.root, status="unsupported", reason="time limit", clauses=0, paths=0, failed=[], contracts={}, functions=[],
                 steps=0, queries=0, solver_time=0.0)
    r["time"] = round(time.time() - t, 3)
    r["i"] = i
    return r


def run_all(prog, obs, limit, procs=None):
    G.update(prog=prog, obs=obs, limit=limit)
    procs = procs or min(os.cpu_count() or 4, 8)
    order = sorted(range(len(obs)), key=lambda i: -getattr(obs[i], "cost", 1))
    out = [None] * len(obs)
    if not obs:
        return out
    with mp.get_context("fork").Pool(procs, maxtasksperchild=40) as pl:
        for r in pl.imap_unordered(_one, order, chunksize=1):
            out[r["i"]] = r
            if r["status"] != "proved" or os.environ.get("MIRV_VERBOSE"):
                log("%-40s %s %.1fs %s" % (r["name"], r["status"], r["time"], (r.get("reason") or "")[:300]))
                for f in r["failed"][:3]:
                    log("     clause %s: %s %s" % (f["clause"], f["status"], str(f["detail"])[:300]))
    return out


def retry(prog, obs, res, limit):
    """a goal the solver left open, or a run that hit the time limit, is tried once more with fewer processes and more time: a busy machine is no alarm.
    Pointless when another obligation is refuted already (the property fails either way)."""
    again = [i for i, r in enumerate(res) if r["status"] == "unknown" or r["status"] == "unsupported" and (r.get("reason") or "").startswith("time limit")]
    if not again or len(again) > 12 or any(r["status"] == "refuted" for r in res) or time.time() - T0 > 400:
        return res
    log("second attempt for", len(again), "undecided obligations")
    sub = [obs[i] for i in again]
    for o in sub:
        o.limit = max(170, getattr(o, "limit", None) or 0)
        if hasattr(o, "timeout"):
            o.timeout *= 2
    res = list(res)
    for i, r in zip(again, run_all(prog, sub, limit, procs=4)):
        r["i"] = i
        res[i] = r
    return res


SAMPLES = []


def _search(i):
    """worker: concrete search number i on its own replay process"""
    ob, n, seed, extra, secs = G["search"][i]
    from .conc import Rpc, Tester
    tester = Tester(Rpc(G["rpc"]), G["prog"], G["special"])
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, 3 * secs + 20)
        k, fail = tester.search(ob.root, ob.oracle, n=n, seed=seed, gen=getattr(ob, "gen", None), extra=list(extra) + list(getattr(ob, "extra_inputs", ())), deadline=time.time() + secs)
        return i, k, fail, None, getattr(tester, 'sample', None)
    except TimeUp:
        return i, 0, None, "time limit", None
    except Exception:
        return i, 0, None, traceback.format_exc()[-500:], None
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        try:
            tester.rpc.close()
        except Exception:
            pass


def run_searches(jobs, prog, rpc, special):
    """jobs: [(obligation, n, seed, extra, seconds)] -> [(evaluations, failure)]"""
    out = [(0, None)] * len(jobs)
    live = [i for i, j in enumerate(jobs) if getattr(j[0], "oracle", None) and j[0].root in prog.roots]
    if not live or rpc is None:
        return out
    G.update(search=jobs, rpc=rpc, special=special, prog=prog)
    with mp.get_context("fork").Pool(min(os.cpu_count() or 4, 8), maxtasksperchild=8) as pl:
        for i, k, fail, err, smp in pl.imap_unordered(_search, live, chunksize=1):
            out[i] = (k, fail)
            if smp and len(SAMPLES) < 12:
                SAMPLES.append(dict(entry=smp[0], args=smp[1]))
            if err:
                log("search for", jobs[i][0].name, "stopped:", err)
    return out


class Lemma:
    """closed arithmetic fact decided by exact computation"""

    def __init__(self, name, f):
        self.name, self.f, self.root = name, f, None
        self.oracle = None

    def run(self, prog):
        t = time.time()
        r = dict(name=self.name, root=None, clauses=1, paths=0, failed=[], contracts={}, functions=[], steps=0, queries=0, solver_time=0.0, lemma=True)
        ok, det = self.f() if self.f.__code__.co_argcount == 0 else self.f(prog)
        r["status"] = "proved" if ok else "refuted"
        if not ok:
            r["failed"].append(dict(clause=self.name, status="refuted", detail=str(det), path=[], model=None))
        r["time"] = time.time() - t
        return r


class Bounded:
    """stand-in for a function outside the verifier's reach: real code against an oracle on a stated number of inputs"""

    def __init__(self, name, root, oracle, n=4000, gen=None, why="", extra=()):
        self.name, self.root, self.oracle, self.n, self.gen, self.why, self.extra = name, root, oracle, n, gen, why, extra


class Prop:
    """one property: features of the harness, obligations(prog), bounded(prog), special (transport), assumptions"""

    def __init__(self, pid, feats, obligations, bounded=None, special=None, trusted=(), assumptions=(), limit=120, level="proof"):
        self.pid, self.feats, self.obligations, self.bounded = pid, feats, obligations, bounded
        self.special = special or {}
        self.trusted, self.assumptions, self.limit, self.level = list(trusted), list(assumptions), limit, level


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [x for x in json.load(open(p)) if x.get("kind") == "known"]


def model_extra(res, ob, prog, special):
    """turn solver models into concrete arguments"""
    out = []
    if not ob.root or ob.root not in prog.roots:
        return out
    f = prog.fn(prog.roots[ob.root])
    for fl in res["failed"]:
        m = fl.get("model")
        if not m:
            continue
        args = []
        try:
            for i in range(f["args"]):
                t = prog.ty[f["locals"][i + 1]]
                nm = "abcdefgh"[i]
                args.append(_from_model(prog, t, nm, m, special))
        except KeyError:
            continue
        out.append(tuple(args))
    return out


def _from_model(prog, t, nm, m, special):
    io = special.get(t["name"])
    if io is not None and hasattr(io, "fld"):
        raw = sum(int(m.get("%s_%d" % (nm, i), 0)) << (64 * i) for i in range(io.fld.n))
        return io.fld.unmont(raw % io.fld.p)
    if t["k"] == "array" and prog.ty[t["el"]]["name"] == "u8" and t["n"] % 8 == 0:
        return b"".join(int(m.get("%s_w%d" % (nm, i), 0)).to_bytes(8, "little") for i in range(t["n"] // 8))
    if t["k"] == "array":
        xs = [_from_model(prog, prog.ty[t["el"]], "%s_%d" % (nm, i), m, special) for i in range(t["n"])]
        return bytes(xs) if prog.ty[t["el"]]["name"] == "u8" else tuple(xs)
    if t["k"] in ("uint", "bool") or t["name"] == "bool":
        return int(m.get(nm, 0))
    raise KeyError(t["name"])


def run_check(prop, tier, seed):
    t0 = time.time()
    pid = prop.pid
    ev_dir = os.path.join(VERIF, "evidence")
    os.makedirs(ev_dir, exist_ok=True)
    rp_dir = os.path.join(BUILD, "replay")
    os.makedirs(rp_dir, exist_ok=True)
    evp = os.path.join(ev_dir, pid + ".json")
    for x in os.listdir(rp_dir):
        if x.startswith(pid + "-"):
            os.unlink(os.path.join(rp_dir, x))
    if os.path.exists(evp):
        os.unlink(evp)
    log("property", pid, "tier", tier, "seed", seed)
    mir = build_mir(prop.feats)
    log("MIR extracted:", os.path.getsize(mir), "bytes")
    from .core import Program
    prog = Program(mir)
    obs = prop.obligations(prog)
    bnd = prop.bounded(prog) if prop.bounded else []
    flt = os.environ.get("MIRV_ONLY")
    if flt:
        obs = [o for o in obs if re.search(flt, o.name)]
        bnd = [o for o in bnd if re.search(flt, o.name)]
    log("%d obligations, %d bounded stand-ins" % (len(obs), len(bnd)))
    limit = prop.limit * (4 if tier == "thorough" else 1)
    res = retry(prog, obs, run_all(prog, obs, limit), limit)
    known = [k for k in load_known() if k["property"] == pid]
    viol, findings, standins = [], [], []
    bad = [i for i, r in enumerate(res) if r["status"] != "proved"]
    rpc = None
    if (bad or bnd) and not os.environ.get("MIRV_NORPC"):
        try:
            rpc = build_rpc(prop.feats)
            log("replay binary built")
        except BuildError as x:
            log("no replay binary:", str(x)[-1500:])
            if bnd and not bad:
                raise
    mult = 10 if tier == "thorough" else 1
    evals = 0

    def report(name, kind, payload):
        for k in known:
            if re.fullmatch(k["obligation"], name) and (not k.get("clause") or k["clause"] == payload.get("clause")):
                findings.append(k)
                return
        path = os.path.join(rp_dir, "%s-%s.json" % (pid, re.sub(r"[^A-Za-z0-9_.-]+", "_", name)))
        payload.update(property=pid, obligation=name, kind=kind)
        with open(path, "w") as f:
            json.dump(payload, f, indent=1)
        line = "VIOLATION property=%s replay=%s" % (pid, path)
        if kind == "no-input":
            line += " no-failing-input-found"
        viol.append((kind, line, name))

    jobs, nb = [], len(bad)
    total = 420.0 if tier == "quick" else 3000.0
    per = min(60.0 if tier == "quick" else 300.0, total * 8 / max(1, len(bad) + len(bnd)))
    per = max(per, 1.0)
    for i in bad:
        ob, r = obs[i], res[i]
        ex = model_extra(r, ob, prog, prop.special) if r["status"] in ("refuted", "unknown") else ()
        jobs.append((ob, getattr(ob, "search_n", 20000) * mult, seed, ex, per))
    for b in bnd:
        jobs.append((b, b.n * mult, seed, b.extra, per))
    found = run_searches(jobs, prog, rpc, prop.special)
    evals = sum(k for k, _ in found)
    for (k, fail), i in zip(found, bad):
        ob, r = obs[i], res[i]
        base = dict(root=ob.root, clauses=r["failed"][:6], reason=r.get("reason"), statement=getattr(ob, "text", None))
        if fail:
            log("  counterexample for", ob.name, "args", fail["args"][:300])
            base.update(replay=fail, how="/verif/check replay <this file>")
            report(ob.name, "input", base)
        elif r["status"] == "refuted" or r["status"] == "unknown" and not getattr(ob, "soft", False):
            base["searched"] = k
            report(ob.name, "no-input", base)
        else:
            standins.append(dict(obligation=ob.name, bound=k, why=(r.get("reason") or "solver could not decide")[:300]))
    for (k, fail), b in zip(found[nb:], bnd):
        if b.root not in prog.roots:
            standins.append(dict(obligation=b.name, bound=0, why="entry point missing"))
            continue
        standins.append(dict(obligation=b.name, bound=k, why=b.why))
        if fail:
            log("  bounded check failed", b.name, "args", fail["args"][:300])
            report(b.name, "input", dict(root=b.root, replay=fail, how="/verif/check replay <this file>", bounded=True))
    tot = sum(r["clauses"] for r in res)
    failed = sum(len(r["failed"]) for r in res)
    disc = tot - failed
    fns, ctr = set(), {}
    for r in res:
        fns.update(r.get("functions", []))
        for k, v in r.get("contracts", {}).items():
            ctr[k] = ctr.get(k, 0) + v
    roots = sorted({r["root"] for r in res if r.get("root")})
    cov = dict(
        obligations=tot, discharged=disc, checker_cmd="/verif/check %s (mirv: symbolic execution of rustc MIR, polynomial normal forms, z3 for linear integer goals)" % pid,
        trusted_base=["rustc nightly MIR construction (semantics of the real code)", "mirv symbolic executor and contract library (/verif/mirv)", "z3 4.x (python binding) for linear integer/boolean goals", "Python integer arithmetic"] + prop.trusted,
        functions_under_contract=len(roots), entry_points=roots[:400], code_functions_executed=len(fns), code_functions_sample=sorted(fns)[:60],
        function_obligation_sets=len([r for r in res if not r.get("lemma")]), lemmas=len([r for r in res if r.get("lemma")]),
        proved_sets=len([r for r in res if r["status"] == "proved"]), unproved=[dict(name=r["name"], status=r["status"], reason=(r.get("reason") or "")[:300]) for r in res if r["status"] != "proved"][:100],
        paths=sum(r["paths"] for r in res), mir_steps=sum(r["steps"] for r in res), solver_queries=sum(r.get("queries", 0) for r in res),
        solver_time_s=round(sum(r.get("solver_time", 0) for r in res), 2), cpu_time_s=round(sum(r["time"] for r in res), 2),
        back_ends=dict(polynomial_normalisation_and_interval=disc, z3_queries=sum(r.get("queries", 0) for r in res)),
        callee_contracts_used=dict(sorted(ctr.items(), key=lambda t: -t[1])[:80]), bounded_standins=standins, bounded_evaluations=evals,
        known_findings=len({k["id"] for k in findings}), samples=[dict(obligation=r["name"], clauses=r["clauses"], paths=r["paths"], time=r["time"]) for r in res[:8]])
    ev = dict(property=pid, tier=tier, seed=seed, level=prop.level, coverage=cov, assumptions=prop.assumptions, wall_s=round(time.time() - t0, 1), violations=len(viol))
    from spec.claims import CLAIMS
    if pid in CLAIMS:
        ev["level"] = CLAIMS[pid][1]
    if bnd:
        ev["level"] = ev["level"] if obs else "exploration"
        cov.update(evaluations=evals, distinct_nontrivial=evals, samples=SAMPLES,
                   rule="bounded stand-in: compiled entry points run on generated arguments (edge values, structured and random, exact duplicates dropped before counting) and compared with an independent reference; every counted case had a reference answer to compare with")
    with open(evp, "w") as f:
        json.dump(ev, f, indent=1)
    seen = set()
    for k in findings:
        if k["id"] not in seen:
            seen.add(k["id"])
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    log("obligations %d discharged %d; sets proved %d/%d; stand-ins %d (%d evaluations); wall %.1fs" % (tot, disc, cov["proved_sets"], len(res), len(standins), evals, time.time() - t0))
    viol.sort(key=lambda v: v[0] != "input")
    # an input-backed violation makes input-less ones redundant
    if any(v[0] == "input" for v in viol):
        for v in viol:
            if v[0] != "input":
                log("also failed (no input found):", v[2])
        viol = [v for v in viol if v[0] == "input"]
    for v in viol[:20]:
        print(v[1])
    return 1 if viol else 0


def replay(path):
    d = json.load(open(path))
    from spec.registry import PROPS
    prop = PROPS[d["property"]]
    if not d.get("replay"):
        print("no failing input recorded; failed obligation:", d["obligation"])
        print(json.dumps(d.get("clauses"), indent=1))
        return 1
    from .conc import Rpc
    r = Rpc(build_rpc(prop.feats))
    k, o = r.batch([(d["replay"]["root"], bytes.fromhex(d["replay"]["raw"]))])[0]
    print("root     ", d["replay"]["root"])
    print("args     ", d["replay"]["args"])
    print("expected ", d["replay"]["expected"])
    print("recorded ", d["replay"]["rawout"])
    print("now      ", o.hex() if k == "ok" else "%s %s" % (k, o))
    return 0


def main(argv):
    if argv and argv[0] == "replay":
        return replay(argv[1])
    from spec.registry import PROPS
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1:
        tier = argv[1]
    os.environ["VERIF_TIER"] = tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = PROPS[argv[0]]
    try:
        return run_check(prop, tier, seed)
    except BuildError as x:
        print("ERROR:", x)
        return 2
