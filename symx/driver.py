"""Runs the check of one property: explores every case of its harness, decides
each obligation with z3, replays candidate counterexamples on the real code."""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import zlib
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
REALPY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable


class Replayer:
    def __init__(self, mod, fn, args):
        self.mod, self.fn, self.args = mod, fn, args
        self.p = None

    def start(self):
        env = dict(os.environ)
        env["PYTHONPATH"] = REPO + ":" + VERIF
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        env["PYTHONHASHSEED"] = "0"
        self.p = subprocess.Popen([REALPY, "-m", "symx.concrete"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env, cwd=VERIF, text=True)

    def __call__(self, inputs):
        if self.p is None:
            self.start()
        q = {"mod": self.mod, "fn": self.fn, "args": self.args, "inputs": inputs}
        try:
            self.p.stdin.write(json.dumps(q) + "\n")
            self.p.stdin.flush()
            line = self.p.stdout.readline()
            return json.loads(line)
        except Exception:
            self.close()
            return {"status": "error", "why": "replay process died"}

    def close(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
            except Exception:
                pass
            self.p = None


def evalobs(v, env, c):
    """numeric image of a symbolic observation under an assignment"""
    from symx import core, poly, concrete
    from symx.strs import SymStr, SymBytes, SymBV
    if isinstance(v, core.SymNum):
        x = poly.evaluate(c.sub(v.p), dict(env))
        return int(round(x)) if v.int else x
    if isinstance(v, core.SymBool):
        return "?"
    if isinstance(v, (SymStr, SymBytes, SymBV)):
        return "?"
    if isinstance(v, (list, tuple)):
        return [evalobs(x, env, c) for x in v]
    if isinstance(v, dict):
        return {"#": sorted([[str(k), evalobs(x, env, c)] for k, x in v.items()], key=lambda p: p[0])}
    return concrete.enc(v)


def same(a, b):
    from symx.core import close
    if a == "?" or b == "?":
        return True
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return close(float(a), float(b), 1e-5, 1e-7)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return same(a.get("#"), b.get("#"))
    if isinstance(a, str) and "<sym" in a:
        return True
    return a == b


def tag(opts):
    return (" wide" if opts.get("span", 0) > 1 else " tiny" if opts.get("span") else "") + (" large" if opts.get("free") else "")


def brief(s):
    """long argument lists, cut"""
    if len(s) <= 240:
        return s
    return "%s ... %s #%08x" % (s[:120], s[-100:], zlib.crc32(s.encode()))


def run_case(job):
    prop, modname, fn, args, opts, seed, tier, deadline = job
    from symx import core, poly, shadows
    poly.reset()
    shadows.FUNCTIONS.clear()
    st = core.Stats()
    name = fn + (brief(json.dumps(args, sort_keys=True)) if args else "")
    name += tag(opts)
    rep = Replayer(modname, fn, args)
    t0 = time.time()
    cap = opts.get("cap", 200 if tier == "quick" else 1500)
    dl = min(deadline, t0 + cap)
    out = {"case": name, "violation": None, "error": None}
    try:
        mod = importlib.import_module("harness." + modname)
        f = getattr(mod, fn)
        c = core.Ctx(st, rep, seed=seed, ieee=opts.get("ieee", False), deadline=dl, rounding=opts.get("rounding", False),
                     span=opts.get("span", int(os.environ.get("SX_SPAN", "100"))), free=opts.get("free"))
        nval = opts.get("validate", 6 if tier == "quick" else 20)
        step = 1
        for c in core.explore(lambda cx: f(cx, **args), (), c, opts.get("max_paths", 20000)):
            if st.validated + len(st.mismatch) < nval and (st.paths % step == 0):
                step *= 2
                validate(c, st, rep, name)
    except core.FoundViolation as e:
        out["violation"] = e.info
    except core.Budget:
        st.truncated = True
    except core.EngineError as e:
        out["error"] = "engine: %s" % e
    except core.Control as e:
        out["error"] = "engine: %r" % e
    except BaseException as e:
        out["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-6:])
    finally:
        rep.close()
    out.update(paths=st.paths, decisions=st.decisions, queries=st.queries, solver_s=round(st.solver_s, 3),
               obligations=st.obligations, discharged=st.discharged, inconclusive=st.inconclusive[:20],
               concretized=st.concretized, validated=st.validated, mismatch=st.mismatch[:5], samples=st.samples[:2],
               functions=sorted(shadows.FUNCTIONS), pruned=st.pruned, truncated=st.truncated, replays=st.replays,
               nochecks=getattr(st, "nochecks", 0), wall=round(time.time() - t0, 2), args=args, fn=fn)
    return out


def validate(c, st, rep, name):
    """run a model of the finished path on the real code and compare"""
    from symx import core, poly
    n = 0
    for env in c.models([], nra=False):
        n += 1
        if n > 30:
            return
        if not c.ok_env(env, strict=True):
            continue
        inp = c.inputs(env)
        r = rep(inp)
        st.replays += 1
        if r["status"] == "skip":
            continue
        if r["status"] == "fail":
            raise core.FoundViolation({"inputs": inp, "what": "path model fails on the real code", "real": r})
        if r["status"] != "pass":
            continue
        try:
            mine = [(w, evalobs(v, env, c)) for w, v in c.observed]
        except (poly.EvalError, core.Control):
            continue
        real = [tuple(x) for x in r["obs"]]
        if len(mine) == len(real) and all(a[0] == b[0] and same(a[1], b[1]) for a, b in zip(mine, real)):
            st.validated += 1
        else:
            d = [(a, b) for a, b in zip(mine, real) if a[0] != b[0] or not same(a[1], b[1])][:1]
            st.mismatch.append({"inputs": inp, "diff": repr(d)[:400]})
        if len(st.samples) < 2 and len(inp["vars"]) + len(inp["choices"]) < 60:
            st.samples.append({"case": name, "inputs": inp, "observed": json.loads(json.dumps(r["obs"], default=str))[:3]})
        return


WIDE = 10 ** 12
TINY = 2.0 ** -30


MODES = ("cases marked 'wide' repeat others with real inputs in [-1e12,1e12] instead of [-100,100], cases marked 'tiny' in [-2^-30,2^-30]; cases marked 'large' have tens to "
         "hundreds of rows, columns, classes, members, nodes, words or bytes, of which the 1-3 inputs named in the harness are symbolic and "
         "the others are held at constants")


def wide(jobs, every, span, at):
    """the same cases with inputs from a much wider or narrower range (where the harness sets none)"""
    out = []
    for i, j in enumerate(jobs):
        if i % every == at and not set(j[4]) & {"span", "free", "ieee", "rounding"}:
            out.append(j[:4] + (dict(j[4], span=span, validate=0),) + j[5:])
    return out


def main(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.path.insert(0, VERIF)
    sys.setrecursionlimit(20000)
    import warnings
    warnings.simplefilter("ignore")
    from symx import loader
    modname = [f[:-3] for f in os.listdir(os.path.join(VERIF, "harness"))
               if f.startswith(prop.lower() + "_") and f.endswith(".py")][0]
    loader.install(REPO, VERIF)
    results = []
    err = None
    try:
        mod = importlib.import_module("harness." + modname)
        jobs = []
        budget = float(os.environ.get("VERIF_BUDGET", "600" if tier == "quick" else "5400"))
        for case in mod.cases(tier):
            fn, args = case[0], case[1]
            opts = case[2] if len(case) > 2 else {}
            jobs.append((prop, modname, fn, dict(args), dict(opts), seed, tier, t0 + budget))
        if getattr(mod, "NUMBERS", True):
            deep = tier == "thorough"
            jobs += wide(jobs, 1 if deep else 2, WIDE, 0) + wide(jobs, 1 if deep else 3, TINY, 0 if deep else 1)
        only = os.environ.get("VERIF_CASE")
        if only:
            jobs = [j for j in jobs if only in j[2] + json.dumps(j[3], sort_keys=True) + tag(j[4])]
        if os.environ.get("SX_SERIAL"):
            results = [run_case(j) for j in jobs]
        else:
            ctx = mp.get_context("fork")
            with ctx.Pool(min(8, max(1, len(jobs))), maxtasksperchild=8) as pool:
                for r in pool.imap_unordered(run_case, jobs):
                    results.append(r)
                    if r["violation"] and not os.environ.get("SX_ALL"):
                        pool.terminate()
                        break
    except SystemExit:
        raise
    except BaseException as e:
        err = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-8:])
    return report(prop, modname, tier, seed, t0, results, err)


def report(prop, modname, tier, seed, t0, results, err):
    viol = [r for r in results if r["violation"]]
    errors = [(r["case"], r["error"]) for r in results if r["error"]]
    S = lambda k: sum(r[k] for r in results)
    conc = {}
    for r in results:
        for k, v in r["concretized"].items():
            conc[k] = conc.get(k, 0) + v
    funcs = sorted({f for r in results for f in r["functions"] if not f.startswith("harness.")})
    # (narrow inputs may miss what a case assumes)
    vac = [r["case"] for r in results if (r["paths"] == 0 or r["obligations"] == 0) and not r["case"].endswith(" tiny")]
    inc = [(r["case"], w) for r in results for w in r["inconclusive"]]
    mod = sys.modules.get("harness." + modname)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": S("paths"), "transitions": S("decisions"),
            "traces_validated_against_impl": S("validated"),
            "samples": [s for r in results for s in r["samples"]][:6],
            "cases": len(results), "obligations": S("obligations"), "discharged": S("discharged"),
            "solver_queries": S("queries"), "solver_s": round(S("solver_s"), 2),
            "real_code_replays": S("replays"), "pruned_by_assumption": S("pruned"),
            "functions_encoded": funcs,
            "bounds": getattr(mod, "BOUNDS", "") + ("; " + MODES if any(k in n for n in (r["case"] for r in results) for k in (" wide", " tiny", " large")) else ""),
            "inconclusive": ["%s: %s" % x for x in inc][:20],
            "concretized": conc,
            "truncated_cases": [r["case"] for r in results if r["truncated"]],
            "encoding_mismatches": [m for r in results for m in r["mismatch"]][:5],
            "vacuous_cases": vac,
            "errors": ["%s: %s" % e for e in errors][:5],
            "per_case": {r["case"]: [r["paths"], r["obligations"], r["wall"]] for r in results},
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if err:
        print("ERROR", err)
    for k, e in errors[:5]:
        print("ERROR case", k, e)
    code = 0
    for r in viol:
        v = r["violation"]
        q = {"property": prop, "mod": modname, "fn": r["fn"], "args": r["args"], "inputs": v["inputs"],
             "what": v["what"], "real": v["real"]}
        h = hashlib.sha1(json.dumps(q, sort_keys=True, default=str).encode()).hexdigest()[:10]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (prop, h))
        with open(path, "w") as f:
            json.dump(q, f, indent=1, default=str)
        print("case %s: %s" % (r["case"], v["what"]))
        print("  real code: %s" % v["real"].get("why"))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    c = ev["coverage"]
    print("%s %s: cases=%d paths=%d decisions=%d obligations=%d/%d queries=%d solver=%.1fs validated=%d replays=%d wall=%.1fs" % (
        prop, tier, len(results), c["states"], c["transitions"], c["discharged"], c["obligations"], c["solver_queries"],
        c["solver_s"], c["traces_validated_against_impl"], c["real_code_replays"], ev["wall_s"]))
    for x in inc[:8]:
        print("INCONCLUSIVE %s: %s" % x)
    for m in c["encoding_mismatches"][:3]:
        print("MISMATCH", str(m)[:600])
    for k in c["truncated_cases"]:
        print("TRUNCATED", k)
    if conc:
        print("CONCRETIZED", conc)
    if code == 0:
        for v in vac:
            print("VACUOUS", v)
        # a case the engine cannot explore is reported and counts as not
        # explored; a run that decided nothing gives no answer
        if err or not results or c["discharged"] == 0:
            code = 2
    return code


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
