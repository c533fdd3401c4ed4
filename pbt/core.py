"""Runner shared by all checks: generation with Hypothesis, sharding over processes, shrinking, replay, evidence."""
import hashlib
import importlib
import json
import os
import signal
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
WHEEL_VENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


class Violation(Exception):
    """The property is broken by the code under test."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.msg, self.key = msg, key


class CaseTimeout(BaseException):
    pass


class StopShrink(BaseException):
    pass


class Facet(object):
    """One executable form of a property.

    strategy: () -> hypothesis strategy of JSON-able cases
    run:      case -> dict(nontrivial=bool, execs=int) ; raises Violation
    """

    def __init__(self, name, strategy, run, quick, thorough=None, rule="", examples=(), shards=None, cpu_limit=120):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough = quick, thorough or quick * 12
        self.rule, self.examples, self.shards, self.cpu_limit = rule, list(examples), shards, cpu_limit


class sut(object):
    """Any Exception of the code under test inside is a violation (valid inputs must be served)."""

    def __init__(self, what, allow=()):
        self.what, self.allow = what, allow

    def __enter__(self):
        return self

    def __exit__(self, t, e, tb):
        if t is None or not issubclass(t, Exception) or issubclass(t, Violation):
            return False
        if self.allow and issubclass(t, self.allow):
            return False
        where = "".join(traceback.format_exception(t, e, tb)[-2:])
        raise Violation("%s raised %s: %s\n%s" % (self.what, t.__name__, e, where)) from None


def must_raise(what, f, exc=ValueError):
    try:
        r = f()
    except exc:
        return
    except Exception as e:
        raise Violation("%s raised %s (%s) instead of %s" % (what, type(e).__name__, e, exc.__name__))
    raise Violation("%s returned %r instead of raising %s" % (what, r, exc.__name__))


def setup_paths():
    sys.dont_write_bytecode = True
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.insert(1, VERIF)
    try:
        import hypothesis  # noqa
    except ImportError:
        if os.path.isdir(os.path.join(WHEEL_VENV, "hypothesis")):
            sys.path.append(WHEEL_VENV)
        else:
            import subprocess
            import tempfile
            d = tempfile.mkdtemp(prefix="hyp_")
            subprocess.check_call([sys.executable, "-m", "pip", "install", "-q", "--no-index", "--find-links",
                                   "/opt/veriftools/wheels", "--target", d, "hypothesis"])
            sys.path.append(d)
    import dppy
    if not os.path.abspath(dppy.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise RuntimeError("dppy imported from %s, not from %s" % (dppy.__file__, REPO))


def canon(case):
    return json.dumps(case, sort_keys=True, default=_js)


def _js(o):
    import numpy as np
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    if isinstance(o, (set, frozenset)):
        return sorted(o)
    return repr(o)


def derive(*parts):
    return int.from_bytes(hashlib.sha256(repr(parts).encode()).digest()[:4], "big") & 0x7fffffff


def _quiet():
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="warn")
    sys.stdout = open(os.devnull, "w")


def _on_prof(sig, frm):
    raise CaseTimeout()


def guarded_run(facet, case):
    """run one case under a CPU-time limit"""
    import numpy as np
    np.random.seed(12345)
    np.seterr(divide="warn", over="warn", under="ignore", invalid="warn")
    signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, facet.cpu_limit)
    try:
        return facet.run(case) or {}
    except CaseTimeout:
        v = Violation("the call did not terminate within %d s of CPU time" % facet.cpu_limit)
        v.timeout = True
        raise v from None
    except Violation:
        raise
    except (ArithmeticError, AssertionError, AttributeError, LookupError, TypeError, ValueError, np.linalg.LinAlgError) as e:
        if type(e).__module__.split(".")[0] == "hypothesis":
            raise
        # on the unchanged tree no case ends here (it would be an error of the check): the code under test raised
        # outside a guarded call, or gave something which the oracle cannot read (missing attribute, wrong shape or type)
        where = "".join(traceback.format_exception(type(e), e, e.__traceback__)[-3:])
        raise Violation("what the code under test gave cannot be evaluated: %s: %s\n%s" % (type(e).__name__, e, where)) from None
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def run_shard(modname, fi, shard, n, seed, deadline, shrink_budget):
    """-> dict(stats, violation or None)"""
    _quiet()
    mod = importlib.import_module(modname)
    facet = mod.FACETS[fi]
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    st = {"facet": facet.name, "cases": 0, "execs": 0, "nontrivial": [], "samples": [], "skipped": 0, "tags": {}}
    fail = {}
    t_start = time.time()

    def one(case):
        if not fail and time.time() > deadline:
            st["skipped"] += 1
            return
        if fail and (time.time() - fail["t0"] > shrink_budget or time.time() > deadline + shrink_budget):
            raise StopShrink()
        try:
            info = guarded_run(facet, case)
        except Violation as v:
            c = canon(case)
            fail.setdefault("t0", time.time())
            if "case" not in fail or len(c) <= len(fail["case"]):
                fail.update(case=c, msg=v.msg, key=v.key)
            if getattr(v, "timeout", False):
                raise StopShrink() from None
            raise
        if fail:
            return
        st["cases"] += 1
        st["execs"] += int(info.get("execs", 1))
        t = info.get("tag")
        if t is not None:
            st["tags"][t] = st["tags"].get(t, 0) + 1
        if info.get("nontrivial"):
            c = canon(case)
            st["nontrivial"].append(hashlib.sha256(c.encode()).hexdigest()[:16])
            # samples after 1, 8 and 64 non-trivial cases: the latest two are kept
            if len(st["nontrivial"]) in (1, 8, 64) and len(c) < 1500:
                st["samples"] = st["samples"][-1:] + [{"facet": facet.name, "case": json.loads(c), "note": info.get("note", "")}]

    try:
        if shard == 0:
            for ex in facet.examples:
                try:
                    one(ex)
                except Violation:
                    break
        if n and not fail:
            test = given(facet.strategy())(one)
            test = settings(max_examples=n, database=None, deadline=None, print_blob=False,
                            report_multiple_bugs=False, suppress_health_check=list(HealthCheck),
                            phases=(Phase.generate, Phase.shrink), verbosity=hypothesis.Verbosity.quiet)(test)
            test = hypothesis.seed(seed)(test)
            try:
                test()
            except Violation:
                pass
    except StopShrink:
        pass
    except Exception as e:
        if not fail:
            st["error"] = "".join(traceback.format_exception(type(e), e, e.__traceback__))
    if fail:
        # confirm
        case = json.loads(fail["case"])
        ok = False
        for _ in range(2):
            try:
                guarded_run(facet, case)
            except Violation as v:
                ok, fail["msg"], fail["key"] = True, v.msg, v.key
                break
            except Exception as e:
                fail["msg"] += "\n(re-run raised %r)" % e
        st["violation"] = {"case": case, "msg": fail["msg"], "key": fail["key"], "confirmed": ok}
    st["wall"] = time.time() - t_start
    return st


def load_findings(pid):
    p = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p)).get("findings", []) if f["property"] == pid]


def main(pid, replay=None):
    t0 = time.time()
    setup_paths()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    modname = "checks." + pid.lower()
    real_out = sys.stdout
    mod = importlib.import_module(modname)

    if replay:
        r = json.load(open(replay))
        facet = [f for f in mod.FACETS if f.name == r["facet"]][0]
        _quiet()
        try:
            guarded_run(facet, r["case"])
        except Violation as v:
            print("VIOLATION property=%s replay=%s" % (pid, replay), file=real_out)
            print(v.msg, file=real_out)
            return 1
        print("replay passed", file=real_out)
        return 0

    from concurrent.futures import ProcessPoolExecutor, as_completed
    import multiprocessing as mp
    ncpu = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    budget = 600 if tier == "quick" else float(os.environ.get("VERIF_BUDGET", "3000"))
    deadline = t0 + budget
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    only = os.environ.get("VERIF_FACET")
    tasks = []
    for fi, f in enumerate(mod.FACETS):
        if only and f.name not in only.split(","):
            continue
        n = f.quick if tier == "quick" else f.thorough
        n = max(1, int(round(n * scale))) if n else 0
        sh = f.shards or min(ncpu, max(1, n))
        if tier == "thorough":
            sh = max(sh, ncpu)
        sh = max(1, min(sh, n)) if n else 1
        for s in range(sh):
            k = n // sh + (1 if s < n % sh else 0)
            tasks.append((s, modname, fi, s, k, derive(seed, pid, f.name, s), deadline, 40))
    tasks.sort(key=lambda t: t[0])
    results, violations, errors = [], [], []
    ctx = mp.get_context("fork")
    ex = ProcessPoolExecutor(max_workers=ncpu, mp_context=ctx)
    futs = [ex.submit(run_shard, *t[1:]) for t in tasks]
    try:
        for fu in as_completed(futs):
            try:
                r = fu.result()
            except Exception as e:
                errors.append("worker: %r" % e)
                break
            results.append(r)
            if r.get("error"):
                errors.append("%s: %s" % (r["facet"], r["error"]))
            v = r.get("violation")
            if v and v["confirmed"]:
                violations.append((r["facet"], v))
                break
            elif v:
                print("note: unconfirmed failure in %s (not reported): %s" % (r["facet"], v["msg"][:300]))
    finally:
        for fu in futs:
            fu.cancel()
        procs = list(getattr(ex, "_processes", {}).values())
        if violations or errors:
            for p in procs:
                p.terminate()
        ex.shutdown(wait=not (violations or errors), cancel_futures=True)

    # known findings: probed by their own case; listed ones do not fail the check
    for f in load_findings(pid):
        if f.get("status") != "open":
            continue
        facet = [x for x in mod.FACETS if x.name == f["facet"]][0]
        so = sys.stdout
        sys.stdout = open(os.devnull, "w")
        still = False
        try:
            guarded_run(facet, f["case"])
        except Violation:
            still = True
        finally:
            sys.stdout = so
        if still:
            print("KNOWN-FINDING: property=%s %s" % (pid, f["what"]))

    nontriv, samples, per, evals, execs = set(), [], {}, 0, 0
    for r in results:
        nontriv.update((r["facet"], h) for h in r["nontrivial"])
        evals += r["cases"]
        execs += r["execs"]
        d = per.setdefault(r["facet"], {"cases": 0, "executions": 0, "skipped_for_time": 0, "cpu_s": 0.0, "tags": {}})
        d["cases"] += r["cases"]
        d["executions"] += r["execs"]
        d["skipped_for_time"] += r["skipped"]
        d["cpu_s"] = round(d["cpu_s"] + r["wall"], 1)
        for k, v in r["tags"].items():
            d["tags"][k] = d["tags"].get(k, 0) + v
        if len([s for s in samples if s["facet"] == r["facet"]]) < 2:
            samples += r["samples"][-1:]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(nontriv),
                       "rule": mod.RULE + " Facets: " + "; ".join("%s: %s" % (f.name, f.rule) for f in mod.FACETS),
                       "samples": samples, "executions_of_code_under_test": execs, "facets": per},
          "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    if errors:
        ev["errors"] = errors
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=_js)

    if violations:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for name, v in violations:
            h = hashlib.sha256(canon(v["case"]).encode()).hexdigest()[:10]
            path = os.path.join(VERIF, "replays", "%s-%s-%s.json" % (pid, name, h))
            with open(path, "w") as fh:
                json.dump({"property": pid, "facet": name, "case": v["case"], "message": v["msg"]}, fh, indent=1, default=_js)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("facet %s: %s" % (name, v["msg"][:3000]))
            print("case: " + canon(v["case"])[:2000])
        return 1
    if errors:
        print("CHECK ERROR (no verdict)")
        for e in errors:
            print(e[:4000])
        return 3
    print("ok %s tier=%s seed=%d cases=%d nontrivial=%d executions=%d wall=%.1fs" % (
        pid, tier, seed, evals, len(nontriv), execs, time.time() - t0))
    return 0
