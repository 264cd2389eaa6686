"""Run one facet (one shard) or replay one case.  Started by ./check under the repository's interpreter."""
import sys, os, json, time, signal, hashlib, importlib, logging, random

# keep the real stdout for our own use: evoMPS prints a lot
_real = os.dup(1)
_devnull = os.open(os.devnull, os.O_WRONLY)
if not os.environ.get("PBT_SHOW"):
    os.dup2(_devnull, 1)
logging.disable(logging.CRITICAL)
import warnings
warnings.simplefilter("ignore")
import numpy as np
np.seterr(all="ignore")


def _poison():
    """Fresh arrays hold a definite value instead of whatever was in memory, so that reading them too early fails reproducibly."""
    import scipy
    np_empty, np_empty_like = np.empty, np.empty_like

    def fill(a):
        if type(a) is np.ndarray and a.dtype.kind in "fc":
            a.fill(13.7 - (4.1j if a.dtype.kind == "c" else 0))
        return a

    def empty(*a, **k):
        return fill(np_empty(*a, **k))

    def empty_like(*a, **k):
        return fill(np_empty_like(*a, **k))
    for m in (np, scipy):
        m.empty, m.empty_like = empty, empty_like


_poison()

from . import core


class CaseTimeout(BaseException):
    pass


def _alarm(*a):
    raise CaseTimeout()


def load(pid):
    importlib.import_module("pbt.props.%s" % pid.lower())
    return {f.name: f for f in core.REG.get(pid, [])}


def load_known():
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
    try:
        return json.load(open(p)).get("findings", [])
    except IOError:
        return []


def matches_known(pid, facet, case, known, msg):
    for k in known:
        if k.get("property") != pid or (k.get("facet") not in (None, facet)):
            continue
        if k.get("message", "") not in msg:
            continue
        if all(case.get(a) in (b if isinstance(b, list) else [b]) for a, b in k.get("when", {}).items()):
            return k
    return None


def run_case(f, case):
    """-> (status, message, ctx); status in ok, skip, violation, harness"""
    key = core.case_key(case)
    h = int(key[:8], 16)
    np.random.seed(h)
    random.seed(h)
    ctx = core.Ctx()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(f.case_timeout)
    try:
        f.fn(case, ctx)
        return "ok", "", ctx
    except core.Skip as e:
        return "skip", str(e), ctx
    except core.Violation as e:
        return "violation", str(e), ctx
    except core.HarnessError as e:
        return "harness", core.short_tb(e), ctx
    except CaseTimeout:
        return "violation", "no result within %d s (such a case normally takes well under a second)" % f.case_timeout, ctx
    except MemoryError as e:
        return "harness", core.short_tb(e), ctx
    except Exception as e:
        return "violation", "call failed on valid input: " + core.short_tb(e), ctx
    finally:
        signal.alarm(0)


def search(pid, facet_name, seed, shard, n, budget, shrink=True):
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    import hypothesis.internal.conjecture.engine as eng
    eng.MAX_SHRINKING_SECONDS = 40
    f = load(pid)[facet_name]
    known = load_known()
    res = dict(facet=facet_name, evaluations=0, nontrivial=0, skipped=0, keys=[], samples=[], rule=f.rule,
               violation=None, harness=None, known=[], truncated=False, worst={})
    keys = set()
    samples = []
    t0 = time.time()
    state = {"fail": None, "hang": False, "t_fail": 0.}

    class Found(Exception):
        pass

    class Broken(Exception):
        pass

    def body(case):
        if state["fail"] is None and time.time() - t0 > budget:
            res["truncated"] = True
            return
        if state["fail"] is not None and (state["hang"] or time.time() - state["t_fail"] > 60):
            return                               # no shrinking through hangs; bounded shrinking time
        status, msg, ctx = run_case(f, case)
        if state["fail"] is None:
            if status == "skip":
                res["skipped"] += 1
            else:
                res["evaluations"] += 1
                for k, v in ctx.worst.items():
                    if v > res["worst"].get(k, -1):
                        res["worst"][k] = v
                if ctx.is_nontrivial:
                    k = core.case_key(case)
                    if k not in keys:
                        keys.add(k)
                        if len(samples) < 3 or (len(samples) < 6 and len(keys) % 37 == 0):
                            samples.append(case)
        if status == "harness":
            state["fail"] = (case, msg)
            res["harness"] = msg + " case=" + json.dumps(case)
            raise Broken(msg)
        if status == "violation":
            k = matches_known(pid, facet_name, case, known, msg)
            if k is not None:
                if k["id"] not in res["known"]:
                    res["known"].append(k["id"])
                return
            if state["fail"] is None:
                state["t_fail"] = time.time()
            state["hang"] = msg.startswith("no result within")
            state["fail"] = (case, msg)
            raise Found()

    s = int(hashlib.sha1(("%s/%s/%s/%s" % (seed, pid, facet_name, shard)).encode()).hexdigest()[:12], 16)
    test = given(f.strategy)(body)
    test = settings(max_examples=n, database=None, deadline=None, derandomize=False,
                    suppress_health_check=list(HealthCheck), phases=[Phase.generate] + ([Phase.shrink] if shrink else []),
                    report_multiple_bugs=False, print_blob=False)(test)
    test = hypothesis.seed(s)(test)
    try:
        test()
    except Found:
        pass
    except Broken:
        pass
    except BaseException as e:
        if state["fail"] is None:
            res["harness"] = "engine: " + core.short_tb(e)
    if state["fail"] is not None and res["harness"] is None:
        res["violation"] = dict(case=state["fail"][0], message=state["fail"][1])
    res["keys"] = sorted(k[:16] for k in keys)
    res["samples"] = samples
    res["wall"] = time.time() - t0
    return res


def serve():
    core.SERVING = True
    loaded = {}
    for line in sys.stdin:
        req = json.loads(line)
        pid = req["property"]
        if pid not in loaded:
            loaded[pid] = load(pid)
        status, msg, ctx = run_case(loaded[pid][req["facet"]], req["case"])
        os.write(_real, (json.dumps(dict(status=status, message=msg, nontrivial=ctx.is_nontrivial, worst=ctx.worst)) + "\n").encode())


def main(argv):
    if argv[0] == "serve":
        return serve()
    if argv[0] == "list":
        out = [(f.name, f.quick, f.thorough, f.shards, f.rule) for f in load(argv[1]).values()]
    elif argv[0] == "search":
        out = search(argv[1], argv[2], int(argv[3]), int(argv[4]), int(argv[5]), float(argv[6]))
    elif argv[0] == "replay":
        rep = json.load(open(argv[1]))
        if rep.get("search"):                        # the failure depends on earlier cases in the same process
            r = search(rep["property"], rep["facet"], *rep["search"], shrink=False)
            v = r["violation"]
            os.write(_real, (json.dumps(dict(status="violation" if v else "ok", message=v["message"] if v else "", worst={})) + "\n").encode())
            return
        f = load(rep["property"])[rep["facet"]]
        status, msg, ctx = run_case(f, rep["case"])
        out = dict(status=status, message=msg, worst=ctx.worst)
    else:
        raise SystemExit("usage")
    os.write(_real, (json.dumps(out) + "\n").encode())


main(sys.argv[1:])
