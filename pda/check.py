"""Entry point:  python3 -m pda.check <property> [--tier quick|thorough]

Reads the current source of the package, runs the analysis that decides the property and reports.
exit 0: held on everything analysed; 1: violation; 2: the analysis itself could not be carried out.
"""
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.setrecursionlimit(20000)
WORKERS = 7


class Violation:
    def __init__(self, key, where, msg, detail=None):
        self.key, self.where, self.msg, self.detail = key, where, msg, detail or []


class Report:
    """what one analysis run established"""

    def __init__(self):
        self.violations = []
        self.obligations = 0
        self.decided = 0
        self.undecided = []
        self.rule = ""
        self.samples = []
        self.functions = set()
        self.extra = {}
        self.floor = 1

    def viol(self, key, where, msg, detail=None):
        self.violations.append(Violation(key, where, msg, detail))


def known():
    """{property: set of keys}; 'known: property=<id> key=<key> | <what fails>'"""
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p, encoding="utf-8"):
            if line.startswith("known: "):
                head, what = line[7:].split(" | ", 1)
                f = dict(z.split("=", 1) for z in head.split(" ", 1))
                out.setdefault(f["property"], {})[f["key"].strip()] = what.strip()
    return out


# ---------------------------------------------------------------- case tables

class Timeout(BaseException):
    pass


def _alarm(*_):
    raise Timeout()


_PROJECT = None


def _one(arg):
    from . import cases, proj_checks
    k, limit, prop = arg
    c = cases.CASES[k]
    limit = max(limit, 300) if c.opt.get("cost", 1) >= 3 and c.opt.get("slow") else limit
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    t = time.time()
    try:
        r = proj_checks.run(_PROJECT, c, prop)
    except Timeout:
        r = {"id": c.id, "status": "undecided", "why": "time limit %d s" % limit, "proved": 0, "agreed": 0, "und": [], "diffs": [], "funcs": [],
             "fallbacks": [], "where": "", "events": [], "wall": time.time() - t}
    except MemoryError:
        r = {"id": c.id, "status": "undecided", "why": "memory limit", "proved": 0, "agreed": 0, "und": [], "diffs": [], "funcs": [],
             "fallbacks": [], "where": "", "events": [], "wall": time.time() - t}
    except Exception as e:
        r = {"id": c.id, "status": "error", "why": "%s: %s" % (type(e).__name__, e), "proved": 0, "agreed": 0, "und": [], "diffs": [],
             "funcs": [], "fallbacks": [], "where": "", "events": [], "wall": time.time() - t, "trace": traceback.format_exc()}
    finally:
        signal.alarm(0)
    return r


def _init():
    sys.setrecursionlimit(20000)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    except (ValueError, OSError):
        pass
    import threading
    threading.stack_size(0)


def run_cases(project, prop, tier):
    global _PROJECT
    from . import cases
    from .project import AnchorMissing
    _PROJECT = project
    cases.spec_module(project)
    idx = [k for k, c in enumerate(cases.CASES) if prop in c.props]
    if tier == "quick":
        idx = [k for k in idx if not cases.CASES[k].opt.get("thorough")]
    limit = 100 if tier == "quick" else 600
    R = Report()
    res = []
    deadline = time.time() + (700 if tier == "quick" else 6000)
    # expensive cases first
    order = sorted(idx, key=lambda k: -cases.CASES[k].opt.get("cost", 1))
    with multiprocessing.get_context("fork").Pool(WORKERS, _init, maxtasksperchild=12) as pool:
        it = pool.imap_unordered(_one, [(k, limit, prop) for k in order], chunksize=1)
        for _ in order:
            try:
                res.append(it.next(max(1, deadline - time.time())))
            except multiprocessing.TimeoutError:
                R.undecided.append("remaining cases: overall time limit")
                break
        pool.terminate()
    res = [r for r in res if r["status"] != "skip"]
    for r in sorted(res, key=lambda r: r["id"]):
        R.functions |= set(r["funcs"])
        R.obligations += 1
        if r["status"] == "error" and "AnchorMissing" in r["why"]:
            raise AnchorMissing(r["why"])
        if r["status"] in ("violation", "raised"):
            msg = r["diffs"][0] if r["diffs"] else r["why"]
            R.viol(r.get("key", r["id"]), r["where"], msg, r["diffs"] or [r["why"]])
            R.decided += 1
        elif r["status"] in ("undecided", "error"):
            R.undecided.append("%s: %s" % (r["id"], (r["why"] or "; ".join(r["und"]))[:300]))
        else:
            R.decided += 1
        R.samples.append({k: r[k] for k in ("id", "where", "status", "proved", "agreed")})
    R.extra["regions_equal_by_normal_form"] = sum(r["proved"] for r in res)
    R.extra["regions_equal_at_generic_points_only"] = sum(r["agreed"] for r in res)
    R.extra["statements_reached"] = len(set(tuple(v) for r in res for v in r.get("visited", [])))
    R.rule = ("for every call context of the case table the value graph of the result, derived from the source for symbolic array "
              "lengths and contents, is compared region by region with the required one")
    R.floor = 1
    return R


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    t0 = time.time()
    from . import project as pj, registry
    from .project import AnchorMissing
    try:
        P = pj.Project()
        R = registry.run(prop, P, tier)
    except (AnchorMissing, SyntaxError) as e:
        print("ANALYSIS ERROR property=%s: %s" % (prop, e))
        return 2
    kn = known().get(prop, {})
    news = []
    for v in R.violations:
        if v.key in kn:
            print("KNOWN-FINDING: property=%s %s (%s)" % (prop, kn[v.key], v.key))
        else:
            news.append(v)
    ev = os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    for f in os.listdir(os.path.join(ev, "replay")):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(ev, "replay", f))
    out = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": registry.EXPLAIN.get(prop, R.rule),
            "rule": R.rule,
            "obligations": R.obligations,
            "discharged": R.decided - len(R.violations),
            "undecided": len(R.undecided),
            "undecided_list": R.undecided[:60],
            "functions_analysed": sorted(R.functions)[:400],
            "function_count": len(R.functions),
            "samples": R.samples[:400],
            **R.extra,
        },
        "assumptions": registry.ASSUME.get(prop, registry.ASSUME_DEFAULT),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(news),
    }
    with open(os.path.join(ev, prop + ".json"), "w") as f:
        json.dump(out, f, indent=1, default=str)
    for n, v in enumerate(news):
        path = os.path.join("evidence", "replay", "%s-%d.json" % (prop, n + 1))
        with open(os.path.join(VERIF, path), "w") as f:
            json.dump({"property": prop, "construct": v.where, "key": v.key, "message": v.msg, "detail": v.detail,
                       "reproduce": "cd /verif && python3 -m pda.check %s" % prop}, f, indent=1, default=str)
        if n < 12:
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  at %s [%s]: %s" % (v.where, v.key, v.msg[:600]))
    print("%s: %d obligations, %d discharged, %d undecided, %d violations, %d functions, %.1f s" % (
        prop, R.obligations, R.decided - len(R.violations), len(R.undecided), len(news), len(R.functions), time.time() - t0))
    if news:
        return 1
    if R.decided < R.floor:
        print("ANALYSIS ERROR property=%s: only %d obligations could be decided (at least %d expected)" % (prop, R.decided, R.floor))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
