"""Runs the families of cases of one property over all cores, collects coverage, reports violations."""
import concurrent.futures as cf
import importlib
import itertools
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

from mc import env

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CASE_SECONDS = 150


class Violation(Exception):
    def __init__(self, msg, case=None, key=None):
        super().__init__(msg)
        self.msg, self.case, self.key = msg, case, key

    def __reduce__(self):
        return (Violation, (self.msg, self.case, self.key))


class _Timeout(BaseException):
    pass


class Ctx:
    """Coverage of one shard."""

    def __init__(self):
        self.states = set()         # hashes of distinct states seen
        self.transitions = 0        # steps executed on the real code and judged
        self.traces = 0             # complete executions of the real code
        self.outcomes = set()       # distinct observed outcomes (small things only)
        self.samples = []
        self.extra = {}

    def state(self, *key):
        self.states.add(hash(key))

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n


class Family:
    """cases(): an iterator of JSON-able cases, simplest first. run(case, ctx): executes the real code on it and raises
    Violation. bound: what is enumerated, in words. shrink(case): optional iterator of simpler cases."""

    def __init__(self, name, bound, cases, run, shrink=None, shards=None, final=None):
        self.name, self.bound, self.cases, self.run, self.shrink, self.shards = name, bound, cases, run, shrink, shards
        self.final = final      # final(outcomes, executions): judges what all cases of the family produced together


def _alarm(*a):
    raise _Timeout()


def run_case(fam, case, ctx, seconds=CASE_SECONDS):
    """Runs one case; every exception is turned into a Violation that carries the case."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        fam.run(case, ctx)
    except Violation as v:
        if v.case is None:
            v.case = case
        raise
    except _Timeout:
        raise Violation("did not finish within %d s" % seconds, case)
    except env.Budget as e:
        raise Violation("does not end: %s" % e, case)
    except env.Divergence as e:
        raise Violation("not reproducible with the same random draws: %s" % e, case)
    except (Exception, SystemExit) as e:
        tb = traceback.format_exc().strip().splitlines()
        raise Violation("raised %s: %s | %s" % (type(e).__name__, e, " / ".join(x.strip() for x in tb[-7:])), case)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


_mod = None
_fams = None


def _load(prop, tier):
    global _mod, _fams
    _mod = importlib.import_module("mc.props." + prop.lower())
    _fams = _mod.families(tier)


def _shard(task):
    fi, si, n = task
    fam = _fams[fi]
    ctx = Ctx()
    env.silence()
    t0 = time.time()
    done = 0
    last = None
    try:
        for case in itertools.islice(fam.cases(), si, None, n):
            last = case
            run_case(fam, case, ctx)
            done += 1
            if len(ctx.samples) < 1 and si < 2:
                ctx.samples.append(case)
        if last is not None and si == 0 and len(ctx.samples) < 3:
            ctx.samples.append(last)
    except Violation as v:
        return fi, si, done, ctx, (v.msg, v.case, v.key), time.time() - t0
    except Exception:
        return fi, si, done, ctx, ("HARNESS " + traceback.format_exc(), None, "harness"), time.time() - t0
    return fi, si, done, ctx, None, time.time() - t0


def _shrink(fam, case, msg, seconds=15):
    if fam.shrink is None:
        return case, msg
    end = time.time() + seconds
    again = True
    while again and time.time() < end:
        again = False
        for c in fam.shrink(case):
            if time.time() > end:
                break
            try:
                run_case(fam, c, Ctx(), 30)
            except Violation as v:
                case, msg, again = v.case, v.msg, True
                break
    return case, msg


def known_findings(prop):
    """Lines `known: property=<id> key=<key> <text>`; `fixed:` lines suppress nothing."""
    out = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            w = line.split(None, 3)
            if len(w) == 4 and w[0] == "known:" and w[1] == "property=" + prop and w[2].startswith("key="):
                out[w[2][4:]] = w[3].strip()
    return out


def main(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    known = known_findings(prop)
    env.silence()
    try:
        _load(prop, tier)
    except Exception:
        env.say(traceback.format_exc())
        _report(prop, "?", None, "the code cannot be loaded: " + traceback.format_exc().strip().splitlines()[-1])
        return 1
    ncpu = int(os.environ.get("VP_PROCS", 0)) or len(os.sched_getaffinity(0))
    tasks = []
    for fi, fam in enumerate(_fams):
        n = fam.shards or ncpu * 4
        tasks += [(fi, si, n) for si in range(n)]
    per = [dict(name=f.name, bound=f.bound, cases=0, transitions=0, executions=0, outcomes=set()) for f in _fams]
    total = Ctx()
    found = None
    hits = {}
    harness_error = None
    pool = cf.ProcessPoolExecutor(ncpu, mp_context=multiprocessing.get_context("fork"))
    futs = {}
    try:
        it = iter(tasks)
        for t in itertools.islice(it, ncpu * 2):
            futs[pool.submit(_shard, t)] = t
        while futs:
            done, _ = cf.wait(futs, return_when=cf.FIRST_COMPLETED)
            for f in done:
                task = futs.pop(f)
                try:
                    fi, si, n, ctx, v, dt = f.result()
                except cf.process.BrokenProcessPool:
                    found = (task[0], None, "the process running the code died (family %s, shard %d)"
                             % (_fams[task[0]].name, task[1]))
                    break
                p = per[fi]
                p["cases"] += n
                p["transitions"] += ctx.transitions
                p["executions"] += ctx.traces
                p["outcomes"] |= ctx.outcomes
                total.states |= ctx.states
                total.transitions += ctx.transitions
                total.traces += ctx.traces
                for k, x in ctx.extra.items():
                    total.count(k, x)
                if len(total.samples) < 12:
                    total.samples += [dict(family=p["name"], case=c) for c in ctx.samples]
                if v is not None:
                    if v[2] == "harness":
                        harness_error = v[0]
                    elif v[2] in known:
                        hits[v[2]] = v[0]
                    elif found is None or fi < found[0]:
                        found = (fi, v[1], v[0])
            if found or harness_error:
                break
            for t in itertools.islice(it, len(done)):
                futs[pool.submit(_shard, t)] = t
    finally:
        for pr in list((getattr(pool, "_processes", None) or {}).values()):
            if found or harness_error:
                pr.terminate()
        pool.shutdown(wait=not (found or harness_error), cancel_futures=True)
    if not found and not harness_error:
        for fi, fam in enumerate(_fams):
            if fam.final is not None:
                try:
                    fam.final(per[fi]["outcomes"], per[fi]["executions"])
                except Violation as v:
                    found = (fi, v.case, v.msg)
                    break
    wall = time.time() - t0
    for k, text in sorted(known.items()):
        if k in hits:
            env.say("KNOWN-FINDING: property=%s %s" % (prop, text))
    level = getattr(_mod, "LEVEL", "model_checking")
    cov = dict(
        evaluations=sum(p["cases"] for p in per),
        states=len(total.states), transitions=total.transitions, traces_validated_against_impl=total.traces,
        distinct_nontrivial=len(total.states),
        rule=getattr(_mod, "RULE", "every case of every family is executed on the real code; distinct = distinct "
                                   "states reached (occupied set, wrapping status, control state)"),
        samples=total.samples[:6],
        families=[dict(p, outcomes=len(p["outcomes"])) for p in per],
        exhaustive=(found is None and harness_error is None),
        **{k: v for k, v in sorted(total.extra.items())})
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=getattr(_mod, "ASSUMPTIONS", []), wall_s=round(wall, 3), violations=int(bool(found)))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    if harness_error and not found:
        env.say(harness_error)
        env.say("ERROR in the harness of %s" % prop)
        return 3
    if found:
        fi, case, msg = found
        fam = _fams[fi]
        if case is not None:
            try:
                case, msg = _shrink(fam, case, msg)
            except BaseException:
                pass
        _report(prop, fam.name, case, msg)
        return 1
    env.say("%s %s: held. %d families, %d cases, %d executions, %d transitions, %d distinct states, %.1f s" % (
        prop, tier, len(per), cov["evaluations"], total.traces, total.transitions, len(total.states), wall))
    return 0


def _report(prop, family, case, msg):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, prop + ".json")
    with open(path, "w") as f:
        json.dump(dict(property=prop, family=family, case=case, message=msg,
                       replay="cd /verif && ./check replay " + path), f, indent=1, default=str)
    env.say("%s: %s" % (prop, msg[:2000]))
    env.say("case: family=%s %s" % (family, json.dumps(case, default=str)[:1500]))
    env.say("VIOLATION property=%s replay=%s" % (prop, path))


def replay(path):
    d = json.load(open(path))
    for tier in ("quick", "thorough"):
        _load(d["property"], tier)
        for fam in _fams:
            if fam.name == d["family"]:
                env.silence()
                try:
                    run_case(fam, d["case"], Ctx())
                except Violation as v:
                    env.say("%s: %s" % (d["property"], v.msg))
                    env.say("VIOLATION property=%s replay=%s" % (d["property"], path))
                    return 1
                env.say("the case passes")
                return 0
    env.say("family %s not found" % d["family"])
    return 3

