"""Result files say when they were made, of what mode and side: their headers and their names."""
import datetime
import json
import os
import re

from mc import env
from mc.clock import clock
from mc.engine import Family, Violation
from mc.files import outputs, read_table, scratch

DRIVERS = {
    "plain": ("run_py.ensemble", "run_ensemble_entropy_order", 2),
    "threads": ("run_py.ensemble", "run_ensemble_entropy_order_threads", 1),
    "threads_v2": ("run_py.ensemble", "run_ensemble_entropy_order_threads_v2", 2),
    "path": ("run_py.shortest_path_run", "ensemble_shortest_path_v2_thread", 1),
}


def floor(t):
    return t.replace(microsecond=0)


def read(path):
    with open(path) as f:
        text = f.read()
    if text.startswith("#"):
        return read_table(path)[0]
    try:
        return json.loads(text)
    except ValueError as e:
        raise Violation("%s is not JSON (%s)" % (path, e))


def judge(path, first, last, sig, L, thread, what):
    head = read(path)
    try:
        t = datetime.datetime.strptime("%s %s" % (head["date"], head["time"]), "%Y.%m.%d %H:%M:%S")
    except (KeyError, ValueError) as e:
        raise Violation("%s: %s: no date and time in the header (%s): %r %r" % (what, path, e, head.get("date"), head.get("time")))
    if not floor(first) <= t <= last:
        raise Violation("%s: the header of %s says %s, it was written between %s and %s" % (what, path, t, first, last))
    name = os.path.basename(path)
    if not name.startswith(sig):
        raise Violation("%s: the file of %s is called %s" % (what, sig, name))
    if re.findall(r"_L(\d+)_", name) != [str(L)]:
        raise Violation("%s: the name %s does not tell the side %d" % (what, name, L))
    stamps = re.findall(r"(\d{8}_\d{6})", name)
    if len(stamps) != 1:
        raise Violation("%s: the name %s does not tell the moment" % (what, name))
    try:
        t = datetime.datetime.strptime(stamps[0], "%Y%m%d_%H%M%S")
    except ValueError:
        raise Violation("%s: the name %s holds no valid moment" % (what, name))
    if not floor(first) <= t <= last:
        raise Violation("%s: the name %s says %s, it was written between %s and %s" % (what, name, t, first, last))
    if thread is not None and re.findall(r"_th(\d+)", name) != [str(thread)]:
        raise Violation("%s: the name %s does not tell the worker %d" % (what, name, thread))


def signature(cls):
    p = env.cls(cls)(length=3)
    s = p.get_signature()
    for other in ("L0", "L1", "L2", "SP"):
        if other != cls and env.cls(other)(length=3).get_signature() == s:
            raise Violation("%s and %s have the same signature %s" % (cls, other, s))
    return s


def run_case(case, ctx):
    L, d = case["L"], case["driver"]
    C = env.cls(case["cls"])
    sig = signature(case["cls"])
    base, thread = tuple(case["base"]), case.get("thread")
    what = "%s, %s, side %d, at %s (%s)" % (d, case["cls"], L, datetime.datetime(*base), case["pattern"])
    mod = env.module("run_py.rsbd_percolatioin_run" if d == "single" else DRIVERS[d][0])
    env.module("run_py.ensemble")           # (imported before the clock is replaced)
    with scratch():
        with env.use_tape(env.Tape((), env.fair_tape(case["tape"]), limit=10 ** 6)), clock(case["pattern"], base) as state:
            if d == "single":
                mod.single_realization(C, L)
                count = 1
            else:
                name, count = DRIVERS[d][1:]
                getattr(mod, name)(C, L, case["En"], **({} if thread is None else dict(thread_count=thread)))
        files = outputs()
        if len(files) != count:
            raise Violation("%s: %d files, expected %d: %s" % (what, len(files), count, files))
        for f in files:
            judge(f, min(state["read"]), max(state["read"]), sig, L, thread, what)
        kinds = {re.sub(r"\d", "", os.path.basename(f)) for f in files}
        if len(kinds) != count:
            raise Violation("%s: the names %s do not tell the kinds of result apart" % (what, files))
        ctx.transitions += len(files)
    ctx.traces += 1
    ctx.state(str(sorted(case.items())))


def run_writer(case, ctx):
    """The writers are told the moment."""
    import numpy as np
    now = datetime.datetime(*case["base"], 123456)
    kw = dict(thread_count=case["thread"]) if case["thread"] != "default" else {}
    what = "%s at %s" % (case["writer"], now)
    mod = env.module("run_py.shortest_path_run" if case["writer"] == "write_p_p_star" else "run_py.ensemble")
    with scratch():
        getattr(mod, case["writer"])(now.strftime("%Y%m%d_%H%M%S"), np.ones((2, 4)), 2, case["L"], now, "Sig", **kw)
        files = outputs()
        if len(files) != 1:
            raise Violation("%s: wrote %s" % (what, files))
        judge(files[0], now, now, "Sig", case["L"], case["thread"] if case["thread"] not in ("default", None) else None, what)
    ctx.transitions += 1
    ctx.traces += 1
    ctx.state(str(sorted(case.items())))


def moments(T):
    """Every month, day, hour, minute and second, with the other fields different from it; the turns of the year, month and day."""
    out = [(2024, 2, 29, 23, 59, 59), (2023, 12, 31, 23, 59, 59), (2024, 1, 1, 0, 0, 0), (2023, 12, 31, 23, 59, 58), (2026, 4, 30, 23, 59, 59),
           (2024, 2, 28, 23, 59, 59), (2025, 2, 28, 23, 59, 58), (1999, 12, 31, 23, 59, 59), (2000, 1, 1, 9, 5, 7), (2021, 7, 4, 12, 0, 0), (2021, 7, 4, 0, 30, 0), (2038, 1, 19, 3, 14, 7)]
    for k in range(60):
        out.append((2020 + k % 11, 1 + k % 12, 1 + (k * 7 + 3) % 28, (k * 5 + 13) % 24, k, (k + 17) % 60))
        out.append((2020 + k % 7, 1 + (k + 5) % 12, 1 + k % 28, k % 24, (k + 31) % 60, k))
    if T:
        t = datetime.datetime(2024, 1, 1)
        while t.year < 2026:
            out.append(t.timetuple()[:6])
            t += datetime.timedelta(hours=7, minutes=13, seconds=1)
    return [list(x) for x in out]


def families(tier):
    T = tier == "thorough"
    combos = [("plain", c, None) for c in ("L0", "L1", "L2", "BASE")] + [(d, c, th) for d in ("threads", "threads_v2") for c in ("L0", "L1", "L2") for th in (0, 1, 12)] \
        + [("path", "SP", th) for th in (0, 2)] + [("single", c, None) for c in ("L0", "L1", "L2")]

    def drivers():
        ms = moments(T)
        for i, (d, c, th) in enumerate(combos):
            for j, m in enumerate(ms):
                for k, pat in enumerate(("same", "each", "second")):
                    if j >= 12 and (j + k + i) % 3:
                        continue
                    case = dict(driver=d, cls=c, L=3, En=1 + (i + j) % 2, base=m, pattern=pat, tape=(i * 7 + j) % 50)
                    if th is not None:
                        case["thread"] = th
                    yield case
            for L in (4, 5, 10, 11, 12, 13, 16, 20):
                case = dict(driver=d, cls=c, L=L, En=1, base=ms[L], pattern="same", tape=L)
                if th is not None:
                    case["thread"] = th
                yield case

    def writers():
        for w in ("write_entropy_order", "write_critical_values", "write_p_p_star"):
            for j, m in enumerate(moments(T)):
                for th in ("default", None, 0, 12) if w != "write_p_p_star" else (None, 0, 12):
                    yield dict(writer=w, base=m, thread=th, L=(3, 10, 100, 1000)[j % 4])

    return [
        Family("drivers", "all drivers and single_realization, all modes, worker numbers; %d moments (every month, day, hour, minute and second, turns of day, month and year) x clocks that stand or move on between two looks; sides 3-20" % len(moments(T)), drivers, run_case),
        Family("writers", "the three writers at the same moments", writers, run_writer),
    ]
