"""Recorded realizations: sequences and figures that reproduce themselves."""
import glob
import json
import os

from mc import env, ops, ref
from mc.engine import Family, Violation
from mc.fam import occupied_sites
from mc.files import outputs, scratch

LISTS = dict(entropy_list="get_entropy_array", order_largest_list="get_order_param_largest_array", order_wrapping_list="get_order_param_wrapping_array")
NUMBERS = dict(pc="get_pc", site_count_wrapping_cluster_pc="get_site_count_wrapping_cluster_pc", bond_count_wrapping_cluster_pc="get_bond_count_wrapping_cluster_pc")


class RunTape(env.Tape):
    """Fair draws, except for the first ones after a mark (start of the last reset or of the run): enumerated by the caller."""

    def __init__(self, choices, t, limit):
        super().__init__((), None, limit=limit)
        self.fair, self.choices, self.mark, self.bounds = env.fair_tape(t), list(choices), None, []

    def draw(self, n):
        k = len(self.trace)
        c = self.fair(k, n)
        if self.mark is not None and k - self.mark < len(self.choices):
            c = min(self.choices[k - self.mark], n - 1)
            self.bounds.append(n)
        self.default = lambda *_: c
        return super().draw(n)


def spy(cls, tape, log, where):
    """The class, telling in which order its sites are occupied, and marking the tape at its last reset / its run."""
    C = env.cls(cls)

    class Spy(C):
        def reset(self, *a, **k):
            if where == "reset":
                tape.mark = len(tape.trace)
                tape.bounds = []
            return super().reset(*a, **k)

        def run_once(self, *a, **k):
            if where == "run":
                tape.mark = len(tape.trace)
                tape.bounds = []
            log.append([])
            return super().run_once(*a, **k)

        def place_one_site(self, *a, **k):
            n = log_n[0]
            before = set(occupied_sites(self, n))
            r = super().place_one_site(*a, **k)
            if log:
                log[-1] += sorted(set(occupied_sites(self, n)) - before)
            return r
    log_n = [0]
    Spy.__name__, Spy.__qualname__, Spy.__module__ = C.__name__, C.__qualname__, C.__module__

    def make(*a, **k):
        log_n[0] = k.get("length", a[0] if a else 0) ** 2
        return Spy(*a, **k)
    return make


def judge_sequences(ids, indexes, L, what):
    n = L * L
    if sorted(ids) != list(range(n)):
        raise Violation("%s: the identifier sequence %s does not list every site once" % (what, ids))
    if [tuple(x) for x in indexes] != [divmod(s, L) for s in ids]:
        raise Violation("%s: the index sequence %s disagrees with the identifier sequence %s" % (what, indexes, ids))


def replay(saved, L, what, ctx, forms=("ids", "index")):
    """saved: dict with the keys of the file."""
    n = L * L
    for form in forms:
        p = env.cls("L0")(length=L)
        if form == "ids":
            p.set_custome_site_id_list(saved["site_id_sequence"])
        else:
            p.set_custome_site_index_list(saved["site_index_sequence"])
        p.run_once()
        for k, g in NUMBERS.items():
            if abs(saved[k] - getattr(p, g)()) > 1e-12:
                raise Violation("%s: %s is %r, replaying the %s gives %r (%s)" % (what, k, saved[k], form, getattr(p, g)(), saved["site_id_sequence"]))
        for k, g in LISTS.items():
            got = list(getattr(p, g)())
            if len(got) != len(saved[k]) or len(got) != n:
                raise Violation("%s: %s has %d values, the replay of the %s %d, there are %d sites" % (what, k, len(saved[k]), form, len(got), n))
            for i, (x, y) in enumerate(zip(saved[k], got)):
                if abs(x - y) > 1e-9:
                    raise Violation("%s: %s[%d] is %r, replaying the %s gives %r (%s)" % (what, k, i, x, form, y, saved["site_id_sequence"]))
        ctx.transitions += n


def against_reference(saved, L, what):
    """Critical point and largest clusters of the sequence, without the package."""
    n, occ, pc = L * L, set(), None
    for k, s in enumerate(saved["site_id_sequence"]):
        occ.add(s)
        info = ref.info(L, frozenset(occ))
        if pc is None and any(info.wraps):
            pc = (k + 1) / n
        if abs(info.entropy - saved["entropy_list"][k]) > 1e-9:
            raise Violation("%s: entropy_list[%d] is %r, it is %r after placing %s" % (what, k, saved["entropy_list"][k], info.entropy, saved["site_id_sequence"][:k + 1]))
    if pc is None or abs(pc - saved["pc"]) > 1e-12:
        raise Violation("%s: pc is %r, the sequence %s wraps first at %r" % (what, saved["pc"], saved["site_id_sequence"], pc))


def record(cls, L, tape, where, what):
    """single_realization: (content of the file, order of the placements or None)."""
    log = []
    make = spy(cls, tape, log, where)
    with scratch():
        with env.use_tape(tape):
            env.module("run_py.rsbd_percolatioin_run").single_realization(make, L)
        files = outputs()
        if len(files) != 1 or os.path.dirname(files[0]) != "data":
            raise Violation("%s: wrote %s instead of one file in data" % (what, files))
        with open(files[0]) as f:
            text = f.read()

    def bad(x):
        raise ValueError(x + " is not JSON")
    try:
        saved = json.loads(text, parse_constant=bad)
    except ValueError as e:
        raise Violation("%s: the file is not valid JSON (%s): %s" % (what, e, text[:300]))
    missing = [k for k in ["site_id_sequence", "site_index_sequence", "length", "L"] + list(LISTS) + list(NUMBERS) if k not in saved]
    if missing:
        raise Violation("%s: %s missing in the file" % (what, missing))
    if saved["length"] != L or saved["L"] != L:
        raise Violation("%s: the file says side %r / %r" % (what, saved["length"], saved["L"]))
    return saved, log[-1] if len(log) == 1 else None


def one(cls, L, t, choices, where, ctx):
    n = L * L
    what = "single_realization(%s, %d) (tape %d, draws %s)" % (cls, L, t, choices)
    tape = RunTape(choices, t, 4000 * n)
    saved, order = record(cls, L, tape, where, what)
    judge_sequences(saved["site_id_sequence"], saved["site_index_sequence"], L, what)
    if order and order != saved["site_id_sequence"]:
        raise Violation("%s: the sites were occupied in the order %s, saved is %s" % (what, order, saved["site_id_sequence"]))
    replay(saved, L, what, ctx)
    if L <= 4:
        against_reference(saved, L, what)
    ctx.traces += 1
    ctx.state(cls, L, tuple(saved["site_id_sequence"]))
    return tape


def run_tape(case, ctx):
    for t in range(case["tapes"][0], case["tapes"][1]):
        one(case["cls"], case["L"], t, (), "run", ctx)


def run_tree(case, ctx):
    """All outcomes of the first draws after the last reset (uncorrelated) or of the run (interacting)."""
    cls, L, depth = case["cls"], case["L"], case["depth"]
    where = "reset" if cls == "L0" else "run"
    first = list(case["first"])
    choices = list(first) + [0] * (depth - len(first))
    while True:
        tape = one(cls, L, case["tape"], choices, where, ctx)
        b = tape.bounds[:depth]
        i = len(b) - 1
        while i >= len(first) and choices[i] + 1 >= b[i]:
            i -= 1
        if i < len(first) or len(b) < depth:
            return
        choices = choices[:i] + [choices[i] + 1] + [0] * (depth - i - 1)


def run_later(case, ctx):
    """Sequences and figures reported by one object after its first, second, ... realization."""
    L, cls = case["L"], case["cls"]
    n = L * L
    with env.use_tape(env.Tape((), env.fair_tape(case["tape"]), limit=40000 * n)):
        p = env.cls(cls)(length=L)
        for j, op in enumerate(case["ops"]):
            what = "%s, side %d, tape %d, %s" % (cls, L, case["tape"], case["ops"][:j + 1])
            if op == "reset":
                p.reset()
                continue
            if op == "half":
                ops.place(n // 2)(p)
                continue
            if op == "look":
                p.get_site_id_sequence()
                p.get_index_sequence()
                continue
            p.run_once()
            saved = dict(site_id_sequence=list(p.get_site_id_sequence()), site_index_sequence=list(p.get_index_sequence()))
            for k, g in list(NUMBERS.items()):
                saved[k] = getattr(p, g)()
            for k, g in LISTS.items():
                saved[k] = list(getattr(p, g)())
            judge_sequences(saved["site_id_sequence"], saved["site_index_sequence"], L, what)
            replay(saved, L, what, ctx)
            if L == 3:
                against_reference(saved, L, what)
            ctx.state(cls, L, j, tuple(saved["site_id_sequence"]))
    ctx.traces += 1


def run_stored(case, ctx):
    """The recorded realizations that come with the repository."""
    for path in glob.glob(os.path.join(env.REPO, "data_pytest", "*.txt")):
        with open(path) as f:
            saved = json.load(f)
        if saved["L"] > case["max"]:
            continue
        what = os.path.basename(path)
        judge_sequences(saved["site_id_sequence"], saved["site_index_sequence"], saved["L"], what)
        replay(saved, saved["L"], what, ctx)
        ctx.traces += 1
        ctx.state(what)


def families(tier):
    T = tier == "thorough"

    def tapes():
        for c in ("L0", "L1", "L2", "BASE"):
            for L, m in ((25, 1), (3, 100), (4, 60), (5, 30), (6, 10), (8, 4), (12, 2)) if not T else ((3, 3000), (4, 1000), (5, 300), (6, 100), (8, 40), (12, 10), (25, 2)):
                step = max(1, 60 // L ** 2)
                for t in range(0, m, step):
                    yield dict(cls=c, L=L, tapes=[t, min(m, t + step)])

    def tree():
        for c in ("L0", "L1", "L2"):
            for L, depth in ((3, 3), (4, 2)) if not T else ((3, 4), (4, 3), (5, 2)):
                for t in range(3):
                    for a in range(L * L):
                        yield dict(cls=c, L=L, depth=depth, first=[a], tape=t)

    def later():
        hist = [["run"], ["run", "reset", "run"], ["reset", "run", "reset", "run"], ["half", "reset", "run"], ["reset", "look", "run", "reset", "look", "run", "reset", "run"],
                ["run", "reset", "half", "reset", "run"], ["look", "run", "reset", "reset", "run"]]
        for c in ("L0", "L1", "L2"):
            for L in (3, 4, 5):
                for t in range(12 if not T else 200):
                    for h in hist:
                        yield dict(cls=c, L=L, ops=h, tape=t)

    return [
        Family("tree", "single_realization: all outcomes of the first %d draws on side 3 (one less on side 4), of the last shuffle in the uncorrelated mode and of the run in L1 and L2, for three continuations" % (4 if T else 3), tree, run_tree),
        Family("tapes", "single_realization on sides 3-%d under enumerated fair tapes, all modes" % 25, tapes, run_tape),
        Family("later", "what an object reports after each of several realizations, with resets and interrupted runs between", later, run_later),
        Family("stored", "recorded files of the repository", lambda: iter([dict(max=50 if not T else 1000)]), run_stored, shards=1),
    ]
