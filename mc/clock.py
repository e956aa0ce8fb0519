"""A clock under control: the drivers name their files by it."""
import contextlib
import datetime
import sys
import time

REAL = datetime.datetime
BASE = (2024, 2, 3, 4, 5, 6)

PATTERNS = {
    "same": lambda k: 0,                    # everything happens within one second
    "each": lambda k: k,                    # the second changes between any two looks at the clock
    "second": lambda k: k // 2,
    "back": lambda k: k % 2,                # the clock is set back
}


@contextlib.contextmanager
def clock(pattern, base=BASE):
    from mc import env
    state = {"k": 0, "read": []}

    def now():
        k = state["k"]
        state["k"] += 1
        t = REAL(*base) + datetime.timedelta(seconds=PATTERNS[pattern](k), microseconds=37 * k)
        state["read"].append(t)
        return t

    class Fake(REAL):
        @classmethod
        def now(cls, tz=None):
            t = now()
            return cls(t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond, tz)

        @classmethod
        def utcnow(cls):
            return cls.now()

        @classmethod
        def today(cls):
            return cls.now()

    def fixed(f):
        def g(*a):
            return f(*a) if a else f(now().timestamp())
        return g

    rt = {k: getattr(time, k) for k in ("time", "time_ns", "localtime", "gmtime", "strftime", "ctime")}
    new = dict(time=lambda: now().timestamp(), time_ns=lambda: int(now().timestamp() * 10 ** 9), localtime=fixed(rt["localtime"]),
               gmtime=fixed(rt["gmtime"]), ctime=fixed(rt["ctime"]),
               strftime=lambda f, *a: rt["strftime"](f, *(a or (rt["localtime"](now().timestamp()),))))
    subst = {id(REAL): Fake}
    todo = [(datetime, "datetime", Fake)]
    for k, f in new.items():
        todo.append((time, k, f))
        subst[id(rt[k])] = f
    for m in list(sys.modules.values()):
        if (getattr(m, "__file__", None) or "").startswith(env.REPO):
            todo += [(m, k, subst[id(v)]) for k, v in list(vars(m).items()) if id(v) in subst]
    saved = [(m, k, getattr(m, k)) for m, k, _ in todo]
    for m, k, v in todo:
        setattr(m, k, v)
    try:
        yield state
    finally:
        for m, k, v in saved:
            setattr(m, k, v)
