"""One worker of the Python simulation: cases on standard input, what the callers saw on standard output."""
import collections.abc
import ctypes
import gc
import json
import os
import sys
import threading

here = os.environ["VERIF_DIR"] + "/target"
sys.path.insert(0, here + "/py")
import math_core  # noqa: E402
from math_core import _math_core_rust as ext  # noqa: E402

out = os.fdopen(os.dup(1), "w")
sim = ctypes.CDLL(here + "/libpysim.so")
THREADS = 4
case = convs = log = None


class Injected(Exception):
    pass


class Text(str):
    pass


def events(evs):
    """What happens while an argument is being read."""
    for e in evs:
        if e == "Yield":
            sim.sim_yield()
        elif e == "Raise":
            raise Injected("injected")
        else:
            perform(e["Call"])


class Seq(collections.abc.Sequence):
    def __init__(self, items):
        self.items = items

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        it = self.items[i]
        events(it["ev"])
        return item(it)


class bool_:  # taken for numpy.bool_
    def __init__(self, v, ev):
        self.v, self.ev = v, ev

    def __bool__(self):
        events(self.ev)
        return self.v


bool_.__module__ = "numpy"


def text(t):
    k, v = next(iter(t.items()))
    if k == "Plain":
        return v
    if k == "Sub":
        return Text(v)
    return [7, None, b"x", "\ud800", ["x"], 1.5][v]


def disp(d):
    k, v = next(iter(d.items()))
    if k == "Is":
        return v
    if k == "Numpy":
        return bool_(v[0], v[1])
    return [1, None, "yes", 0.0][v]


def item(it):
    s = it["shape"]
    t, d = text(it["text"]), disp(it["block"])
    return [(t, d), [t, d], (t,), (t, d, d), t, None][s]


def container(c):
    items = c["items"]
    kind = c["kind"]
    if kind == 2:
        return Seq(items)
    v = [item(i) for i in items]
    return [v, tuple(v), None, iter(v), set(), {}, "ab", None, 5][kind]


def invoke(op):
    c = convs[op["conv"] % len(convs)]
    call = op["call"]
    if call == "Reset":
        return c.reset_global_state
    k, v = next(iter(call.items()))
    if k == "Batch":
        a = container(v)
        return lambda: c.convert_all(a)
    f = c.convert_with_global_state if k == "Global" else c.convert_with_local_state
    t, d = text(v[0]), disp(v[1])
    odd = v[2]
    if odd == 1:
        return lambda: f(t)
    if odd == 2:
        return lambda: f(t, d)
    if odd == 3:
        return lambda: f(t, displaystyle=d, more=1)
    return lambda: f(t, displaystyle=d)


def perform(op):
    f = invoke(op)
    k = len(log)
    log.append(["call", op["id"]])
    try:
        r = f()
        r = {"ok": r}
    except BaseException as e:
        r = {"exc": type(e).__name__, "latex": type(e) is ext.LatexError, "arg": e.args[0] if e.args and isinstance(e.args[0], str) else None}
        e = None
    log.append(["return", k, r])
    return r


def warm_up():
    """What the module does lazily once, per process or thread, is done before the callers are scheduled."""
    c = ext.LatexToMathML(macros={"a": "x"})
    for f in (lambda: c.convert_with_local_state("x", displaystyle=True), lambda: c.convert_with_local_state("}", displaystyle=True),
              lambda: c.convert_with_local_state("x", displaystyle=bool_(True, [])), lambda: c.convert_with_local_state("x", displaystyle=1),
              lambda: c.convert_with_local_state(7, displaystyle=True), lambda: c.convert_with_local_state("\ud800", displaystyle=True),
              lambda: c.convert_with_local_state("x"), lambda: c.convert_with_local_state("x", True), lambda: c.convert_all([("x", True), ("}", False)]),
              lambda: c.convert_all(7), lambda: c.convert_all("ab"), lambda: c.convert_all({}), lambda: c.convert_all([["x", True]]), lambda: c.convert_all([("x",)]),
              lambda: c.convert_all(Seq([{"text": {"Plain": "x"}, "block": {"Is": True}, "shape": 0, "ev": []}])),
              lambda: c.convert_all(Seq([{"text": {"Plain": "x"}, "block": {"Is": True}, "shape": 0, "ev": ["Raise"]}])),
              lambda: ext.LatexToMathML(pretty_print="sometimes"), lambda: ext.LatexToMathML(macros={"a": "}"}), lambda: ext.LatexToMathML(no=1), c.reset_global_state):
        try:
            f()
        except Exception:
            pass

def caller(me):
    warm_up()
    while True:
        sim.sim_next(me)
        try:
            for op in case["ops"]:
                if op["by"] == me:
                    sim.sim_yield()
                    perform(op)
        except BaseException as e:
            log.append(["broken", repr(e)])


def main():
    global case, convs, log
    sys.setswitchinterval(1000)
    gc.disable()
    if sim.sim_patch(b"_math_core_rust") < 5:
        raise SystemExit("the seam does not fit the module")
    warm_up()
    for i in range(THREADS):
        threading.Thread(target=caller, args=(i,), daemon=True).start()
    st = (ctypes.c_uint64 * 8)()
    for line in sys.stdin:
        case = json.loads(line)
        made, convs, log = [], [], []
        for cfg in case["convs"]:
            kw = cfg["kw"]
            if kw.get("macros") is not None:
                kw["macros"] = dict(kw["macros"])
            try:
                convs.append(ext.LatexToMathML(**kw))
                made.append({"ok": None})
            except BaseException as e:
                made.append({"exc": type(e).__name__, "latex": type(e) is ext.LatexError, "arg": e.args[0] if e.args and isinstance(e.args[0], str) else None})
                break
        if len(convs) == len(case["convs"]):
            d = case["sched"]
            a = (ctypes.c_uint32 * (2 * len(d) + 2))(*[x for p in d for x in p])
            sim.sim_run(case["callers"], THREADS, a, len(d), st)
        out.write(json.dumps({"made": made, "log": log, "stats": list(st)}) + "\n")
        out.flush()
        convs = None
        st = (ctypes.c_uint64 * 8)()


main()
