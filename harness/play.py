"""C26: playback controls and the ROS master (Playback.tla)."""
import atexit
import random
import re
import warnings

import numpy as np

from . import kin, rosstub
from .common import (
    NPROC, SEED, MachineryError, Violation, chunks, fork_map, load_library,
    run_tlc,
)

PLAY = """SPECIFICATION Spec
CONSTANTS MaxN = {n}
 MaxStep = {step}
 MaxSkip = {skip}
 Design = "{design}"
INVARIANTS InRange Publishes Inverse Emit
PROPERTIES Arrives
CHECK_DEADLOCK FALSE
"""
MASTER = """SPECIFICATION Spec
CONSTANTS MaxSteps = {n}
INVARIANTS Registered Emit
PROPERTIES OnlyOwner
CHECK_DEADLOCK FALSE
"""

_exits = None
_register = atexit.register


def _recording(f, *a, **k):
    if _exits is None:
        return _register(f, *a, **k)
    _exits.append((f, a, k))
    return f


def utils():
    rosstub.install()
    load_library()
    atexit.register = _recording
    from rigid_body_motion.ros import utils

    return utils


class Recorder:
    """Any object with a publish method."""

    def __init__(self, timestamps=None):
        self.got = []
        if timestamps is not None:
            self.timestamps = timestamps

    def publish(self, idx=-1):
        self.got.append(int(idx))


class Broadcaster:
    """A publisher of the library, observed on its topic."""

    def __init__(self, ts, world):
        import rigid_body_motion as rbm
        from rigid_body_motion.ros.transformer import (
            ReferenceFrameTransformBroadcaster,
        )

        self.world = world
        w = rbm.ReferenceFrame("world")
        n = len(ts)
        f = rbm.ReferenceFrame(
            "body", parent=w, timestamps=ts,
            translation=np.arange(3.0 * n).reshape(n, 3))
        self.object = ReferenceFrameTransformBroadcaster(f)

    @property
    def got(self):
        return [round(e[1].transform.translation.x / 3)
                for e in self.world.log if e[0] == "tf"]


def stamps(ticks, o):
    """The timestamps in the form under test, and a tick in ms."""
    t = np.asarray(ticks)
    u = o["unit"]
    if u == "float":
        return 1600000000.0 + 0.02 * t, 20.0
    if u == "int":
        return 1600000000 + t, 1000.0
    tick = {"s": 1000, "D": 86400000}.get(u, 20)
    ts = (np.datetime64("2020-02-03", "ms")
          + (tick * t).astype("timedelta64[ms]"))
    return ts.astype(f"datetime64[{u}]"), float(tick)


class Panel:
    """The controls as shown to the user."""

    def __init__(self, op, u, w):
        import pandas as pd

        o = op["_opt"]
        ts, self.tick = stamps(op["ts"], o)
        kw = {}
        if op["step"] != 1 or o["explicit"]:
            kw["step"] = op["step"]
        if op["speed"] != [1, 1] or o["explicit"]:
            kw["speed"] = op["speed"][0] / op["speed"][1]
        if op["skip"]:
            kw["skip"] = op["skip"]
        elif o["explicit"]:
            kw["skip"] = None
        given = {"array": ts, "index": pd.Index(ts), "list": list(ts)}[
            o["form"]]
        if o["pub"] == "tf":
            self.rec = Broadcaster(ts, w)
            p = self.rec.object
        elif o["pub"] == "own":
            self.rec = p = Recorder(given)
        else:
            self.rec = p = Recorder()
            kw["timestamps"] = given
        self.seen = len(self.rec.got)
        k = len(w.log)
        u.play_publisher(p, **kw)
        self.widgets = []
        self.links = []
        for e in w.log[k:]:
            if e[0] == "display":
                self.walk(e[1])
            if e[0] == "interactive":
                self.walk(e[2].values())
            if e[0] == "link":
                self.links.append(e[1:])
        self.play = self.one(rosstub.Play)
        self.slider = self.one(rosstub.IntSlider, rosstub.Play)

    def walk(self, ws):
        for x in ws:
            if isinstance(x, (list, tuple)):
                self.walk(x)
            elif isinstance(x, rosstub._Widget):
                if not any(x is y for y in self.widgets):
                    self.widgets.append(x)
                    self.walk(x.args)
                    self.walk(x.__dict__.get("children", ()))

    def one(self, cls, but=()):
        found = [x for x in self.widgets if isinstance(x, cls)
                 and not isinstance(x, but)]
        if len(found) != 1:
            raise AssertionError(f"{len(found)} widgets {cls.__name__}")
        return found[0]

    def button(self, label):
        found = [x for x in self.widgets if x.clicks
                 and x.__dict__.get("description") == label]
        if len(found) != 1:
            raise AssertionError(f"{len(found)} buttons {label}")
        return found[0]

    def published(self):
        got = self.rec.got[self.seen:]
        self.seen += len(got)
        return got

    def do(self, op):
        k = op["op"]
        if k == "forward":
            self.button("►►").click()
        elif k == "back":
            self.button("◄◄").click()
        elif k == "set":
            self.slider.value = op["i"]
        else:
            ends = [{id(a[0]), id(b[0])} for a, b in self.links
                    if (a[1], b[1]) == ("value", "value")]
            if {id(self.play), id(self.slider)} not in ends:
                raise AssertionError("play button is not linked")
            self.play.value = self.slider.value
            if self.play.value + self.play.step <= self.play.max:
                self.play.value += self.play.step
                self.slider.value = self.play.value

    def compare(self, op, want):
        got = self.published()
        out = []
        if got != want["published"]:
            out.append(f"published {got}, expected {want['published']}")
        if self.slider.value != want["idx"]:
            out.append(f"shows {self.slider.value}, expected {want['idx']}")
        if op["op"] != "controls":
            return out
        for x, s in ((self.slider, "slider"), (self.play, "play")):
            if (x.min, x.max) != (want["min"], want["max"]):
                out.append(f"{s} from {x.min} to {x.max}")
        if self.play.step != want["step"]:
            out.append(f"plays every {self.play.step}")
        ms = want["interval"][0] / want["interval"][1] * self.tick
        if abs(self.play.interval - ms) > 1 + 1e-6 * ms:
            out.append(f"interval {self.play.interval} ms, expected {ms}")
        return out


def replay(scen, outs):
    u = utils()
    w = rosstub.reset()
    panel, out, n = None, [], 0
    for k, (op, want) in enumerate(zip(scen["ops"], outs)):
        n += 1
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                if op["op"] == "controls":
                    panel = Panel(op, u, w)
                else:
                    panel.do(op)
                bad = panel.compare(op, want)
            except Exception as e:
                bad = [f"failed: {e!r}"]
        for b in bad:
            b = f"{op['op']}: {b}"
            out.append(Violation(
                {"C26"}, b, {"op": op, "history": scen["ops"][:k]},
                re.sub(r"[-\d.e+]+", "#", b)[:120]))
        if bad:
            break
    return out, n


# ---------------------------------------------------------------- master
def masters(rec):
    global _exits
    u = utils()
    w = rosstub.reset()
    _exits = []
    handles, started = [], []
    out = []

    def own():
        return isinstance(w.master, rosstub.ROSLaunchParent)

    try:
        for k, (op, want) in enumerate(zip(rec["ops"], rec["outs"])):
            bad = []
            launched = sum(e[0] == "launch" for e in w.log)
            with warnings.catch_warnings(record=True) as warned:
                warnings.simplefilter("always")
                if op["op"] == "elsewhere":
                    w.master = "other" if op["up"] else None
                elif op["op"] == "init":
                    before = w.master
                    try:
                        kw = {"start_master": True} if op["start"] else {}
                        h = u.init_node(op["name"], **kw)
                    except Exception as e:
                        if want["res"] != "err":
                            bad.append(f"failed: {e!r}")
                    else:
                        if want["res"] == "err":
                            bad.append("registered without a master")
                        else:
                            handles.append(h)
                            if want["started"] and not own():
                                bad.append("no master was started")
                            if not want["started"] and (
                                    w.master is not before):
                                bad.append("the master was replaced")
                    now = sum(e[0] == "launch" for e in w.log)
                    if now - launched != bool(want.get("started")):
                        bad.append(f"{now - launched} masters launched")
                    if w.nodes != want["nodes"]:
                        bad.append(f"nodes {w.nodes} registered, expected "
                                   f"{want['nodes']}")
                else:
                    try:
                        handles[op["h"] - 1].shutdown()
                    except Exception as e:
                        bad.append(f"failed: {e!r}")
                    if bool(warned) != want["warns"]:
                        bad.append(f"{len(warned)} warnings")
            if (w.master is not None) != want["run"]:
                bad.append("the master runs" if w.master is not None
                           else "the master does not run")
            for b in bad:
                out.append(Violation(
                    {"C26"}, f"init_node: {op['op']}: {b}",
                    {"op": op, "history": rec["ops"][:k]},
                    "init_node: " + re.sub(r"\d+", "#", b)[:80]))
            if bad:
                return out
        for f, a, kw in reversed(_exits):
            f(*a, **kw)
        if (w.master is not None) != rec["exit"]["run"]:
            out.append(Violation(
                {"C26"}, "init_node: a master at exit is "
                f"{w.master is not None}", {"history": rec["ops"]}))
    finally:
        _exits = None
    return out


# ---------------------------------------------------------------- random
def controls(rng, n=None, step=None, skip=None):
    gaps = [rng.choice([1, 1, 2, 3, 10]) for _ in range(
        (n or rng.choice([2, 3, 4, 7, 12, 30])) - 1)]
    if rng.random() < 0.4:
        gaps = [gaps[0]] * len(gaps)
    ts = np.concatenate([[0], np.cumsum(gaps)]).astype(int).tolist()
    pub = rng.choice(["own", "own", "arg", "arg", "tf"])
    return dict(
        op="controls", ts=ts,
        step=step or rng.choice([1, 1, 1, 2, 3, 5]),
        skip=skip if skip is not None else rng.choice([0, 0, 1, 2, 3, 10]),
        speed=rng.choice([[1, 1], [1, 1], [2, 1], [1, 2], [3, 4], [10, 1]]),
        _opt=dict(unit=rng.choice(["float", "int", "ns", "ns", "us", "ms",
                                   "s"]),
                  form=rng.choice(["array", "index", "list"]),
                  pub=pub, explicit=rng.random() < 0.2))


def history(rng):
    ops = []
    for _ in range(rng.choice([1, 1, 2])):
        ops.append(controls(rng))
        n = len(ops[-1]["ts"])
        for _ in range(rng.randint(5, 25)):
            k = rng.choice(["forward", "back", "tick", "tick", "set"])
            ops.append(dict(op=k, i=rng.choice([0, n - 1, rng.randrange(n)]))
                       if k == "set" else dict(op=k))
    return dict(ops=ops, _clock="int")


def check(report):
    quick = report.tier == "quick"
    size = dict(n=5, step=3, skip=4) if quick else dict(n=12, step=5, skip=8)
    r = run_tlc("MCPlayback", PLAY.format(design="ok", **size))
    report.tlc(r)
    d = run_tlc("MCPlayback", PLAY.format(design="stuck", **size),
                expect_ok=False)
    if "property Arrives was violated" not in d.out:
        raise MachineryError("design stuck was not refuted:\n" + d.tail())
    recs = list(r.records("K"))

    def do(part):
        out, n = [], 0
        for k, x in part:
            rng = random.Random(f"{SEED}-playback-{k}")
            w, op = x["w"], x["op"]
            first = controls(rng, w["n"], w["step"], w["skip"])
            t = first["ts"]
            iv = [(t[-1] - t[0]) * first["step"] * first["speed"][1],
                  (len(t) - 1) * first["speed"][0]]
            ops = [first]
            outs = [dict(idx=0, published=[0], min=0, max=w["n"] - 1,
                         step=w["step"], interval=iv)]
            if w["idx"]:
                ops.append(dict(op="set", i=w["idx"]))
                outs.append(dict(idx=w["idx"], published=[w["idx"]]))
            v, c = replay(dict(ops=ops + [op]), outs + [x["out"]])
            out += v
            n += c
            if len(out) > 20:
                break
        return out, n

    for vs, n in fork_map(do, chunks(enumerate(recs), NPROC * 2)):
        report.add(vs)
        report.count("calls_compared", n)
    report.traces += len(recs)
    report.count("transitions_enumerated", len(recs))
    m = run_tlc("MCMaster", MASTER.format(n=5 if quick else 7))
    report.tlc(m)
    hs = list(m.records("K"))

    def start(part):
        out = []
        for x in part:
            out += masters(x)
            if len(out) > 20:
                break
        return out

    for vs in fork_map(start, chunks(hs, NPROC * 2)):
        report.add(vs)
    report.traces += len(hs)
    report.count("master_histories_enumerated", len(hs))
    report.sample(hs[-1])
    scens = [history(random.Random(f"{SEED}-play-{k}"))
             for k in range(600 if quick else 8000)]
    kin.run_random(report, scens, module="PlayRun", replay=replay)
