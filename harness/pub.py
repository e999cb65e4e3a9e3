"""C23: publishers under every interleaving of commands and threads.

PublisherAlg.tla enumerates the schedules (and shows that the design of the
code meets the contract of Publisher.tla), the code is driven through each of
them with its threads under the control of rosstub.Scheduler, and what it did
is judged by PubRun.tla."""
import random
import re
import threading
import warnings

import numpy as np

from . import kin, rosstub
from .common import (
    NPROC, SEED, MachineryError, Violation, chunks, fork_map, load_library,
    pmap, run_tlc,
)

ALG = """SPECIFICATION Spec
CONSTANTS Kind="{kind}" Design="{design}" Samples={samples} MaxSpins={spins}
 MaxCmds={cmds} Depth={depth} Emitting={emit}
INVARIANTS Contract Emit
CHECK_DEADLOCK FALSE
"""
LIVE = """SPECIFICATION Spec
CONSTANTS Design="{design}" MaxSpins={spins} MaxCmds={cmds}
PROPERTIES {props}
CHECK_DEADLOCK FALSE
"""


def frames(lib, n, gaps, clock):
    """A frame with n samples, gaps[k] half seconds after sample k."""
    t = np.concatenate([[0], np.cumsum(gaps)])[:n]
    if clock == "float":
        ts = 50.0 + 0.5 * t
    elif clock == "int":
        ts = 100 + t  # a tick is a second
    else:
        ts = (np.datetime64("2020-02-03T04:05:06", "ms")
              + 500 * t.astype("timedelta64[ms]")).astype(
                  f"datetime64[{clock}]")
    w = lib.ReferenceFrame("world")
    f = lib.ReferenceFrame(
        "body", parent=w, timestamps=ts,
        translation=np.arange(3.0 * n).reshape(n, 3) + 1)
    return w, f, ts


class Driver:
    """Drives one publisher of the code and records the trace."""

    def __init__(self, scen):
        rosstub.install()
        lib = load_library()
        from rigid_body_motion.ros import transformer, visualization

        self.w = rosstub.reset()
        self.bad = []
        self.kind = scen["kind"]
        n, gaps = scen["n"], scen["gaps"]
        self.tick = 1.0 if scen["clock"] == "int" else 0.5
        world, f, ts = frames(lib, n, gaps, scen["clock"])
        self.pos = f.translation
        if self.kind == "marker":
            vias = visualization
            self.p = vias.ReferenceFrameMarkerPublisher(
                f, publish_interval=float(scen["pause"]))
            self.p.marker.color.a = 0.0
            self.tick = 1.0
        else:
            self.p = transformer.ReferenceFrameTransformBroadcaster(
                f, publish_pose=scen["pose"],
                subscribe=self.kind == "wait")
        self.secs = [
            float(t) if ts.dtype.kind != "M" else
            t.astype("datetime64[ns]").astype(np.int64) / 1e9 for t in ts]
        self.s = rosstub.schedule()
        self.trace = [dict(kind=self.kind, n=n, gaps=gaps,
                           pause=scen["pause"])]
        self.seen = len(self.w.log)
        self.ended = set()
        self.latest = {}
        self.nruns = 0

    def note(self, **e):
        self.trace.append(e)

    def sample(self, m):
        for k, s in enumerate(self.secs):
            if abs(m.header.stamp.to_sec() - s) < 1e-6:
                return k
        return -2

    def collect(self):
        log = self.w.log
        for e in log[self.seen:]:
            who = e[-1]
            if e[0] == "tf":
                k = self.sample(e[1])
                t = e[1].transform.translation
                if k >= 0 and not np.allclose(
                        [t.x, t.y, t.z], self.pos[k]):
                    self.bad.append("a sample with the data of another")
                self.latest[who] = k
                self.note(e="pub", i=who or 0, s=k)
            elif e[0] == "publish" and self.kind == "marker":
                self.note(e="pubm", i=who or 0, s=int(e[2].color.a))
            elif e[0] == "publish":
                if self.sample(e[2]) != self.latest.get(who):
                    self.bad.append("pose of another sample")
            elif e[0] == "sleep":
                d = e[1] / self.tick
                self.note(e="slept", i=who or 0, s=round(d)
                          if abs(d - round(d)) < 1e-4 else -7)
        self.seen = len(log)
        for i in sorted(self.s.ended - self.ended):
            self.ended.add(i)
            self.note(e="end", i=i)
            err = self.s.failed.get(i)
            if err is not None and not (
                    self.w.down and isinstance(
                        err, rosstub.ROSInterruptException)):
                self.bad.append(f"thread died: {err!r}")

    def step(self, i):
        if i > self.nruns or i in self.ended:
            return False
        self.note(e="step", i=i)
        self.s.step(i)
        self.collect()
        return True

    def act(self, a):
        self.s.mine = 0
        if a == "spin":
            self.note(e="spin")
            n = len(self.s.ids)
            r = self.p.spin()
            if r is not None and not isinstance(r, threading.Thread):
                self.bad.append(f"spin returned {r!r}")
            if len(self.s.ids) != n + 1:
                raise NoThread(f"spin started {len(self.s.ids) - n} threads")
            self.nruns += 1
        elif a == "spinb":
            self.note(e="spin")
            t = threading.Thread(target=self.p.spin, kwargs={"block": True})
            n = len(self.s.ids)
            t.start()
            if len(self.s.ids) != n + 1:
                raise MachineryError("blocking spin not adopted")
            self.nruns += 1
            self.step(self.nruns)
        elif a == "stop":
            self.note(e="stop")
            self.p.stop()
        elif a == "down":
            self.note(e="down")
            self.w.down = True
        elif a == "change":
            v = 1 - int(self.p.marker.color.a)
            self.p.marker.color.a = float(v)
            self.note(e="change", s=v)
        else:
            self.step(int(a))
        self.collect()

    def finish(self):
        for _ in range(26):
            for i in range(1, self.nruns + 1):
                self.step(i)
        self.act("stop")
        for _ in range(16):
            for i in range(1, self.nruns + 1):
                self.step(i)
        for i in range(1, self.nruns + 1):
            if i not in self.ended:
                self.note(e="alive", i=i)

    def run(self, schedule):
        try:
            for a in schedule:
                self.act(a)
            self.finish()
        except NoThread as e:
            self.bad.append(str(e))
        except rosstub.Blocked as e:
            self.bad.append(f"{a}: {e}")
        finally:
            self.w.down = True
            rosstub.unschedule()
        return self.trace


class NoThread(Exception):
    pass


def drive(args):
    out, stuck = [], 0
    for scen in args:
        if stuck > 1:
            break
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                d = Driver(scen)
                out.append((scen, d.run(scen["schedule"]), d.bad))
            except MachineryError:
                raise
            except RuntimeError as e:
                stuck += 1
                out.append((scen, None, [f"{e}"]))
            except Exception as e:
                out.append((scen, None, [f"publisher failed: {e!r}"]))
    return out


def judge(report, scens):
    """Drive the code through the schedules; judge the traces."""
    res = sum(fork_map(drive, chunks(scens, NPROC * 4)), [])
    good = [(s, t) for s, t, b in res if t is not None]

    def tlc(part):
        outs, states, gen, _ = kin.run_machine(
            [dict(ops=t) for _, t in part], "PubRun")
        return part, outs, states, gen

    def vio(what, scen, trace):
        report.add([Violation(
            {"C23"}, f"{scen['kind']}: {what}",
            {"scenario": scen, "trace": trace}, re.sub(r"\d+", "#", what))])

    for s, t, bad in res:
        for b in bad:
            vio(b, s, t)
    n = 0
    for part, outs, states, gen in pmap(tlc, chunks(good, NPROC)):
        report.states += states
        report.transitions += gen
        for (s, t), o in zip(part, outs):
            n += 1
            if o is None:
                raise MachineryError("trace not judged")
            if o[0]["why"]:
                vio(o[0]["why"], s, t)
    report.traces += n
    report.count("events_judged", sum(len(t) for _, t in good))


def variants(rng, kind, sched):
    n = rng.choice([1, 2, 3]) if kind == "tf" else 3
    gaps = [rng.randint(1, 3) for _ in range(n - 1)]
    return dict(
        kind=kind, n=n, gaps=gaps + [0], pause=rng.choice([0, 1, 2]),
        clock=rng.choice(["float", "int", "ns", "ms"]),
        pose=kind == "tf" and rng.random() < 0.3,
        schedule=[("spinb" if a == "spin" and rng.random() < 0.15 else a)
                  for a in sched])


def long_schedule(rng, kind, n):
    out, runs = ["spin"], 1
    mode = rng.random()
    for _ in range(n):
        x = rng.random()
        if x < 0.06 and runs < 4 and (
                mode < 0.3 or out.count("stop") >= runs):
            out.append("spin")
            runs += 1
        elif x < 0.1 and out.count("stop") < 5:
            out.append("stop")
        elif x < 0.105 and "down" not in out:
            out.append("down")
        elif x < 0.25 and kind == "marker":
            out.append("change")
        else:
            out.append(str(rng.randint(1, runs)))
    return out


def check(report):
    quick = report.tier == "quick"
    rng = random.Random(f"{SEED}-pub")
    depth = {"tf": (8, 11), "marker": (7, 9), "wait": (7, 9)}
    jobs = []
    for kind in ("tf", "marker", "wait"):
        jobs.append((kind, "token", True, dict(
            samples=2, spins=2 if quick else 3, cmds=4,
            depth=depth[kind][0 if quick else 1], emit="TRUE")))
        # deeper, without printing the histories
        jobs.append((kind, "token", True, dict(
            samples=3, spins=3, cmds=5, depth=10 if quick else 13,
            emit="FALSE")))
    for kind in ("tf", "marker"):
        for d in ("flag", "spin"):
            jobs.append((kind, d, False, dict(
                samples=2, spins=2, cmds=4, depth=12, emit="FALSE")))

    def tlc(j):
        kind, design, good, c = j
        return j, run_tlc("PublisherAlg", ALG.format(
            kind=kind, design=design, **c), expect_ok=False)

    scheds = {}
    for (kind, design, good, c), r in pmap(tlc, jobs):
        text = "\n".join(r.log)
        if good and not r.ok or not good and \
                "Invariant Contract is violated" not in text:
            raise MachineryError(
                f"PublisherAlg {kind} {design}:\n{r.tail()}")
        report.tlc(r)
        if c["emit"] == "TRUE":
            scheds[kind] = [x["h"] for x in r.records("K")]
            report.count("schedules_enumerated", len(scheds[kind]))
    for design, props, good in (
            ("token", "Ends Publishes", True), ("flag", "Ends", False),
            ("spin", "Ends", False)):
        r = run_tlc("PublisherLive", LIVE.format(
            design=design, spins=2 if quick else 3, cmds=4 if quick else 5,
            props=props), expect_ok=False)
        if good != r.ok:
            raise MachineryError(f"PublisherLive {design}:\n{r.tail()}")
        report.tlc(r)
    scens = []
    for kind, hs in scheds.items():
        limit = 1500 if quick else 12000
        if len(hs) > limit:
            hs = rng.sample(hs, limit)
        scens += [variants(rng, kind, h) for h in hs]
        for _ in range(150 if quick else 3000):
            scens.append(variants(rng, kind, long_schedule(
                rng, kind, rng.randint(20, 60))))
    report.sample(scens[0])
    judge(report, scens)
