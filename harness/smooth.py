"""C27: outlier suppression and low-pass filters of estimated velocities.

MCSmooth.tla enumerates patterns of position corrections on short recordings
and shows that the described algorithm recovers the undisturbed velocity
where Smooth.tla says so; longer random recordings are evaluated by
Smooth.tla.  Both are replayed through the estimation functions (every array
layout), the velocity lookups, the velocity transformations and the
broadcaster."""
import random
import re
import warnings

import numpy as np

from . import rosstub
from .common import (
    NPROC, SEED, Violation, chunks, fork_map, run_tlc,
)
from .concrete import Clock, either_sign, quat, same_stamps
from .kin import OCT, ODD, run_random
from .lib import same_input
from .terms import U, axis, qm
from .vel import AX, VLib, evaluate

ONE = [1, 0, 0, 0]
# forms of a single column, besides estimate_*; (name, the frame the
# velocities are represented in is free)
LIN = [("lookup", True), ("method", True), ("twist", True),
       ("mtwist", True), ("xr", True), ("refworld", True),
       ("tref", True), ("tmov", False), ("body", False), ("ros", False)]
ANG = [("lookup", True), ("method", True), ("xr", True), ("body", False)]
# the angular threshold of twists is not the caller's
FANG = ANG + [("twist", True), ("mtwist", True), ("tref", True),
              ("tmov", False), ("ros", False)]


# ------------------------------------------------------------ generation
class Gen:
    def __init__(self, rng):
        self.r = rng

    def vec(self, n=3):
        return [self.r.randint(-n, n) for _ in range(3)]

    def off(self, n, size, dims):
        """Corrections: jumps and spikes."""
        r = self.r
        base = [0] * dims
        out = []
        hits = set()
        for _ in range(r.choice([0, 1, 1, 2, 2, 3, 5])):
            hits.add(r.randrange(1, n))
        for k in range(n):
            v = list(base)
            if k in hits:
                j = [r.choice([-1, 1]) * r.randint(size, 2 * size)
                     if r.random() < 0.6 else 0 for _ in range(dims)]
                if not any(j):
                    j[r.randrange(dims)] = size
                v = [a + b for a, b in zip(base, j)]
                if r.random() < 0.6:
                    base = v
            out.append(v)
        return out

    def layout(self, op, forms):
        r = self.r
        single = r.random() < 0.5
        sh = [] if single or r.random() < 0.4 else [
            r.randint(1, 2) for _ in range(r.randint(1, 2))]
        n = len(sh) + 2
        perm = list(range(n))
        if r.random() < 0.6:
            r.shuffle(perm)
        form, free = ("estimate", False)
        if single:
            form, free = r.choice(forms)
        op["q"] = list(r.choice(ODD if r.random() < 0.3 else OCT)) \
            if free and r.random() < 0.8 else ONE
        op["_sh"] = sh
        op["_opt"] = dict(
            perm=perm, neg=r.random() < 0.5, defax=r.random() < 0.5,
            labelled=r.random() < 0.4, variant=r.randrange(12), form=form,
            base=list(r.choice(ODD)), named=r.random() < 0.4,
            t0=self.vec(), clock=r.choice(
                [c for c in Clock.KINDS if form != "ros" or c != "neg"]))
        return int(np.prod(sh)) if sh else 1

    def op(self):
        r = self.r
        k = r.choices(["smlin", "smang", "fillin", "filang"],
                      [5, 4, 2, 2])[0]
        op = dict(op=k, h=r.choice([1, 1, 2]))
        if k == "smlin":
            n = r.randint(8, 30)
            op["thresh"] = r.randint(3, 8)
            cols = self.layout(op, LIN)
            op["cols"] = [dict(
                a=self.vec(), d=self.vec(),
                e=self.vec(1) if r.random() < 0.4 else [0, 0, 0],
                off=self.off(n, 3 * op["thresh"], 3)) for _ in range(cols)]
        elif k == "smang":
            op["rv"] = r.random() < 0.6
            n = r.randint(10, 30) if op["rv"] else r.randint(36, 60)
            op["thresh"] = r.randint(2, 6)
            cols = self.layout(op, ANG)
            op["cols"] = [dict(
                ax=list(r.choice(AX)), m=r.choice([-3, -2, -1, 0, 1, 2, 3]),
                off=[v[0] for v in self.off(n, 3 * op["thresh"], 1)])
                for _ in range(cols)]
        elif k == "fillin":
            wave = r.random() < 0.5
            op["n"] = r.choice([409, 450, 501]) if wave else \
                r.randint(25, 60)
            op["cut"] = r.choice([[1, 5], [1, 6], [1, 8], [4, 5], [9, 10]] if
                                 wave else [[1, 5], [1, 2], [1, 10], [7, 10]])
            cols = self.layout(op, LIN)
            op["cols"] = [dict(a=self.vec(), d=self.vec(),
                               amp=self.vec() if wave else [0, 0, 0])
                          for _ in range(cols)]
        else:
            wave = r.random() < 0.5
            op["n"] = r.choice([409, 450]) if wave else r.randint(26, 80)
            low = [[1, 5], [1, 6], [1, 8]]
            cols = self.layout(op, FANG)
            # these have no argument mode
            op["rv"] = op["_opt"]["form"] not in ("tref", "tmov", "ros") \
                and r.random() < 0.5
            op["cut"] = r.choice(
                [[1, 5], [1, 2], [1, 10], [7, 10]] if not wave else
                low + [[4, 5], [9, 10]] if op["rv"] else low)
            op["cols"] = [dict(
                ax=list(r.choice(AX)), m=0 if wave and op["rv"] else
                r.choice([-3, -2, -1, 0, 1, 2, 3]),
                amp=r.choice([-3, -2, 1, 2]) if wave else 0)
                for _ in range(cols)]
        return op

    def history(self):
        return dict(ops=[self.op() for _ in range(4)])


# --------------------------------------------------------------- library
def samples(op):
    """Positions or orientations, [column, sample, space]."""
    out = []
    for c in op["cols"]:
        n = op["n"] if "n" in op else len(c["off"])
        k = np.arange(1, n + 1)
        if op["op"] == "smlin":
            p = (np.array(c["a"]) + np.outer(k, c["d"])
                 + np.outer(k * k, c["e"]) + np.array(c["off"]))
        elif op["op"] == "fillin":
            p = (np.array(c["a"]) + np.outer(k, c["d"])
                 + np.outer(np.array([0, 1, 0, -1])[k % 4], c["amp"]))
        else:
            a = (c["m"] * k + np.array(c.get("off", 0)) + c.get("amp", 0)
                 * np.array([0, 1, 0, -1])[k % 4]) * U / 2
            p = either_sign(np.concatenate(
                (np.cos(a)[:, None], np.outer(np.sin(a), axis(c["ax"]))),
                axis=1))
        out.append(np.asarray(p, float))
    return np.array(out)


def arguments(op):
    kw = {}
    if "thresh" in op:
        kw["outlier_thresh"] = op["thresh"] * (
            1.0 if op["op"] == "smlin" else U)
    if "cut" in op:
        kw["cutoff"] = op["cut"][0] / op["cut"][1]
    return kw


class Smooth(VLib):
    """One operation on the library."""

    def estimate(self, op, data, ts):
        rbm, opt = self.rbm, op["_opt"]
        lin = op["op"] in ("smlin", "fillin")
        arr, ax, tax = self.arrange(np.moveaxis(data, 0, 1), op["_sh"],
                                    True, opt)
        keep, nd = arr.copy(), arr.ndim
        kw = arguments(op)
        if op.get("rv"):
            kw["mode"] = "rotation_vector"
        f = getattr(rbm, f"estimate_{'linear' if lin else 'angular'}"
                         f"_velocity")
        if opt["labelled"]:
            dims = [f"d{k}" for k in range(nd)]
            sd = "cartesian_axis" if lin else "quaternion_axis"
            dims[ax], dims[tax] = sd, "time"
            x = self.xr.DataArray(
                arr, {"time": ts, sd: list("xyz" if lin else "wxyz")}, dims)
            got = f(x, dim=sd, timestamps="time", **kw)
            if list(got.dims) != ["cartesian_axis" if d == sd else d
                                  for d in dims]:
                return None, f"dimensions {got.dims}"
            got = got.values
        else:
            if not (opt["defax"] and ax == nd - 1):
                kw["axis"] = ax - nd if opt["neg"] else ax
            if tax or not opt["defax"]:
                kw["time_axis"] = tax - nd if opt["neg"] else tax
            got = f(arr, timestamps=ts, **kw)
        if not same_input(arr, keep):
            return None, "the input was modified"
        g = self.restore(np.asarray(got), op["_sh"], True, opt)
        return g, None if g is not None else f"shape {np.shape(got)}"

    def frames(self, op, data, ts):
        """world <- base (static) <- body (moving)"""
        rbm, opt = self.rbm, op["_opt"]
        lin = op["op"] in ("smlin", "fillin")
        q = op["q"] if op["q"] != ONE else opt["base"]
        free = op["q"] != ONE or opt["form"] in ("tmov", "body", "ros")
        world = rbm.ReferenceFrame("world")
        base = rbm.ReferenceFrame(
            "base", parent=world, translation=np.array(opt["t0"], float),
            rotation=quat(q) if free else quat(ONE))
        kw = dict(translation=data[0]) if lin else dict(rotation=data[0])
        body = rbm.ReferenceFrame("body", parent=base, timestamps=ts, **kw)
        for f in (world, base, body):
            f.register()
        return world, base, body

    def lookup(self, op, data, ts):
        rbm, opt = self.rbm, op["_opt"]
        lin = op["op"] in ("smlin", "fillin")
        what = "linear" if lin else "angular"
        world, base, body = self.frames(op, data, ts)
        name = (lambda f: f.name) if opt["named"] else (lambda f: f)
        form = opt["form"]
        kw = arguments(op)
        mode = {"mode": "rotation_vector"} if op.get("rv") else {}
        if form in ("lookup", "method", "xr", "refworld", "body"):
            kw.update(mode)
            f = getattr(rbm, f"lookup_{what}_velocity")
            a = (name(body),)
            if form == "method":
                f, a = getattr(body, f"lookup_{what}_velocity"), ()
            ref = world if form == "refworld" else base
            rep = {"body": body}.get(form, world)
            if form == "xr":
                da = f(*a, name(ref), name(rep), as_dataarray=True, **kw)
                return da.values, da.time.values
            return f(*a, name(ref), name(rep), return_timestamps=True, **kw)
        if form in ("twist", "mtwist"):
            kw.update(mode)
            f, a = rbm.lookup_twist, (name(body),)
            if form == "mtwist":
                f, a = body.lookup_twist, ()
            r = f(*a, name(base), name(world), return_timestamps=True, **kw)
            return r[0 if lin else 1], r[2]
        if form == "ros":
            from rigid_body_motion.ros.transformer import (
                ReferenceFrameTransformBroadcaster as B)

            rosstub.install()
            rosstub.reset()
            b = B(name(body), name(base), publish_twist=True,
                  **{"twist_" + k: v for k, v in kw.items()})
            sent = []
            b.twist_publisher.publish = sent.append
            for k in range(len(ts)):
                b.publish(k)
            v = [getattr(m.twist, what) for m in sent]
            return np.array([(x.x, x.y, x.z) for x in v]), ts
        zeros = np.zeros((len(ts), 3))
        kw.update(timestamps=ts, return_timestamps=True)
        f = getattr(rbm, f"transform_{what}_velocity")
        if form == "tref":
            # velocity of the body with respect to itself
            if lin:
                kw["moving_frame"] = name(body)
            return f(zeros, name(world), name(body),
                     what="reference_frame", **kw)
        # velocity of the base with respect to itself
        if lin:
            kw["reference_frame"] = name(base)
        return f(zeros, name(body), name(base), what="moving_frame", **kw)


def compare(lib, op, got, want, tol):
    for c, col in enumerate(want["cols"]):
        w, err = evaluate([e["v"] for e in col], lib.clock.seconds)
        known = np.array([e["known"] for e in col])
        g = got[:, c]
        if g.shape != w.shape:
            return f"column {c}: shape {g.shape}"
        scale = np.abs(w).max(initial=0)
        d = np.linalg.norm(g - w, axis=-1)
        ok = d <= 2e-6 + tol * scale + err
        bad = np.flatnonzero(known & ~ok)
        if len(bad):
            k = bad[0]
            return (f"column {c}, sample {k + 1} of {len(w)}: {g[k]}, "
                    f"expected {w[k]}")
    return None


def do(op, want):
    opt = op["_opt"]
    lib = Smooth(Clock(opt["clock"]))
    lib.rbm.clear_registry()
    data = samples(op)
    n = data.shape[1]
    ticks = [op["h"] * k for k in range(n)]
    ts = lib.clock.stamps(ticks, opt["variant"])
    tol = 2e-3 if "cut" in op and any(
        np.any(c.get("amp", 0)) for c in op["cols"]) else 2e-5
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if opt["form"] == "estimate":
                got, bad = lib.estimate(op, data, ts)
                if bad:
                    return bad
            else:
                got, st = lib.lookup(op, data, ts)
                if not same_stamps(lib.clock, st, ticks):
                    return f"timestamps {st}"
                got = np.asarray(got)
                if got.shape != (n, 3):
                    return f"shape {got.shape}"
                got = got[:, None]
    except Exception as e:
        return f"failed: {e!r}"
    finally:
        lib.rbm.clear_registry()
    return compare(lib, op, got, want, tol)


def replay(scen, outs):
    out, n = [], 0
    for op, want in zip(scen["ops"], outs):
        if want["res"] != "ok":
            continue
        n += 1
        bad = do(op, want)
        if bad:
            form = op["_opt"]["form"]
            out.append(Violation(
                {"C27"}, f"{op['op']} [{form}] {op['_opt']}: {bad}",
                {"op": op}, f"{op['op']} {form} "
                + re.sub(r"[-\d.e+]+", "#", bad)[:60]))
    return out, n


CFG = """SPECIFICATION Spec
CONSTANTS N = {n}
 Sizes = {{20}}
 Curves = {{0, 1}}
 Thresh = {thresh}
INVARIANTS Theorems Emit
CHECK_DEADLOCK FALSE
"""


def check(report):
    quick = report.tier == "quick"
    jobs = []
    for n, thresh in ([(7, 6)] if quick else [(6, 6), (7, 6), (8, 6),
                                              (7, 19)]):
        r = run_tlc("MCSmooth", CFG.format(n=n, thresh=thresh),
                    args=("-workers", "8"))
        report.tlc(r)
        recs = list(r.records("K"))
        report.count("recordings_enumerated", len(recs))
        if quick:
            recs = recs[SEED % 3::3]
        jobs += [(thresh, rec) for rec in recs]

    def enumerated(part):
        out = []
        for j, (thresh, rec) in part:
            rng = random.Random(f"{SEED}-sm-{j}")
            op = dict(op="smlin", h=1, thresh=thresh, cols=[rec["col"]])
            Gen(rng).layout(op, LIN)
            op["q"], op["_sh"] = ONE, []
            op["_opt"]["perm"] = rng.choice([[0, 1], [1, 0]])
            v, _ = replay(dict(ops=[op]), [dict(res="ok",
                                                cols=[rec["want"]])])
            out += v
            if len(out) > 20:
                break
        return out

    for vs in fork_map(enumerated, chunks(enumerate(jobs), NPROC * 2)):
        report.add(vs)
    report.traces += len(jobs)
    scens = [Gen(random.Random(f"{SEED}-smooth-{k}")).history()
             for k in range(260 if quick else 4000)]
    run_random(report, scens, module="AlgRun", replay=replay)
