"""C28: requests that do not fit what they refer to are rejected.

MCRequest.tla enumerates requests (shapes, axes, timestamps, names,
references) with the verdict of Request.tla; every one is made here."""
import os
import random
import tempfile
import warnings

import numpy as np

from .common import (
    NPROC, SEED, Violation, chunks, fork_map, load_library, run_tlc,
)

DEF, NOTS, SCALAR, TABLE, OFF, UNKNOWN = 99, -1, -2, -3, -4, 9
CFG = """SPECIFICATION Spec
CONSTANTS Nds = {nds}
 Sizes = {sizes}
INVARIANTS Theorems Emit
CHECK_DEADLOCK FALSE
"""
TRANSFORM = ["points", "vectors", "angular_velocity", "linear_velocity"]
ESTIMATE = {"linear": "linear", "quaternion": "angular",
            "rotation_vector": "angular"}
FIT = {"rotation": "best_fit_rotation", "transform": "best_fit_transform",
       "icp": "iterative_closest_point", "arc": "shortest_arc_rotation"}


class World:
    """A root, a static frame and a frame that moves, on 9 samples."""

    def __init__(self, rng):
        import xarray as xr

        self.rbm, self.xr, self.r = load_library(), xr, rng
        rbm = self.rbm
        rbm.clear_registry()
        rbm.register_frame("root")
        rbm.register_frame("static", parent="root", translation=(1, 2, 3),
                           rotation=(0.5, 0.5, 0.5, 0.5))
        t = np.arange(9.0)
        rbm.register_frame(
            "moving", parent="static", timestamps=t,
            translation=np.stack((t, 2 * t, -t), 1),
            rotation=np.stack((np.cos(t / 9), 0 * t, np.sin(t / 9), 0 * t),
                              1))
        rbm.register_frame("removed", parent="root", translation=(1, 0, 0))
        rbm.deregister_frame("removed")
        from rigid_body_motion.reference_frames import _registry

        self.frames = dict(_registry)
        self.reg = _registry

    def state(self):
        return [(k, id(f), id(f.parent), [id(c) for c in f.children])
                for k, f in self.reg.items()]

    def array(self, sh):
        rng = np.random.default_rng(self.r.randrange(1 << 30))
        return np.asarray(rng.uniform(0.5, 2, sh))

    def stamps(self, n):
        if n == SCALAR:
            return self.r.choice([1.0, np.array(1.0)])
        if n == TABLE:
            return np.arange(4.0).reshape(2, 2)
        t = np.arange(float(n))
        return t.tolist() if self.r.random() < 0.2 else t

    # -------------------------------------------------------- requests
    def transform(self, r, want):
        kw = {}
        if r["ax"] != DEF:
            kw["axis"] = r["ax"]
        if r["tax"] != DEF:
            kw["time_axis"] = r["tax"]
        if r["tsn"] != NOTS:
            kw["timestamps"] = self.stamps(r["tsn"])
        kind = "quaternions" if r["n"] == 4 else self.r.choice(
            TRANSFORM if r["mov"] and (want["res"] == "err" or r["tsn"] >= 0)
            else TRANSFORM[:2])
        if kind == "linear_velocity":
            kw["moving_frame"] = "moving"
        arr = self.array(r["sh"])
        a = "moving" if r["mov"] else "static"
        if self.r.random() < 0.4:
            f = getattr(self.frames[a], "transform_" + kind)
            return arr, lambda: f(arr, "root", **kw)
        f = getattr(self.rbm, "transform_" + kind)
        return arr, lambda: f(arr, "root", a, **kw)

    def labelled(self, r, want):
        nd = len(r["sh"])
        dims = ["d%d" % (k + 1) for k in range(nd)]
        x = self.xr.DataArray(
            self.array(r["sh"]),
            {d: np.arange(float(n)) for k, (d, n) in enumerate(
                zip(dims, r["sh"])) if k + 1 in r["coords"]}, dims)
        name = lambda k: dims[k - 1] if k <= nd else "nowhere"  # noqa
        kw = {}
        if r["dim"]:
            kw["dim"] = name(r["dim"])
        if r["ax"] != DEF:
            kw["axis"] = r["ax"]
        if r["tax"] != DEF:
            kw["time_axis"] = r["tax"]
        if r["ts"] > 0:
            kw["timestamps"] = name(r["ts"])
        elif r["ts"] == OFF:
            kw["timestamps"] = False
        elif r["ts"] == TABLE:
            kw["timestamps"] = np.arange(float(r["sh"][0]))
        kind = "quaternions" if r["n"] == 4 else self.r.choice(
            TRANSFORM[:2])
        f = getattr(self.rbm, "transform_" + kind)
        a = "moving" if r["mov"] else "static"
        return x, lambda: f(x, "root", a, **kw)

    def estimate(self, r, want):
        kw = {}
        if r["ax"] != DEF:
            kw["axis"] = r["ax"]
        if r["tax"] != DEF:
            kw["time_axis"] = r["tax"]
        if r["tsn"] != NOTS:
            kw["timestamps"] = self.stamps(r["tsn"])
        if r["what"] != "linear":
            kw["mode"] = r["what"]
        arr = self.array(r["sh"])
        f = getattr(self.rbm,
                    f"estimate_{ESTIMATE[r['what']]}_velocity")
        return arr, lambda: f(arr, **kw)

    def fit(self, r, want):
        kw = {} if r["ax"] == DEF else {"axis": r["ax"]}
        v1, v2 = self.array(r["s1"]), self.array(r["s2"])
        f = getattr(self.rbm, FIT[r["what"]])

        def call():
            out = f(v1, v2, **kw)
            if r["what"] == "arc":
                return out
            got = [np.shape(x) for x in out] if isinstance(
                out, tuple) else [np.shape(out)]
            exp = [(4,)] if r["what"] == "rotation" else [(3,), (4,)]
            assert got == exp, f"shapes {got}"
            return np.zeros(())
        return (v1, v2), call

    def reference(self, r, want):
        bad = {"none": None, "number": 3, "unknown": "nowhere",
               "removed": "removed", "list": ["root"]}[r["ref"]]
        what = r["what"]
        f = getattr(self.rbm, what)
        good = self.r.choice(["root", "static"])
        a, b = (bad, good) if r["arg"] == "a" else (good, bad)
        if what == "lookup_twist" or what.endswith("_velocity") and \
                what.startswith("lookup"):
            if r["arg"] == "a":
                return (), lambda: f(bad, "root")
            if bad is None:
                return (), None
            k = self.r.randrange(2)
            args = ["static", "static"]
            args[k] = bad
            return (), lambda: f("moving", *args)
        if what.startswith("lookup"):
            return (), lambda: f(a, b)
        arr = self.array([4 if what.endswith("quaternions") else 3])
        return arr, lambda: f(arr, b, a)

    def matrix(self, r, want):
        f = self.rbm.ReferenceFrame.from_rotation_matrix
        m = np.resize(np.eye(3), r["sh"])

        def call():
            frame = f(m, "root")
            assert frame.parent is self.frames["root"]
            frame.parent = None
            return np.zeros(())
        return m, call

    def option(self, r, want):
        rbm, v = self.rbm, r["value"]
        if r["of"] == "mode":
            q = self.array([9, 4])
            if self.r.random() < 0.5:
                call = lambda: rbm.estimate_angular_velocity(  # noqa
                    q, timestamps=np.arange(9.0), mode=v)
            else:
                call = lambda: rbm.lookup_angular_velocity(  # noqa
                    "moving", "root", mode=v)
        elif r["of"] == "what":
            q = self.array([9, 3])
            f, kw = self.r.choice([
                (rbm.transform_angular_velocity, {}),
                (rbm.transform_linear_velocity, dict(
                    moving_frame="moving", reference_frame="root"))])
            call = lambda: f(q, "root", "moving", what=v,  # noqa
                             timestamps=np.arange(9.0), **kw)
        else:
            from . import opti
            import rigid_body_motion.io  # noqa

            q = ()
            with tempfile.TemporaryDirectory(prefix="verif-req-") as d:
                path = os.path.join(d, "x.csv")
                g = opti.Gen(random.Random(f"{SEED}-{v}"))
                op = g.export()
                opti.write(path, op, op.get("_opt") or dict(k=1, wide=False))
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    try:
                        rbm.io.load_optitrack(path, import_format=v)
                        return q, lambda: np.zeros(())
                    except Exception as e:
                        err = e

            def call():
                raise err
            return q, call
        return q, lambda: np.zeros(() if call() is not None else (0,))

    def nameless(self, r, want):
        rbm, what = self.rbm, r["what"]
        if what in FIT:
            v = self.array([5, 3])
            f = getattr(rbm, FIT[what])
            return v, lambda: f(v, v + 1, dim="cartesian_axis")
        if what in ESTIMATE or what == "angular":
            v = self.array([9, 4 if what == "angular" else 3])
            f = getattr(rbm, f"estimate_{what}_velocity")
            return v, lambda: f(v, dim="cartesian_axis",
                                timestamps=np.arange(9.0))
        v = self.array([5, 4 if what == "quaternions" else 3])
        f = getattr(rbm, "transform_" + what)
        return v, lambda: f(v, "root", "static", dim="cartesian_axis")


def same(a, b):
    if isinstance(a, tuple):
        return all(same(x, y) for x, y in zip(a, b))
    return a.identical(b) if hasattr(a, "identical") else \
        np.array_equal(a, b)


def make(w, r, want):
    """What is wrong with the library's answer, or None."""
    arr, call = getattr(w, r["f"])(r, want)
    if call is None:
        return None
    keep = tuple(x.copy() for x in arr) if isinstance(arr, tuple) else \
        arr.copy()
    before = w.state()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got, res = call(), "ok"
    except Exception as e:
        got, res = repr(e), "err"
    if w.state() != before:
        return f"{res}, and the frames have changed"
    if not same(arr, keep):
        return f"{res}, and the input was modified"
    if res != want["res"]:
        return f"{'accepted' if res == 'ok' else 'rejected: ' + got}, " \
               f"expected {want}"
    if res == "ok" and list(np.shape(got)) != want["sh"]:
        return f"shape {np.shape(got)}, expected {want['sh']}"
    return None


def check(report):
    quick = report.tier == "quick"
    t = run_tlc("MCRequest", CFG.format(
        nds="{1, 2}" if quick else "{1, 2, 3}",
        sizes="{1, 3, 4}" if quick else "{1, 2, 3, 4}"), heap="4g",
        args=("-workers", "8"))
    report.tlc(t)
    recs = list(t.records("K"))
    report.count("requests_enumerated", len(recs))
    recs = [x for x in recs if x["v"]["res"] != "any"]
    recs.sort(key=lambda x: sorted(str(kv) for kv in x["r"].items()))

    def do(part):
        out = []
        part = list(part)
        w = World(random.Random(f"{SEED}-req-{part[0][0]}"))
        for k, x in part:
            for _ in range(1 if quick else 2):
                bad = make(w, x["r"], x["v"])
                if bad:
                    out.append(Violation(
                        {"C28"}, f"{x['r']}: {bad}", x,
                        f"{x['r']['f']} {bad[:50]}"))
            if len(out) > 20:
                break
        w.rbm.clear_registry()
        return out

    for vs in fork_map(do, chunks(enumerate(recs), NPROC * 4)):
        report.add(vs)
    report.traces += len(recs)
    report.count("verdicts_compared", len(recs))
    report.sample(recs[0])
