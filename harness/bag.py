"""C24: bag files.  MCBag.tla enumerates histories of calls on two bags with
topics that share a slug; random histories are evaluated by Bag.tla.  All are
executed on the library, with a stand-in for rosbag."""
import os
import pathlib
import random
import re
import shutil
import tempfile
import warnings

import numpy as np

from . import kin, rosstub
from .common import (
    Violation, chunks, fork_map, load_library, run_tlc, MachineryError,
    NPROC, SEED,
)

NAN = 2000000001
UNIT = 3000.0
STORED = 0.5e-4 * (1 + 1e-6)
US = np.timedelta64(1100, "ns")


def num(n):
    return np.nan if n == NAN else n / UNIT


def arr(rows, w):
    return np.array([[num(x) for x in r] for r in rows],
                    dtype=float).reshape(len(rows), w)


class Times:
    """Ticks to seconds and datetimes."""

    BASES = (0, 1600000000000000, 1600000000123456, 951827696250000)  # us
    STEPS = (1000, 250000, 5000000, 33333)

    def __init__(self, opt):
        self.base = self.BASES[opt["base"]]
        self.step = self.STEPS[opt["step"]]

    def us(self, k):
        return self.base + k * self.step

    def sec(self, k):
        return self.us(k) / 1e6

    def dt(self, ks, unit="us"):
        return np.array([self.us(k) for k in ks],
                        "datetime64[us]").astype(f"datetime64[{unit}]")


class Bags:
    def __init__(self, opt):
        rosstub.install()
        rosstub.reset()
        self.lib = load_library()
        from rigid_body_motion.ros.io import RosbagReader, RosbagWriter
        import rosbag

        self.R, self.W, self.Bag = RosbagReader, RosbagWriter, rosbag.Bag
        self.T = Times(opt)
        self.opt = opt
        self.dir = tempfile.mkdtemp(prefix="verif-bag-")
        self.hs = []

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, f):
        p = os.path.join(self.dir, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    # -------------------------------------------------------- messages
    def message(self, m):
        import rospy
        from geometry_msgs.msg import TransformStamped
        from nav_msgs.msg import Odometry

        v = [num(x) for x in m["v"]]
        if m["type"] == "geometry_msgs/TransformStamped":
            msg = TransformStamped()
            parts = [(msg.transform.translation, "xyz"),
                     (msg.transform.rotation, "xyzw")]
        elif m["type"] == "nav_msgs/Odometry":
            msg = Odometry()
            parts = [(msg.pose.pose.position, "xyz"),
                     (msg.pose.pose.orientation, "xyzw"),
                     (msg.twist.twist.linear, "xyz"),
                     (msg.twist.twist.angular, "xyz")]
        else:
            msg = rosstub.MSGS[m["type"].split("/")[1]]()
            return msg
        it = iter(v)
        for p, names in parts:
            for n in names:
                setattr(p, n, next(it))
        msg.child_frame_id = m["child"]
        msg.header.frame_id = m["frame"]
        us = self.T.us(m["stamp"])
        msg.header.stamp = rospy.Time(us // 10 ** 6, us % 10 ** 6 * 1000)
        return msg

    def do_record(self, op, want):
        import rospy

        with_bag = self.Bag(self.path(op["file"]), "w")
        for m in op["msgs"]:
            with_bag.write(m["topic"], self.message(m),
                           rospy.Time(1500000000 + m["recv"], 7))
        with_bag.close()
        return []

    def do_inspect(self, op, want):
        p = self.path(op["file"])
        if want["res"] == "err":
            return [f"{op['file']} exists"] if os.path.exists(p) else []
        bag = self.Bag(p, "r")
        got = list(bag.read_messages())
        bag.close()
        exp = want["msgs"]
        if [(g.topic, g.message._type) for g in got] != [
                (m["topic"], m["type"]) for m in exp]:
            return [f"bag holds {[(g.topic, g.message._type) for g in got]}, "
                    f"expected {[(m['topic'], m['type']) for m in exp]}"]
        out = []
        for g, m in zip(got, exp):
            if m["type"] != "geometry_msgs/TransformStamped":
                continue
            x = g.message
            t, q = x.transform.translation, x.transform.rotation
            v = np.array([t.x, t.y, t.z, q.x, q.y, q.z, q.w], float)
            e = np.array([num(k) for k in m["v"]])
            if (x.header.frame_id, x.child_frame_id) != (
                    m["frame"], m["child"]):
                out.append(f"message from {x.header.frame_id} to "
                           f"{x.child_frame_id}, expected {m['frame']}, "
                           f"{m['child']}")
            if abs(x.header.stamp.to_nsec()
                   - self.T.us(m["stamp"]) * 1000) > 1100:
                out.append(f"message stamped {x.header.stamp}, expected "
                           f"{self.T.sec(m['stamp'])}")
            if not np.allclose(v, e, rtol=1e-12, atol=1e-12,
                               equal_nan=True):
                out.append(f"message with values {v}, expected {e}")
        return out

    # --------------------------------------------------------- handles
    def do_handle(self, op, want):
        p = self.path(op["file"])
        if op.get("_path", True):
            p = pathlib.Path(p)
        self.hs.append((self.R if op["role"] == "r" else self.W)(p))
        return []

    def do_enter(self, op, want):
        h = self.hs[op["h"] - 1]
        try:
            r = h.__enter__()
        except Exception as e:
            return ([] if want["res"] == "err"
                    else [f"entering the context failed: {e!r}"])
        if want["res"] == "err":
            return ["a bag that does not exist was opened"]
        return [] if r is h else ["the context is not the reader itself"]

    def do_exit(self, op, want):
        h = self.hs[op["h"] - 1]
        e = ValueError("x")
        r = (h.__exit__(ValueError, e, None) if op.get("_exc")
             else h.__exit__(None, None, None))
        return ["the context swallows exceptions"] if r else []

    # --------------------------------------------------------- writing
    def do_write(self, op, want):
        o = op.get("_opt") or {}
        h = self.hs[op["h"] - 1]
        rows = lambda a, n, w: np.array(  # noqa
            [[num(x) for x in (a[k % len(a)] * 2)[:w]] if a else [0.0] * w
             for k in range(n)], dtype=float).reshape(n, w)
        t, r = rows(op["t"], op["tn"], op["tw"]), rows(
            op["r"], op["rn"], op["rw"])
        ts = np.array([self.T.sec(k) for k in op["ts"]], dtype=float)
        form = o.get("form", "array")
        try:
            if form == "ds" and op["tsd"] == 1:
                import xarray as xr

                dim = o["names"][0]
                if o["datetime"]:
                    unit = o["datetime"]
                    ts = self.T.dt(op["ts"], unit)

                def var(a, axis):
                    d = (dim if len(a) == len(ts) else dim + "2", axis)
                    a, d = (a.T, d[::-1]) if o["transposed"] else (a, d)
                    return d, a

                ds = xr.Dataset({
                    o["names"][1]: var(t, "cartesian_axis"),
                    o["names"][2]: var(r, "quaternion_axis"),
                    "other": (dim, np.arange(len(ts)) * 7.0)},
                    {dim: ts})
                if not o["labels"]:
                    pass
                elif t.shape[1] == 3 and r.shape[1] == 4:
                    ds = ds.assign_coords(
                        cartesian_axis=list("xyz"),
                        quaternion_axis=list("wxyz"))
                copy = ds.copy(deep=True)
                kw = dict(zip(("timestamps", "translation", "rotation"),
                              o["names"]))
                h.write_transform_stamped_dataset(
                    ds, op["topic"], op["frame"], op["child"],
                    **(kw if tuple(o["names"]) != (
                        "time", "position", "orientation") else {}))
                if not ds.identical(copy):
                    return ["writing changed the dataset"]
            else:
                if op["tsd"] == 2:
                    ts = ts[:, np.newaxis]
                if form == "list" and len(t) and len(r):
                    ts, t, r = ts.tolist(), t.tolist(), r.tolist()
                args = (ts, t, r, op["topic"], op["frame"], op["child"])
                h.write_transform_stamped(*args)
        except Exception as e:
            return ([] if want["res"] == "err"
                    else [f"writing failed: {e!r}"])
        return ["a write that is invalid was accepted"
                ] if want["res"] == "err" else []

    # --------------------------------------------------------- reading
    def do_topics(self, op, want):
        try:
            got = self.hs[op["h"] - 1].get_topics_and_types()
        except Exception as e:
            return ([] if want["res"] == "err"
                    else [f"get_topics_and_types failed: {e!r}"])
        if want["res"] == "err":
            return ["get_topics_and_types outside the context"]
        exp = dict(map(tuple, want["topics"]))
        return [] if dict(got) == exp else [f"topics {got}, expected {exp}"]

    def values(self, want):
        v = {"position": arr(want["position"], 3),
             "orientation": arr(want["orientation"], 4)}
        if want["twist"]:
            v["linear_velocity"] = arr(want["linear"], 3)
            v["angular_velocity"] = arr(want["angular"], 3)
        return v

    def do_load(self, op, want):
        try:
            got = self.hs[op["h"] - 1].load_messages(op["topic"])
        except Exception as e:
            return ([] if want["res"] == "err"
                    else [f"load_messages failed: {e!r}"])
        if want["res"] == "err":
            return ["load_messages did not fail"]
        exp = self.values(want)
        if set(got) != set(exp) | {"timestamps"}:
            return [f"load_messages returned {sorted(got)}"]
        out = []
        ts = np.array([self.T.sec(k) for k in want["ts"]])
        g = np.asarray(got["timestamps"])
        if g.shape != ts.shape or np.max(abs(g - ts)) > 1e-6:
            out.append(f"timestamps {g}, expected {ts}")
        for k in exp:
            g = np.asarray(got[k])
            if g.shape != exp[k].shape or not np.allclose(
                    g, exp[k], rtol=1e-12, atol=1e-12, equal_nan=True):
                out.append(f"{k}: {g}, expected {exp[k]}")
        return out

    def compare_ds(self, ds, want, stored):
        import xarray as xr

        if not isinstance(ds, xr.Dataset):
            return [f"not a dataset: {type(ds)}"]
        exp = self.values(want)
        if set(ds.data_vars) != set(exp):
            return [f"dataset of {sorted(ds.data_vars)}"]
        out = []
        if set(ds.coords) != {"time", "cartesian_axis", "quaternion_axis"}:
            return [f"coordinates {sorted(ds.coords)}"]
        for c, lab in (("cartesian_axis", "xyz"),
                       ("quaternion_axis", "wxyz")):
            if [str(x) for x in ds[c].values] != list(lab):
                out.append(f"{c}: {ds[c].values}")
        ts = self.T.dt(want["ts"])
        g = ds["time"].values
        if g.shape != ts.shape or g.dtype.kind != "M" or np.any(
                np.abs(g - ts) > US):
            out.append(f"time {g}, expected {ts}")
        for k in exp:
            dims = ("time", "quaternion_axis" if k == "orientation"
                    else "cartesian_axis")
            if set(ds[k].dims) != set(dims):
                out.append(f"{k} has dimensions {ds[k].dims}")
                continue
            g = ds[k].transpose(*dims).values
            if g.shape != exp[k].shape or not np.allclose(
                    g, exp[k], rtol=1e-12, atol=STORED if stored else 1e-12,
                    equal_nan=True):
                out.append(f"{k}: {g}, expected {exp[k]}")
        return out

    def do_dataset(self, op, want):
        try:
            kw = {"cache": False} if op.get("_kw") else {}
            ds = self.hs[op["h"] - 1].load_dataset(op["topic"], **kw)
        except Exception as e:
            return ([] if want["res"] == "err"
                    else [f"load_dataset failed: {e!r}"])
        if want["res"] == "err":
            return ["load_dataset did not fail"]
        return self.compare_ds(ds, want, False)

    def open(self, p):
        import xarray as xr

        with xr.open_dataset(p) as ds:
            return ds.load()

    def do_export(self, op, want):
        h = self.hs[op["h"] - 1]
        o = op.get("_out")
        if o is None:
            p = str(self.path(op["_file"]))
            p = p[:-len(".bag")] + ".nc"
            args = () if op["h"] % 2 else (None,)
        else:
            p = os.path.join(self.dir, o[1])
            args = (p if o[0] == "str" else pathlib.Path(p),)
        old = open(p, "rb").read() if os.path.exists(p) else None
        try:
            h.export(op["topic"], *args)
        except Exception as e:
            if want["res"] != "err":
                return [f"export failed: {e!r}"]
            new = open(p, "rb").read() if os.path.exists(p) else None
            return [] if new == old else ["a rejected export left a file"]
        if want["res"] == "err":
            return ["export did not fail"]
        if not os.path.exists(p):
            return [f"export did not write {os.path.basename(p)}"]
        return self.compare_ds(self.open(p), want, True)

    def do_cached(self, op, want):
        h = self.hs[op["h"] - 1]
        errs = [w for w in want["allowed"] if w["res"] == "err"]
        oks = [w for w in want["allowed"] if w["res"] == "ok"]
        ds = None
        try:
            ds = h.load_dataset(op["topic"], cache=True)
            ds = ds.load()
        except Exception as e:
            return [] if errs else [f"load_dataset failed: {e!r}"]
        finally:
            if ds is not None:
                ds.close()
        bad = [self.compare_ds(ds, w, True) for w in oks]
        if any(b == [] for b in bad):
            f = os.path.join(self.dir, op["folder"], "cache",
                             op["slug"] + ".nc")
            return [] if os.path.exists(f) else [
                "cached dataset is not stored in cache/<topic>.nc"]
        if any(self.compare_ds(ds, w, True) == [] for w in want["shared"]):
            return ["SHARED"]
        return bad[0] if bad else ["load_dataset did not fail"]


def violation(what, op):
    if what == "SHARED":
        return Violation(
            {"C24"}, "load_dataset(cache=True) returned what another bag or "
            "topic left in the cache", {"op": op}, "cache shared")
    what = f"{op['op']}: {what}"
    return Violation({"C24"}, what, {"op": op},
                     re.sub(r"[-\d.e+]+", "#", what)[:120])


def replay(scen, outs):
    b = Bags(scen["_opt"])
    out, n = [], 0
    try:
        for k, (op, want) in enumerate(zip(scen["ops"], outs)):
            if want["res"] == "skip":
                continue
            n += 1
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                try:
                    bad = getattr(b, "do_" + op["op"])(op, want)
                except MachineryError:
                    raise
                except Exception as e:
                    bad = [f"raised {e!r}"]
            for w in bad:
                v = violation(w, op)
                v.data["history"] = scen["ops"][:k]
                v.data["opt"] = scen["_opt"]
                out.append(v)
    finally:
        b.close()
    return out, n


# ------------------------------------------------------------ generation
TOPICS = ("/pose", "/a/b", "/a_b", "odom/sample", "pose", "/tf_x")
FILES = ("one.bag", "two.1.bag", "two.2.bag", "sub/one.bag")
TYPES = ("geometry_msgs/TransformStamped", "nav_msgs/Odometry")
OTHER = ("geometry_msgs/PoseStamped", "geometry_msgs/TwistStamped",
         "geometry_msgs/Vector3Stamped")


class Gen:
    def __init__(self, rng):
        self.r = rng
        self.ops = []
        self.files = rng.sample(FILES, rng.randint(1, 3))
        self.topics = rng.sample(TOPICS, rng.randint(2, 4))
        self.roles = []
        self.big = rng.random() < 0.15
        self.nan = rng.random() < 0.15

    def val(self):
        r = self.r
        x = r.random()
        if self.nan and x < 0.05:
            return NAN
        if self.big and x < 0.1:
            return r.randint(-1200000000, 1200000000)
        if x < 0.2:
            return r.randint(-20, 20)
        return r.randint(-30000, 30000)

    def stamps(self, n):
        r = self.r
        if r.random() < 0.15:
            return [r.randint(0, 40) for _ in range(n)]
        t, out = r.randint(0, 9), []
        for _ in range(n):
            out.append(t)
            t += r.randint(1, 4)
        return out

    def record(self, f):
        r = self.r
        types = {t: r.choice(TYPES) if r.random() < 0.85
                 else r.choice(OTHER) for t in self.topics}
        msgs = []
        for k, s in enumerate(self.stamps(r.randint(1, 9))):
            t = r.choice(self.topics)
            ty = types[t]
            msgs.append(dict(
                topic=t, type=ty, stamp=s, recv=k * 3 + r.choice([0, 1, 5]),
                frame=r.choice(["odom", "map"]), child="base",
                v=[self.val() for _ in range(
                    {TYPES[0]: 7, TYPES[1]: 13}.get(ty, 0))]))
        seen = set()
        for m in msgs:
            while m["recv"] in seen:
                m["recv"] += 1
            seen.add(m["recv"])
        if r.random() < 0.3:
            r.shuffle(msgs)
        self.ops.append(dict(op="record", file=f, msgs=msgs))

    def write(self, h):
        r = self.r
        n = r.choice([0, 1, 2, 3, 3, 4, 4, 5, 8])
        tn = rn = n
        tw, rw, tsd = 3, 4, 1
        if r.random() < 0.2:
            k = r.randrange(5)
            if k == 0:
                tn += r.choice([1, 2])
            elif k == 1:
                rn = max(0, rn - 1) if rn else 1
            elif k == 2:
                tw = r.choice([2, 4])
            elif k == 3:
                rw = r.choice([3, 5])
            else:
                tsd = 2
        names = r.choice([("time", "position", "orientation")] * 3 +
                         [("t", "translation", "rotation")])
        form = r.choice(["array", "list", "ds", "ds"])
        ts = self.stamps(n)
        if form == "ds":
            ts = sorted(set(ts))
            n2 = len(ts)
            tn, rn, n = tn - n + n2, max(rn - n + n2, 0), n2
        self.ops.append(dict(
            op="write", h=h, topic=r.choice(self.topics),
            frame=r.choice(["world", "map"]), child=r.choice(["b", "c"]),
            n=n, tn=tn, rn=rn, tw=tw, rw=rw, tsd=tsd, ts=ts,
            t=[[self.val() for _ in range(3)] for _ in range(n)],
            r=[[self.val() for _ in range(4)] for _ in range(n)],
            _opt=dict(form=form, names=names,
                      datetime=r.choice(["", "ns", "us", "us", "ms"]),
                      transposed=r.random() < 0.3,
                      labels=r.random() < 0.5)))

    def handle(self, role, f):
        self.roles.append((role, f))
        self.ops.append(dict(op="handle", role=role, file=f,
                             _path=self.r.random() < 0.5))
        return len(self.roles)

    def query(self, h):
        r = self.r
        t = r.choice(self.topics) if r.random() < 0.93 else "/none"
        f = self.roles[h - 1][1]
        folder, slug = os.path.dirname(f), t.replace("/", "_")
        k = r.choice(["topics", "load", "load", "dataset", "dataset",
                      "cached", "cached", "export"])
        if k == "topics":
            self.ops.append(dict(op=k, h=h))
        elif k == "cached":
            self.ops.append(dict(op=k, h=h, topic=t, folder=folder,
                                 slug=slug))
        elif k == "export":
            self.ops.append(dict(
                op=k, h=h, topic=t, _file=f, _out=r.choice([
                    None, ("str", "e.nc"), ("path", "e.nc"),
                    ("str", "new/deep/e.nc"), ("path", "new2/e.nc")])))
        else:
            self.ops.append(dict(op=k, h=h, topic=t,
                                 _kw=r.random() < 0.5))

    def history(self):
        r = self.r
        ws, rs = [], []
        for f in self.files:
            if r.random() < 0.6:
                self.record(f)
            if r.random() < 0.8:
                ws.append(self.handle("w", f))
            rs.append(self.handle("r", f))
        for _ in range(r.randint(1, 3)):
            for h in ws:
                if r.random() < 0.5:
                    if r.random() < 0.1:
                        self.write(h)
                    self.ops.append(dict(op="enter", h=h))
                    for _ in range(r.randint(1, 4)):
                        self.write(h)
                    self.ops.append(dict(op="exit", h=h,
                                         _exc=r.random() < 0.2))
                    self.ops.append(dict(op="inspect",
                                         file=self.roles[h - 1][1]))
            for h in rs:
                if r.random() < 0.15:
                    self.query(h)
                self.ops.append(dict(op="enter", h=h))
                for _ in range(r.randint(1, 5)):
                    self.query(h if r.random() < 0.9 else r.choice(rs))
                if r.random() < 0.8:
                    self.ops.append(dict(op="exit", h=h,
                                         _exc=r.random() < 0.2))
        opt = dict(base=r.randrange(4), step=r.randrange(4))
        for o in self.ops:
            d = (o.get("_opt") or {}).get("datetime")
            if d == "ms" and (opt["base"] == 2 or opt["step"] == 3):
                o["_opt"]["datetime"] = "us"
        return dict(ops=self.ops, _opt=opt)


CFG = """SPECIFICATION Spec
CONSTANT MaxSteps = {n}
INVARIANTS {inv}
CHECK_DEADLOCK FALSE
"""


def check(report):
    quick = report.tier == "quick"
    r = run_tlc("MCBag", CFG.format(n=4 if quick else 5, inv="Theorems"
                                    if not quick else "Theorems Emit"),
                heap="6g")
    report.tlc(r)
    if not quick:
        r = run_tlc("MCBag", CFG.format(n=4, inv="Theorems Emit"))
        report.tlc(r)
    recs = list(r.records("K"))
    recs = recs[SEED % 50::50] if quick else recs[SEED % 4::4]
    # the design that keeps one file per folder and slug is not safe
    r = run_tlc("MCBag", CFG.format(n=6, inv="CacheShared"),
                expect_ok=False)
    if "CacheShared is violated" not in r.out:
        raise MachineryError("design with shared slots was not refuted:\n"
                             + r.tail())

    def do(part):
        out, n = [], 0
        for k, x in part:
            hs = [dict(op="handle", role=role, file=f)
                  for role, f in (("w", "x.bag"), ("r", "x.bag"),
                                  ("r", "y.bag"))]
            for o in x["ops"]:
                o["_opt"] = dict(form=("array", "list")[k % 2])
            v, c = replay(dict(ops=hs + x["ops"], _opt=dict(
                base=k % 4, step=k // 4 % 4)),
                [{"res": "ok"}] * 3 + x["outs"])
            out += v
            n += c
            if len(out) > 20:
                break
        return out, n

    for vs, n in fork_map(do, chunks(enumerate(recs), NPROC * 2)):
        report.add(vs)
        report.count("calls_compared", n)
    report.traces += len(recs)
    report.count("histories_enumerated", len(recs))
    scens = [Gen(random.Random(f"{SEED}-bag-{k}")).history()
             for k in range(800 if quick else 12000)]
    kin.run_random(report, scens, module="BagRun", replay=replay)
