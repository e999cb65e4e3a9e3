"""C14-C16: velocities of frames, of arrays, and their transformation.

The specification (Vel.tla) answers with terms over constant rotations and
multiples of one small angle; here they are evaluated numerically, scaled
from ticks to seconds, and compared with what the library returns."""
import copy
import random
import warnings

import numpy as np

from .common import NPROC, SEED, Violation, chunks, fork_map, run_tlc
from .concrete import Clock, either_sign, presented, quat, same_stamps
from .kin import OCT, ODD, run_random, tree_snapshot
from .lib import Lib, same_input
from .terms import U, axis, qm, term

AX = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, -1, 1), (2, 1, 2),
      (0, 3, 4)]


# ------------------------------------------------------------ generation
class VGen:
    DEFAULT = dict(frames=(3, 5), queries=(5, 8), cont=5, static=2, disc=1,
                   lin=2, ang=2, twist=2, tang=0, tlin=0, estlin=0,
                   estang=0, inv=0.3, odd=0.2)

    def __init__(self, rng, **p):
        self.r = rng
        self.p = {**self.DEFAULT, **p}
        self.ops = []
        self.frames = []

    def vec(self, n=4):
        r = self.r
        return [r.randint(-n, n) for _ in range(3)] + [
            1 if r.random() < 0.85 else 2]

    def quat(self):
        r = self.r
        if r.random() < 0.3:
            return [1, 0, 0, 0]
        return list(r.choice(ODD if r.random() < self.p["odd"] else OCT))

    def ticks(self, n=None, lo=None):
        r = self.r
        n = n or r.randint(4, 8)
        t = [r.randint(0, 3) if lo is None else lo]
        even = r.random() < 0.4
        step = r.randint(1, 2)
        for _ in range(n - 1):
            t.append(t[-1] + (step if even else r.randint(1, 3)))
        return t

    def frame(self, root):
        r = self.r
        op = dict(op="frame", name="f%d" % (len(self.frames) + 1),
                  parent=0, kind="root", tr=[[0, 0, 0, 1]], ts=[],
                  g=[1, 0, 0, 0], gs=[[1, 0, 0, 0]], ax=[0, 0, 1], m=0,
                  jump=False, inv=False,
                  _opt=dict(variant=r.randrange(12),
                            reg=r.random() < 0.6))
        if not root:
            kind = r.choices(["cont", "static", "disc"], [
                self.p[k] for k in ("cont", "static", "disc")])[0]
            op["kind"] = kind
            op["parent"] = r.randrange(len(self.frames)) + 1
            if r.random() < 0.6:
                op["parent"] = len(self.frames)
            op["inv"] = r.random() < self.p["inv"]
            op["g"] = self.quat()
            op["gs"] = [op["g"]]
            n = 1
            if kind == "cont":
                op["ts"] = self.ticks()
                n = len(op["ts"])
                op["ax"] = list(r.choice(AX))
                if r.random() < 0.75:
                    op["m"] = r.choice([-2, -1, 1, 2])
            elif kind == "disc":
                op["ts"] = self.ticks(r.randint(1, 5))
                n = len(op["ts"])
                op["jump"] = n > 1 and r.random() < 0.3
                op["gs"] = [self.quat() if op["jump"] else op["g"]
                            for _ in range(n)]
            if r.random() < 0.4 and n > 1:
                a, d, e = self.vec(3)[:3], self.vec(2)[:3], [0, 0, 0]
                if r.random() < 0.6:
                    e = self.vec(1)[:3]
                op["tr"] = [[a[c] + d[c] * t + e[c] * t * t
                             for c in range(3)] + [1] for t in op["ts"]]
            elif r.random() < 0.15:
                op["tr"] = [[0, 0, 0, 1]] * n
            else:
                op["tr"] = [self.vec() for _ in range(n)]
        self.ops.append(op)
        self.frames.append(op)

    def some(self, moving=True):
        r = self.r
        n = len(self.frames)
        c = [i + 1 for i in range(n) if self.frames[i]["kind"] == "cont"]
        if moving and c and r.random() < 0.6:
            return r.choice(c)
        return r.randrange(n) + 1

    def lookup(self, op):
        r = self.r
        a = self.some()
        o = dict(op=op, a=a, ref=0, rep=0, method=r.random() < 0.4, _opt={})
        if r.random() < 0.7:
            o["ref"] = self.some(False)
        if r.random() < 0.5:
            o["rep"] = r.choice([a, o["ref"] or a, self.some(False)])
        f = self.frames[a - 1]
        o["_opt"]["form"] = r.choice(["stamps", "stamps", "plain", "xr"])
        if r.random() < 0.15:
            o["_opt"]["thresh"] = 1e9
        if (op != "lin" and f["kind"] == "cont" and f["g"] == [1, 0, 0, 0]
                and o["ref"] in (0, f["parent"]) and r.random() < 0.6):
            o["_opt"]["mode"] = "rotation_vector"
        o["_opt"]["names"] = [r.random() < 0.5 for _ in range(3)]
        self.ops.append(o)

    def columns(self, has, nts):
        r = self.r
        sh = []
        if r.random() < 0.3:
            sh = [r.randint(1, 3) for _ in range(r.randint(1, 2))]
        n = int(np.prod(sh)) if sh else 1
        return sh, [[self.vec() for _ in range(nts if has else 1)]
                    for _ in range(n)]

    def layout(self, sh, has):
        """Order of the axes: indices into [time?] + sh + [space]."""
        r = self.r
        n = len(sh) + 1 + (1 if has else 0)
        perm = list(range(n))
        if r.random() < 0.3:
            r.shuffle(perm)
        return dict(perm=perm, neg=r.random() < 0.5, defax=r.random() < 0.5,
                    labelled=r.random() < 0.35, variant=r.randrange(12),
                    form=r.choice(["method", "func", "plain"]))

    def transform(self, op):
        r = self.r
        a, b = self.some(), self.some(False)
        if r.random() < 0.5:
            a, b = b, a
        has = r.random() < 0.65
        ts = self.ticks(r.randint(1, 6), r.randint(0, 4)) if has else []
        sh, cols = self.columns(has, len(ts))
        what = r.choices(["reference_frame", "moving_frame",
                          "representation_frame", "nonsense"],
                         [8, 8, 2, 0.3])[0]
        o = dict(op=op, a=a, b=b, what=what, other=self.some(), has=has,
                 ts=ts, cols=cols, sh=sh, attrs=[], _opt=self.layout(sh, has))
        if op == "tlin" and r.random() < 0.05:
            o["other"] = 0
        opt = o["_opt"]
        if r.random() < 0.4:
            o["attrs"].append(["units", "m/s"])
        if self.frames[a - 1]["_opt"]["reg"] and r.random() < 0.5 \
                and opt["labelled"]:
            o["attrs"].append([what, self.frames[a - 1]["name"]])
            opt["implicit"] = r.random() < 0.6
        opt["names"] = [r.random() < 0.5 for _ in range(3)]
        self.ops.append(o)

    def q_estlin(self):
        r = self.r
        ts = self.ticks(r.randint(2, 7))
        sh = [r.randint(1, 3) for _ in range(r.choice([0, 0, 1, 2]))]
        cols = []
        for _ in range(int(np.prod(sh)) if sh else 1):
            a, d, e = self.vec(3)[:3], self.vec(2)[:3], self.vec(1)[:3]
            if r.random() < 0.3:
                cols.append([self.vec() for _ in ts])
            else:
                k = 1 if r.random() < 0.5 else 0
                cols.append([[a[c] + d[c] * t + k * e[c] * t * t
                              for c in range(3)] + [1] for t in ts])
        self.ops.append(dict(op="estlin", ts=ts, cols=cols, sh=sh,
                             _opt=self.layout(sh, True)))

    def q_estang(self):
        r = self.r
        ts = self.ticks(r.randint(4, 8))
        sh = [r.randint(1, 3) for _ in range(r.choice([0, 0, 1, 2]))]
        rv = r.random() < 0.3
        cols = []
        for _ in range(int(np.prod(sh)) if sh else 1):
            cols.append(dict(g=[1, 0, 0, 0] if rv else self.quat(),
                             ax=list(r.choice(AX)),
                             m=r.choice([-2, -1, 0, 1, 2])))
        opt = self.layout(sh, True)
        self.ops.append(dict(op="estang", ts=ts, cols=cols, sh=sh, rv=rv,
                             _opt=opt))

    def history(self):
        r = self.r
        kinds = ["lin", "ang", "twist", "tang", "tlin", "estlin", "estang"]
        w = [self.p[k] for k in kinds]
        if any(w[:5]):
            self.frame(True)
            for _ in range(r.randint(*self.p["frames"]) - 1):
                self.frame(r.random() < 0.08)
        for _ in range(r.randint(*self.p["queries"])):
            k = r.choices(kinds, w)[0]
            if k in ("lin", "ang", "twist"):
                self.lookup(k)
            elif k in ("tang", "tlin"):
                self.transform(k)
            else:
                getattr(self, "q_" + k)()
            if r.random() < 0.1 and self.ops[-1]["op"] != "frame":
                self.ops.append(copy.deepcopy(self.ops[-1]))
        return dict(ops=self.ops, _clock=r.choice(Clock.KINDS))


# --------------------------------------------------------------- library
def rotations(g, ax, m, ts):
    out = []
    for t in ts:
        h = m * (t - ts[0]) * U / 2
        out.append(qm(quat(g), np.concatenate((
            [np.cos(h)], np.sin(h) * axis(ax)))))
    return np.array(out)


class VLib(Lib):
    def frame(self, op):
        rbm, opt = self.rbm, op["_opt"]
        kw = {}
        if op["kind"] != "root":
            tr = np.array([np.array(v[:3]) / v[3] for v in op["tr"]])
            if op["kind"] == "cont":
                rot = rotations(op["g"], op["ax"], op["m"], op["ts"])
            else:
                rot = np.array([quat(g) for g in op["gs"]])
            rot = either_sign(rot)
            ts = None
            if op["kind"] == "static":
                tr, rot = tr[0], rot[0]
            else:
                ts = self.clock.stamps(op["ts"], opt["variant"])
            kw = dict(parent=self.objs[op["parent"]], translation=presented(tr),
                      rotation=presented(rot), timestamps=presented(ts),
                      inverse=op["inv"],
                      discrete=op["kind"] == "disc")
        o = rbm.ReferenceFrame(op["name"], **kw)
        if opt["reg"]:
            o.register()
        self.objs[len(self.objs) + 1] = o
        self.specs[len(self.objs)] = op

    def fref(self, i, named):
        if i == 0:
            return None
        o = self.objs[i]
        return o.name if named and self.specs[i]["_opt"]["reg"] else o

    def arrange(self, data, sh, has, opt):
        """data: [time?] + [columns] + space -> (array, axis, time_axis)"""
        n = (1 if has else 0) + len(sh) + 1
        a = data.reshape(((data.shape[0],) if has else ()) + tuple(sh)
                         + (data.shape[-1],))
        perm = opt["perm"]
        ax, tax = perm.index(n - 1), perm.index(0) if has else None
        return np.ascontiguousarray(np.transpose(a, perm)), ax, tax

    def restore(self, got, sh, has, opt):
        """Inverse of arrange, to [time?, columns, space]; None if the
        shape is wrong."""
        n = (1 if has else 0) + len(sh) + 1
        if got.ndim != n:
            return None
        a = np.transpose(got, np.argsort(opt["perm"]))
        mid = a.shape[1:-1] if has else a.shape[:-1]
        if tuple(mid) != tuple(sh) or a.shape[-1] != 3:
            return None
        return a.reshape((a.shape[0] if has else 1,
                          int(np.prod(sh, dtype=int)), 3))


def evaluate(vs, per_tick):
    vals, errs = zip(*[term(v) for v in vs]) if vs else ((), ())
    return (np.array(vals).reshape(-1, 3) / per_tick,
            np.array(errs) / per_tick)


def deviates(got, want, err):
    got = np.asarray(got, float)
    if got.shape != want.shape:
        return f"shape {got.shape}, expected {want.shape}"
    if got.size == 0:
        return None
    scale = np.abs(want).max()
    d = np.linalg.norm(got - want, axis=-1)
    if not np.all(d <= 2e-6 + 2e-6 * scale + err):
        return (f"values {np.round(got, 7).tolist()}, expected "
                f"{np.round(want, 7).tolist()}")
    return None


def series(lib, got, st, want):
    """Problem with one velocity series."""
    if not isinstance(st, str):
        if want["has"] != (st is not None) or (
                want["has"] and not same_stamps(lib.clock, st, want["ts"])):
            return f"timestamps {st}, expected ticks {want['ts']}"
    w, err = evaluate(want["v"], lib.clock.seconds)
    if not want["ok"]:
        return None if np.shape(got) == w.shape else \
            f"shape {np.shape(got)}, expected {w.shape}"
    return deviates(got, w, err)


ATTRS = {"linear": ("Linear velocity", "m/s"),
         "angular": ("Angular velocity", "rad/s")}


def check_attrs(lib, da, motion, o, want):
    n = lib.objs
    exp = dict(
        representation_frame=n[want["rep"]].name,
        reference_frame=n[want["ref"]].name, moving_frame=n[o["a"]].name,
        motion_type=motion + "_velocity", units=ATTRS[motion][1],
        long_name=ATTRS[motion][0])
    if da.name != motion + "_velocity":
        return f"name {da.name}"
    if dict(da.attrs) != exp:
        return f"attributes {da.attrs}, expected {exp}"
    if list(da.dims) != ["time", "cartesian_axis"] or \
            list(da.cartesian_axis.values) != ["x", "y", "z"]:
        return "dimensions or axis labels"
    return None


def look(lib, o, want):
    rbm, opt, kind = lib.rbm, o["_opt"], o["op"]
    names = opt["names"]
    a = lib.fref(o["a"], names[0])
    ref, rep = lib.fref(o["ref"], names[1]), lib.fref(o["rep"], names[2])
    name = {"lin": "lookup_linear_velocity",
            "ang": "lookup_angular_velocity", "twist": "lookup_twist"}[kind]
    kw = {}
    if ref is not None:
        kw["reference"] = ref
    if rep is not None:
        kw["represent_in"] = rep
    if "thresh" in opt:
        kw["outlier_thresh"] = opt["thresh"]
    if "mode" in opt:
        kw["mode"] = opt["mode"]
    form = opt["form"]
    try:
        if o["method"]:
            f = getattr(lib.objs[o["a"]], name)
        else:
            f = lambda **k: getattr(rbm, name)(a, **k)
        if form == "xr" and not o["method"]:
            key = "as_dataset" if kind == "twist" else "as_dataarray"
            got = f(**kw, **{key: True})
        elif form == "plain":
            got = f(**kw)
        else:
            got = f(**kw, return_timestamps=True)
            form = "stamps"
        res = "ok"
    except Exception as e:
        res, got = "err", repr(e)
    base = {"C14"} if kind == "lin" else {"C15"} if kind == "ang" else \
        {"C14", "C15"}
    out = []

    def bad(props, what):
        out.append(Violation(
            props, f"{name} [{form}{' method' if o['method'] else ''}] "
                   f"{[o[k] for k in ('a', 'ref', 'rep')]} {opt}: {what}",
            {"op": o, "expected": want}))

    if want["res"] == "any":
        return out
    if want["res"] == "err":
        if res == "ok":
            bad(base, "accepted, must be rejected")
        return out
    if res == "err":
        bad(base, f"failed: {got}")
        return out
    if form == "xr":
        if kind == "twist" and set(got.data_vars) != {
                "linear_velocity", "angular_velocity"}:
            bad(base, f"variables {list(got.data_vars)}")
            return out
        parts = [(m, got if kind != "twist" else got[m + "_velocity"])
                 for m in ("linear", "angular")
                 if kind == "twist" or m.startswith(kind)]
        for m, da in parts:
            p = check_attrs(lib, da, m, o, want)
            if p:
                bad({"C14" if m == "linear" else "C15"}, f"{m}: {p}")
                return out
        vals = [da.values for _, da in parts]
        st = parts[0][1].time.values
    elif kind == "twist":
        if len(got) != (3 if form == "stamps" else 2):
            bad(base, f"{len(got)} results")
            return out
        vals, st = list(got[:2]), got[2] if form == "stamps" else "?"
    elif form == "stamps":
        vals, st = [got[0]], got[1]
    else:
        vals, st = [got], "?"
    if kind == "twist":
        wants = [want["lin"], want["ang"]]
        props = [{"C14"}, {"C15"}]
    else:
        wants, props = [want], [base]
    for v, w, p in zip(vals, wants, props):
        what = series(lib, v, st, w)
        if what:
            bad(p, what)
    for v in vals:
        if isinstance(v, np.ndarray) and v.flags.writeable:
            v[...] = 99.0
    return out


def transform(lib, o, want):
    rbm, opt = lib.rbm, o["_opt"]
    ang = o["op"] == "tang"
    has, sh = o["has"], o["sh"]
    data = np.array([[np.array(v[:3]) / v[3] for v in c] for c in o["cols"]])
    # ticks -> seconds: the specification has velocities per tick
    data = np.moveaxis(data, 0, 1) / lib.clock.seconds
    if not has:
        data = data[0]
    arr, ax, tax = lib.arrange(data, sh, has, opt)
    nd = arr.ndim
    if not opt["labelled"]:
        arr = presented(arr)
    keep = copy.deepcopy(arr)
    names = opt["names"]
    a, b = lib.fref(o["a"], names[0]), lib.fref(o["b"], names[1])
    other = lib.fref(o["other"], names[2])
    kw = dict(what=o["what"])
    if not ang:
        if o["what"] == "moving_frame":
            kw["reference_frame"] = other
        else:
            kw["moving_frame"] = other
    name = f"transform_{'angular' if ang else 'linear'}_velocity"
    out = []

    def bad(what, props={"C16"}):
        out.append(Violation(
            props, f"{name} {o['what']} {o['a']}->{o['b']} ({o['other']}) "
                   f"{opt}: {what}", {"op": o, "expected": want}))

    da = None
    st = "?"
    ts = lib.clock.stamps(o["ts"], opt["variant"]) if has else None
    try:
        if opt["labelled"]:
            dims = [f"d{k}" for k in range(nd)]
            dims[ax] = "cartesian_axis"
            coords = {}
            if has:
                dims[tax] = "time"
                coords["time"] = ts
            x = lib.xr.DataArray(arr, coords, dims,
                                 attrs={k: v for k, v in o["attrs"]})
            da = getattr(rbm, name)(
                x, b, *([] if opt.get("implicit") else [a]),
                dim="cartesian_axis", timestamps="time" if has else False,
                **kw)
            got = da.values
            if not has and da.ndim == nd + 1:
                st = da.time.values
            elif has:
                st = da.time.values
            if dict(x.attrs) != {k: v for k, v in o["attrs"]}:
                bad("the attributes of the input were modified", {"C13"})
        else:
            if not (opt["defax"] and ax == nd - 1):
                kw["axis"] = ax - nd if opt["neg"] else ax
            if has:
                kw["timestamps"] = presented(ts)
                if tax or not opt["defax"]:
                    kw["time_axis"] = tax - nd if opt["neg"] else tax
            if opt["form"] == "method":
                got, st = getattr(lib.objs[o["a"]], name)(
                    arr, b, return_timestamps=True, **kw)
            elif opt["form"] == "func":
                got, st = getattr(rbm, name)(
                    arr, b, a, return_timestamps=True, **kw)
            else:
                got = getattr(rbm, name)(arr, b, a, **kw)
        res = "ok"
    except Exception as e:
        res, got = "err", repr(e)
    if not same_input(arr, keep):
        bad("the input was modified", {"C13"})
    if want["res"] == "any":
        return out
    if want["res"] == "err":
        if res == "ok":
            bad("accepted, must be rejected")
        return out
    if res == "err":
        bad(f"failed: {got}")
        return out
    if da is not None:
        attrs = {k: v for k, v in want["attrs"]}
        if dict(da.attrs) != attrs:
            bad(f"attributes {da.attrs}, expected {attrs}")
    if not isinstance(st, str):
        if want["has"] != (st is not None) or (
                want["has"] and not same_stamps(lib.clock, st, want["ts"])):
            bad(f"timestamps {st}, expected ticks {want['ts']}")
            return out
    got = np.asarray(got)
    if want["has"] and not has:  # a single vector
        g = got.reshape(len(got), 1, 3) if got.ndim == 2 else None
    else:
        g = lib.restore(got, sh, has, opt)
    if g is None:
        bad(f"shape {got.shape}")
        return out
    if not want["ok"]:
        return out
    for c, col in enumerate(want["cols"]):
        w, err = evaluate(col, lib.clock.seconds)
        what = deviates(g[:, c], w, err)
        if what:
            bad(f"column {c}: {what}")
            break
    return out


def estimate(lib, o, want):
    rbm, opt = lib.rbm, o["_opt"]
    lin = o["op"] == "estlin"
    if lin:
        data = np.array([[np.array(v[:3]) / v[3] for v in c]
                         for c in o["cols"]])
    else:
        data = np.array([rotations(c["g"], c["ax"], c["m"], o["ts"])
                         for c in o["cols"]])
        data = either_sign(data)
    data = np.moveaxis(data, 0, 1)
    arr, ax, tax = lib.arrange(data, o["sh"], True, opt)
    nd = arr.ndim
    if not opt["labelled"]:
        arr = presented(arr)
    keep = copy.deepcopy(arr)
    ts = lib.clock.stamps(o["ts"], opt["variant"])
    name = f"estimate_{'linear' if lin else 'angular'}_velocity"
    p = {"C14"} if lin else {"C15"}
    out = []

    def bad(what, props=p):
        out.append(Violation(
            props, f"{name} {opt} {o['sh']}: {what}",
            {"op": o, "expected": want}))

    kw = {}
    if not lin:
        if o["rv"]:
            kw["mode"] = "rotation_vector"
    x = None
    try:
        if opt["labelled"]:
            dims = [f"d{k}" for k in range(nd)]
            sd = "cartesian_axis" if lin else "quaternion_axis"
            dims[ax], dims[tax] = sd, "time"
            x = lib.xr.DataArray(
                arr, {"time": ts, sd: list("xyz" if lin else "wxyz"),
                      "phase": ("time", np.arange(len(ts)))},
                dims, attrs={"long_name": "n"})
            da = getattr(rbm, name)(x, dim=sd, timestamps="time", **kw)
            got = da.values
            edims = ["cartesian_axis" if d == sd else d for d in dims]
            if list(da.dims) != edims or \
                    list(da.cartesian_axis.values) != ["x", "y", "z"] or \
                    not np.array_equal(da.time.values, x.time.values) or \
                    not np.array_equal(da.phase.values, x.phase.values):
                bad(f"labels {da.dims} {da.coords}, expected {edims}")
            if x.attrs != {"long_name": "n"}:
                bad("the attributes of the input were modified", {"C13"})
        else:
            if not (opt["defax"] and ax == nd - 1):
                kw["axis"] = ax - nd if opt["neg"] else ax
            if tax or not opt["defax"]:
                kw["time_axis"] = tax - nd if opt["neg"] else tax
            kw["timestamps"] = presented(ts)
            got = getattr(rbm, name)(arr, **kw)
        res = "ok"
    except Exception as e:
        res, got = "err", repr(e)
    if not same_input(arr, keep):
        bad("the input was modified", {"C13"})
    if want["res"] == "any":
        return out
    if res == "err":
        bad(f"failed: {got}")
        return out
    g = lib.restore(np.asarray(got), o["sh"], True, opt)
    if g is None:
        bad(f"shape {np.shape(got)}")
        return out
    for c, col in enumerate(want["cols"]):
        w, err = evaluate(col, lib.clock.seconds)
        what = deviates(g[:, c], w, err)
        if what:
            bad(f"column {c}: {what}")
            break
    return out


def replay(scen, outs):
    lib = VLib(Clock(scen["_clock"]))
    lib.specs = {}
    out, calls = [], 0
    fn = dict(lin=look, ang=look, twist=look, tang=transform,
              tlin=transform, estlin=estimate, estang=estimate)
    for k, (op, want) in enumerate(zip(scen["ops"], outs)):
        calls += 1
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if op["op"] == "frame":
                lib.frame(op)
                continue
            before = tree_snapshot(lib)
            vs = fn[op["op"]](lib, op, want)
            if tree_snapshot(lib) != before:
                vs.append(Violation({"C13"}, f"{op['op']} changed a tree",
                                    {"op": op}))
        for v in vs:
            v.data = {"history": scen["ops"][:k], "clock": scen["_clock"],
                      **v.data}
        out += vs
        if len(out) > 12:
            break
    lib.rbm.clear_registry()
    return out, calls


# ------------------------------------------------------------ exhaustive
TREES_CFG = """SPECIFICATION Spec
CONSTANTS MaxFrames = {n}
 Cat = {cat}
INVARIANTS {inv}
CHECK_DEADLOCK FALSE
"""
TREES = {
    "C14": [(("sI", "tr", "rI", "t", "d"), 3)],
    "C15": [(("sI", "tr", "rI", "t", "d"), 3)],
    "C16": [(("sI", "tr", "rI", "t", "d"), 3)],
}
TREES_THOROUGH = [(("s", "sI", "r", "rI", "t", "tr", "d"), 3),
                  (("sI", "rI", "tr"), 4)]


def replay_trees(args):
    cat, recs, kind, salt = args
    out, n = [], 0
    for j, rec in enumerate(recs):
        rng = random.Random(f"{salt}-{j}")
        ops = [dict(op="frame", name="f1", parent=0, kind="root",
                    _opt=dict(variant=0, reg=True))]
        for i, p in enumerate(rec["picks"]):
            ops.append({**cat[p["cat"]], "name": "f%d" % (i + 2),
                        "parent": p["parent"],
                        "_opt": dict(variant=rng.randrange(12),
                                     reg=rng.random() < 0.6)})
        m = len(ops)
        outs = [{"res": "ok"}] * m
        for a in range(m):
            for b in range(m):
                ops.append(dict(
                    op=kind, a=a + 1, ref=b + 1, rep=b + 1,
                    method=rng.random() < 0.5, _opt=dict(
                        form=rng.choice(["stamps", "plain", "xr"]),
                        names=[rng.random() < 0.5] * 3)))
                outs.append({**rec[kind][a][b], "ref": b + 1, "rep": b + 1})
        v, c = replay(dict(ops=ops, _clock=rng.choice(Clock.KINDS)), outs)
        out += v
        n += c
        if len(out) > 30:
            break
    return out, n


def exhaustive(report, runs, kind):
    inv = "Theorems Emit" if kind else "Theorems"
    for cat, n in runs:
        r = run_tlc("MCVel", TREES_CFG.format(
            n=n, inv=inv, cat="{" + ",".join(f'"{c}"' for c in cat) + "}"),
            args=("-workers", "8"))
        report.tlc(r)
        recs = list(r.records("K"))
        report.count("theorem_trees", r.distinct)
        if not kind:
            continue
        catalogue = next(iter(r.records("C")))
        for v, c in fork_map(replay_trees, [
                (catalogue, part, kind, f"{SEED}-{k}")
                for k, part in enumerate(chunks(recs, NPROC * 2))]):
            report.add(v)
            report.count("calls_compared", c)
        report.traces += len(recs)
        report.count("trees_enumerated", len(recs))


PROFILES = {
    "C14": dict(lin=5, twist=2, ang=0, estlin=2),
    "C15": dict(lin=0, twist=2, ang=5, estang=2),
    "C16": dict(lin=0, twist=0, ang=0, tang=3, tlin=4, frames=(3, 4),
                queries=(4, 6)),
}
N_RANDOM = {"quick": 700, "thorough": 9000}


def check(report):
    prop = report.prop
    exhaustive(report, TREES[prop] if report.tier == "quick" else
               TREES_THOROUGH, {"C14": "lin", "C15": "ang"}.get(prop))
    scens = []
    for k in range(N_RANDOM[report.tier]):
        rng = random.Random(f"{SEED}-{prop}-{k}")
        scens.append(VGen(rng, **PROFILES[prop]).history())
    run_random(report, scens, module="VelRun", replay=replay)
