"""Driving the library through its public interface along a history of
calls (the ops of spec/Machine.tla) and comparing the outcomes."""
import copy
import warnings

import numpy as np

from .common import MachineryError, Violation, load_library
from .concrete import (
    close, either_sign, presented, quats, same_rotation, same_stamps, unspoken,
    vec, vecs, quat,
)


class Lib:
    def __init__(self, clock):
        import xarray as xr

        self.xr = xr
        self.rbm = load_library()
        self.rbm.clear_registry()
        self.clock = clock
        self.objs = {}
        self.side = []

    # ------------------------------------------------------------- frames
    def ref(self, r):
        if r["k"] == "none":
            return None
        if r["k"] == "obj":
            return self.objs[r["i"]]
        if r["k"] == "name":
            return r["n"]
        return 42

    def resolve(self, name):
        probe = self.rbm.ReferenceFrame(None, parent=name)
        o = probe.parent
        probe.parent = None
        return o

    def tf_arrays(self, tf, opt):
        """(translation, rotation, timestamps) as given by the caller."""
        def shaped(data, shape, fill):
            want = int(np.prod(shape))
            a = np.asarray(data, float).ravel()
            if a.size != want:
                a = np.resize(np.append(a, fill), want)
            return a.reshape(shape)

        tr = rot = ts = None
        if tf["trsh"]:
            tr = shaped(vecs(tf["tr"]), tf["trsh"], 1.0)
        if tf["rotsh"]:
            rot = shaped(either_sign(quats(tf["rot"])), tf["rotsh"], 0.5)
        if tf["tssh"]:
            ts = self.clock.stamps(tf["ts"], opt.get("variant", 0))
            if tf["tssh"] == [-1]:
                ts = np.array(1.0)
            elif list(ts.shape) != tf["tssh"]:
                ts = np.resize(ts, tf["tssh"])
        for k in tf.get("gap", ()):
            if tr is not None and opt.get("gapof") != "rot":
                tr[k - 1] = np.nan
            if rot is not None and opt.get("gapof") != "tr":
                rot[k - 1] = np.nan
        if opt.get("via", "class") == "class":
            tr, rot, ts = (presented(x) for x in (tr, rot, ts))
        return tr, rot, ts

    def construct(self, op):
        """Returns the frame (new) or None (register_frame)."""
        rbm, xr = self.rbm, self.xr
        tf, opt = op["tf"], op.get("_opt", {})
        via = opt.get("via", "class")
        tr, rot, ts = self.tf_arrays(tf, opt)
        before = copy.deepcopy((tr, rot, ts))
        name = op["name"] or None
        parent = self.ref(op["parent"])
        kw = dict(inverse=tf["inv"])
        if tf["disc"] or via != "matrix":
            kw["discrete"] = tf["disc"]
        kw = unspoken(kw, inverse=False, discrete=False)
        given = unspoken(
            dict(parent=parent, translation=tr, rotation=rot, timestamps=ts),
            parent=None, translation=None, rotation=None, timestamps=None)
        try:
            if op["op"] == "register_frame":
                rbm.register_frame(
                    name, **given, **kw,
                    **unspoken(dict(update=op["update"]), update=False)
                )
                o = self.resolve(name)
            elif via == "class":
                o = rbm.ReferenceFrame(name, **given, **kw)
            elif via == "dataset":
                ds = xr.Dataset(
                    {"p": (("t", "c"), tr), "q": (("t", "d"), rot)},
                    {"t": ts},
                )
                o = rbm.ReferenceFrame.from_dataset(
                    ds, "p", "q", "t", parent, name, **kw
                )
            elif via == "dataset_ids":
                # dimensions of different length for the three variables
                ds = xr.Dataset(
                    {"p": (("a", "c"), tr), "q": (("b", "d"), rot),
                     "s": (("e",), ts)},
                )
                o = rbm.ReferenceFrame.from_dataset(
                    ds, "p", "q", "s", parent, name, **kw
                )
            elif via == "trans_da":
                da = xr.DataArray(
                    tr, {"stamp": ("time", ts)}, ("time", "c")
                )
                o = rbm.ReferenceFrame.from_translation_dataarray(
                    da, "stamp", parent, name, **kw
                )
            elif via == "rot_da":
                da = xr.DataArray(rot, {"time": ts}, ("time", "d"))
                o = rbm.ReferenceFrame.from_rotation_dataarray(
                    da, "time", parent, name, **kw
                )
            elif via == "matrix":
                import quaternion as nq

                mat = nq.as_rotation_matrix(nq.as_quat_array(np.array(rot)))
                o = rbm.ReferenceFrame.from_rotation_matrix(
                    mat, parent, name, **kw
                )
            else:
                raise MachineryError(via)
        finally:
            for a, b in zip((tr, rot, ts), before):
                if not same_input(a, b):
                    self.side.append("construction modified its arguments")
        return o

    # ------------------------------------------------------------ queries
    def lookup_forms(self, op):
        """All ways to ask for a transform: (form, t, r, has, stamps)."""
        rbm = self.rbm
        a, b = self.ref(op["a"]), self.ref(op["b"])
        forms = op.get("_forms") or (
            "func", "method", "pose", "ds", "poseds", "plain", "plainpose",
        )
        for form in forms:
            try:
                if form == "func":
                    t, r, ts = rbm.lookup_transform(
                        a, b, return_timestamps=True
                    )
                elif form == "plain":
                    t, r = rbm.lookup_transform(a, b)
                    ts = "?"
                elif form == "plainpose":
                    t, r = rbm.lookup_pose(a, b)
                    ts = "?"
                elif form == "method":
                    o = self.resolve(a) if isinstance(a, str) else a
                    t, r, ts = o.lookup_transform(b)
                elif form == "pose":
                    t, r, ts = rbm.lookup_pose(a, b, return_timestamps=True)
                elif form in ("ds", "poseds"):
                    if form == "ds":
                        d = rbm.lookup_transform(a, b, as_dataset=True)
                        n1, n2 = "translation", "rotation"
                        frame = a
                    else:
                        d = rbm.lookup_pose(a, b, as_dataset=True)
                        n1, n2 = "position", "orientation"
                        frame = b
                    fname = frame if isinstance(frame, str) else frame.name
                    ts = d.time.values if "time" in d.coords else None
                    t, r = d[n1].values, d[n2].values
                    lead = () if ts is None else ("time",)
                    if set(d.data_vars) != {n1, n2} or \
                            d[n1].dims != lead + ("cartesian_axis",) or \
                            d[n2].dims != lead + ("quaternion_axis",):
                        yield form, "err", f"variables {d}", None, None
                        return
                    for v in (n1, n2):
                        at = d[v].attrs
                        if (at.get("reference_frame") != fname
                                or at.get("representation_frame") != fname
                                or at.get("motion_type") != v):
                            yield form, "err", f"attributes {at}", None, None
                            return
                    if list(d.cartesian_axis.values) != ["x", "y", "z"] or \
                            list(d.quaternion_axis.values) != list("wxyz"):
                        yield form, "err", "axis labels", None, None
                        return
                yield form, "ok", t, r, ts
            except Exception as e:
                yield form, "err", repr(e), None, None


    # ----------------------------------------------------- arrays
    def full_axes(self, arr, opt):
        """(axis, time_axis) of the array as passed to the library."""
        nd = len(arr["rsh"]) + 1
        ax = opt.get("ax", nd - 1)
        tax = None
        if arr["has"]:
            tax = arr["tpos"] - 1
            if tax >= ax:
                tax += 1
        return nd, ax, tax

    def build(self, arr, opt):
        q = arr["q"]
        nel = 4 if q else 3
        rsh = arr["rsh"]
        if q:
            data = either_sign(quats(arr["vecs"]).reshape(rsh + [4]))
        else:
            data = vecs(arr["vecs"]).reshape(rsh + [3])
        for m in arr.get("gap", ()):
            data.reshape(-1, nel)[m - 1, slice(
                0, 1 if opt.get("gap1") and not q else None)] = np.nan
        nd, ax, tax = self.full_axes(arr, opt)
        a = np.moveaxis(data, -1, ax)
        if opt.get("contig"):
            a = np.ascontiguousarray(a)
        return a

    def transform_call(self, op, form, snap=None):
        """(array, stamps, data array or None)"""
        rbm = self.rbm
        opt = op.get("_opt", {})
        arr = op["arr"]
        a, b = self.ref(op["a"]), self.ref(op["b"])
        nd, ax, tax = self.full_axes(arr, opt)
        data = self.build(arr, opt)
        ts = None
        if arr["has"]:
            ts = self.clock.stamps(arr["ts"], opt.get("variant", 0))
        data, ts = presented(data), presented(ts)
        keep = copy.deepcopy((data, ts))
        axis = ax - nd if opt.get("negax") else ax
        kw = {}
        if not (opt.get("defax") and ax == nd - 1):
            kw["axis"] = axis
        if arr["has"]:
            if not (opt.get("deftax") and tax == 0):
                kw["time_axis"] = tax - nd if opt.get("negtax") else tax
            kw["timestamps"] = ts
        arg = data
        name = "transform_" + op["kind"]
        try:
            if form == "method":
                o = self.resolve(a) if isinstance(a, str) else a
                out, st = getattr(o, name)(
                    arg, b, return_timestamps=True, **kw)
            elif form == "plainmethod":
                o = self.resolve(a) if isinstance(a, str) else a
                out, st = getattr(o, name)(arg, b, **kw), "?"
            elif form == "func":
                out, st = getattr(rbm, name)(
                    arg, b, a, return_timestamps=True, **kw)
            elif form == "plain":
                out, st = getattr(rbm, name)(arg, b, a, **kw), "?"
            else:
                raise MachineryError(form)
        finally:
            if not same_input(data, keep[0]) or (
                    ts is not None and not same_input(ts, keep[1])):
                self.side.append(f"transform_{op['kind']} modified its input")
        return out, st


def coord_value(c, v):
    """Value of a coordinate element (integers in the specification)."""
    if c["num"]:
        return float(v)
    return "s%d" % v


def build_labelled(lib, op):
    xr = lib.xr
    da, opt = op["da"], op.get("_opt", {})
    arr = da["arr"]
    nd, ax, tax = lib.full_axes(arr, opt)
    data = lib.build(arr, opt)
    dims = list(da["rdims"])
    dims.insert(ax, da["sdim"])
    size = dict(zip(dims, data.shape))
    coords = {}
    ts = None
    if arr["has"]:
        ts = lib.clock.stamps(arr["ts"], opt.get("variant", 0))
        coords[da["rdims"][arr["tpos"] - 1]] = ts
    for c in da["coords"]:
        shape = [size[d] for d in c["dims"]]
        vals = np.array([coord_value(c, v) for v in c["vals"]])
        vals = vals.reshape(shape)
        if c.get("_int") and c["num"]:
            vals = vals.astype(np.int64)
        coords[c["n"]] = (tuple(c["dims"]), vals)
    return xr.DataArray(
        data, coords, dims, da["_name"], {k: v for k, v in da["attrs"]}
    )


def compare_labelled(lib, op, want):
    if want["res"] == "any":
        return []
    rbm, xr = lib.rbm, lib.xr
    da, opt = op["da"], op.get("_opt", {})
    arr = da["arr"]
    feat = set(want.get("feat", ()))
    x = build_labelled(lib, op)
    keep = x.copy(deep=True)
    keep.attrs = copy.deepcopy(x.attrs)
    nd, ax, tax = lib.full_axes(arr, opt)
    kw = {}
    how = opt.get("space", "dim")
    if how == "dim":
        kw["dim"] = da["sdim"]
    elif how == "axis":
        kw["axis"] = ax - nd if opt.get("negax") else ax
    if arr["has"]:
        if opt.get("time", "name") == "name":
            kw["timestamps"] = da["rdims"][arr["tpos"] - 1]
        elif tax != 0:
            kw["time_axis"] = tax
    elif nd > 1:
        kw["timestamps"] = False
    src, dst = lib.ref(op["a"]), lib.ref(op["b"])
    out = []

    def bad(props, what):
        out.append(Violation(
            props, f"labelled {op['kind']} {opt}: {what}",
            {"op": op, "expected": want}))

    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            got = getattr(rbm, "transform_" + op["kind"])(
                x, dst, *([] if src is None else [src]), **kw)
            res = "ok"
        except Exception as e:
            res, got = "err", repr(e)
    if not x.identical(keep) or x.dtype != keep.dtype:
        bad({"C13"}, "the input array was modified")
    if want["res"] == "err":
        if res == "ok":
            bad({"C12", "C07"} if "order" in feat else {"C12"},
                "accepted, must be rejected")
        return out
    if res == "err":
        bad({"C12"}, f"failed: {got}")
        return out
    warned = any(w.category is UserWarning and "rigid_body_motion" in
                 w.filename for w in ws)
    if warned != want["warn"]:
        bad({"C12"}, f"warned: {warned}, expected {want['warn']}")
    if not isinstance(got, xr.DataArray):
        bad({"C12"}, f"result is a {type(got)}")
        return out
    dims = list(want["dims"])
    sp = ax + (1 if want["lead"] else 0)
    dims.insert(sp, da["sdim"])
    if list(got.dims) != dims:
        bad({"C12"}, f"dimensions {got.dims}, expected {dims}")
        return out
    if got.name != da["_name"]:
        bad({"C12"}, f"name {got.name}, expected {da['_name']}")
    attrs = {k: v for k, v in want["attrs"]}
    if dict(got.attrs) != attrs:
        bad({"C12"}, f"attributes {got.attrs}, expected {attrs}")
    tname = None
    if want["has"]:
        tname = "time" if want["lead"] else da["rdims"][arr["tpos"] - 1]
    names = {c["n"] for c in da["coords"]} | ({tname} if tname else set())
    if set(got.coords) != names:
        bad({"C12"}, f"coordinates {set(got.coords)}, expected {names}")
        return out
    st = got[tname].values if tname else None
    for props, what in check_array(
            lib, want, arr["q"], ax, got.values, st, {"C12"}, feat):
        bad(props | {"C12"}, what)
    for c, w in zip(da["coords"], want["coords"]):
        g = got[c["n"]]
        if list(g.dims) != list(c["dims"]):
            bad({"C12"}, f"coordinate {c['n']} has dimensions {g.dims}")
            continue
        g = g.values.ravel()
        if len(g) != len(w["vals"]):
            bad({"C12"}, f"coordinate {c['n']} has {len(g)} values")
            continue
        for gv, wv in zip(g, w["vals"]):
            if not wv:
                continue
            if c["num"]:
                okv = abs(float(gv) - wv[0] / wv[1]) < 1e-6
            else:
                okv = str(gv) == "s%d" % wv[0]
            if not okv:
                bad({"C12"}, f"coordinate {c['n']} is {g.tolist()}, "
                             f"expected {w['vals']}")
                break
    if opt.get("scribble"):
        got.values[...] = 55.0
        got.attrs["x"] = "y"
        if not x.identical(keep):
            bad({"C13"}, "the result shares its data with the input")
    return out


def compare_transform(lib, op, want):
    out = []
    opt = op.get("_opt", {})
    arr = op["arr"]
    if want["res"] == "any":
        return out
    feat = set(want.get("feat", ()))
    nd, ax, tax = lib.full_axes(arr, opt)
    default_layout = ax == nd - 1 and (tax in (None, 0))
    base = {"C06"}
    if arr["has"]:
        base = {"C10", "C06"}
    if not default_layout:
        base = base | {"C11"}
    forms = op.get("_forms") or ("method", "func")
    results = []
    for form in forms:
        probs = []
        try:
            got, st = lib.transform_call(op, form)
            res = "ok"
        except MachineryError:
            raise
        except Exception as e:
            res, got, st = "err", repr(e), None
        if want["res"] == "err":
            if res == "ok":
                probs.append(({"C07"} if "order" in feat else {"C04"},
                              "accepted, must be rejected"))
        elif res == "err":
            probs.append((base | value_props(feat), f"failed: {got}"))
        else:
            probs += check_array(lib, want, arr["q"], ax, got, st,
                                 base | (value_props(feat) - {"C04"}), feat)
            if opt.get("scribble"):
                scribble(got, st)
        results.append((form, probs))
    good = any(not p for _, p in results)
    for form, probs in results:
        for props, what in probs:
            if good:
                props = props | {"C06"}
                if opt.get("scribble"):
                    props = props | {"C13"}
            out.append(Violation(
                props, f"transform [{form}] {short(op)} {opt}: {what}",
                {"op": op, "expected": want}))
    return out


def check_array(lib, want, q, ax, got, st, vprops, feat):
    """Compare an array result with the specification."""
    probs = []
    if not isinstance(st, str):
        if want["has"] != (st is not None):
            return [(time_props(feat) | ({"C10"} if not want["lead"] else set()),
                     f"timestamps {st}, expected {want['ts']}")]
        if want["has"] and not same_stamps(lib.clock, st, want["ts"]):
            return [(time_props(feat) | ({"C10"} if not want["lead"] else set()),
                     f"timestamps {st}, expected ticks {want['ts']}")]
    nel = 4 if q else 3
    g = np.asarray(got)
    sp = ax + (1 if want["lead"] else 0)
    shape = list(want["rsh"])
    shape.insert(sp, nel)
    if list(g.shape) != shape:
        return [(vprops | ({"C07"} if want["has"] else set()),
                 f"shape {g.shape}, expected {tuple(shape)}")]
    flat = np.moveaxis(g, sp, -1).reshape(-1, nel)
    mask = np.array([len(v) > 0 for v in want["vecs"]], bool)
    if not mask.any():
        return probs
    vals = [v for v in want["vecs"] if len(v)]
    if q:
        ok = same_rotation(flat[mask], quats(vals))
        exp = quats(vals)
    else:
        exp = vecs(vals)
        ok = close(flat[mask], exp)
    if not ok:
        probs.append((vprops, f"values {np.round(flat[mask], 6).tolist()}, "
                              f"expected {np.round(exp, 6).tolist()}"))
    return probs


def same_input(a, b):
    if a is None or b is None:
        return a is b
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)) or hasattr(a, "to_numpy"):
        if hasattr(a, "index") and hasattr(a.index, "equals") and \
                not a.index.equals(b.index):
            return False
        a, b = np.asarray(a), np.asarray(b)
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and bool(
            np.all((a == b) | (_nan(a) & _nan(b)))
        )
    return a == b


def _nan(a):
    return np.isnan(a) if a.dtype.kind == "f" else np.zeros(a.shape, bool)


# --------------------------------------------------------- comparisons
def value_props(feat, base=()):
    p = set(base)
    if "cont" in feat:
        p.add("C08")
    if "disc" in feat:
        p.add("C09")
    if not feat & {"cont", "disc"} or "multi" in feat:
        p.add("C04")
    if "inv" in feat:
        p.add("C05")
    return p


def time_props(feat):
    p = {"C07"}
    if "cont" in feat:
        p.add("C08")
    if "disc" in feat:
        p.add("C09")
    return p


def scribble(*arrays):
    """Modify returned arrays in place."""
    for a in arrays:
        if isinstance(a, np.ndarray):
            try:
                if a.dtype.kind == "M":
                    a += np.timedelta64(1, "D")
                else:
                    a += 77
            except (ValueError, TypeError):
                pass


def compare_lookup(lib, op, want):
    """Violations of one lookup op, all forms."""
    out = []
    feat = set(want.get("feat", ()))
    bad_forms, good_forms = [], []
    scribbled = False
    for form, res, t, r, ts in lib.lookup_forms(op):
        probs = []
        orig = (t, r, ts)
        if want["res"] == "err":
            if res == "ok":
                probs.append((
                    {"C07"} if "order" in feat else {"C04", "C01"},
                    f"lookup accepted, must be rejected",
                ))
        elif res == "err":
            probs.append((value_props(feat), f"lookup failed: {t}"))
        else:
            n = len(want["ts"])
            if isinstance(ts, str):
                pass
            elif want["has"] != (ts is not None):
                probs.append((time_props(feat),
                              f"timestamps {ts}, expected {want['ts']}"))
            elif want["has"] and not same_stamps(lib.clock, ts, want["ts"]):
                probs.append((time_props(feat),
                              f"timestamps {ts}, expected ticks "
                              f"{want['ts']}"))
            if not probs:
                wt, wr, mask = expected_poses(want)
                t, r = np.asarray(t), np.asarray(r)
                shape = (n,) if want["has"] else ()
                if t.shape != shape + (3,) or r.shape != shape + (4,):
                    probs.append((value_props(feat),
                                  f"shapes {t.shape} {r.shape} for {n} "
                                  f"samples"))
                else:
                    t, r = t.reshape(-1, 3), r.reshape(-1, 4)
                    if not close(t[mask], wt[mask]):
                        probs.append((value_props(feat),
                                      f"translation {t[mask].tolist()}, "
                                      f"expected {wt[mask].tolist()}"))
                    if not same_rotation(r[mask], wr[mask]):
                        probs.append((value_props(feat),
                                      f"rotation {r[mask].tolist()}, "
                                      f"expected {wr[mask].tolist()}"))
                    unit = np.abs(np.linalg.norm(r, axis=1) - 1)
                    # invalid samples yield invalid ones, if anything
                    void = ~mask & np.isnan(unit) & bool(op.get("_gaps"))
                    if np.any(~(unit < 1e-6) & ~void):
                        probs.append((value_props(feat),
                                      "rotation is not a unit quaternion"))
        (bad_forms if probs else good_forms).append(form)
        for props, what in probs:
            out.append((form, props, what))
        if res == "ok" and op.get("_scribble"):
            scribble(*orig)
            scribbled = True
    res = []
    for form, props, what in out:
        # a single form that deviates contradicts the agreement of forms
        if good_forms:
            props = {"C06"} | (props if form in ("func", "method") else set())
            if form == "ds" or form == "poseds":
                props = {"C06"}
            if scribbled:
                props = props | {"C13"}
        res.append(Violation(
            props, f"lookup [{form}] {short(op)}: {what}",
            {"op": clean(op), "expected": want},
        ))
    return res


def expected_poses(want):
    ps = want["poses"]
    mask = np.array([p["ok"] for p in ps], bool)
    t = vecs([p["t"] for p in ps])
    r = quats([p["r"] for p in ps])
    return t, r, mask


def clean(op):
    return {k: v for k, v in op.items()}


def short(op):
    def r(x):
        return x.get("n", x.get("i", x["k"]))
    s = f"{r(op['a'])}->{r(op['b'])}"
    if op["op"] == "transform":
        s = op["kind"] + " " + s
    return s
