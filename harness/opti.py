"""C21: OptiTrack exports: MCOpti.tla enumerates arrangements of columns,
units and rotation orders; random exports are evaluated by OptiTrack.tla.
Every export is written to a file and imported in all formats."""
import csv
import math
import os
import random
import re
import shutil
import tempfile
import warnings

import numpy as np

from .alg import near
from .common import (
    Violation, chunks, fork_map, load_library, run_tlc, NPROC, SEED,
)
from .concrete import quat, same_rotation, vec
from .kin import run_random

BASE = np.datetime64("2021-03-04T00:00:00", "ms")
ANGLES = [[1, 0], [1, 1], [1, -1], [2, 1], [1, 2], [3, -1], [1, 3], [2, -1],
          [5, 1], [0, 1]]


def cell(col, v):
    if v == []:
        return ""
    if col["mt"] == "Rotation":
        return repr(math.degrees(2 * math.atan2(v[1], v[0])))
    x = v[0] / v[1]
    return str(int(x)) if x == int(x) else repr(x)


def write(path, op, opt):
    cols = op["cols"]
    start = (BASE + np.timedelta64(op["start"], "ms")).astype(object)
    meta = [("Format Version", "1.22"), ("Take Name", "T 1"),
            ("Capture Start Time", start.strftime("%Y-%m-%d %I.%M.%S.")
             + "%03d" % (start.microsecond // 1000)
             + start.strftime(" %p")),
            ("Total Frames in Take", str(len(op["rows"])))]
    if op["order"]:
        meta.append(("Rotation Type", "".join(op["order"])))
    if op["unit"]:
        meta.append(("Length Units", op["unit"]))
    random.Random(opt["k"]).shuffle(meta)
    head = [x for kv in meta for x in kv]
    n = max(len(cols) + 2, len(head) if opt["wide"] else 0)

    def pad(r):
        return r + [""] * (n - len(r))

    rows = [pad(head) if len(head) < n else head, pad([]),
            pad(["", ""] + [c["kind"] for c in cols]),
            pad(["", ""] + [c["body"] for c in cols]),
            pad(["", ""] + ["ID%d" % k for k, c in enumerate(cols)]),
            pad(["", ""] + [c["mt"] for c in cols]),
            pad(["Frame", "Time (Seconds)"] + [c["axis"] for c in cols])]
    for k, r in enumerate(op["rows"]):
        rows.append(pad([str(k), repr(r["t"] / 1000000) if r["t"] else "0"]
                        + [cell(c, v) for c, v in zip(cols, r["vals"])]))
    with open(path, "w", newline="") as f:
        csv.writer(f).writerows(rows)


def forms(lib, path):
    """{form: {body: (pos, rot, ts)}}"""
    out = {}
    load = lib.io.load_optitrack
    out["numpy"] = dict(load(path))
    pd_ = load(path, "pandas")
    out["pandas"] = {}
    for k, v in pd_.items():
        assert list(v["position"].columns) == ["x", "y", "z"], "columns"
        assert list(v["orientation"].columns) == list("wxyz"), "columns"
        out["pandas"][k] = (v["position"].to_numpy(),
                            v["orientation"].to_numpy(), v.index.to_numpy())
    xr_ = load(path, import_format="xarray")
    out["xarray"] = {}
    for k, v in xr_.items():
        assert v.position.dims == ("time", "cartesian_axis"), "dims"
        assert v.orientation.dims == ("time", "quaternion_axis"), "dims"
        assert list(v.cartesian_axis.values) == list("xyz"), "labels"
        assert list(v.quaternion_axis.values) == list("wxyz"), "labels"
        out["xarray"][k] = (v.position.values, v.orientation.values,
                            v.time.values)
    return out


def compare(lib, path, op, opt, want):
    import rigid_body_motion.io  # noqa

    write(path, op, opt)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = forms(lib, path)
    except Exception as e:
        return [f"import failed: {e!r}"]
    ts = BASE.astype("datetime64[us]") + np.array(
        [1000 * ms + us for ms, us in want["ts"]], "timedelta64[us]")
    bad = []
    for form, data in got.items():
        if set(data) != {b["name"] for b in want["bodies"]}:
            bad.append(f"{form}: bodies {sorted(data)}")
            continue
        for b in want["bodies"]:
            pos, rot, t = (np.asarray(x) for x in data[b["name"]])
            n = len(ts)
            if pos.shape != (n, 3) or rot.shape != (n, 4) or t.shape != (n,):
                bad.append(f"{form}: shapes {pos.shape} {rot.shape} "
                           f"{t.shape}")
                continue
            if t.dtype.kind != "M" or np.any(
                    np.abs(t - ts) > np.timedelta64(1, "us")):
                bad.append(f"{form}: timestamps {t}, expected {ts}")
            for i in range(n):
                if b["pos"][i] == []:
                    if not np.isnan(pos[i]).any():
                        bad.append(f"{form}: position of a missing sample "
                                   f"is {pos[i]}")
                elif not near(pos[i], vec(b["pos"][i])):
                    bad.append(f"{form}: position {pos[i]}, expected "
                               f"{b['pos'][i]}")
                if b["rot"][i] == []:
                    if not np.isnan(rot[i]).any():
                        bad.append(f"{form}: orientation of a missing "
                                   f"sample is {rot[i]}")
                elif not same_rotation(rot[i], quat(b["rot"][i])):
                    bad.append(f"{form}: orientation {rot[i]}, expected "
                               f"{b['rot'][i]}")
    return bad


class Gen:
    def __init__(self, rng):
        self.r = rng

    def export(self):
        r = self.r
        names = r.sample(["RigidBody 01", "head", "RigidBody 02", "Body:A",
                          "7", "left hand"], r.randint(1, 4))
        blocks = []
        for b in names:
            pos, rot = [], []
            axes = list("XYZ")
            if r.random() < 0.3:
                r.shuffle(axes)
            rot = [dict(kind="Rigid Body", body=b, mt="Rotation", axis=a)
                   for a in axes]
            if r.random() < 0.3:
                r.shuffle(axes)
            pos = [dict(kind="Rigid Body", body=b, mt="Position", axis=a)
                   for a in axes]
            err = [dict(kind="Rigid Body", body=b, mt="Mean Marker Error",
                        axis="")] if r.random() < 0.4 else []
            g = [rot, pos, err]
            if r.random() < 0.4:
                r.shuffle(g)
            if r.random() < 0.3:
                blocks += g
            else:
                blocks.append(sum(g, []))
        for k in range(r.randint(0, 3)):
            b = r.choice(names)
            blocks.append([
                dict(kind=r.choice(["Marker", "Rigid Body Marker"]),
                     body=f"{b}:Marker{k}", mt="Position", axis=a)
                for a in "XYZ"])
        if r.random() < 0.5:
            r.shuffle(blocks)
        cols = sum(blocks, [])
        rows = []
        t = 0
        for i in range(r.choice([1, 2, 3, 5])):
            gone = {c["body"] for c in cols if r.random() < 0.02}
            vals = []
            for c in cols:
                if c["body"] in gone:
                    vals.append([])
                elif c["mt"] == "Rotation":
                    vals.append(r.choice(ANGLES))
                else:
                    vals.append([r.randint(-400, 400), r.choice([1, 2, 4])])
            rows.append(dict(t=t, vals=vals))
            t += r.choice([10000, 20000, 25000, 1000000, 4167, 8333, 16667])
        return dict(op="optitrack", cols=cols, rows=rows,
                    unit=r.choice(["", "Meters", "Centimeters",
                                   "Centimeters", "Millimeters"]),
                    order=r.choice(["", "XYZ", "XZY", "YXZ", "YZX", "ZXY",
                                    "ZYX"]) and list(r.choice(
                                        ["XYZ", "XZY", "YXZ", "YZX", "ZXY",
                                         "ZYX"])),
                    start=r.randint(0, 86399999),
                    _opt=dict(k=r.randrange(10 ** 6),
                              wide=r.random() < 0.5))


def violation(what, op):
    return Violation({"C21"}, what, {"export": op},
                     re.sub(r"[-\d.e+]+", "#", what)[:120])


def replay(scen, outs):
    lib = load_library()
    tmp = tempfile.mkdtemp(prefix="verif-opti-")
    out = []
    try:
        for op, want in zip(scen["ops"], outs):
            if op["order"] == "":
                op["order"] = []
            for b in compare(lib, os.path.join(tmp, "e.csv"), op,
                             op["_opt"], want):
                out.append(violation(b, op))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out, len(outs)


CFG = """SPECIFICATION Spec
INVARIANTS Theorems Emit
CHECK_DEADLOCK FALSE
"""


def check(report):
    quick = report.tier == "quick"
    r = run_tlc("MCOpti", CFG)
    report.tlc(r)
    recs = list(r.records("K"))
    if quick:
        recs = recs[SEED % 7::7]

    def do(part):
        out = []
        for k, x in part:
            v, _ = replay(dict(ops=[dict(x["e"], _opt=dict(
                k=k, wide=bool(k % 2)))]), [x["want"]])
            out += v
            if len(out) > 20:
                break
        return out

    for vs in fork_map(do, chunks(enumerate(recs), NPROC * 2)):
        report.add(vs)
    report.traces += len(recs)
    report.count("exports_enumerated", len(recs))
    if recs:
        report.sample(recs[0]["e"])
    scens = []
    for k in range(90 if quick else 2000):
        g = Gen(random.Random(f"{SEED}-opti-{k}"))
        ops = [g.export() for _ in range(4)]
        for o in ops:
            o["order"] = o["order"] or []
        scens.append(dict(ops=ops))
    run_random(report, scens, module="AlgRun", replay=replay)
