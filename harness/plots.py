"""C25: plots.  MCPlot.tla enumerates sequences of plots on the same axes;
random histories are evaluated by Plot.tla.  All are drawn with matplotlib and
the artists and limits of the axes compared."""
import random
import re
import warnings

import numpy as np

from . import kin
from .common import (
    Violation, chunks, fork_map, run_tlc, MachineryError, NPROC, SEED,
)
from .concrete import Clock, quat, vec
from .lib import Lib

TOL = 1e-7
RED, GREEN, BLUE = (1, 0, 0), (0, 0.5, 0), (0, 0, 1)


def near(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and np.allclose(
        a, b, rtol=TOL, atol=TOL, equal_nan=True)


def row(v, w=3):
    if v == []:
        return np.full(w, np.nan)
    if w == 4:
        return np.array(v, float)
    return vec(v)


def data(arr, w, opt, which="arr"):
    sh = tuple(arr["sh"])
    ok = sh == (w,) or (len(sh) == 2 and sh[1] == w)
    if ok:
        a = np.array([row(v, w) for v in arr["rows"]]).reshape(sh)
        if opt.get("unit") and w == 4:
            a = a / np.linalg.norm(a, axis=-1, keepdims=True)
        if opt.get("int") and np.all(np.isfinite(a)) and np.all(
                a == a.astype(int)):
            a = a.astype(int)
    else:
        a = np.arange(1.0, 1 + np.prod(sh)).reshape(sh)
    if opt.get("form") == "list":
        return a.tolist() if a.size else a
    if opt.get("form") == "tuple" and a.size:
        return tuple(map(tuple, a)) if a.ndim == 2 else (
            tuple(a) if a.ndim == 1 else a.tolist())
    return a


class Plots:
    def __init__(self, lib):
        import matplotlib.pyplot as plt

        self.lib, self.plt = lib, plt
        plt.close("all")
        self.axes = []

    def target(self, op):
        """Arguments that select the axes, and the axes or None."""
        o = op["_opt"]
        if op["ax"] > 0:
            ax = self.axes[op["ax"] - 1]
            return {"ax": ax}, ax
        if o.get("own"):
            ax = self.plt.figure().add_subplot(projection="3d")
            return {"ax": ax}, ax
        return ({"figsize": (4, 3)} if o.get("size") else {}), None

    def call(self, op):
        rbm, o = self.lib.rbm, op["_opt"]
        kw, ax = self.target(op)
        k = op["op"]
        if k == "plotframe":
            w = self.lib.ref(op["w"])
            if w is not None:
                kw["world_frame"] = w
            if op["len"] != [1, 1] or o.get("size"):
                kw["arrow_len"] = op["len"][0] / op["len"][1]
            return ax, kw, lambda: rbm.plot.reference_frame(
                self.lib.ref(op["a"]), **kw)
        if k == "plotpoints":
            a = data(op["arr"], 3, o)
            if o.get("fmt"):
                kw.update(fmt="ro", label="points")
            return ax, kw, lambda: rbm.plot.points(a, **kw)
        w = 3 if k == "plotvectors" else 4
        a = data(op["arr"], w, o)
        if op["base"]["sh"] != []:
            kw["base"] = data(op["base"], 3, o)
        if k == "plotvectors":
            if op["len"] != [1, 1]:
                kw["length"] = op["len"][0] / op["len"][1]
            return ax, kw, lambda: rbm.plot.vectors(a, **kw)
        return ax, kw, lambda: rbm.plot.quaternions(a, **kw)

    def do(self, op, want):
        plt = self.plt
        ax, kw, f = self.call(op)
        figs = plt.get_fignums()
        artists = list(ax.get_children()) if ax is not None else []
        inputs = [np.array(v, float, copy=True) for v in kw.values()
                  if isinstance(v, np.ndarray)]
        try:
            got = f()
        except Exception as e:
            if want["res"] != "err":
                return [f"failed: {e!r}"]
            left = [c for c in ax.get_children()
                    if not any(c is a for a in artists)] if ax else []
            if left and op["op"] != "plotframe":
                return ["a plot that was rejected left artists"]
            for c in left:
                c.remove()
            for n in set(plt.get_fignums()) - set(figs):
                plt.close(n)
            return []
        if want["res"] == "err":
            return ["a plot that is invalid was accepted"]
        out = []
        for a, b in zip(inputs, [v for v in kw.values()
                                 if isinstance(v, np.ndarray)]):
            if not near(a, b):
                out.append("plotting changed an array")
        new = set(plt.get_fignums()) - set(figs)
        if ax is not None and new:
            out.append("a figure was created although axes were given")
        if ax is None:
            if len(new) != 1 or len(plt.figure(next(iter(new))).axes) != 1:
                return out + ["no figure with axes was created"]
            fig = plt.figure(next(iter(new)))
            ax = fig.axes[0]
            if not near(fig.get_size_inches(), kw.get("figsize", (6, 6))):
                out.append(f"figure of size {fig.get_size_inches()}")
        if op["ax"] == 0:
            self.axes.append(ax)
        if want["ax"] != len(self.axes) and op["ax"] == 0:
            raise MachineryError("axes out of step")
        out += getattr(self, op["op"])(op, want["draw"], got, ax)
        out += self.limits(ax, want["box"])
        return out

    def limits(self, ax, box):
        lims = [ax.get_xlim3d(), ax.get_ylim3d(), ax.get_zlim3d()]
        out = []
        if box["n"]:
            for i, (lo, hi) in enumerate(lims):
                a, b = (box[k][i][0] / box[k][i][1] for k in ("lo", "hi"))
                tol = TOL * (1 + abs(a) + abs(b))
                if not (min(lo, hi) <= a + tol and max(lo, hi) >= b - tol):
                    out.append(f"limits of {'xyz'[i]} are {(lo, hi)}, drawn "
                               f"from {a} to {b}")
        r = [hi - lo for lo, hi in lims]
        if max(r) - min(r) > TOL * (1 + max(r)):
            out.append(f"axes of unequal scale {r}")
        return out

    def plotframe(self, op, draw, got, ax):
        if not isinstance(got, (list, tuple)) or len(got) != 3:
            return [f"returned {got!r}"]
        o = vec(draw["origin"])
        out = []
        for k, (arrow, tip, color) in enumerate(
                zip(got, draw["tips"], (RED, GREEN, BLUE))):
            v = np.array(arrow._verts3d, float)
            if not near(v, np.array([o, vec(tip)]).T):
                out.append(f"arrow {'xyz'[k]} from {v[:, 0]} to {v[:, -1]}, "
                           f"expected from {o} to {vec(tip)}")
            if arrow not in ax.get_children():
                out.append("an arrow was not added to the axes")
            if not near(arrow.get_edgecolor()[:3], color):
                out.append(f"arrow {'xyz'[k]} has color "
                           f"{arrow.get_edgecolor()}")
        if not out and op["_opt"].get("render"):
            from mpl_toolkits.mplot3d import proj3d

            ax.figure.canvas.draw()
            for arrow, tip in zip(got, draw["tips"]):
                x, y, _ = proj3d.proj_transform(
                    *np.array([o, vec(tip)]).T, ax.get_proj())
                if not near(np.array(arrow._posA_posB).T, [x, y]):
                    out.append(f"arrow rendered at {arrow._posA_posB}, "
                               f"expected {x}, {y}")
        return out

    def plotpoints(self, op, draw, got, ax):
        if not isinstance(got, (list, tuple)) or len(got) != 1:
            return [f"returned {got!r}"]
        exp = np.array([row(p) for p in draw["points"]]).reshape(-1, 3)
        v = np.array(got[0].get_data_3d(), float).T
        out = []
        if not near(v, exp):
            out.append(f"points at {v}, expected {exp}")
        if got[0] not in ax.get_children():
            out.append("the points were not added to the axes")
        if op["_opt"].get("fmt") and (
                got[0].get_marker() != "o" or got[0].get_color() != "r"
                or got[0].get_label() != "points"):
            out.append("format of points was lost")
        return out

    def plotvectors(self, op, draw, got, ax):
        return self.quiver(got, draw["segments"][0], ax)

    def plotquats(self, op, draw, got, ax):
        if not isinstance(got, (list, tuple)) or len(got) != 3:
            return [f"returned {got!r}"]
        out = []
        for g, segs, color in zip(got, draw["segments"],
                                  (RED, GREEN, BLUE)):
            out += self.quiver(g, segs, ax)
            c = np.asarray(g.get_edgecolor())
            if len(segs) and not near(c[0][:3], color):
                out.append(f"axes with color {c}")
        return out

    def quiver(self, got, segs, ax):
        n = len(segs)
        s = got._segments3d
        s = np.array([np.asarray(x, float) for x in s]).reshape(-1, 2, 3)
        if got not in ax.get_children():
            return ["the vectors were not added to the axes"]
        if len(s) < n:
            return [f"{len(s)} segments for {n} vectors"]
        out = []
        for k, seg in enumerate(segs):
            if seg == []:
                if np.isfinite(s[k]).all():
                    out.append(f"vector {s[k]} for unknown coordinates")
                continue
            b, t = vec(seg[0]), vec(seg[1])
            if not (near(s[k], [t, b]) or near(s[k], [b, t])):
                out.append(f"vector {s[k]}, expected from {b} to {t}")
            elif not near(b, t) and len(s) >= 3 * n and not (
                    near(s[n + k][0], t) and near(s[2 * n + k][0], t)):
                out.append(f"head of the vector at {s[n + k][0]}, "
                           f"expected {t}")
        return out


def replay(scen, outs):
    lib = Lib(Clock(scen["_clock"]))
    p = Plots(lib)
    count = [0]
    out, n = [], 0
    try:
        for k, (op, want) in enumerate(zip(scen["ops"], outs)):
            if want["res"] in ("skip", "any"):
                continue
            n += 1
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                if not op["op"].startswith("plot"):
                    _, stop = kin.lib_call(lib, op, want, count)
                    if stop:
                        break
                    continue
                try:
                    bad = p.do(op, want)
                except MachineryError:
                    raise
                except Exception as e:
                    bad = [f"raised {e!r}"]
            for w in bad:
                w = f"{op['op']}: {w}"
                out.append(Violation(
                    {"C25"}, w, {"op": op, "history": scen["ops"][:k]},
                    re.sub(r"[-\d.e+]+", "#", w)[:120]))
            if bad:
                break
    finally:
        p.plt.close("all")
        lib.rbm.clear_registry()
    return out, n


class Gen(kin.Gen):
    def opt(self):
        r = self.r
        return dict(form=r.choice(["array", "array", "list", "tuple"]),
                    int=r.random() < 0.5, unit=r.random() < 0.7,
                    size=r.random() < 0.3, own=r.random() < 0.3,
                    fmt=r.random() < 0.3, render=r.random() < 0.1)

    def arr(self, w, n=None, nan=0.06):
        r = self.r
        one = n is None and r.random() < 0.3
        n = 1 if one else (n if n is not None else r.choice([0, 1, 2, 3, 4]))
        rows = []
        for _ in range(n):
            if w == 3 and r.random() < nan:
                rows.append([])
            else:
                rows.append(self.vec(12) if w == 3 else self.quat())
        return dict(sh=[w] if one else [n, w], rows=rows)

    def plot(self):
        r = self.r
        ax = r.choice([0, 0, 1, 1, 1, 2])
        k = r.choice(["plotframe"] * 3 + ["plotpoints", "plotvectors",
                                          "plotquats"])
        op = dict(op=k, ax=ax, _opt=self.opt())
        if k == "plotframe":
            a, b = self.pair()
            x = r.random()
            op.update(a=self.ref(a), w={"k": "none"} if x < 0.15
                      else self.ref(b) if x < 0.96
                      else {"k": "bad"},
                      len=r.choice([[1, 1], [1, 1], [2, 1], [1, 2],
                                    [7, 1]]))
        else:
            w = 4 if k == "plotquats" else 3
            op["arr"] = self.arr(w)
            if r.random() < 0.12:
                op["arr"] = dict(sh=r.choice([[w + 1], [2, w - 1],
                                              [1, 2, w], [w, 1]]), rows=[])
            if k != "plotpoints":
                n = len(op["arr"]["rows"])
                x = r.random()
                if x < 0.5 and n:
                    op["base"] = self.arr(3, n)
                    op["base"]["sh"] = [3] if op["arr"]["sh"] == [
                        w] else [n, 3]
                elif x < 0.6:
                    op["base"] = self.arr(3, n + 2, nan=0)
                else:
                    op["base"] = dict(sh=[], rows=[])
            if k == "plotvectors":
                op["len"] = r.choice([[1, 1], [1, 1], [1, 2], [3, 1]])
        self.ops.append(op)

    def history(self):
        self.add_frame(root=True)
        for _ in range(self.r.randint(*self.p["frames"])):
            self.add_frame(root=self.chance("trees"))
        for _ in range(self.r.randint(4, 8)):
            self.plot()
        return dict(ops=self.ops, _clock=self.r.choice(self.p["clocks"]))


CFG = """SPECIFICATION Spec
CONSTANTS MaxPlots = {n}
 Design = "{design}"
INVARIANTS {inv}
CHECK_DEADLOCK FALSE
"""
THEOREMS = "ViewShows ViewCubic AxesRigid"


def check(report):
    quick = report.tier == "quick"
    r = run_tlc("MCPlot", CFG.format(n=2, design="ok",
                                     inv=THEOREMS + " Emit EmitBuild"))
    report.tlc(r)
    if not quick:
        report.tlc(run_tlc("MCPlot", CFG.format(n=3, design="ok",
                                                inv=THEOREMS)))
    for design in ("zy", "first", "base"):
        d = run_tlc("MCPlot", CFG.format(n=2, design=design,
                                         inv="ViewShows"), expect_ok=False)
        if "ViewShows is violated" not in d.out:
            raise MachineryError(f"design {design} was not refuted:\n"
                                 + d.tail())
    build = next(iter(r.records("B")))
    recs = list(r.records("K"))
    if quick:
        recs = recs[SEED % 2::2]

    def do(part):
        out, n = [], 0
        for k, x in part:
            rng = random.Random(f"{SEED}-plot-{k}")
            g = Gen(rng)
            ops = [dict(op=o["op"], name=o["name"], parent=o["parent"],
                        tf=o["tf"], _opt=dict(variant=rng.randrange(12)))
                   for o in build]
            for o in x["ops"]:
                o["_opt"] = g.opt()
            v, c = replay(dict(ops=ops + x["ops"], _clock="int"),
                          [{"res": "ok"}] * len(ops) + x["outs"])
            out += v
            n += c
            if len(out) > 20:
                break
        return out, n

    for vs, n in fork_map(do, chunks(enumerate(recs), NPROC * 2)):
        report.add(vs)
        report.count("calls_compared", n)
    report.traces += len(recs)
    report.count("histories_enumerated", len(recs))
    scens = []
    for k in range(500 if quick else 9000):
        rng = random.Random(f"{SEED}-plots-{k}")
        scens.append(Gen(
            rng, kinds=dict(static=12, cont=1, disc=1), frames=(2, 5),
            trees=0.1, inverse=0.3, odd=0.2, cross=0.05).history())
    kin.run_random(report, scens, module="PlotRun", replay=replay)
