"""C04-C13, C20: lookups and transformations along frame trees.

 * MCKin.tla enumerates all trees over a catalogue of frames; TLC checks the
   theorems about lookups and every lookup is replayed on the library.
 * Random histories are executed on Machine.tla (exact rational arithmetic)
   and on the library, and every outcome is compared.
"""
import copy
import json
import os
import random
import re
import tempfile
import warnings

import numpy as np

from .common import (
    MachineryError, Violation, chunks, fork_map, pmap, run_tlc, NPROC, SEED,
)
from .concrete import Clock, unspoken
from .lib import (
    Lib, compare_labelled, compare_lookup, compare_transform, value_props,
)

KIN_CFG = """SPECIFICATION Spec
CONSTANTS MaxFrames = {n}
 Cat = {cat}
INVARIANTS Inv Check
CHECK_DEADLOCK FALSE
"""
RUN_CFG = """SPECIFICATION Spec
INVARIANTS Inv
CHECK_DEADLOCK FALSE
"""


# ------------------------------------------------- evaluating histories
def strip(x):
    if isinstance(x, dict):
        return {k: strip(v) for k, v in x.items() if not k.startswith("_")}
    if isinstance(x, list):
        return [strip(v) for v in x]
    return x


STATELESS = ("AlgRun", "PubRun", "BagRun", "PlayRun")


def run_machine(scens, module="Run", timeout=800):
    """Outcomes of all histories; None for those whose numbers exceed the
    arithmetic of TLC."""
    todo = list(range(len(scens)))
    outs = [None] * len(scens)
    states = gen = dropped = 0
    tmp = tempfile.mkdtemp(prefix="verif-run-")
    path = os.path.join(tmp, "in.json")
    try:
        while todo:
            with open(path, "w") as f:
                json.dump(
                    [{"id": i, "ops": strip(scens[i]["ops"])} for i in todo],
                    f,
                )
            cfg = RUN_CFG
            if module in STATELESS:
                cfg = RUN_CFG.replace("INVARIANTS Inv\n", "")
            r = run_tlc(module, cfg, env={"VERIF_IN": path},
                        timeout=timeout, expect_ok=False, heap="2g")
            states += r.distinct
            gen += r.generated
            done = -1
            for rec in r.records("R"):
                outs[rec["n"]] = rec["outs"]
                done = max(done, todo.index(rec["n"]))
            if r.ok:
                break
            text = "\n".join(r.log)
            if "Overflow" not in text and "overflow" not in text:
                raise MachineryError(f"TLC failed on {module}:\n{r.tail(60)}")
            dropped += 1
            todo = todo[done + 2:]
    finally:
        import shutil

        shutil.rmtree(tmp, ignore_errors=True)
    return outs, states, gen, dropped


# ------------------------------------------------------------ generation
AXES3 = [(a, b, c) for a in (1, -1) for b in (1, -1) for c in (1, -1)]
OCT = (
    [(1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1)]
    + [(1,) + tuple(s if k == i else 0 for k in range(3))
       for i in range(3) for s in (1, -1)]
    + [(1,) + a for a in AXES3]
    + [(0, 1, 1, 0), (0, 1, -1, 0), (0, 1, 0, 1), (0, 1, 0, -1),
       (0, 0, 1, 1), (0, 0, 1, -1)]
)
ODD = [(2, 1, 0, 0), (1, 2, 0, 0), (2, 0, 1, 0), (1, 0, 0, 2), (3, 0, 1, 0),
       (3, 1, 1, 1), (1, 2, 2, 0), (2, 1, 0, 2), (1, -1, 1, 3), (2, 1, -1, 1)]
RATES = {
    # rate -> longest gap with a rotation below 180 degrees
    (1, 0, 0, 0): 9,
    **{(3,) + a: 2 for a in AXES3},
    **{(1,) + tuple(s if k == i else 0 for k in range(3)): 1
       for i in range(3) for s in (1, -1)},
    **{(1,) + a: 1 for a in AXES3},
    (3, 1, 0, 0): 4, (3, 0, -1, 0): 4, (2, 0, 0, 1): 3,
}


def qmul(a, b):
    return [
        a[0]*b[0] - a[1]*b[1] - a[2]*b[2] - a[3]*b[3],
        a[0]*b[1] + a[1]*b[0] + a[2]*b[3] - a[3]*b[2],
        a[0]*b[2] - a[1]*b[3] + a[2]*b[0] + a[3]*b[1],
        a[0]*b[3] + a[1]*b[2] - a[2]*b[1] + a[3]*b[0],
    ]


def qprim(q):
    g = int(np.gcd.reduce(q)) or 1
    q = [int(v) // g for v in q]
    f = next(v for v in q if v)
    return [v if f > 0 else -v for v in q]


def qpow(h, n):
    r = [1, 0, 0, 0]
    for _ in range(n):
        r = qprim(qmul(h, r))
    return r


class Gen:
    """Random histories; prof holds the weights of the features."""

    DEFAULT = dict(
        frames=(3, 6), queries=(6, 10),
        kinds=dict(static=3, cont=3, disc=2),
        inverse=0.3, trees=0.25, odd=0.25, irregular=0.15, single=0.05,
        unordered=0.02, via=0.3, reg=0.4, badtf=0.0,
        lookup=3, transform=2, labelled=0,
        stamped=0.6, layout=0.3, far=0.03, badlen=0.02, repeat=0.15,
        scribble=0.15, twins=0.2, cross=0.04,
        clocks=Clock.KINDS, forms=None, tforms=None, samesrc=0.08,
        gaps=0.0,
    )

    def __init__(self, rng, **prof):
        self.r = rng
        self.p = {**self.DEFAULT, **prof}
        self.frames = []  # (name, registered, root, parent)
        self.ops = []

    def chance(self, key):
        return self.r.random() < self.p[key]

    def pick(self, weights):
        ks = list(weights)
        return self.r.choices(ks, [weights[k] for k in ks])[0]

    def vec(self, big=4):
        r = self.r
        return [r.randint(-big, big), r.randint(-big, big),
                r.randint(-big, big), 1 if r.random() < 0.8 else 2]

    def quat(self):
        return list(self.r.choice(ODD if self.chance("odd") else OCT))

    def ticks(self, lo=0, n=None, maxgap=3):
        r = self.r
        n = n or r.randint(2, 5)
        t = [lo + r.randint(0, 3)]
        for _ in range(n - 1):
            t.append(t[-1] + r.randint(1, maxgap))
        return t

    # -- frames
    def tf(self, kind):
        r = self.r
        tf = dict(trsh=[], rotsh=[], tssh=[], tr=[], rot=[], ts=[], h=[],
                  inv=self.chance("inverse"), disc=kind == "disc")
        has_tr = r.random() < 0.85
        has_rot = r.random() < 0.8
        if kind == "static":
            if has_tr:
                tf.update(trsh=[3], tr=[self.vec()])
            if has_rot:
                tf.update(rotsh=[4], rot=[self.quat()], h=[1, 0, 0, 0])
            return tf
        if self.chance("single"):
            ts = self.ticks(n=1)
        else:
            ts = self.ticks(n=None if kind == "cont" else r.randint(1, 4))
        h = []
        gaps = self.p["gaps"] and self.chance("gaps")
        if gaps and r.random() < 0.6:
            ts = self.ticks(n=r.randint(5, 9), maxgap=2)
        if kind == "cont" and not self.chance("irregular"):
            gap = max([b - a for a, b in zip(ts, ts[1:])] or [1])
            if r.random() < 0.5 and len(ts) < 6:
                gap = min(gap, 2)
                ts = [ts[0]]
                for _ in range(r.randint(1, 4)):
                    ts.append(ts[-1] + r.randint(1, gap))
            h = list(r.choice([k for k in RATES if RATES[k] >= gap and (
                                  len(ts) < 6 or max(k) != 2 and sum(
                                      map(abs, k)) != 4)]
                              if r.random() < 0.85 else
                              [(1, 0, 0, 0)]))
        n = len(ts)
        if kind == "disc" and r.random() < 0.15 and n > 1:
            ts[r.randrange(1, n)] = ts[0]
            ts.sort()
        tf.update(tssh=[n], ts=ts)
        if has_tr:
            if r.random() < 0.25:
                d, a = self.vec(2)[:3], self.vec()[:3]
                tr = [[a[c] + d[c] * t for c in range(3)] + [1] for t in ts]
            else:
                tr = [self.vec() for _ in ts]
            tf.update(trsh=[n, 3], tr=tr)
        if has_rot:
            if h:
                g = self.quat()
                rot = [qprim(qmul(g, qpow(h, t - ts[0]))) for t in ts]
            else:
                rot = [self.quat() for _ in ts]
            tf.update(rotsh=[n, 4], rot=rot, h=h)
        if kind == "cont" and self.chance("unordered") and n > 2:
            tf["ts"] = ts[:-2] + [ts[-1], ts[-2]]
            tf["h"] = []
        if gaps:
            tf["gap"] = self.gap(n)
        return tf

    def gap(self, n):
        """Indices of invalid samples out of n."""
        r = self.r
        return sorted(r.sample(range(1, n + 1),
                               min(n, r.choice([1, 1, 1, 2]))))

    def add_frame(self, root=False):
        r = self.r
        name = "f%d" % (len(self.frames) + 1)
        if root:
            tf = dict(trsh=[], rotsh=[], tssh=[], tr=[], rot=[], ts=[],
                      h=[], inv=False, disc=False)
            parent = {"k": "none"}
            pi = -1
        else:
            tf = self.tf(self.pick(self.p["kinds"]))
            pi = r.randrange(len(self.frames))
            parent = self.ref(pi)
        op = dict(op="new", name=name, parent=parent, tf=tf)
        opt = dict(variant=r.randrange(12))
        if tf.get("gap"):
            opt["gapof"] = r.choice(["both", "rot", "tr"])
        reg = self.chance("reg")
        if reg:
            op.update(op="register_frame", update=False)
        elif not root and self.chance("via"):
            opt.update(self.via(tf))
        if not reg and self.frames and self.chance("twins"):
            # another frame with the name of an existing one
            name = op["name"] = r.choice(
                [f for f in self.frames if (f[3] < 0) == root])[0] \
                if any((f[3] < 0) == root for f in self.frames) else name
        op["_opt"] = opt
        self.ops.append(op)
        rt = len(self.frames) if pi < 0 else self.frames[pi][2]
        self.frames.append([name, reg, rt, pi])

    def via(self, tf):
        st = not tf["tssh"]
        c = ["class"]
        if st and tf["rotsh"] and not tf["trsh"]:
            c += ["matrix"] * 3
        if not st and tf["trsh"] and tf["rotsh"]:
            c += ["dataset"] * 2
        if not st and tf["trsh"] and not tf["rotsh"]:
            c += ["trans_da"] * 3
        if not st and tf["rotsh"] and not tf["trsh"]:
            c += ["rot_da"] * 3
        return dict(via=self.r.choice(c))

    def bad_tf(self):
        """A construction that must be rejected."""
        r = self.r
        tf = self.tf(r.choice(["static", "cont", "disc"]))
        tf["inv"] = r.random() < 0.5
        tf.pop("gap", None)
        n = tf["tssh"][0] if tf["tssh"] else 0
        bad = []
        if n:
            bad += [("trsh", [n + 1, 3]), ("trsh", [n, 4]), ("trsh", [3]),
                    ("rotsh", [n + 1, 4]), ("rotsh", [n, 3]),
                    ("rotsh", [4]), ("trsh", [n, 3, 1]),
                    ("trsh", [1, n, 3]), ("rotsh", [1, n, 4]),
                    ("tssh", [n, 1]), ("tssh", [1, n])]
            if n != 3:
                bad += [("trsh", [3, n])]
            if n != 4:
                bad += [("rotsh", [4, n])]
        else:
            bad += [("trsh", [4]), ("trsh", [2]), ("trsh", [1, 3]),
                    ("trsh", [3, 1]), ("trsh", [2, 3]), ("rotsh", [3]),
                    ("rotsh", [1, 4]), ("rotsh", [3, 3]), ("rotsh", [5]),
                    ("disc", True), ("tssh", [0, 0])]
        k, v = r.choice(bad)
        tf[k] = v
        if k == "tssh" and v == [0, 0]:
            tf["tssh"] = [-1]  # scalar
        tf["h"] = []
        return tf

    def add_bad(self):
        r = self.r
        tf = self.bad_tf()
        op = dict(op=r.choice(["new", "register_frame"]),
                  name="bad%d" % len(self.ops),
                  parent=self.ref(r.randrange(len(self.frames))),
                  tf=tf, update=False, _opt=dict(bad=True))
        if op["op"] == "new" and tf["tssh"] and len(tf["tssh"]) == 1 and \
                tf["tssh"][0] > 0 and len(tf["trsh"]) == 2 and \
                len(tf["rotsh"]) == 2 and r.random() < 0.6:
            op["_opt"]["via"] = "dataset_ids"
        self.ops.append(op)

    def ref(self, i):
        name, reg = self.frames[i][:2]
        if reg and self.r.random() < 0.6:
            return {"k": "name", "n": name}
        return {"k": "obj", "i": i + 1}

    def pair(self):
        r = self.r
        n = len(self.frames)
        a = r.randrange(n)
        if self.chance("samesrc"):
            return a, a
        same = [i for i in range(n)
                if i != a and self.frames[i][2] == self.frames[a][2]]
        if not same or self.chance("cross"):
            return a, r.randrange(n)
        return a, r.choice(same)

    # -- queries
    def q_lookup(self):
        a, b = self.pair()
        op = dict(op="lookup", a=self.ref(a), b=self.ref(b))
        if self.p["forms"]:
            op["_forms"] = self.p["forms"]
        if self.chance("scribble"):
            op["_scribble"] = True
        if self.p["gaps"]:
            op["_gaps"] = True
        self.ops.append(op)

    def array(self, q, stamped):
        r = self.r
        nd = r.choice([0, 0, 1, 1, 2]) if not stamped else r.choice(
            [1, 1, 1, 2, 2, 3])
        rsh = [r.randint(1, 3) for _ in range(nd)]
        tpos, ts = 1, []
        if stamped:
            if self.chance("layout"):
                tpos = r.randint(1, nd)
            ts = self.ticks(lo=r.randint(0, 3),
                            n=1 if self.chance("single") else None)
            if self.chance("far"):
                ts = [t + 60 for t in ts]
            rsh[tpos - 1] = len(ts)
        cols = int(np.prod(rsh)) // (len(ts) if stamped else 1)
        h = []
        if not q:
            v = [self.vec(5) for _ in range(int(np.prod(rsh)))]
        elif not stamped:
            v = [self.quat() for _ in range(int(np.prod(rsh)))]
        else:
            gap = max([b - a for a, b in zip(ts, ts[1:])] or [1])
            grid = np.empty(rsh, object)
            colsh = [s for k, s in enumerate(rsh) if k != tpos - 1]
            for c in np.ndindex(*colsh):
                if r.random() < 0.85:
                    hh = list(r.choice(
                        [k for k in RATES if RATES[k] >= gap]))
                    g = self.quat()
                    col = [qprim(qmul(g, qpow(hh, t - ts[0]))) for t in ts]
                else:
                    hh = []
                    col = [self.quat() for _ in ts]
                h.append(hh)
                for k in range(len(ts)):
                    i = list(c)
                    i.insert(tpos - 1, k)
                    grid[tuple(i)] = col[k]
            v = [list(x) for x in grid.ravel()]
        if stamped and self.r.random() < self.p["badlen"]:
            ts = ts + [ts[-1] + 1]
        elif stamped and self.chance("unordered") and len(ts) > 2:
            ts = ts[:-2] + [ts[-1], ts[-2]]
            h = [[] for _ in h]
        arr = dict(vecs=v, rsh=rsh, tpos=tpos, ts=ts, has=bool(stamped),
                   q=q, h=h)
        if self.p["gaps"] and self.chance("gaps"):
            arr["gap"] = self.gap(len(v))
        return arr

    def array_opt(self, arr):
        r = self.r
        nd = len(arr["rsh"]) + 1
        opt = dict(variant=r.randrange(12))
        if self.chance("layout"):
            opt["ax"] = r.randrange(nd)
        else:
            opt["ax"] = nd - 1
        for k in ("negax", "negtax", "defax", "deftax", "contig"):
            if r.random() < 0.4:
                opt[k] = True
        if r.random() < 0.3:
            opt["scribble"] = True
        if arr.get("gap"):
            opt["gap1"] = r.random() < 0.3
        return opt

    def q_transform(self):
        r = self.r
        kind = r.choice(["vectors", "points", "points", "quaternions"])
        arr = self.array(kind == "quaternions", self.chance("stamped"))
        a, b = self.pair()
        op = dict(op="transform", kind=kind, a=self.ref(a), b=self.ref(b),
                  arr=arr, _opt=self.array_opt(arr))
        op["_forms"] = self.p["tforms"] or r.choice(
            [("method", "func"), ("func", "plain"),
             ("method", "plainmethod")])
        self.ops.append(op)

    def q_labelled(self):
        r = self.r
        kind = r.choice(["vectors", "points", "points", "quaternions"])
        q = kind == "quaternions"
        arr = self.array(q, self.chance("stamped"))
        opt = self.array_opt(arr)
        a, b = self.pair()
        nd = len(arr["rsh"]) + 1
        # labelled arrays always have timestamps that fit
        if arr["has"] and len(arr["ts"]) != arr["rsh"][arr["tpos"] - 1]:
            arr["ts"] = arr["ts"][:arr["rsh"][arr["tpos"] - 1]]
        tdim = "time" if r.random() < 0.7 else "t"
        rdims = ["d%d" % k for k in range(nd - 1)]
        if arr["has"]:
            rdims[arr["tpos"] - 1] = tdim
        sdim = "quaternion_axis" if q else r.choice(
            ["cartesian_axis", "cartesian_axis", "axis"])
        size = dict(zip(rdims, arr["rsh"]))
        size[sdim] = 4 if q else 3
        coords = []
        if r.random() < 0.6:
            coords.append(dict(n=sdim, dims=[sdim], num=False,
                               vals=list(range(size[sdim]))))
        for d in rdims:
            if d != tdim or not arr["has"]:
                if r.random() < 0.5:
                    coords.append(dict(
                        n=d, dims=[d], num=True, _int=r.random() < 0.5,
                        vals=[10 + 3 * k for k in range(size[d])]))
            else:
                if r.random() < 0.7:
                    coords.append(dict(
                        n="phase", dims=[d], num=True, _int=r.random() < 0.4,
                        vals=[r.randint(-20, 20) for _ in range(size[d])]))
                if r.random() < 0.5:
                    coords.append(dict(
                        n="label", dims=[d], num=False,
                        vals=[r.randint(0, 99) for _ in range(size[d])]))
        if r.random() < 0.4:
            coords.append(dict(n="scalar", dims=[], num=True, vals=[42]))
        if nd >= 3 and r.random() < 0.6:
            ds = r.sample(rdims, 2)
            coords.append(dict(
                n="grid", dims=ds, num=True,
                vals=[r.randint(-9, 9) for _ in range(size[ds[0]]
                                                      * size[ds[1]])]))
        attrs = []
        ra = self.ref(a)
        if self.frames[a][1] and r.random() < 0.5:
            k = "representation_frame" if kind == "vectors" else \
                "reference_frame"
            attrs.append([k, self.frames[a][0]])
            if r.random() < 0.75:
                ra = {"k": "none"}
        elif r.random() < 0.3:
            k = r.choice(["representation_frame", "reference_frame"])
            attrs.append([k, r.choice(["elsewhere"] + [
                f[0] for f in self.frames])])
            if r.random() < 0.3:
                ra = {"k": "none"}
        for k in ("units", "long_name", "motion_type", "moving_frame"):
            if r.random() < 0.35:
                attrs.append([k, "v_" + k])
        opt["space"] = r.choice(["dim", "dim", "axis"])
        if opt["ax"] == nd - 1 and r.random() < 0.2:
            opt["space"] = "default"
        ax = opt["ax"]
        tax = arr["tpos"] - 1 + (1 if arr["tpos"] - 1 >= ax else 0)
        opt["time"] = r.choice(["name", "default"])
        self.ops.append(dict(
            op="labelled", kind=kind, a=ra, b=self.ref(b), _opt=opt,
            da=dict(arr=arr, rdims=rdims, sdim=sdim, coords=coords,
                    attrs=attrs, _name=r.choice([None, "data"]))))

    def history(self):
        r = self.r
        p = self.p
        n = r.randint(*p["frames"])
        nq = r.randint(*p["queries"])
        self.add_frame(root=True)
        weights = {k: p[k] for k in ("lookup", "transform", "labelled")
                   if p[k]}
        plan = ["f"] * (n - 1) + ["q"] * nq
        # queries mostly after most frames exist
        for k in range(nq):
            if r.random() < 0.3:
                i, j = sorted(r.sample(range(len(plan)), 2))
                plan[i], plan[j] = plan[j], plan[i]
        qs = []
        for what in plan:
            if what == "f":
                self.add_frame(root=self.chance("trees"))
                if self.chance("badtf"):
                    self.add_bad()
                if r.random() < 0.1:
                    self.registry_op()
            elif len(self.frames) > 1:
                if qs and self.chance("repeat"):
                    self.ops.append(copy.deepcopy(r.choice(qs)))
                else:
                    getattr(self, "q_" + self.pick(weights))()
                    qs.append(self.ops[-1])
        clock = r.choice(p["clocks"])
        return dict(ops=self.ops, _clock=clock)

    def registry_op(self):
        """Register or deregister something on the way."""
        r = self.r
        i = r.randrange(len(self.frames))
        f = self.frames[i]
        if f[1]:
            if r.random() < 0.3:
                self.ops.append(dict(op="deregister_frame", name=f[0]))
                f[1] = False
            else:
                self.ops.append(dict(op="register", id=i + 1, update=True))
        else:
            self.ops.append(dict(op="register", id=i + 1, update=False))
            f[1] = True


# --------------------------------------------------------------- replay
def lib_call(lib, op, want, count):
    """Perform one op on the library; list of violations."""
    kind = op["op"]
    rbm = lib.rbm
    if kind in ("new", "register_frame"):
        bad = op.get("_opt", {}).get("bad")
        props = {"C20"}
        if not bad:
            tf = op["tf"]
            props |= {"C05"} if tf["inv"] else {"C04"}
            if tf["tssh"]:
                props |= {"C09"} if tf["disc"] else {"C08"}
        try:
            o = lib.construct(op)
            res = "ok"
        except MachineryError:
            raise
        except Exception as e:
            res, o = "err", e
        if res != want["res"]:
            return [Violation(
                props, f"construction {op.get('_opt')} "
                       f"{op['tf']['trsh']} {op['tf']['rotsh']} "
                       f"{op['tf']['tssh']} gave {res} "
                       f"{'' if res == 'ok' else repr(o)}, "
                       f"expected {want['res']}",
                {"op": op})], True
        if res == "ok":
            count[0] += 1
            lib.objs[count[0]] = o
        return [], False
    if kind in ("register", "deregister", "deregister_frame"):
        try:
            if kind == "register":
                lib.objs[op["id"]].register(
                    **unspoken(dict(update=op["update"]), update=False))
            elif kind == "deregister":
                lib.objs[op["id"]].deregister()
            else:
                rbm.deregister_frame(op["name"])
            res = "ok"
        except Exception:
            res = "err"
        if res != want["res"]:
            return [Violation({"C01"}, f"{op} gave {res}", {"op": op})], True
        return [], False
    if kind == "lookup":
        return compare_lookup(lib, op, want), False
    if kind == "transform":
        return compare_transform(lib, op, want), False
    if kind == "labelled":
        return compare_labelled(lib, op, want), False
    from . import ops

    return ops.call(lib, op, want), False


def via_props(scen):
    """Constructors other than the class one are in play."""
    return any(o.get("_opt", {}).get("via", "class") != "class"
               or o["op"] == "register_frame" for o in scen["ops"]
               if "tf" in o)


def tree_snapshot(lib):
    """Everything queries must leave alone."""
    snap = []
    for i, o in sorted(lib.objs.items()):
        snap.append((
            i, o.name, id(o.parent), tuple(id(c) for c in o.children),
        ))
    return snap


def replay(scen, outs):
    lib = Lib(Clock(scen["_clock"]))
    count = [0]
    out = []
    calls = 0
    seen = {}
    for k, (op, want) in enumerate(zip(scen["ops"], outs)):
        query = op["op"] not in (
            "new", "register_frame", "register", "deregister",
            "deregister_frame", "clear")
        before = tree_snapshot(lib) if query else None
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            vs, stop = lib_call(lib, op, want, count)
        calls += 1
        if query:
            if tree_snapshot(lib) != before:
                vs.append(Violation(
                    {"C13"}, f"{op['op']} changed a frame tree", {"op": op}))
            sig = json.dumps(op, sort_keys=True, default=str)
            if vs and sig in seen and not seen[sig]:
                # the same call was answered correctly before
                vs = [Violation(v.props | {"C13"}, v.what, v.data, v.key)
                      for v in vs]
            seen[sig] = bool(vs) or seen.get(sig, False)
        for s in lib.side:
            vs.append(Violation({"C13"}, s, {"op": op}))
        lib.side = []
        if via_props(scen):
            vs = [Violation(v.props | {"C20"}, v.what, v.data, v.key)
                  if v.props & {"C04", "C05", "C08", "C09"} else v
                  for v in vs]
        for v in vs:
            v.data = {"history": scen["ops"][:k], "clock": scen["_clock"],
                      **v.data}
        out += vs
        if stop or len(out) > 12:
            break
    lib.rbm.clear_registry()
    return out, calls


def run_random(report, scens, module="Run", replay=replay):
    """Evaluate histories on the specification and on the library."""
    parts = chunks(range(len(scens)), max(NPROC, len(scens) // 60))
    res = pmap(
        lambda idx: (idx, run_machine([scens[i] for i in idx], module)),
        parts)
    jobs = []
    for idx, (outs, states, gen, dropped) in res:
        report.states += states
        report.transitions += gen
        report.count("dropped_for_arithmetic", dropped)
        jobs += [(scens[i], o) for i, o in zip(idx, outs) if o is not None]
    work = chunks(jobs, NPROC * 2)

    def do(part):
        vs, calls = [], 0
        for scen, outs in part:
            v, c = replay(scen, outs)
            vs += v
            calls += c
            if len(vs) > 60:
                break
        return vs, calls

    for vs, calls in fork_map(do, work):
        report.add(vs)
        report.count("calls_compared", calls)
    report.traces += len(jobs)
    if jobs:
        report.sample({"history": strip(jobs[0][0]["ops"])[:3]})
    return jobs


# ------------------------------------------------------------ exhaustive
def explore_trees(cat, n):
    return run_tlc("MCKin", KIN_CFG.format(
        n=n, cat="{" + ",".join(f'"{c}"' for c in cat) + "}"), heap="3g")


LFORMS = (("func", "method"), ("pose",), ("ds",), ("poseds",), ("plain",),
          ("plainpose",))


def replay_trees(args):
    cat, recs, salt = args
    out, n = [], 0
    gaps = any("gap" in c for c in cat.values())
    for j, rec in enumerate(recs):
        rng = random.Random(f"{salt}-{j}")
        ops = [dict(op="register_frame", name="f1", parent={"k": "none"},
                    update=False, tf=dict(
                        trsh=[], rotsh=[], tssh=[], tr=[], rot=[], ts=[],
                        h=[], inv=False, disc=False), _opt={})]
        for i, p in enumerate(rec["picks"]):
            tf = cat[p["cat"]]
            ops.append(dict(
                op="new" if rng.random() < 0.5 else "register_frame",
                name="f%d" % (i + 2),
                parent={"k": "obj", "i": p["parent"]}, tf=tf, update=False,
                _opt=dict(variant=rng.randrange(12))))
        m = len(ops)
        outs = [{"res": "ok"}] * m
        for a in range(m):
            for b in range(m):
                ops.append(dict(
                    op="lookup", a={"k": "obj", "i": a + 1},
                    b={"k": "obj", "i": b + 1}, _gaps=gaps,
                    _forms=LFORMS[rng.randrange(5)]))
                outs.append(rec["look"][a][b])
        scen = dict(ops=ops, _clock=Clock.KINDS[rng.randrange(6)])
        v, c = replay(scen, outs)
        out += v
        n += c
        if len(out) > 30:
            break
    return out, n


def exhaustive(report, runs):
    results = pmap(lambda r: (r, explore_trees(*r)), runs)
    for (cat, n), r in results:
        report.tlc(r)
        recs = list(r.records("K"))
        catalogue = next(iter(r.records("C")))
        for v, c in fork_map(replay_trees, [
                (catalogue, part, f"{SEED}-{k}")
                for k, part in enumerate(chunks(recs, NPROC * 2))]):
            report.add(v)
            report.count("calls_compared", c)
        report.traces += len(recs)
        report.count("trees_enumerated", len(recs))
        report.sample({"tree": recs[-1]["picks"]})


PROFILES = {
    "C04": dict(kinds=dict(static=8, cont=1, disc=1), transform=0,
                frames=(4, 8), trees=0.15, stamped=0.1, twins=0.5,
                cross=0.06),
    "C05": dict(inverse=0.8, transform=2, frames=(3, 5)),
    "C06": dict(lookup=2, transform=5, frames=(3, 5), stamped=0.35,
                inverse=0.25, layout=0.15),
    "C07": dict(lookup=4, transform=3, kinds=dict(static=1, cont=4, disc=3),
                frames=(3, 5), unordered=0.08, badlen=0.1, far=0.08,
                single=0.1, odd=0.1),
    "C08": dict(lookup=4, transform=2, kinds=dict(static=1, cont=6, disc=1),
                frames=(3, 4), irregular=0.2, single=0.08, odd=0.15, gaps=0.25),
    "C09": dict(lookup=4, transform=2, kinds=dict(static=1, cont=2, disc=6),
                frames=(3, 5), gaps=0.1),
    "C10": dict(lookup=0, transform=6, stamped=0.9, frames=(2, 4),
                kinds=dict(static=2, cont=4, disc=2), far=0.06, single=0.1,
                layout=0.25, odd=0.1, gaps=0.25),
    "C11": dict(lookup=0, transform=6, stamped=0.75, layout=1.0,
                frames=(2, 4), odd=0.1),
    "C12": dict(lookup=0, transform=0, labelled=6, layout=0.5, reg=0.8,
                frames=(2, 5), odd=0.1, badlen=0.0),
    "C13": dict(scribble=0.6, lookup=2, transform=3, labelled=2, repeat=0.5,
                frames=(3, 5), queries=(10, 16), odd=0.1),
    "C20": dict(badtf=0.7, via=0.9, reg=0.35, frames=(4, 7), transform=1,
                lookup=4, queries=(5, 8), odd=0.1),
}
EXHAUSTIVE = {
    "C04": ([(("sT", "sR", "sI", "sTR"), 4)],
            [(("sT", "sR", "sI", "sTR", "s0"), 4), (("sR", "sI", "sTR"), 5),
             (("sT", "sI", "c1"), 5)]),
    "C05": ([(("sI", "cI", "dI", "sT"), 4)],
            [(("sI", "cI", "dI", "c1", "d1", "sTR"), 4)]),
    "C07": ([(("sT", "c1", "cI", "d1", "d2"), 4)],
            [(("sT", "c1", "cI", "c2", "cR", "d1", "d2", "dI"), 4)]),
    "C08": ([(("sTR", "c1", "c2", "cI"), 4), (("sI", "c1", "cG", "cH"), 3)],
            [(("sI", "c1", "c2", "cI", "cR"), 4), (("c1", "c2", "cR"), 5),
             (("sI", "c1", "cG", "cH", "dG"), 4)]),
    "C09": ([(("d1", "d2", "dI", "c1"), 4), (("sT", "d2", "dG", "cG"), 3)],
            [(("sT", "d1", "d2", "dI", "c1", "c2"), 4),
             (("d1", "d2", "c1"), 5), (("d2", "dG", "c1", "cG"), 4)]),
}
N_RANDOM = {"quick": 900, "thorough": 16000}


def check(report):
    prop, quick = report.prop, report.tier == "quick"
    if prop in EXHAUSTIVE:
        exhaustive(report, EXHAUSTIVE[prop][0 if quick else 1])
    scens = []
    for k in range(N_RANDOM[report.tier]):
        rng = random.Random(f"{SEED}-{prop}-{k}")
        scens.append(Gen(rng, **PROFILES[prop]).history())
    run_random(report, scens)
