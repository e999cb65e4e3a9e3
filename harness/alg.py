"""C17-C19: quaternion utilities, coordinate systems and estimators.

 * MCAlg.tla / MCCoords.tla check the algebraic theorems on all small
   operands; every product, rotation, conversion and recovered motion they
   enumerate is replayed on the library.
 * Random calls with arrays of all layouts are evaluated by AlgRun.tla
   (exact arithmetic) and by the library, and the outcomes are compared.
"""
import copy
import math
import random
import re
import warnings

import numpy as np

from .common import (
    Violation, chunks, fork_map, load_library, run_tlc, NPROC, SEED,
)
from .concrete import Clock, either_sign, quat, same_rotation, vec
from .kin import OCT, ODD, RATES, qmul as qmul_int, qpow, qprim, run_random

ORDERS = ["rpy", "ryp", "pry", "pyr", "yrp", "ypr"]


# ------------------------------------------------------------ arrays
def qval(q):
    return np.array(q[:4], float) / q[4]


def items(A, fn, n):
    """The array of an operand with the components last."""
    a = np.array([fn(e) for e in A["el"]], float).reshape(
        *A["sh"], n)
    return a


def place(a, axis):
    return np.moveaxis(a, -1, axis)


def lay(a, how):
    """The same values in another memory layout."""
    if how == "F" and a.ndim:
        return np.asfortranarray(a)
    if how == "strided" and a.ndim:
        b = np.zeros(tuple(2 * s for s in a.shape), a.dtype)
        b = b[tuple(slice(None, None, 2) for _ in a.shape)]
        b[...] = a
        return b
    if how == "rev" and a.ndim:
        s = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a[s])[s]
    if how == "ro":
        a = np.array(a)
        a.setflags(write=False)
        return a
    if how == "swap" and a.dtype.kind in "fi":
        return a.astype(a.dtype.newbyteorder())
    return np.array(a)


LAYS = ("C", "C", "F", "strided", "rev", "ro", "swap")
QLAYS = LAYS + ("list",)


def near(got, want, tol=1e-8):
    try:
        got = np.asarray(got, float)
    except Exception:
        return False
    want = np.asarray(want, float)
    return got.shape == want.shape and bool(np.all(
        np.abs(got - want) <= tol * max(1.0, np.abs(want).max(initial=0))))


def dequat(a):
    import quaternion

    a = np.asarray(a)
    if a.dtype != np.quaternion:
        return None
    return quaternion.as_float_array(a)


class Inputs:
    """Remembers the arguments of a call to see whether it changed them."""

    def __init__(self):
        self.seen = []

    def __call__(self, x):
        self.seen.append((x, copy.deepcopy(x)))
        return x

    def changed(self):
        return [k for k, (x, y) in enumerate(self.seen) if not _same(x, y)]


def _same(x, y):
    if hasattr(x, "dims"):
        return x.identical(y) and list(x.attrs) == list(y.attrs)
    if isinstance(x, np.ndarray):
        return x.dtype == y.dtype and x.shape == y.shape and bool(
            np.all((x == y) | (x != x)))
    if isinstance(x, (tuple, list)):
        return len(x) == len(y) and all(_same(a, b) for a, b in zip(x, y))
    return x == y


# --------------------------------------------------------- generation
class AlgGen:
    def __init__(self, rng, weights):
        self.r = rng
        self.w = weights

    def history(self, n=10):
        names = list(self.w)
        ops = []
        for _ in range(n):
            k = self.r.choices(names, [self.w[m] for m in names])[0]
            op = getattr(self, "g_" + k)()
            op["op"] = op.get("op", k)
            ops.append(op)
        return dict(ops=ops)

    def rot(self, odd=0.3):
        return list(self.r.choice(ODD if self.r.random() < odd else OCT))

    def qv(self, big=2):
        r = self.r
        while True:
            q = [r.randint(-big, big) for _ in range(4)]
            if any(q):
                return q + [r.choice([1, 1, 1, 2, 3])]

    def v(self, big=4):
        r = self.r
        return [r.randint(-big, big) for _ in range(3)] + [
            r.choice([1, 1, 2])]

    def shape(self, lo=0, hi=3):
        return [self.r.randint(1, 3) for _ in range(self.r.randint(lo, hi))]

    def arr(self, sh, f):
        return dict(sh=sh, el=[f() for _ in range(int(np.prod(sh)))])

    def broadcast(self, sh, drop=True):
        r = self.r
        k = r.randint(0, len(sh)) if drop and r.random() < 0.3 else 0
        return [1 if r.random() < 0.25 else s for s in sh[k:]]

    # -- quaternions
    def g_qmul(self):
        r = self.r
        base = self.shape()
        n = r.choice([2, 2, 2, 3, 4])
        if r.random() < 0.03:
            n = 1
        arrs = [self.arr(self.broadcast(base), self.qv) for _ in range(n)]
        if r.random() < 0.06 and base and n > 1:
            arrs[1] = self.arr([s + 2 for s in base], self.qv)
        m = min(len(a["sh"]) for a in arrs) + 1
        quatd = r.random() < 0.4
        return dict(arrs=arrs, mixed=n > 1 and r.random() < 0.04,
                    _q=quatd, _ax=r.choice([-1, r.randrange(-m, m)]),
                    _lay=[r.choice(QLAYS) for _ in range(n)],
                    _int=r.random() < 0.2)

    def g_qinv(self):
        r = self.r
        a = self.arr(self.shape(), self.qv)
        m = len(a["sh"]) + 1
        return dict(a=a, _q=r.random() < 0.4, _ax=r.randrange(-m, m),
                    _lay=r.choice(QLAYS), _int=r.random() < 0.2,
                    _xr=r.random() < 0.4, _k=r.randrange(10 ** 6))

    def g_rot(self):
        r = self.r
        sh = self.shape()
        one = r.random() < 0.7
        if one and r.random() < 0.85:
            q = self.arr(self.broadcast(sh, False), self.qv)
            v = self.arr(self.broadcast(sh, False), self.v)
        else:
            q = self.arr(self.shape(0, 2), self.qv)
            v = self.arr(self.shape(0, 2), self.v)
        nq, nv = len(q["sh"]) + 1, len(v["sh"]) + 1
        return dict(q=q, v=v, one=one,
                    n=3 if r.random() < 0.96 else r.choice([2, 4]),
                    _q=r.random() < 0.4, _qax=r.randrange(-nq, nq),
                    _ax=r.randrange(-nv, nv), _lay=r.choice(LAYS),
                    _vlay=r.choice(LAYS), _list=r.random() < 0.1,
                    _int=r.random() < 0.2, _def=r.random() < 0.5)

    def group(self):
        """Rotations with (if it exists) the expected mean."""
        r = self.r
        kind = r.choice(["one", "pair", "pairs", "any", "any"])
        m = self.rot(0.2)
        if kind == "any":
            return [self.rot(0.1) for _ in range(r.randint(1, 5))], []
        if kind == "one":
            return [m] * r.randint(1, 4), m
        qs = [m] * r.randint(1 if kind == "pair" else 0, 2)
        for _ in range(1 if kind == "pair" else 2):
            h = r.choice([(2, 1, 0, 0), (3, 0, 1, 0), (3, 0, 0, -1),
                          (3, 1, 1, 1), (1, 1, 0, 0)])
            qs += [qprim(qmul_int(m, h)),
                   qprim(qmul_int(m, [h[0]] + [-x for x in h[1:]]))]
        return qs, m

    def g_qmean(self):
        r = self.r
        if r.random() < 0.5:
            groups = r.randint(1, 3)
            sets = [self.group() for _ in range(groups)]
            n = max(len(s[0]) for s in sets)
            for k, (qs, m) in enumerate(sets):
                if len(qs) < n:  # fill up
                    if m:
                        qs = qs + [m] * (n - len(qs))
                    else:
                        qs = qs + [self.rot(0) for _ in range(n - len(qs))]
                    sets[k] = (qs, m)
                r.shuffle(sets[k][0])
            cand = [s[1] for s in sets]
            if groups == 1 and r.random() < 0.5:
                sh, el, axes = [n], sets[0][0], [1]
            elif r.random() < 0.5:
                sh, axes = [groups, n], [2]
                el = [q for s in sets for q in s[0]]
            else:
                sh, axes = [n, groups], [1]
                el = [sets[g][0][k] for k in range(n) for g in range(groups)]
        else:
            sh = self.shape(1, 3)
            while np.prod(sh) > 12:
                sh = self.shape(1, 3)
            el = [self.rot(0) for _ in range(int(np.prod(sh)))]
            if r.random() < 0.3:
                axes = list(range(1, len(sh) + 1))
            else:
                axes = sorted(r.sample(range(1, len(sh) + 1),
                                       r.randint(1, len(sh))))
            out = int(np.prod([s for k, s in enumerate(sh, 1)
                               if k not in axes]))
            cand = [[]] * out
        nd = len(sh) + 1
        q = r.random() < 0.35
        # axes to be averaged are only counted in one way if they precede
        # the axis of the components
        full = len(axes) == len(sh)
        qax = nd - 1
        if not q and r.random() < 0.5:
            qax = r.randrange(0 if full else max(axes), nd)
        how = ["tuple"]
        if full:
            how += ["none"] * 3
        if len(axes) == 1:
            how += ["int"] * 3
        if full and qax != nd - 1:
            how = ["none"]
        return dict(a=dict(sh=sh, el=el), axes=axes, cand=cand, _q=q,
                    _qax=qax - nd if r.random() < 0.5 else qax,
                    _how=r.choice(how),
                    _neg=qax == nd - 1 and r.random() < 0.4,
                    _signs=r.random() < 0.6, _lay=r.choice(LAYS),
                    _k=r.randrange(10 ** 6))

    def times(self, n):
        r = self.r
        ts = [r.randint(0, 3)]
        while len(ts) < n:
            ts.append(ts[-1] + r.choice([1, 1, 1, 2]))
        return ts

    def qarr(self):
        r = self.r
        nd = r.choice([1, 1, 2, 2, 3])
        rsh = [r.randint(1, 3) for _ in range(nd)]
        tpos = r.randint(1, nd)
        ts = self.times(r.choice([2, 2, 3, 4, 5, 6]))
        rsh[tpos - 1] = len(ts)
        gap = max(b - a for a, b in zip(ts, ts[1:]))
        grid, h, cont = np.empty(rsh, object), [], []
        for c in np.ndindex(*[s for k, s in enumerate(rsh) if k != tpos - 1]):
            if r.random() < 0.8:
                hh = list(r.choice([k for k in RATES if RATES[k] >= gap]))
                g = self.rot()
                col = [qprim(qmul_int(g, qpow(hh, t - ts[0]))) for t in ts]
            else:
                hh, col = [], [self.rot() for _ in ts]
            h.append(hh)
            for k in range(len(ts)):
                i = list(c)
                i.insert(tpos - 1, k)
                grid[tuple(i)] = col[k]
        n = r.randint(1, 6)
        out = [r.choice(ts) if r.random() < 0.4 else
               r.randint(ts[0], ts[-1]) for _ in range(n)]
        if r.random() < 0.6:
            out = sorted(set(out))
        return dict(vecs=[list(x) for x in grid.ravel()], rsh=rsh,
                    tpos=tpos, ts=ts, has=True, q=True, h=h), out

    def g_qinterp(self):
        r = self.r
        arr, out = self.qarr()
        nd = len(arr["rsh"]) + 1
        return dict(arr=arr, out=out, _q=r.random() < 0.4,
                    _qax=r.randrange(nd), _neg=r.random() < 0.4,
                    _lay=r.choice(LAYS), _clock=r.choice(Clock.KINDS),
                    _va=r.randrange(12), _vb=r.randrange(12),
                    _list=r.random() < 0.1, _k=r.randrange(10 ** 6))

    def g_laqinterp(self):
        r = self.r
        arr, out = self.qarr()
        nd = len(arr["rsh"])
        names = r.sample(["time", "body", "trial", "x", "t"], nd)
        sdim = "quaternion_axis" if r.random() < 0.7 else "comp"
        tdim = names[arr["tpos"] - 1]
        coords = []

        def coord(n, dims, num):
            size = dict(zip(names, arr["rsh"]))
            size[sdim] = 4
            k = int(np.prod([size[d] for d in dims]))
            coords.append(dict(n=n, dims=dims, num=num, vals=[
                r.randint(-5, 5) for _ in range(k)]))

        for d in names:
            if d != tdim and r.random() < 0.5:
                coords.append(dict(n=d, dims=[d], num=True, vals=list(
                    range(3, 3 + arr["rsh"][names.index(d)]))))
        if r.random() < 0.5:
            coords.append(dict(n=sdim, dims=[sdim], num=False,
                               vals=[1, 2, 3, 4]))
        if r.random() < 0.4:
            coord("scalar", [], True)
        if r.random() < 0.5:
            coord("lab", [tdim], False)
        if r.random() < 0.5:
            coord("val", [tdim], True)
        if nd > 1 and r.random() < 0.4:
            coord("two", r.sample(names, 2), True)
        qax = r.randint(0, nd)
        va, vb = r.randrange(12), r.randrange(12)
        if any(c["num"] and tdim in c["dims"] for c in coords):
            vb = va  # xarray does not interpolate between units of time
        return dict(da=dict(arr=arr, rdims=names, sdim=sdim, coords=coords),
                    out=out, _qax=qax, _clock=r.choice(Clock.KINDS),
                    _va=va, _vb=vb,
                    _name=r.choice(["q", None, "orientation"]),
                    _how=r.choice(["kw", "dict", "da", "index"]),
                    _bad=r.choice(["nodim", "noqdim", "two", "nd"])
                    if r.random() < 0.06 else "",
                    _k=r.randrange(10 ** 6))

    def g_euler(self):
        r = self.r
        sh = self.shape(0, 3)

        def ang():
            return r.choice([[1, 0], [1, 1], [1, -1], [0, 1], [2, 1],
                             [1, 2], [3, -1], [-1, 1], [1, 3], [2, -1]])

        def absent():
            return dict(sh=[-1], el=[])

        rpy = r.random() < 0.45
        A = [self.arr(list(sh), ang) for _ in range(3)]
        both = False
        if not rpy:
            for k in range(3):
                if r.random() < 0.25:
                    A[k] = absent()
            if r.random() < 0.08:
                k = r.randrange(3)
                if A[k]["sh"] != [-1]:
                    A[k] = self.arr(list(sh) + [2], ang)
        elif r.random() < 0.05:
            both = True
        order = r.choice(ORDERS)
        if r.random() < 0.04:
            order = r.choice(["xyz", "rp", "rrp", "", "rpx"])
        there = [a["sh"] for a in A if a["sh"] != [-1]]
        nd = len(there[0]) + 1 if there else 1
        return dict(roll=A[0], pitch=A[1], yaw=A[2], order=list(order),
                    both=both, _rpy=rpy, _ax=r.choice(
                        [-1, r.randrange(-nd, nd)]),
                    _ret=r.random() < 0.3, _list=r.random() < 0.15,
                    _def=order == "rpy" and r.random() < 0.5)

    # -- coordinate systems
    def surd(self, pos=False):
        r = self.r
        if r.random() < 0.5:
            return [r.randint(0 if pos else -4, 4), r.choice([1, 1, 2, 3]), 1]
        return [r.choice([1] if pos else [1, -1]), r.choice([1, 2]),
                r.choice([1, 2, 3, 5, 6])]

    def rat(self):
        r = self.r
        if r.random() < 0.25:
            return [0, 1, 1]
        n, d = r.randint(-5, 5), r.choice([1, 1, 2, 3, 4])
        g = math.gcd(n, d)
        return [n // g, d // g, 1] if n else [0, 1, 1]

    def norm_surd(self, s):
        n, d, b = s
        if n == 0:
            return [0, 1, 1]
        g = math.gcd(n, d)
        return [n // g, d // g, b]

    def direction(self, theta=False):
        r = self.r
        while True:
            c, s = r.randint(-3, 3), r.randint(-3, 3)
            if theta:
                s = abs(s)
            if c or s:
                return [[c, 1, 1], [s, 1, 1]]

    def point(self, sys, n):
        if sys == "polar":
            return [self.norm_surd(self.surd(True)), self.direction()]
        if sys == "spherical":
            return [self.norm_surd(self.surd(True)), self.direction(True),
                    self.direction()]
        return [self.rat() for _ in range(n)]

    def g_coords(self):
        r = self.r
        frm, into = r.choice([("cartesian", "polar"), ("polar", "cartesian"),
                              ("cartesian", "spherical"),
                              ("spherical", "cartesian")])
        n = 2 if "polar" in (frm, into) else 3
        explicit, sysattr = frm, ""
        lab = r.random() < 0.55
        sh = self.shape(0, 3)
        ax = r.randint(0, len(sh))
        bad = r.random()
        pts_sys = frm
        if bad < 0.03:
            into = r.choice([frm, "foo", "polar" if frm == "spherical"
                             else "spherical" if frm == "polar"
                             else "cylindrical"])
        elif bad < 0.05:
            explicit = "foo"
        elif bad < 0.08:
            n, pts_sys = 5 - n, "cartesian"
        dims, coords = [], []
        if lab:
            if r.random() < 0.5:
                sysattr = explicit
                if r.random() < 0.6:
                    explicit = ""
            elif r.random() < 0.1:
                explicit = ""
            if explicit and sysattr and r.random() < 0.15:
                sysattr = r.choice(["cartesian", "polar", "spherical"])
            dims = r.sample(["time", "a", "b", "ch"], len(sh))
            sd = r.choice([frm + "_axis", "axis", "space", into + "_axis"])
            dims.insert(ax, sd)
            if r.random() < 0.6:
                coords.append(dict(n=sd, dims=[sd]))
            for d in dims:
                if d != sd and r.random() < 0.5:
                    coords.append(dict(n=d, dims=[d]))
            if r.random() < 0.4:
                coords.append(dict(n="sc", dims=[]))
            if len(dims) > 1 and r.random() < 0.4:
                coords.append(dict(n="two", dims=r.sample(dims, 2)))
            if r.random() < 0.3:
                coords.append(dict(n="alt", dims=[sd]))
        elif r.random() < 0.03:
            explicit = ""
        pts = [self.point(pts_sys, n) for _ in range(int(np.prod(sh)))]
        form = r.choice(["wrap", "wrap", "direct"]) if (
            not lab and bad >= 0.08 and explicit) else "wrap"
        return dict(explicit=explicit, sysattr=sysattr, into=into, n=n,
                    pts=pts, dims=dims, ax=ax, coords=coords,
                    replace=r.random() < 0.7, _lab=lab, _sh=sh, _form=form,
                    _how=r.choice(["dim", "axis", "negax", "def"]),
                    _lay=r.choice(LAYS), _list=r.random() < 0.1,
                    _turn=r.randint(-1, 1), _int=r.random() < 0.3,
                    _name=r.choice(["pos", None]), _sys=pts_sys,
                    _defrep=r.random() < 0.5)

    # -- estimators
    def cloud(self, kind, n):
        r = self.r
        while True:
            P = [[r.randint(-2, 2) for _ in range(3)] for _ in range(n)]
            if kind == "planar":
                d = r.randrange(3)
                for p in P:
                    p[d] = 0
            elif kind == "line":
                P = [[x * r.randint(-2, 2) for x in P[0]] for _ in P]
            if kind != "line" and np.linalg.matrix_rank(np.array(P)) < (
                    2 if kind == "planar" else 3):
                continue
            return P

    def motion(self, P, q, t):
        """k * P and k * R P + t in integers."""
        k = sum(x * x for x in q)
        w, x, y, z = q
        R = [[w*w+x*x-y*y-z*z, 2*(x*y-w*z), 2*(x*z+w*y)],
             [2*(x*y+w*z), w*w-x*x+y*y-z*z, 2*(y*z-w*x)],
             [2*(x*z-w*y), 2*(y*z+w*x), w*w-x*x-y*y+z*z]]
        v1 = [[k * c for c in p] for p in P]
        v2 = [[sum(R[i][j] * p[j] for j in range(3)) + t[i]
               for i in range(3)] for p in P]
        return v1, v2

    def pair_sets(self, centred):
        r = self.r
        kind = r.choice(["solid", "solid", "planar", "planar", "line",
                         "noise", "mirror", "mirror_planar", "random"])
        n = r.randint(3, 6)
        base = {"noise": "solid", "mirror": "solid",
                "mirror_planar": "planar", "random": "solid"}.get(kind, kind)
        P = self.cloud(base, n)
        if centred:
            # keep the numbers small: the centroid is the origin
            s = [sum(p[i] for p in P) for i in range(3)]
            P.append([-x for x in s])
            n += 1
        q = self.rot(0.3)
        t = [r.randint(-6, 6) for _ in range(3)] if centred else [0, 0, 0]
        if kind == "random":
            q = [1, 0, 0, 0]
        v1, v2 = self.motion(P, q, t)
        cand = list(q)
        if kind in ("noise", "mirror", "mirror_planar", "random", "line"):
            cand = []
        if kind == "noise":
            v2 = [[x + r.randint(-1, 1) for x in p] for p in v2]
        if kind.startswith("mirror"):
            d = r.randrange(3)
            for p in v2:
                p[d] = -p[d]
        if kind == "random":
            v2 = self.cloud("solid", n)
        if centred and r.random() < 0.5:
            off = [r.randint(-5, 5) for _ in range(3)]
            v1 = [[a + b for a, b in zip(p, off)] for p in v1]
        if r.random() < 0.04:
            v2 = v2[:-1]
        return v1, v2, cand

    def est_opt(self, n, same=True):
        r = self.r
        fac = [d for d in range(1, n + 1) if n % d == 0]
        k = r.choice(fac) if same and r.random() < 0.4 else None
        sh = [n] if k is None else [k, n // k]
        return dict(_sh=sh, _ax=r.randint(0, len(sh)),
                    _lab=r.random() < 0.45, _lab2=r.random() < 0.7,
                    _how=r.choice(["dim", "axis", "negax"]),
                    _lay=r.choice(LAYS), _lay2=r.choice(LAYS),
                    _float=r.random() < 0.7, _list=r.random() < 0.1)

    def g_bfr(self):
        v1, v2, cand = self.pair_sets(False)
        return dict(v1=v1, v2=v2, cand=cand,
                    **self.est_opt(len(v1), len(v1) == len(v2)))

    def g_bft(self):
        v1, v2, cand = self.pair_sets(True)
        return dict(v1=v1, v2=v2, cand=cand,
                    **self.est_opt(len(v1), len(v1) == len(v2)))

    def g_icp(self):
        r = self.r
        a = r.choice([2, 3])
        P = [[a, 0, 0], [0, a, 0], [0, 0, a], [-a - 1, 0, 0],
             [0, -a - 1, 0]][:r.randint(3, 5)]
        mode = r.choice(["near", "init", "init", "shift", "far"])
        init = dict(t=[0, 0, 0, 1], r=[1, 0, 0, 0])
        if mode == "near":
            q = r.choice([(3, 0, 0, 1), (3, 1, 0, 0), (3, 0, -1, 0),
                          (1, 0, 0, 0)])
            t = [r.randint(-2, 2) for _ in range(3)]
        elif mode == "init":
            q = self.rot(0.2)
            t = [r.randint(-3, 3) for _ in range(3)]
            init = dict(t=[x + r.randint(-1, 1) for x in t] + [1], r=list(q))
        elif mode == "shift":
            q = (1, 0, 0, 0)
            t = [r.randint(-1, 1) for _ in range(3)]
        else:
            q = self.rot()
            t = [r.randint(-5, 5) for _ in range(3)]
        v1, v2 = self.motion(P, list(q), t)
        extra = [[r.choice([-1, 1]) * r.randint(30, 40) for _ in range(3)]
                 for _ in range(r.randint(0, 3))]
        v2 = v2 + extra
        r.shuffle(v2)
        opt = self.est_opt(len(v1), False)
        return dict(v1=v1, v2=v2, init=init, cand=list(q),
                    _init=mode == "init" or r.random() < 0.2,
                    _initform=r.choice(["arr", "list", "da"]), **opt)

    def g_arc(self):
        r = self.r
        sh = self.shape(0, 3)
        n = int(np.prod(sh))

        def nz():
            while True:
                v = [r.randint(-3, 3) for _ in range(3)]
                if any(v):
                    return v

        v1 = [nz() for _ in range(n)]
        v2 = []
        for v in v1:
            k = r.random()
            if k < 0.2:
                v2.append([-r.randint(1, 3) * x for x in v])
            elif k < 0.3:
                v2.append([r.randint(1, 3) * x for x in v])
            else:
                v2.append(nz())
        return dict(v1=v1, v2=v2, _sh=sh, _ax=r.randint(0, len(sh)),
                    _lab=r.random() < 0.4, _lab2=r.random() < 0.6,
                    _how=r.choice(["dim", "axis", "negax"]),
                    _lay=r.choice(LAYS), _lay2=r.choice(LAYS),
                    _float=r.random() < 0.7, _list=r.random() < 0.1)


# --------------------------------------------------------------- replay
def unspecified(x):
    return x == [] or x == {}


class Player:
    def __init__(self):
        import quaternion
        import xarray as xr

        self.rbm = load_library()
        self.xr = xr
        self.quaternion = quaternion
        self.keep = None

    # a quaternion operand in the wanted form
    def quats(self, A, asq, ax, how, toint):
        a = items(A, qval, 4)
        if asq:
            return self.keep(lay(self.quaternion.as_quat_array(a)
                                 if a.ndim > 1 else
                                 np.array(self.quaternion.quaternion(*a)),
                                 how))
        a = place(a, ax)
        if toint and np.all(a == np.round(a)):
            a = a.astype(np.int64)
        if how == "list":
            return self.keep(a.tolist())
        return self.keep(lay(a, how))

    def call(self, fn, *a, **kw):
        try:
            return "ok", fn(*a, **kw)
        except Exception as e:
            return "err", e

    def step(self, op, want):
        self.keep = Inputs()
        self.bad = []
        if want["res"] == "any" and op["op"] != "icp":
            return []
        getattr(self, "p_" + op["op"])(op, want)
        if self.keep.changed():
            self.bad.append(({"C13"}, f"{op['op']} modified its input"))
        return self.bad

    def note(self, prop, what):
        self.bad.append(({prop}, what))

    def outcome(self, prop, op, want, res, got):
        if res != want["res"]:
            self.note(prop, f"{op['op']} gave {res}"
                            f"{'' if res == 'ok' else ' ' + repr(got)}, "
                            f"expected {want['res']}")
        return res == want["res"] == "ok"

    def value(self, prop, op, got, want, rot=False):
        ok = same_rotation(got, want) if rot else near(got, want)
        if not ok:
            self.note(prop, f"{op['op']} gave {np.asarray(got).tolist()}, "
                            f"expected {np.asarray(want).tolist()}")
        return ok

    # -- C17
    def p_qmul(self, op, want):
        rbm = self.rbm
        q = [self.quats(A, op["_q"] ^ (op["mixed"] and k == 0), op["_ax"],
                        op["_lay"][k], op["_int"])
             for k, A in enumerate(op["arrs"])]
        kw = {} if op["_ax"] == -1 else dict(qaxis=op["_ax"])
        res, got = self.call(rbm.qmul, *q, **kw)
        if self.outcome("C17", op, want, res, got):
            w = items(dict(sh=want["sh"], el=want["el"]), qval, 4)
            if op["_q"]:
                got = dequat(got)
                if got is None:
                    return self.note("C17", "qmul changed the dtype")
            else:
                w = place(w, op["_ax"])
            self.value("C17", op, got, w)

    def p_qinv(self, op, want):
        a, ax = op["a"], op["_ax"]
        w = items(want, qval, 4)
        if op["_xr"]:
            xr = self.xr
            r = random.Random(op["_k"])
            data = place(items(a, qval, 4), ax)
            qd = r.choice(["quaternion_axis", "quaternion_axis", "c"])
            dims = ["d%d" % k for k in range(len(a["sh"]))]
            dims.insert(ax % (len(dims) + 1), qd)
            x = xr.DataArray(
                data, {"d0": (("d0",), np.arange(a["sh"][0]) + 5.0)}
                if a["sh"] else {}, dims, "nm", {"k": "v"})
            if r.random() < 0.5:
                x.coords[qd] = ["w", "x", "y", "z"]
            x.coords["s"] = 4
            self.keep(x)
            kw = {} if qd == "quaternion_axis" else dict(qdim=qd)
            res, got = self.call(x.rbm.qinv, **kw)
            if self.outcome("C17", op, want, res, got):
                exp = x.copy(data=place(w, ax))
                if not (got.dims == exp.dims and got.name == exp.name
                        and got.attrs == exp.attrs
                        and set(got.coords) == set(exp.coords)
                        and all(got[c].equals(exp[c]) for c in exp.coords)):
                    self.note("C17", f"labelled qinv lost labels: {got}")
                self.value("C17", op, got.values, exp.values)
            if qd != "quaternion_axis":
                res, got = self.call(x.rbm.qinv)
                if res != "err":
                    self.note("C17", "qinv accepted a missing dimension")
            return
        q = self.quats(a, op["_q"], ax, op["_lay"], op["_int"])
        kw = {} if ax == -1 else dict(qaxis=ax)
        res, got = self.call(self.rbm.qinv, q, **kw)
        if self.outcome("C17", op, want, res, got):
            if op["_q"]:
                got = dequat(got)
                if got is None:
                    return self.note("C17", "qinv changed the dtype")
            else:
                w = place(w, ax)
            self.value("C17", op, got, w)

    def p_rot(self, op, want):
        q = self.quats(op["q"], op["_q"], op["_qax"], op["_lay"], op["_int"])
        ax = op["_ax"]
        v = items(op["v"], vec, 3)
        if op["n"] == 2:
            v = v[..., :2]
        elif op["n"] == 4:
            v = np.concatenate((v, v[..., :1]), -1)
        v = self.keep(lay(place(v, ax), op["_vlay"]))
        kw = dict(one_to_one=op["one"])
        if op["one"] and op["_def"]:
            del kw["one_to_one"]
        if ax != -1:
            kw["axis"] = ax
        if not op["_q"] and op["_qax"] != -1:
            kw["qaxis"] = op["_qax"]
        if op["_list"] and not op["_q"]:
            q, v = q.tolist(), v.tolist()
        res, got = self.call(self.rbm.rotate_vectors, q, v, **kw)
        if self.outcome("C17", op, want, res, got):
            w = items(want, vec, 3)
            nv = len(op["v"]["sh"]) + 1
            if op["one"] or not op["q"]["sh"]:
                w = place(w, ax)
            else:
                w = place(w, (ax % nv) + len(op["q"]["sh"]))
            self.value("C17", op, got, w)

    def optimum(self, prop, op, q, known):
        """A unit quaternion that is as good as possible for a form."""
        q = np.asarray(q, float)
        if q.shape != (4,) or not abs(q @ q - 1) < 1e-6:
            return self.note(prop, f"{op['op']} gave {q}, not a unit "
                                   "quaternion")
        if known["cert"]:
            if not same_rotation(q, quat(known["m"])):
                self.note(prop, f"{op['op']} gave {q.tolist()}, expected "
                                f"{known['m']}")
            return
        N = np.array(known["form"], float)
        val = q @ N @ q
        best = max(known["best"][0] / known["best"][1],
                   np.linalg.eigvalsh(N)[-1])
        if val < best - 1e-6 * max(1.0, np.abs(N).max()):
            self.note(prop, f"{op['op']} gave {q.tolist()} with value {val},"
                            f" but {best} is possible")

    def p_qmean(self, op, want):
        a = op["a"]
        r = random.Random(op["_k"])
        data = np.array([quat(q) for q in a["el"]]).reshape(*a["sh"], 4)
        if op["_signs"]:
            data = data * np.array(
                [r.choice([1, -1]) for _ in a["el"]]).reshape(*a["sh"], 1)
        nd = len(a["sh"]) + 1
        axes = [k - 1 for k in op["axes"]]
        if op["_neg"]:
            axes = [k - len(a["sh"]) for k in axes]
        kw = {}
        if op["_how"] == "int":
            kw["axis"] = axes[0]
        elif op["_how"] == "tuple":
            kw["axis"] = tuple(axes)
        if op["_q"]:
            q = self.quaternion.as_quat_array(data)
            q = self.keep(lay(q, op["_lay"]))
            qax = nd - 1
        else:
            qax = op["_qax"] % nd
            q = self.keep(lay(place(data, qax), op["_lay"]))
            if r.random() < 0.1:
                q = q.tolist()
            if op["_qax"] != -1:
                kw["qaxis"] = op["_qax"]
        res, got = self.call(self.rbm.qmean, q, **kw)
        if not self.outcome("C17", op, want, res, got):
            return
        if op["_q"]:
            got = dequat(got)
        else:
            n = sum(k - 1 < qax for k in op["axes"])
            got = np.asarray(got)
            if got.ndim != nd - len(axes) or got.shape[qax - n] != 4:
                return self.note("C17", f"qmean gave shape {got.shape}")
            got = np.moveaxis(got, qax - n, -1)
        if got is None or got.shape != (*want["sh"], 4):
            return self.note("C17", "qmean gave shape "
                             f"{None if got is None else got.shape}")
        for g, w in zip(got.reshape(-1, 4), want["el"]):
            self.optimum("C17", op, g, w)

    def stamped(self, arr):
        """Unit quaternions, components last."""
        return either_sign(np.array(
            [quat(q) for q in arr["vecs"]]).reshape(*arr["rsh"], 4))

    def interpolated(self, op, got, want):
        """got: components last."""
        if got is None or got.shape != (*want["rsh"], 4):
            return self.note(
                "C17", f"{op['op']} gave shape "
                f"{None if got is None else got.shape}, expected "
                f"{want['rsh']}")
        for g, w in zip(got.reshape(-1, 4), want["vecs"]):
            if w == []:
                continue
            if not same_rotation(g, quat(w)):
                return self.note("C17", f"{op['op']} gave {g.tolist()}, "
                                        f"expected {w}")

    def p_qinterp(self, op, want):
        arr = op["arr"]
        clock = Clock(op["_clock"])
        data = self.stamped(arr)
        nd = data.ndim
        tp = arr["tpos"] - 1
        kw = {}
        if op["_q"]:
            q = lay(self.quaternion.as_quat_array(data), op["_lay"])
            kw["axis"] = tp - (nd - 1) if op["_neg"] else tp
        else:
            qax = op["_qax"]
            q = lay(place(data, qax), op["_lay"])
            ax = tp + (qax <= tp)
            kw["axis"] = ax - nd if op["_neg"] else ax
            kw["qaxis"] = qax - nd if op["_neg"] else qax
        self.keep(q)
        t_in = self.keep(clock.stamps(arr["ts"], op["_va"]))
        t_out = self.keep(clock.stamps(op["out"], op["_vb"]))
        if op["_list"] and t_in.dtype.kind != "M":
            t_in, t_out = t_in.tolist(), t_out.tolist()
            if not op["_q"]:
                q = q.tolist()
        if kw["axis"] == 0:
            del kw["axis"]
        res, got = self.call(self.rbm.qinterp, q, t_in, t_out, **kw)
        if self.outcome("C17", op, want, res, got):
            if op["_q"]:
                got = dequat(got)
            else:
                got = np.asarray(got)
                if got.ndim != nd:
                    return self.note("C17", f"qinterp gave {got.shape}")
                got = np.moveaxis(got, op["_qax"], -1)
            self.interpolated(op, got, want)

    def p_laqinterp(self, op, want):
        xr = self.xr
        da, arr = op["da"], op["da"]["arr"]
        clock = Clock(op["_clock"])
        data = self.stamped(arr)
        dims = list(da["rdims"])
        tdim = dims[arr["tpos"] - 1]
        dims.insert(op["_qax"], da["sdim"])
        data = place(data, op["_qax"])
        size = dict(zip(dims, data.shape))

        def cval(c, v):
            return float(v) if c["num"] else "s%d" % v

        coords = {tdim: clock.stamps(arr["ts"], op["_va"])}
        for c in da["coords"]:
            coords[c["n"]] = (tuple(c["dims"]), np.array(
                [cval(c, v) for v in c["vals"]]).reshape(
                    [size[d] for d in c["dims"]]))
        x = self.keep(xr.DataArray(data, coords, dims, op["_name"],
                                   {"unit": "-", "n": 1}))
        out = self.keep(clock.stamps(op["out"], op["_vb"]))
        kw = {} if da["sdim"] == "quaternion_axis" else dict(
            qdim=da["sdim"])
        how = op["_how"]
        t = out
        if how == "da":
            t = xr.DataArray(out, {tdim: out}, (tdim,))
        elif how == "index":
            import pandas as pd

            t = pd.Index(out)
        if op["_bad"]:
            if op["_bad"] == "nodim":
                a, k = ({"nope": t},), kw
            elif op["_bad"] == "noqdim":
                a, k = ({tdim: t},), dict(qdim="nope")
            elif op["_bad"] == "nd":
                a, k = ({tdim: np.stack((out, out))},), kw
            else:
                a, k = ({tdim: t, da["sdim"]: t},), kw
            res, got = self.call(x.rbm.qinterp, *a, **k)
            if res == "ok":
                self.note("C17", f"labelled qinterp accepted {op['_bad']}")
            return
        if how == "kw":
            res, got = self.call(x.rbm.qinterp, **{tdim: t}, **kw)
        else:
            res, got = self.call(x.rbm.qinterp, {tdim: t}, **kw)
        if not self.outcome("C17", op, want, res, got):
            return
        if not (isinstance(got, xr.DataArray) and got.dims == x.dims
                and got.name == x.name and dict(got.attrs) == dict(x.attrs)
                and set(got.coords) == set(x.coords)):
            return self.note("C17", f"labelled qinterp gave {got}")
        if not np.array_equal(
                np.asarray(got[tdim].values).astype(out.dtype), out):
            return self.note("C17", "labelled qinterp: wrong coordinate "
                                    f"{got[tdim].values}, wanted {out}")
        self.interpolated(op, np.moveaxis(got.values, op["_qax"], -1), want)
        for c, w in zip(da["coords"], want["coords"]):
            g = got.coords[c["n"]]
            if tuple(g.dims) != tuple(c["dims"]):
                self.note("C17", f"qinterp: coordinate {c['n']} has "
                                 f"{g.dims}")
                continue
            vals = g.values.ravel()
            if len(vals) != len(w["vals"]):
                self.note("C17", f"qinterp: coordinate {c['n']} has "
                                 f"{len(vals)} values")
                continue
            for a, b in zip(vals, w["vals"]):
                if b == []:
                    continue
                if not (abs(a - b[0] / b[1]) < 1e-6 if c["num"]
                        else a == "s%d" % b[0]):
                    self.note("C17", f"qinterp: coordinate {c['n']} is "
                                     f"{vals.tolist()}, expected "
                                     f"{w['vals']}")
                    break

    def p_euler(self, op, want):
        def ang(A):
            return np.array([2 * math.atan2(n, m) for m, n in A["el"]],
                            float).reshape(A["sh"])

        A = [None if op[k]["sh"] == [-1] else ang(op[k])
             for k in ("roll", "pitch", "yaw")]
        ax = op["_ax"]
        kw = {}
        if op["_rpy"]:
            kw["rpy"] = self.keep(np.stack(A, ax))
            if op["both"]:
                kw["pitch"] = A[1]
        else:
            for k, a in zip(("roll", "pitch", "yaw"), A):
                if a is not None:
                    kw[k] = self.keep(a)
        if op["_list"]:
            kw = {k: v.tolist() for k, v in kw.items()}
        if not op["_def"]:
            kw["order"] = "".join(op["order"])
        if op["_ret"]:
            kw["return_quaternion"] = True
        if ax != -1:
            kw["axis"] = ax
        res, got = self.call(self.rbm.from_euler_angles, **kw)
        if self.outcome("C17", op, want, res, got):
            w = np.array([quat(q) for q in want["el"]]).reshape(
                *want["sh"], 4)
            if op["_ret"]:
                got = dequat(got)
            else:
                got = np.asarray(got)
                if got.ndim == len(want["sh"]) + 1:
                    got = np.moveaxis(got, ax, -1)
            if got is None:
                return self.note("C17", "from_euler_angles: wrong dtype")
            self.value("C17", op, got, w, rot=True)

    # -- C18
    @staticmethod
    def surd(s):
        return s[0] / s[1] * math.sqrt(s[2])

    def angle(self, a):
        return math.atan2(self.surd(a[1]), self.surd(a[0]))

    def floats(self, sys, p, turn=0.0):
        if sys == "polar":
            return [self.surd(p[0]), self.angle(p[1]) + turn]
        if sys == "spherical":
            return [self.surd(p[0]), self.angle(p[1]),
                    self.angle(p[2]) + turn]
        return [self.surd(s) for s in p]

    def same_point(self, sys, got, want):
        d = np.asarray(got, float) - np.asarray(want, float)
        if sys in ("polar", "spherical"):
            d[-1] = math.remainder(d[-1], 2 * math.pi)
        return bool(np.all(np.abs(d) < 1e-9))

    def p_coords(self, op, want):
        rbm, xr = self.rbm, self.xr
        turn = 2 * math.pi * op["_turn"]
        data = np.array([self.floats(op["_sys"], p, turn)
                         for p in op["pts"]], float)
        data = data.reshape(*op["_sh"], op["n"])
        if op["_int"] and np.all(data == np.round(data)):
            data = data.astype(np.int64)
        ax, nd = op["ax"], data.ndim
        data = lay(place(data, ax), op["_lay"])
        kw = {}
        if op["explicit"]:
            kw["outof"] = op["explicit"]
        if op["_lab"]:
            size = dict(zip(op["dims"], data.shape))
            coords = {}
            for c in op["coords"]:
                n = int(np.prod([size[d] for d in c["dims"]]))
                coords[c["n"]] = (tuple(c["dims"]), np.arange(
                    3.0, 3.0 + n).reshape([size[d] for d in c["dims"]]))
            attrs = {"a": 1}
            if op["sysattr"]:
                attrs["coordinate_system"] = op["sysattr"]
            attrs["z"] = "last"
            x = xr.DataArray(data, coords, op["dims"], op["_name"], attrs)
            if not (op["replace"] and op["_defrep"]):
                kw["replace_dim"] = op["replace"]
            if op["_how"] == "dim":
                kw["dim"] = op["dims"][ax]
        else:
            x = data
            if op["_how"] == "dim":
                kw["axis"] = ax
        if op["_how"] == "axis" or (op["_how"] == "def" and ax != nd - 1):
            kw["axis"] = ax
        elif op["_how"] == "negax":
            kw["axis"] = ax - nd
        self.keep(x)
        if op["_list"] and not op["_lab"]:
            x = x.tolist()
        if op["_form"] == "direct":
            fn = getattr(rbm.coordinate_systems,
                         f"{op['explicit']}_to_{op['into']}")
            kw.pop("outof")
            res, got = self.call(fn, x, **kw)
        else:
            res, got = self.call(rbm.transform_coordinates, x, op["into"],
                                 **kw)
        if not self.outcome("C18", op, want, res, got):
            return
        vals = got.values if op["_lab"] and hasattr(got, "dims") \
            else np.asarray(got)
        if vals.shape != data.shape:
            return self.note("C18", f"coords: shape {vals.shape}")
        flat = np.moveaxis(vals, ax, -1).reshape(-1, op["n"])
        for g, w in zip(flat, want["pts"]):
            w = self.floats(op["into"], w)
            if not self.same_point(op["into"], g, w):
                return self.note(
                    "C18", f"{op['explicit'] or op['sysattr']} to "
                    f"{op['into']} gave {g.tolist()}, expected {w}")
        if not op["_lab"]:
            return
        if not isinstance(got, xr.DataArray):
            return self.note("C18", "result is not labelled")
        exp = dict(x.attrs)
        if want["sysattr"]:
            exp["coordinate_system"] = want["sysattr"]
        if list(got.dims) != want["dims"] or got.name != x.name or \
                dict(got.attrs) != exp:
            return self.note(
                "C18", f"coords: {got.dims} {got.name} {got.attrs}, "
                f"expected {want['dims']} {x.name} {exp}")
        keep = {c["n"] for c, k in zip(op["coords"], want["keep"]) if k}
        new = want["dims"][ax]
        if want["labels"]:
            keep.add(new)
        if set(got.coords) != keep:
            return self.note("C18", f"coords: coordinates "
                             f"{sorted(got.coords)}, expected {sorted(keep)}")
        for c in keep:
            if c == new and want["labels"]:
                if got[c].values.tolist() != want["labels"]:
                    self.note("C18", f"coords: labels {got[c].values}, "
                                     f"expected {want['labels']}")
            elif not (got[c].dims == x[c].dims and np.array_equal(
                    got[c].values, x[c].values)):
                self.note("C18", f"coords: coordinate {c} changed")

    # -- C19
    def operand(self, vs, op, which):
        sh = op["_sh"]
        if which == 2 and int(np.prod(sh)) != len(vs):
            sh = [len(vs)] + [1] * (len(sh) - 1)
        a = np.array(vs, float if op["_float"] else int).reshape(*sh, 3)
        a = lay(place(a, op["_ax"]), op["_lay" if which == 1 else "_lay2"])
        if op["_lab" if which == 1 else "_lab2"] and op["_lab"]:
            dims = ["d%d" % k for k in range(len(sh))]
            dims.insert(op["_ax"], "cartesian_axis" if op["_float"] else "c")
            return self.keep(self.xr.DataArray(
                a, {"d0": (("d0",), np.arange(sh[0]))} if sh else {}, dims,
                "nm", {"k": 1}))
        return self.keep(a)

    def est_kw(self, op):
        nd = len(op["_sh"]) + 1
        if op["_how"] == "dim" and op["_lab"]:
            return dict(dim="cartesian_axis" if op["_float"] else "c")
        if op["_ax"] == nd - 1 and op["_how"] == "dim":
            return {}
        return dict(axis=op["_ax"] - nd if op["_how"] == "negax"
                    else op["_ax"])

    def estimate(self, fn, op, **more):
        v1 = self.operand(op["v1"], op, 1)
        v2 = self.operand(op["v2"], op, 2)
        if op["_list"] and not op["_lab"]:
            v1, v2 = v1.tolist(), v2.tolist()
        return self.call(fn, v1, v2, **self.est_kw(op), **more)

    def labels(self, op, name, x):
        """Labelled results for labelled input; returns the numbers."""
        if not op["_lab"]:
            if hasattr(x, "dims"):
                self.note("C19", f"{op['op']}: labelled {name} for a plain "
                                 "array")
            return np.asarray(x, float)
        d, l = (("quaternion_axis", list("wxyz")) if name == "rotation"
                else ("cartesian_axis", list("xyz")))
        if not (hasattr(x, "dims") and x.dims == (d,)
                and x[d].values.tolist() == l and x.name == name):
            self.note("C19", f"{op['op']}: {name} is {x}")
        return np.asarray(x, float)

    def p_bfr(self, op, want):
        res, got = self.estimate(self.rbm.best_fit_rotation, op)
        if self.outcome("C19", op, want, res, got):
            self.optimum("C19", op, self.labels(op, "rotation", got),
                         want["rot"])

    def p_bft(self, op, want):
        res, got = self.estimate(self.rbm.best_fit_transform, op)
        if not self.outcome("C19", op, want, res, got):
            return
        t = self.labels(op, "translation", got[0])
        q = self.labels(op, "rotation", got[1])
        self.optimum("C19", op, q, want["rot"])
        if self.bad:
            return
        if want["rot"]["cert"]:
            exp = vec(want["t"])
        else:
            exp = vec(want["m2"]) - rotate(q, vec(want["m1"]))
        self.value("C19", op, t, exp)

    def p_icp(self, op, want):
        more = {}
        if op["_init"]:
            t, r = vec(op["init"]["t"]), quat(op["init"]["r"])
            if op["_initform"] == "list":
                t, r = t.tolist(), r.tolist()
            elif op["_initform"] == "da":
                t, r = self.xr.DataArray(t), self.xr.DataArray(r)
            more["init_transform"] = self.keep((t, r))
        elif op["init"]["t"] != [0, 0, 0, 1] or \
                op["init"]["r"] != [1, 0, 0, 0]:
            want = {"res": "any"}
        res, got = self.estimate(self.rbm.iterative_closest_point, op,
                                 **more)
        if want["res"] == "any":
            want = {"res": "ok", "any": True}
        if not self.outcome("C19", op, want, res, got):
            return
        t = self.labels(op, "translation", got[0])
        q = self.labels(op, "rotation", got[1])
        if t.shape != (3,) or q.shape != (4,) or not abs(q @ q - 1) < 1e-6:
            return self.note("C19", f"icp gave {t}, {q}")
        if want.get("any"):
            return
        if not (same_rotation(q, quat(want["r"])) and near(t, vec(want["t"]),
                                                            1e-7)):
            self.note("C19", f"icp gave {t.tolist()} {q.tolist()}, expected "
                             f"{want['t']} {want['r']}")

    def p_arc(self, op, want):
        res, got = self.estimate(self.rbm.shortest_arc_rotation, op)
        if not self.outcome("C19", op, want, res, got):
            return
        ax = op["_ax"]
        nd = len(op["_sh"]) + 1
        if op["_lab"]:
            dims = ["d%d" % k for k in range(nd - 1)]
            dims.insert(ax, "quaternion_axis")
            if not (hasattr(got, "dims") and list(got.dims) == dims
                    and (nd == 1 or "d0" in got.coords)):
                return self.note("C19", f"shortest_arc gave {got}")
        got = np.asarray(got)
        if got.ndim != nd or got.shape[ax] != 4:
            return self.note("C19", f"shortest_arc: shape {got.shape}")
        got = np.moveaxis(got, ax, -1)
        if got.shape != (*op["_sh"], 4):
            return self.note("C19", f"shortest_arc: shape {got.shape}")
        for q, a, v1, v2 in zip(got.reshape(-1, 4), want["el"], op["v1"],
                                op["v2"]):
            v1, v2 = np.array(v1, float), np.array(v2, float)
            ok = abs(q @ q - 1) < 1e-9
            u = rotate(q, v1 / np.linalg.norm(v1)) if ok else v1
            ok = ok and near(u, v2 / np.linalg.norm(v2), 1e-7)
            # no rotation about the direction itself
            ok = ok and abs(q[1:] @ v1) < 1e-7 and abs(q[1:] @ v2) < 1e-7
            w2 = (1 + a["dot"] / math.sqrt(a["n"])) / 2
            ok = ok and abs(q[0] ** 2 - w2) < 1e-7
            if not ok:
                return self.note("C19", f"shortest arc of {v1} and {v2} is "
                                        f"{q.tolist()}")


def rotate(q, v):
    w, r = q[0], q[1:]
    return v + 2 * np.cross(r, w * v + np.cross(r, v)) / (q @ q)


_player = None


def player():
    global _player
    if _player is None:
        _player = Player()
    return _player


def replay(scen, outs):
    p = player()
    out = []
    for op, want in zip(scen["ops"], outs):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for props, what in p.step(op, want):
                key = re.sub(r"[-\d.e+]+", "#", what)[:120]
                out.append(Violation(props, what, {"op": op, "want": want},
                                     key))
    return out, len(outs)


# ------------------------------------------------------------ exhaustive
COORDS_CFG = """SPECIFICATION Spec
CONSTANTS M = {m}
 D = {d}
INVARIANTS Theorems Emit
CHECK_DEADLOCK FALSE
"""
ALG_CFG = """SPECIFICATION Spec
CONSTANTS M = {m}
INVARIANTS Theorems Emit
CHECK_DEADLOCK FALSE
"""
SYS = {"polar": ("cartesian", "polar"), "sph": ("cartesian", "spherical"),
       "pcart": ("polar", "cartesian"), "scart": ("spherical", "cartesian")}


def explore_coords(report, m, d):
    r = run_tlc("MCCoords", COORDS_CFG.format(m=m, d=d))
    report.tlc(r)
    recs = list(r.records("K"))
    p = player()
    cs = p.rbm.coordinate_systems
    out = []
    for kind, (frm, into) in SYS.items():
        rs = [x for x in recs if x["k"] == kind]
        pts = np.array([p.floats(frm, x["p"]) for x in rs])
        want = [p.floats(into, x["q"]) for x in rs]
        to = getattr(cs, f"{frm}_to_{into}")
        back = getattr(cs, f"{into}_to_{frm}")
        got = to(pts)
        again = back(got)
        for g, w, b, x, o in zip(got, want, again, rs, pts):
            if not p.same_point(into, g, w):
                out.append(Violation({"C18"}, f"{frm} {o} to {into} gave "
                                     f"{g}, expected {w}", x))
            if not p.same_point(frm, b, o):
                out.append(Violation({"C18"}, f"{frm} {o} to {into} and back"
                                     f" gave {b}", x))
    report.add(out)
    report.traces += len(recs)
    report.count("points_enumerated", len(recs))
    if recs:
        report.sample(recs[len(recs) // 2])


def explore_alg(report, m):
    r = run_tlc("MCAlg", ALG_CFG.format(m=m), heap="4g")
    report.tlc(r)
    p = player()
    rbm = p.rbm
    out = []
    prods = list(r.records("M"))
    if prods:
        a = np.array([x["a"][:4] for x in prods], float)
        b = np.array([x["b"][:4] for x in prods], float)
        v = np.array([vec(x["v"]) for x in prods])
        ab = rbm.qmul(a, b)
        wab = np.array([qval(x["ab"]) for x in prods])
        inv = rbm.qinv(a)
        winv = np.array([qval(x["inv"]) for x in prods])
        rv = rbm.rotate_vectors(ab, v)
        wrv = np.array([vec(x["rv"]) for x in prods])
        rr = rbm.rotate_vectors(a, rbm.rotate_vectors(b, v))
        for k, x in enumerate(prods):
            for name, g, w in (("qmul", ab, wab), ("qinv", inv, winv),
                               ("rotate_vectors", rv, wrv),
                               ("successive rotation", rr, wrv)):
                if not near(g[k], w[k]):
                    out.append(Violation(
                        {"C17"}, f"{name} of {x} gave {g[k]}", x,
                        key=f"exhaustive {name}"))
    fits = list(r.records("F"))

    def do(part):
        vs = []
        q = player()
        for x in part:
            for nm, op, want in (("bfr", x, x["bfr"]), ("bft", x, x["bft"])):
                o = dict(op=nm, v1=x["v1"], v2=x["v2"], _sh=[len(x["v1"])],
                         _ax=1, _lab=False, _lab2=False, _how="dim",
                         _lay="C", _lay2="C", _float=True, _list=False)
                for props, what in q.step(o, want):
                    vs.append(Violation(props, what, x,
                                        key=f"exhaustive {nm}"))
            if len(vs) > 20:
                break
        return vs

    for vs in fork_map(do, chunks(fits, NPROC * 2)):
        out += vs
    report.add(out)
    report.traces += len(prods) + len(fits)
    report.count("products_enumerated", len(prods))
    report.count("fits_enumerated", len(fits))
    if prods:
        report.sample(prods[len(prods) // 2])
    if fits:
        report.sample(fits[len(fits) // 2])


W17 = dict(qmul=3, qinv=2, rot=4, qmean=4, qinterp=3, laqinterp=3, euler=3)
W18 = dict(coords=1)
W19 = dict(bfr=2, bft=2, icp=1, arc=2)
WEIGHTS = {"C17": W17, "C18": W18, "C19": W19,
           "C13": {**W17, **W18, **W19}}
N_RANDOM = {"quick": 500, "thorough": 12000}


def check(report):
    prop, quick = report.prop, report.tier == "quick"
    if prop == "C18":
        explore_coords(report, *((3, 2) if quick else (4, 3)))
    if prop in ("C17", "C19"):
        explore_alg(report, 1 if quick else 2)
    n = N_RANDOM[report.tier]
    if prop == "C13":
        n //= 3
    scens = []
    for k in range(n):
        rng = random.Random(f"{SEED}-alg-{prop}-{k}")
        scens.append(AlgGen(rng, WEIGHTS[prop]).history())
    run_random(report, scens, module="AlgRun", replay=replay)
