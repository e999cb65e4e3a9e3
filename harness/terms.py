"""Numerical evaluation of the terms of spec/Terms.tla."""
import numpy as np

U = 0.01        # the small angle of the specification
RATE_RTOL = 2e-4  # accuracy of numerically differentiated rotations


def axis(x):
    x = np.array(x, float)
    return x / np.linalg.norm(x)


def qm(a, b):
    w, v = a[0], a[1:]
    return np.concatenate((
        [w * b[0] - v @ b[1:]], w * b[1:] + b[0] * v + np.cross(v, b[1:])))


def factor(f):
    if f["k"] == "c":
        q = np.array(f["q"], float)
        return q / np.linalg.norm(q)
    h = f["n"] * U / 2
    return np.concatenate(([np.cos(h)], np.sin(h) * axis(f["x"])))


def word(w):
    q = np.array([1.0, 0, 0, 0])
    for f in w:
        q = qm(q, factor(f))
    return q


def rotate(q, v):
    u = np.cross(q[1:], v)
    return v + 2 * (q[0] * u + np.cross(q[1:], u))


def term(x):
    """(value, bound on the deviation due to numerical differentiation)"""
    e = x["e"]
    if e == "v":
        return np.array(x["v"][:3], float) / x["v"][3], 0.0
    if e == "rate":
        r = U * x["n"] * axis(x["x"])
        return r, RATE_RTOL * np.linalg.norm(r)
    if e == "rot":
        v, b = term(x["x"])
        return rotate(word(x["w"]), v), b
    if e == "sum":
        vs = [term(y) for y in x["xs"]]
        return sum(v for v, _ in vs), sum(b for _, b in vs)
    if e == "scale":
        v, b = term(x["x"])
        r = x["r"][0] / x["r"][1]
        return r * v, abs(r) * b
    if e == "cross":
        a, ea = term(x["a"])
        b, eb = term(x["b"])
        return np.cross(a, b), (ea * np.linalg.norm(b)
                                + eb * np.linalg.norm(a))
    raise AssertionError(e)
