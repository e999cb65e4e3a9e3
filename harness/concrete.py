"""Turning values of the specification into library inputs and back."""
import zlib

import numpy as np

# absolute and relative tolerance for values that are exact in the spec
ATOL, RTOL = 1e-7, 1e-7


def vec(v):
    """<<x, y, z, d>> -> float array."""
    return np.array(v[:3], dtype=float) / v[3]


def vecs(vs):
    return np.array([vec(v) for v in vs]).reshape(len(vs), 3)


def quat(q):
    q = np.array(q, dtype=float)
    return q / np.sqrt(q @ q)


def quats(qs):
    return np.array([quat(q) for q in qs]).reshape(len(qs), 4)


def either_sign(q):
    """q and -q are the same rotation: recordings (components last) come in
    all signs, half of them in arbitrary ones from sample to sample."""
    rng = np.random.default_rng(zlib.crc32(
        np.ascontiguousarray(np.round(q, 6) + 0.0).tobytes()))
    if rng.random() < 0.5:
        return q * rng.choice([1.0, 1.0, -1.0])
    return q * rng.choice([1.0, -1.0], np.shape(q)[:-1] + (1,))


PRESENTATIONS = (
    "list", "tuple", "readonly", "fortran", "strided", "backwards", "swapped",
    "float32", "whole", "pandas", "index")


def presented(x, salt=0):
    """The array as one of the kinds of objects that callers pass."""
    if not isinstance(x, np.ndarray) or x.ndim == 0:
        return x
    rng = np.random.default_rng(
        (zlib.crc32(np.ascontiguousarray(x).tobytes()), salt))
    if rng.random() < 0.5:
        return x
    how = PRESENTATIONS[rng.integers(len(PRESENTATIONS))]
    number = x.dtype.kind == "f"
    if how in ("list", "tuple"):
        return (list if how == "list" else tuple)(
            x.tolist() if x.dtype.kind != "M" else x)
    if how == "readonly":
        x = x.copy()
        x.flags.writeable = False
    elif how == "fortran":
        x = np.asfortranarray(x)
    elif how == "strided":
        x = np.repeat(x, 2, axis=0)[::2]
    elif how == "backwards":
        x = x[::-1].copy()[::-1]
    elif how == "swapped" and x.dtype.kind in "fi":
        x = x.astype(x.dtype.newbyteorder())
    elif how == "float32" and number and np.array_equal(
            x.astype(np.float32), x):
        x = x.astype(np.float32)
    elif how == "whole" and number and np.array_equal(np.round(x), x):
        x = x.astype(np.int64)
    elif how == "pandas" and x.ndim < 3:
        import pandas as pd

        # labels that are not positions
        labels = np.arange(len(x))[::-1] + 1
        x = (pd.Series if x.ndim == 1 else pd.DataFrame)(x, index=labels)
    elif how == "index" and x.ndim == 1:
        import pandas as pd

        x = pd.Index(x)
    return x


_CALLS = [0]


def unspoken(kw, **defaults):
    """The keywords, about half of those that have their default left out."""
    out = {}
    for k, v in kw.items():
        if k in defaults and (
                v is None if defaults[k] is None else
                isinstance(v, (bool, int, float, str)) and v == defaults[k]):
            _CALLS[0] += 1
            if zlib.crc32(b"%d" % _CALLS[0]) & 1:
                continue
        out[k] = v
    return out


def close(got, want):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        return False
    return bool(
        np.all(np.abs(got - want) <= ATOL + RTOL * np.abs(want).max(initial=0))
    )


def same_rotation(got, want):
    """Equal up to the sign of each quaternion (last axis)."""
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        return False
    if got.size == 0:
        return True
    s = np.sign(np.sum(got * want, axis=-1, keepdims=True))
    return bool(np.all(np.abs(s * got - want) <= ATOL))


class Clock:
    """Mapping of integer ticks to timestamps."""

    KINDS = ("int", "float", "tenth", "neg", "dt", "dtmix")

    def __init__(self, kind):
        self.kind = kind

    def stamps(self, ticks, variant=0):
        """Timestamps of one sequence; variant selects the dtype."""
        k = np.asarray(ticks, dtype=np.int64)
        if self.kind == "int":
            dtypes = (np.int64, np.float64, np.int32)
            return (k + 3).astype(dtypes[variant % 3])
        if self.kind == "float":
            return 100.0 + 0.25 * k
        if self.kind == "tenth":
            return 0.1 * k
        if self.kind == "neg":
            return -7.5 + 0.5 * k
        base = np.datetime64("2020-02-03T04:05:06")
        if self.kind == "fine":  # not exact in seconds as floating point
            units = ("ns", "ms", "us")
            return (base + 100 * k.astype("timedelta64[ms]")).astype(
                f"datetime64[{units[variant % 3]}]"
            )
        if self.kind == "dt":
            return (base + 500 * k.astype("timedelta64[ms]")).astype(
                "datetime64[ns]"
            )
        if self.kind == "dtmix":
            units = ("ns", "ms", "s", "us")
            return (base + 2 * k.astype("timedelta64[s]")).astype(
                f"datetime64[{units[variant % 4]}]"
            )
        raise AssertionError(self.kind)

    @property
    def seconds(self):
        """Length of a tick in seconds (in units for plain numbers)."""
        return {"int": 1.0, "float": 0.25, "tenth": 0.1, "neg": 0.5,
                "dt": 0.5, "dtmix": 2.0, "fine": 0.1}[self.kind]

    def ticks(self, stamps):
        """Back to ticks (floats)."""
        s = np.asarray(stamps)
        if s.dtype.kind == "M":
            base = np.datetime64("2020-02-03T04:05:06").astype(
                "datetime64[ns]"
            )
            d = (s.astype("datetime64[ns]") - base).astype(np.int64)
            return d / (1e9 * self.seconds)
        off = {"int": -3.0, "float": -100.0, "tenth": 0.0, "neg": 7.5}
        if self.kind not in off:
            raise ValueError("not a datetime")
        return (s.astype(float) + off[self.kind]) / self.seconds


def same_stamps(clock, got, ticks):
    if got is None:
        return False
    try:
        t = clock.ticks(got)
    except Exception:
        return False
    return t.shape == (len(ticks),) and bool(
        np.all(np.abs(t - np.array(ticks, float)) < 1e-6)
    )
