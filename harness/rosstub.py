"""Stand-ins for the ROS client libraries (none is installed here).

They follow the documented behaviour of rospy, tf2_ros, tf2_geometry_msgs,
rosbag and the message packages as far as a client can observe it, record
what they are asked to do and let a Scheduler decide when threads proceed.
"""
import copy
import io
import os
import pickle
import struct
import sys
import threading
import time
import types
from collections import namedtuple

import numpy as np


# ------------------------------------------------------------------- time
class _TVal:
    __slots__ = ("secs", "nsecs")

    def __init__(self, secs=0, nsecs=0):
        if not isinstance(secs, (int, np.integer)):
            if nsecs:
                raise ValueError(
                    "if secs is a float, nsecs cannot be set")
            f = float(secs)
            secs = int(f)
            nsecs = int((f - secs) * 1000000000)
        total = int(secs) * 10 ** 9 + int(nsecs)
        self.secs, self.nsecs = divmod(total, 10 ** 9)

    @classmethod
    def from_sec(cls, float_secs):
        secs = int(float_secs)
        nsecs = int((float_secs - secs) * 1000000000)
        return cls(secs, nsecs)

    @classmethod
    def from_nsec(cls, n):
        return cls(0, int(n))

    def to_sec(self):
        return float(self.secs) + float(self.nsecs) / 1e9

    def to_nsec(self):
        return self.secs * 10 ** 9 + self.nsecs

    def is_zero(self):
        return self.to_nsec() == 0

    def __bool__(self):
        return not self.is_zero()

    def __repr__(self):
        return f"{type(self).__name__}({self.secs}, {self.nsecs})"

    def __hash__(self):
        return hash(self.to_nsec())

    def __eq__(self, o):
        return isinstance(o, _TVal) and self.to_nsec() == o.to_nsec()

    def __lt__(self, o):
        return self.to_nsec() < o.to_nsec()

    def __le__(self, o):
        return self.to_nsec() <= o.to_nsec()

    def __gt__(self, o):
        return self.to_nsec() > o.to_nsec()

    def __ge__(self, o):
        return self.to_nsec() >= o.to_nsec()


class Duration(_TVal):
    __slots__ = ()

    def __add__(self, o):
        return type(o)(0, self.to_nsec() + o.to_nsec())

    def __sub__(self, o):
        return Duration(0, self.to_nsec() - o.to_nsec())

    def __mul__(self, k):
        return Duration(0, int(self.to_nsec() * k))


class Time(_TVal):
    __slots__ = ()

    def __init__(self, secs=0, nsecs=0):
        super().__init__(secs, nsecs)
        if self.secs < 0:
            raise TypeError("time values must be positive")

    def __add__(self, o):
        return Time(0, self.to_nsec() + o.to_nsec())

    def __sub__(self, o):
        d = self.to_nsec() - o.to_nsec()
        return Duration(0, d) if isinstance(o, Time) else Time(0, d)

    @staticmethod
    def now():
        return Time(1700000000, 0)


# --------------------------------------------------------------- messages
class Message:
    _fields = ()
    _type = ""
    _has_header = False

    def __init__(self, *args, **kw):
        if args and kw:
            raise TypeError("positional and keyword arguments mixed")
        if args and len(args) != len(self._fields):
            raise TypeError(
                f"Invalid number of arguments, args should be "
                f"{[f[0] for f in self._fields]} args are {args}")
        vals = dict(zip((f[0] for f in self._fields), args))
        vals.update(kw)
        for name, typ in self._fields:
            v = vals.pop(name, None)
            if v is None:
                v = _default(typ)
            object.__setattr__(self, name, v)
        if vals:
            raise AttributeError(f"{type(self).__name__} has no {vals}")

    def __setattr__(self, k, v):
        if k not in [f[0] for f in self._fields]:
            raise AttributeError(
                f"{type(self).__name__} object has no attribute {k!r}")
        object.__setattr__(self, k, v)

    def __eq__(self, o):
        return type(o) is type(self) and all(
            getattr(self, f) == getattr(o, f) for f, _ in self._fields)

    __hash__ = None

    def __repr__(self):
        return type(self).__name__ + repr(
            {f: getattr(self, f) for f, _ in self._fields})

    def serialize(self, buff):
        _put(buff, type(self), self)

    @property
    def __slots_names__(self):
        return [f[0] for f in self._fields]


def _default(typ):
    if isinstance(typ, list):
        return []
    if isinstance(typ, tuple):
        return [0.0] * typ[1]
    if isinstance(typ, type):
        return typ()
    return {"d": 0.0, "f": 0.0, "s": "", "I": 0, "i": 0, "B": 0, "?": False}[
        typ]


class SerializationError(Exception):
    pass


def _put(buff, typ, v):
    try:
        if isinstance(typ, list):
            buff.write(struct.pack("<I", len(v)))
            for x in v:
                _put(buff, typ[0], x)
        elif isinstance(typ, tuple):
            for x in v:
                _put(buff, typ[0], x)
        elif isinstance(typ, type) and issubclass(typ, _TVal):
            buff.write(struct.pack("<qq", v.secs, v.nsecs))
        elif isinstance(typ, type):
            for f, t in typ._fields:
                _put(buff, t, getattr(v, f))
        elif typ == "s":
            b = v.encode() if isinstance(v, str) else bytes(v)
            buff.write(struct.pack("<I", len(b)) + b)
        else:
            buff.write(struct.pack("<" + typ, v))
    except (struct.error, TypeError, AttributeError) as e:
        raise SerializationError(f"{typ} {v!r}: {e}")


def _msg(name, package, *fields):
    return type(name, (Message,), {
        "_fields": tuple(fields), "_type": f"{package}/{name}",
        "_has_header": any(f[0] == "header" for f in fields),
        "__module__": package + ".msg"})


def _messages():
    m = {}
    h = _msg("Header", "std_msgs", ("seq", "I"), ("stamp", Time),
             ("frame_id", "s"))
    rgba = _msg("ColorRGBA", "std_msgs", ("r", "f"), ("g", "f"), ("b", "f"),
                ("a", "f"))
    m["std_msgs"] = [h, rgba]
    g = "geometry_msgs"
    xyz = [("x", "d"), ("y", "d"), ("z", "d")]
    v3 = _msg("Vector3", g, *xyz)
    pt = _msg("Point", g, *xyz)
    q = _msg("Quaternion", g, *xyz, ("w", "d"))
    tf = _msg("Transform", g, ("translation", v3), ("rotation", q))
    pose = _msg("Pose", g, ("position", pt), ("orientation", q))
    tw = _msg("Twist", g, ("linear", v3), ("angular", v3))
    hd = ("header", h)
    posec = _msg("PoseWithCovariance", g, ("pose", pose),
                 ("covariance", ("d", 36)))
    twc = _msg("TwistWithCovariance", g, ("twist", tw),
               ("covariance", ("d", 36)))
    tfs = _msg("TransformStamped", g, hd, ("child_frame_id", "s"),
               ("transform", tf))
    m[g] = [
        v3, pt, q, tf, pose, tw, posec, twc, tfs,
        _msg("PointStamped", g, hd, ("point", pt)),
        _msg("PoseStamped", g, hd, ("pose", pose)),
        _msg("QuaternionStamped", g, hd, ("quaternion", q)),
        _msg("TwistStamped", g, hd, ("twist", tw)),
        _msg("Vector3Stamped", g, hd, ("vector", v3)),
    ]
    m["nav_msgs"] = [_msg(
        "Odometry", "nav_msgs", hd, ("child_frame_id", "s"),
        ("pose", posec), ("twist", twc))]
    marker = _msg(
        "Marker", "visualization_msgs", hd, ("ns", "s"), ("id", "i"),
        ("type", "i"), ("action", "i"), ("pose", pose), ("scale", v3),
        ("color", rgba), ("lifetime", Duration), ("frame_locked", "?"),
        ("points", [pt]), ("colors", [rgba]), ("text", "s"),
        ("mesh_resource", "s"), ("mesh_use_embedded_materials", "?"))
    for k, n in enumerate([
            "ARROW", "CUBE", "SPHERE", "CYLINDER", "LINE_STRIP", "LINE_LIST",
            "CUBE_LIST", "SPHERE_LIST", "POINTS", "TEXT_VIEW_FACING",
            "MESH_RESOURCE", "TRIANGLE_LIST"]):
        setattr(marker, n, k)
    marker.ADD, marker.MODIFY, marker.DELETE, marker.DELETEALL = 0, 0, 2, 3
    m["visualization_msgs"] = [marker]
    m["tf"] = [_msg("tfMessage", "tf", ("transforms", [tfs]))]
    m["tf2_msgs"] = [_msg("TFMessage", "tf2_msgs", ("transforms", [tfs]))]
    return m


MSGS = {c.__name__: c for cs in _messages().values() for c in cs}


# ---------------------------------------------------------------- world
class World:
    """What the clients did; reset for every scenario."""

    def __init__(self):
        self.log = []
        self.down = False
        self.sched = None
        self.master = None
        self.nodes = []

    def event(self, *e):
        self.log.append(e)


W = World()


def reset():
    global W
    W = World()
    return W


class Blocked(BaseException):
    pass


class Scheduler:
    """Threads of the code under test proceed only when granted a step; a
    step ends when the thread makes the next call into ROS, or ends."""

    TIMEOUT = 60
    PATIENCE = 100

    def __init__(self):
        self.cond = threading.Condition()
        self.parked = {}
        self.grant = {}
        self.ended = set()
        self.free = False
        self.ids = {}
        self.failed = {}
        self.mine = 0

    def adopt(self, thread):
        """Number of a thread that is about to run."""
        thread.scheduler = self
        with self.cond:
            i = len(self.ids) + 1
            self.ids[thread] = i
            return i

    def me(self):
        return self.ids.get(threading.current_thread())

    def park(self, what):
        i = self.me()
        if i is None:
            # the caller itself: nobody could stop a loop it has entered
            self.mine += 1
            if self.mine > self.PATIENCE:
                raise Blocked("the caller is kept in a loop")
            return
        with self.cond:
            if self.free:
                raise SystemExit
            self.parked[i] = what
            self.cond.notify_all()
            while not self.grant.get(i) and not self.free:
                if not self.cond.wait(self.TIMEOUT):
                    raise RuntimeError("scheduler: thread never resumed")
            if self.free:
                raise SystemExit
            self.grant[i] = False
            self.parked.pop(i, None)

    def end(self, i, failure=None):
        with self.cond:
            self.ended.add(i)
            if failure is not None:
                self.failed[i] = failure
            self.cond.notify_all()

    def quiet(self, i):
        """Wait until thread i is parked or has ended."""
        with self.cond:
            ok = self.cond.wait_for(
                lambda: i in self.ended or
                (i in self.parked and not self.grant.get(i)), self.TIMEOUT)
        if not ok:
            raise RuntimeError("scheduler: thread does not return")

    def step(self, i):
        """Let thread i make one step; returns what it is parked at."""
        self.quiet(i)
        with self.cond:
            if i in self.ended:
                return None
            self.grant[i] = True
            self.parked.pop(i, None)
            self.cond.notify_all()
        self.quiet(i)
        return self.parked.get(i)

    def release(self):
        with self.cond:
            self.free = True
            self.cond.notify_all()


_orig_run = threading.Thread.run
_orig_start = threading.Thread.start


def _run(self):
    s = W.sched
    i = s and s.ids.get(self)
    if not i:
        return _orig_run(self)
    err = None
    try:
        s.park("begin")
        _orig_run(self)
    except BaseException as e:
        err = e
    finally:
        s.end(i, err)


def _start(self):
    s = W.sched
    if s is not None and s.me() is None and s.recruit:
        s.adopt(self)
        self.daemon = True
    _orig_start(self)


_orig_wait = threading.Event.wait
_orig_sleep = time.sleep


def _idle(duration):
    W.event("sleep", float(duration), _who())
    _gate("sleep")


def _wait(self, timeout=None):
    """Waiting for an event is a way of sleeping."""
    if timeout is None or _adopted() is None:
        return _orig_wait(self, timeout)
    if not self.is_set():
        _idle(timeout)
    return self.is_set()


def _sleep(duration):
    if _adopted() is None:
        return _orig_sleep(duration)
    _idle(duration)


def _adopted():
    return getattr(threading.current_thread(), "scheduler", None)


def schedule():
    """A scheduler for the threads started from now on."""
    s = Scheduler()
    s.recruit = True
    W.sched = s
    threading.Thread.run = _run
    threading.Thread.start = _start
    threading.Event.wait = _wait
    time.sleep = _sleep
    return s


def unschedule():
    if W.sched is not None:
        W.sched.recruit = False
        W.sched.release()
        W.sched = None
    threading.Thread.run = _orig_run
    threading.Thread.start = _orig_start
    threading.Event.wait = _orig_wait
    time.sleep = _orig_sleep


def _abandon():
    """End the threads of schedules that are over."""
    s = getattr(threading.current_thread(), "scheduler", None)
    if s is not None and (s is not W.sched or s.free):
        raise SystemExit


def _who():
    _abandon()
    return W.sched.me() if W.sched is not None else None


def _gate(what):
    _abandon()
    if W.sched is not None:
        W.sched.park(what)


# ----------------------------------------------------------------- rospy
class Publisher:
    def __init__(self, name, data_class, subscriber_listener=None,
                 tcp_nodelay=False, latch=False, headers=None,
                 queue_size=None):
        if not isinstance(name, str) or not name:
            raise ValueError("topic name is not a non-empty string")
        if not (isinstance(data_class, type)
                and issubclass(data_class, Message)):
            raise ValueError("data_class parameter is not a message class")
        self.name, self.data_class, self.latch = name, data_class, latch
        W.event("advertise", name, data_class.__name__, latch)

    def publish(self, *args, **kw):
        if len(args) == 1 and not kw and isinstance(args[0], Message):
            msg = args[0]
            if type(msg) is not self.data_class:
                raise SerializationError("wrong message class")
        else:
            msg = self.data_class(*args, **kw)
        msg.serialize(io.BytesIO())
        W.event("publish", self.name, copy.deepcopy(msg), _who())
        _gate("publish")

    def unregister(self):
        W.event("unadvertise", self.name)

    def get_num_connections(self):
        return 1


class Subscriber:
    def __init__(self, name, data_class, callback=None, callback_args=None,
                 queue_size=None, buff_size=65536, tcp_nodelay=False):
        self.name, self.data_class = name, data_class
        self.callback, self.callback_args = callback, callback_args
        self.live = True
        W.event("subscribe", self)

    def unregister(self):
        self.live = False

    def deliver(self, msg):
        if not self.live or self.callback is None:
            return
        if self.callback_args is not None:
            self.callback(msg, self.callback_args)
        else:
            self.callback(msg)


def is_shutdown():
    _gate("is_shutdown")
    return W.down


class ROSInterruptException(Exception):
    pass


def sleep(duration):
    if isinstance(duration, _TVal):
        duration = duration.to_sec()
    W.event("sleep", float(duration), _who())
    _gate("sleep")
    if W.down:
        raise ROSInterruptException("ROS shutdown request")


def spin():
    while not W.down:
        _gate("spin")
        if W.sched is None or W.sched.free:
            return


class Rate:
    def __init__(self, hz, reset=False):
        self.sleep_dur = Duration.from_sec(1.0 / hz)

    def sleep(self):
        sleep(self.sleep_dur)

    def remaining(self):
        return self.sleep_dur


def signal_shutdown(reason=""):
    W.down = True


class _Master:
    def getPid(self):
        if W.master is None:
            raise ConnectionRefusedError(111, "Connection refused")
        return 4711


def init_node(name, argv=None, anonymous=False, **kw):
    if W.master is None:
        raise RuntimeError("unable to register with master")
    W.nodes.append(name)


def _module(name, **attrs):
    m = types.ModuleType(name)
    m.__dict__.update(attrs)
    sys.modules[name] = m
    if "." in name:
        parent, _, child = name.rpartition(".")
        setattr(sys.modules[parent], child, m)
    return m


# ------------------------------------------------------------------ tf2
class TransformException(Exception):
    pass


class LookupException(TransformException):
    pass


class ConnectivityException(TransformException):
    pass


class ExtrapolationException(TransformException):
    pass


def _mul(a, b):
    return np.array([
        a[0]*b[0] - a[1]*b[1] - a[2]*b[2] - a[3]*b[3],
        a[0]*b[1] + a[1]*b[0] + a[2]*b[3] - a[3]*b[2],
        a[0]*b[2] - a[1]*b[3] + a[2]*b[0] + a[3]*b[1],
        a[0]*b[3] + a[1]*b[2] - a[2]*b[1] + a[3]*b[0]])


def _rot(q, v):
    p = _mul(_mul(q, np.array([0.0, *v])), q * [1, -1, -1, -1])
    return p[1:]


def _slerp(a, b, u):
    d = a @ b
    if d < 0:
        a, d = -a, -d
    th = np.arccos(min(1.0, d))
    if th < 1e-9:
        return a
    return (np.sin((1 - u) * th) * a + np.sin(u * th) * b) / np.sin(th)


class Buffer:
    """tf2: a tree of transforms; 10 s of history unless told otherwise."""

    def __init__(self, cache_time=None, debug=True):
        if cache_time is None:
            cache_time = Duration(10)
        if not isinstance(cache_time, Duration):
            raise TypeError("cache_time must be a rospy.Duration")
        self.cache = cache_time.to_nsec()
        self.static = {}
        self.moving = {}
        self.parent = {}
        W.event("buffer", self)

    def _read(self, m):
        t, r = m.transform.translation, m.transform.rotation
        m.serialize(io.BytesIO())
        t = np.array([t.x, t.y, t.z], float)
        r = np.array([r.w, r.x, r.y, r.z], float)
        c, p = m.child_frame_id, m.header.frame_id
        if not c or not p or c == p or np.isnan(t).any() or \
                abs(r @ r - 1) > 1e-3:
            return None
        return p, c, m.header.stamp.to_nsec(), t, r

    def set_transform(self, transform, authority):
        W.event("set_transform", copy.deepcopy(transform), self)
        x = self._read(transform)
        if x is None:
            return
        p, c, ns, t, r = x
        seq = self.moving.setdefault(c, [])
        if seq and seq[-1][0] > ns + self.cache:
            return
        k = len(seq)
        while k and seq[k - 1][0] > ns:
            k -= 1
        seq.insert(k, (ns, t, r))
        while seq[0][0] + self.cache < seq[-1][0]:
            seq.pop(0)
        self.parent[c] = p

    def set_transform_static(self, transform, authority):
        W.event("set_transform_static", copy.deepcopy(transform), self)
        x = self._read(transform)
        if x is None:
            return
        p, c, _, t, r = x
        self.static[c] = (t, r)
        self.parent[c] = p

    def _chain(self, f):
        out = [f]
        while out[-1] in self.parent:
            out.append(self.parent[out[-1]])
        return out

    def _at(self, c, ns):
        if c in self.static:
            return self.static[c]
        seq = self.moving[c]
        if ns < seq[0][0] - 1000 or ns > seq[-1][0] + 1000:
            raise ExtrapolationException(f"{c}: {ns} out of range")
        ns = min(max(ns, seq[0][0]), seq[-1][0])
        for k, (s, t, r) in enumerate(seq):
            if abs(s - ns) <= 1000:
                return t, r
            if s > ns:
                s0, t0, r0 = seq[k - 1]
                u = (ns - s0) / (s - s0)
                return (1 - u) * t0 + u * t, _slerp(r0, r, u)
        raise AssertionError

    def lookup_transform(self, target_frame, source_frame, time,
                         timeout=Duration(0)):
        if not isinstance(time, Time):
            raise TypeError("time must be a rospy.Time")
        known = set(self.parent) | set(self.parent.values())
        for f in (target_frame, source_frame):
            if f not in known:
                raise LookupException(f"{f} does not exist")
        a, b = self._chain(source_frame), self._chain(target_frame)
        if a[-1] != b[-1]:
            raise ConnectivityException("not in the same tree")
        while len(a) > 1 and len(b) > 1 and a[-2] == b[-2]:
            a.pop()
            b.pop()
        path = a[:-1] + b[:-1]
        ns = time.to_nsec()
        if ns == 0:
            last = [self.moving[c][-1][0] for c in path if c in self.moving]
            ns = min(last) if last else 0
        t, r = np.zeros(3), np.array([1.0, 0, 0, 0])
        for c in a[:-1]:
            t1, r1 = self._at(c, ns)
            t, r = t1 + _rot(r1, t), _mul(r1, r)
        t2, r2 = np.zeros(3), np.array([1.0, 0, 0, 0])
        for c in b[:-1]:
            t1, r1 = self._at(c, ns)
            t2, r2 = t1 + _rot(r1, t2), _mul(r1, r2)
        inv = r2 * [1, -1, -1, -1]
        t, r = _rot(inv, t - t2), _mul(inv, r)
        m = MSGS["TransformStamped"]()
        m.header.stamp = Time(0, ns)
        m.header.frame_id = target_frame
        m.child_frame_id = source_frame
        m.transform.translation = MSGS["Vector3"](*map(float, t))
        m.transform.rotation = MSGS["Quaternion"](
            *map(float, (r[1], r[2], r[3], r[0])))
        return m

    def can_transform(self, target_frame, source_frame, time,
                      timeout=Duration(0), return_debug_tuple=False):
        try:
            self.lookup_transform(target_frame, source_frame, time)
            return True
        except TransformException:
            return False


class _Broadcaster:
    kind = "tf"

    def __init__(self):
        W.event("broadcaster", self.kind, self)

    def sendTransform(self, transform):
        ms = transform if isinstance(transform, list) else [transform]
        for m in ms:
            m.serialize(io.BytesIO())
        for m in ms:
            W.event(self.kind, copy.deepcopy(m), _who())
        _gate("sendTransform")


class TransformBroadcaster(_Broadcaster):
    kind = "tf"


class StaticTransformBroadcaster(_Broadcaster):
    kind = "tf_static"


def _tq(transform):
    t, r = transform.transform.translation, transform.transform.rotation
    return (np.array([t.x, t.y, t.z], float),
            np.array([r.w, r.x, r.y, r.z], float))


def do_transform_vector3(v, transform):
    _, q = _tq(transform)
    out = MSGS["Vector3Stamped"]()
    out.header = copy.deepcopy(transform.header)
    out.vector = MSGS["Vector3"](
        *map(float, _rot(q, [v.vector.x, v.vector.y, v.vector.z])))
    return out


def do_transform_point(p, transform):
    t, q = _tq(transform)
    out = MSGS["PointStamped"]()
    out.header = copy.deepcopy(transform.header)
    out.point = MSGS["Point"](
        *map(float, t + _rot(q, [p.point.x, p.point.y, p.point.z])))
    return out


def do_transform_pose(p, transform):
    t, q = _tq(transform)
    a, o = p.pose.position, p.pose.orientation
    out = MSGS["PoseStamped"]()
    out.header = copy.deepcopy(transform.header)
    out.pose.position = MSGS["Point"](
        *map(float, t + _rot(q, [a.x, a.y, a.z])))
    r = _mul(q, np.array([o.w, o.x, o.y, o.z], float))
    out.pose.orientation = MSGS["Quaternion"](
        *map(float, (r[1], r[2], r[3], r[0])))
    return out


# ---------------------------------------------------------------- rosbag
TypesAndTopics = namedtuple("TypesAndTopicsTuple", ["msg_types", "topics"])
TopicTuple = namedtuple(
    "TopicTuple", ["msg_type", "message_count", "connections", "frequency"])
BagMessage = namedtuple("BagMessage", ["topic", "message", "timestamp"])


class Bag:
    """A bag file: (topic, message, receive time) in the order of time."""

    now = 1700000000 * 10 ** 9

    def __init__(self, f, mode="r", *a, **k):
        if not f:
            raise ValueError("filename (or stream) is invalid")
        if mode not in ("r", "w", "a"):
            raise ValueError("mode must be one of r, w, a")
        self.filename, self.mode = f, mode
        self.closed = False
        if mode == "w":
            open(f, "wb").close()
            self.items = []
        else:
            with open(f, "rb") as fd:
                self.items = pickle.load(fd)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def _open(self):
        if self.closed:
            raise ValueError("I/O operation on closed bag")

    def write(self, topic, msg, t=None, raw=False):
        self._open()
        if self.mode == "r":
            raise ValueError("bag opened for reading")
        if not topic:
            raise ValueError("topic is invalid")
        msg.serialize(io.BytesIO())
        if t is None:
            Bag.now += 1000
            t = Time(0, Bag.now)
        elif not isinstance(t, Time):
            raise TypeError("t must be a Time")
        self.items.append((topic, _freeze(msg), t.to_nsec()))

    def _matching(self, topics):
        if topics is None:
            return self.items
        if isinstance(topics, str):
            topics = [topics]
        return [i for i in self.items if i[0] in topics]

    def read_messages(self, topics=None, start_time=None, end_time=None,
                      connection_filter=None, raw=False):
        self._open()
        for topic, m, ns in sorted(self._matching(topics),
                                   key=lambda i: i[2]):
            yield BagMessage(topic, _thaw(m), Time(0, ns))

    def get_type_and_topic_info(self, topic_filters=None):
        self._open()
        topics, types_ = {}, {}
        for topic, m, _ in self._matching(topic_filters):
            t = MSGS[m[0]]._type
            types_[t] = "md5"
            c = topics[topic].message_count if topic in topics else 0
            topics[topic] = TopicTuple(t, c + 1, 1, None)
        return TypesAndTopics(types_, topics)

    def get_message_count(self, topic_filters=None):
        return len(self._matching(topic_filters))

    def close(self):
        if not self.closed and self.mode != "r":
            with open(self.filename, "wb") as fd:
                pickle.dump(self.items, fd)
        self.closed = True


def _freeze(v):
    if isinstance(v, Message):
        return (type(v).__name__,
                [_freeze(getattr(v, f)) for f, _ in v._fields])
    if isinstance(v, _TVal):
        return ("#" + type(v).__name__, v.to_nsec())
    if isinstance(v, (list, tuple)):
        return [_freeze(x) for x in v]
    if isinstance(v, np.generic):
        return v.item()
    if isinstance(v, np.ndarray):
        return v.tolist()
    return v


def _thaw(v):
    if isinstance(v, tuple):
        if v[0].startswith("#"):
            return {"Time": Time, "Duration": Duration}[v[0][1:]](0, v[1])
        return MSGS[v[0]](*[_thaw(x) for x in v[1]])
    if isinstance(v, list):
        return [_thaw(x) for x in v]
    return v


# --------------------------------------------------------------- widgets
class _Widget:
    def __init__(self, *args, **kw):
        self.__dict__["observers"] = []
        self.__dict__["clicks"] = []
        self.args = args
        for k, v in kw.items():
            setattr(self, k, v)

    def on_click(self, f, remove=False):
        self.clicks.append(f)

    def observe(self, f, names=None, type="change"):
        self.observers.append(f)

    def click(self):
        for f in self.clicks:
            f(self)


class IntSlider(_Widget):
    """An integer whose value is kept within min and max."""

    def __init__(self, value=0, min=0, max=100, step=1, **kw):
        self.__dict__["_v"] = None
        super().__init__()
        if min > max:
            raise ValueError("setting min > max")
        self.min, self.max, self.step = min, max, step
        for k, v in kw.items():
            setattr(self, k, v)
        self.value = value

    @property
    def value(self):
        return self._v

    @value.setter
    def value(self, v):
        if isinstance(v, bool) or not isinstance(v, (int, np.integer)):
            if not isinstance(v, float) or v != int(v):
                raise ValueError(f"the value trait expected an int, not {v}")
        v = int(min(max(v, self.min), self.max))
        if v != self._v:
            old, self._v = self._v, v
            self.__dict__["_v"] = v
            for f in list(self.observers):
                f({"name": "value", "old": old, "new": v, "owner": self,
                   "type": "change"})


class Play(IntSlider):
    pass


def _interactive_output(f, controls):
    def call(*_):
        f(**{k: w.value for k, w in controls.items()})

    for w in controls.values():
        w.observe(call, names="value")
    call()
    out = _Widget()
    out.controls = controls
    W.event("interactive", f, controls)
    return out


def _jslink(a, b):
    W.event("link", a, b)


def _link(a, b):
    W.event("link", a, b)
    for (x, n), (y, m) in ((a, b), (b, a)):
        x.observe(lambda ch, x=x, n=n, y=y, m=m: setattr(
            y, m, getattr(x, n)), names=n)
    setattr(b[0], b[1], getattr(a[0], a[1]))


def _interactive(f, **controls):
    _interactive_output(f, controls)
    box = _Widget(list(controls.values()))
    box.children = tuple(controls.values())
    return box


class ROSLaunchParent:
    def __init__(self, run_id, roslaunch_files, is_core=False, **kw):
        self.is_core = is_core
        W.event("launch", self)

    def start(self, auto_terminate=True):
        if self.is_core and W.master is None:
            W.master = self

    def shutdown(self):
        W.event("shutdown", self)
        if W.master is self:
            W.master = None


def install():
    """Make the stand-ins importable."""
    if "rospy" in sys.modules:
        return
    _module("rospy", Time=Time, Duration=Duration, Publisher=Publisher,
            Subscriber=Subscriber, is_shutdown=is_shutdown, sleep=sleep,
            spin=spin, Rate=Rate, signal_shutdown=signal_shutdown,
            loginfo=lambda *a, **k: None, logwarn=lambda *a, **k: None,
            logerr=lambda *a, **k: None, logdebug=lambda *a, **k: None,
            get_master=lambda env=None: _Master(), init_node=init_node,
            ROSInterruptException=ROSInterruptException,
            ROSException=Exception, get_time=lambda: 1.7e9)
    for pkg, classes in _messages().items():
        _module(pkg)
        _module(pkg + ".msg", **{c.__name__: MSGS[c.__name__]
                                 for c in classes})
    _module("tf2_ros", Buffer=Buffer,
            TransformBroadcaster=TransformBroadcaster,
            StaticTransformBroadcaster=StaticTransformBroadcaster,
            TransformException=TransformException,
            LookupException=LookupException,
            ConnectivityException=ConnectivityException,
            ExtrapolationException=ExtrapolationException)
    _module("tf2_geometry_msgs", do_transform_vector3=do_transform_vector3,
            do_transform_point=do_transform_point,
            do_transform_pose=do_transform_pose)
    _module("rosbag", Bag=Bag)
    _module("roslaunch")
    _module("roslaunch.parent", ROSLaunchParent=ROSLaunchParent)
    if "ipywidgets" not in sys.modules:
        widgets = dict(
            IntSlider=IntSlider, Play=Play, Button=_Widget, Layout=_Widget,
            HBox=_Widget, VBox=_Widget, Output=_Widget, Label=_Widget,
            GridBox=_Widget, Box=_Widget,
            interactive_output=_interactive_output, jslink=_jslink,
            jsdlink=_jslink, link=_link, interactive=_interactive)
        _module("ipywidgets", **widgets)
        _module("ipywidgets.widgets", **widgets)
        _module("IPython")
        display = lambda *a, **k: W.event("display", a)  # noqa
        _module("IPython.core")
        _module("IPython.core.display", display=display)
        _module("IPython.display", display=display)
        sys.modules["IPython"].core = sys.modules["IPython.core"]
