"""C22: messages, TF export, broadcasters and path markers against Ros.tla,
with stand-ins for the ROS libraries (rosstub.py)."""
import random
import re
import warnings

import numpy as np

from . import kin, rosstub
from .common import SEED, MachineryError, Violation, chunks, fork_map, \
    run_tlc, NPROC
from .concrete import Clock, quat, quats, same_rotation, vec
from .lib import Lib

CLOCKS = ("int", "float", "tenth", "dt", "dtmix", "fine")
TOL = 1e-6


def seconds(clock, tick):
    s = clock.stamps([tick])
    if s.dtype.kind == "M":
        return float(s.astype("datetime64[ns]").astype(np.int64)[0]) / 1e9
    return float(s[0])


def fields(msg, pre=()):
    """Leaves of a message: {path: value}."""
    out = {}
    for f, t in msg._fields:
        v = getattr(msg, f)
        if isinstance(v, rosstub.Message):
            out.update(fields(v, pre + (f,)))
        elif isinstance(v, rosstub._TVal):
            out[pre + (f,)] = v.to_sec()
        else:
            out[pre + (f,)] = v
    out.pop(("header", "seq"), None)
    return out


def diff_fields(got, want, loose=()):
    if set(got) != set(want):
        return f"fields {sorted(set(got) ^ set(want))}"
    for k, w in want.items():
        g = got[k]
        if k in loose:
            continue
        if isinstance(w, str):
            if g != w:
                return f"{'.'.join(k)} is {g!r}, expected {w!r}"
        elif not abs(float(g) - w) <= TOL:
            return f"{'.'.join(k)} is {g!r}, expected {w!r}"
    return None


def tr_rot(msg, t="translation", r="rotation"):
    body = msg.transform if t == "translation" else msg.pose
    a, b = getattr(body, t), getattr(body, r)
    return (np.array([a.x, a.y, a.z], float),
            np.array([b.w, b.x, b.y, b.z], float))


def near(a, b, tol=TOL):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(
        np.all(np.abs(a - b) <= tol * (1 + np.abs(b).max(initial=0))))


def near_rot(a, b, tol=TOL):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape or abs(np.linalg.norm(a) - 1) > 1e-6:
        return False
    return near(a * np.sign(a @ b), b, tol)


def vio(what, op, prop="C22"):
    return Violation({prop}, what, {"op": op},
                     re.sub(r"[-\d.e+]+", "#", what)[:120])


class Ros:
    def __init__(self, lib):
        rosstub.install()
        import rigid_body_motion.ros  # noqa
        from rigid_body_motion.ros import msg, transformer, visualization

        self.lib = lib
        self.msg, self.tf, self.vis = msg, transformer, visualization

    # ---------------------------------------------------------- messages
    def do_msg(self, op, want):
        kind, a = op["kind"], op["arg"]
        opt = op["_opt"]
        payload = [self.payload(p, opt["form"]) for p in want["unpacked"]]
        make = getattr(self.msg, f"make_{kind}_msg")
        unpack = getattr(self.msg, f"unpack_{kind}_msg")
        args = payload + [a["frame"]]
        if kind == "transform":
            args.append(a["child"])
        sec = a["stamp"] * 0.5
        if opt["time"] == "kw":
            m = make(*args, time=sec)
        elif opt["time"] == "pos":
            m = make(*args, sec)
        else:
            m, sec = make(*args), 0.0
        w = {}
        for f in want["fields"]:
            p, v = tuple(f["f"]), f["v"]
            w[p] = sec if p == ("header", "stamp") else (
                v if isinstance(v, str) else float(v))
        bad = diff_fields(fields(m), w)
        if bad:
            return [vio(f"make_{kind}_msg: {bad}", op)]
        exp = tuple(tuple(float(x) for x in p) for p in want["unpacked"])
        if len(exp) == 1:
            exp = exp[0]
        inner = {"transform": "transform", "pose": "pose", "twist": "twist",
                 "vector": "vector", "point": "point",
                 "quaternion": "quaternion"}[kind]
        out = []
        for name, got in (
                ("stamped", unpack(m, stamped=True)),
                ("plain", unpack(getattr(m, inner), stamped=False)),
                ("default", unpack(getattr(m, inner)))):
            try:
                ok = np.shape(got) == np.shape(exp) and np.all(
                    np.array(got, float) == np.array(exp, float)) \
                    if len(want["unpacked"]) == 1 else all(
                        tuple(map(float, g)) == e
                        for g, e in zip(got, exp)) and len(got) == 2
            except Exception:
                ok = False
            if not ok:
                out.append(vio(f"unpack_{kind}_msg ({name}): {got}, "
                               f"expected {exp}", op))
        return out

    @staticmethod
    def payload(p, form):
        if form == "tuple":
            return tuple(float(x) for x in p)
        if form == "list":
            return [float(x) for x in p]
        return np.array(p, float)

    def do_marker(self, op, want):
        o = op["_opt"]
        kw = {}
        if op["type"] >= 0:
            kw["marker_type"] = op["type"]
        if op["frame"]:
            kw["frame_id"] = op["frame"]
        if o["pos"]:
            kw["position"] = self.payload(op["pos"], o["form"])
        if o["ori"]:
            kw["orientation"] = self.payload(op["ori"], o["form"])
        if o["color"]:
            kw["color"] = "#" + "".join("%02x" % c for c in op["color"])
        sc = op["scale"]
        if o["scale"]:
            kw["scale"] = (float(sc[0]) if o["form"] != "array" else sc[0]) \
                if len(sc) == 1 else self.payload(sc, o["form"])
        m = self.vis.get_marker(**kw)
        got = fields(m)
        w = {}
        for f in want["fields"]:
            v = f["v"]
            p = tuple(f["f"])
            w[p] = v if isinstance(v, str) else (
                v / 255 if p[0] == "color" else float(v))
        bad = diff_fields({k: v for k, v in got.items() if k in w}, w)
        if not bad and (m.points or m.action or m.text):
            bad = f"unexpected content {m}"
        return [vio(f"get_marker: {bad}", op)] if bad else []

    # ------------------------------------------------------------ export
    def do_export(self, op, want):
        lib, clock = self.lib, self.lib.clock
        w = rosstub.reset()
        frame = lib.ref(op["a"])
        if isinstance(frame, str):
            frame = lib.resolve(frame)
        t = self.tf.Transformer.from_reference_frame(frame)
        bufs = [e[1] for e in w.log if e[0] == "buffer"]
        calls = [e for e in w.log if e[0].startswith("set_transform")]
        if len({id(b) for b in bufs}) != 1:
            raise MachineryError("more than one buffer")
        out = []
        todo = []
        for e in want["exported"]:
            for k, p in enumerate(e["poses"]):
                todo.append((e["parent"], e["child"], e["static"],
                             None if e["static"]
                             else seconds(clock, e["ts"][k]), p))
        n = len(todo)
        for kind, m, _ in calls:
            hit = None
            for x in todo:
                parent, child, static, sec, p = x
                if (m.header.frame_id, m.child_frame_id) != (parent, child):
                    continue
                if static != (kind == "set_transform_static"):
                    continue
                if sec is not None and abs(m.header.stamp.to_sec() - sec) \
                        > TOL:
                    continue
                a, b = tr_rot(m)
                if near(a, vec(p["t"])) and near_rot(b, quat(p["r"])):
                    hit = x
                    break
            if hit is None:
                out.append(vio(f"{kind} of an unexpected transform {m}", op))
                break
            todo.remove(hit)
        if not out and todo:
            out.append(vio(f"{len(todo)} of {n} transforms not exported, "
                           f"e.g. {todo[0]}", op))
        if out:
            return out
        buf = bufs[0]
        for e in want["exported"]:
            if not e["static"] and len(buf.moving.get(e["child"], [])) != \
                    len(e["ts"]):
                out.append(vio(
                    f"the cache of {buf.cache / 1e9} s does not hold all "
                    f"samples of {e['ts']} (clock {clock.kind})", op))
                return out
        for q, a in zip(op["queries"], want["answers"]):
            out += self.query(t, op, q, a)
        return out

    def query(self, t, op, q, want):
        if want["res"] == "any":
            return []
        src = q["_names"][0]
        dst = q["_names"][1]
        kw = {}
        if not q["latest"]:
            kw["time"] = seconds(self.lib.clock, q["time"])
            if kw["time"] == 0:
                return []
        p, o = vec(q["p"]), quat(q["o"])
        got = {}
        try:
            got["can"] = bool(t.can_transform(dst, src, **kw))
        except Exception as e:
            return [vio(f"can_transform raised {e!r}", op)]
        if got["can"] != (want["res"] == "ok"):
            return [vio(f"can_transform {dst} {src} {kw} is {got['can']}",
                        op)]
        calls = {
            "transform": lambda: t.lookup_transform(dst, src, **kw),
            "v": lambda: t.transform_vector(tuple(p), dst, src, **kw),
            "p": lambda: t.transform_point(tuple(p), dst, src, **kw),
            "o": lambda: t.transform_quaternion(tuple(o), dst, src, **kw),
            "pose": lambda: t.transform_pose(
                tuple(p), tuple(o), dst, src, **kw),
        }
        out = []
        for name in q["_ask"]:
            try:
                r = calls[name]()
                res = "ok"
            except rosstub.TransformException:
                res, r = "err", None
            except Exception as e:
                out.append(vio(f"{name} of {src} in {dst} raised {e!r}", op))
                continue
            if res != want["res"]:
                out.append(vio(f"{name} of {src} in {dst} {kw}: {res}", op))
            elif res == "ok":
                ok = {
                    "transform": lambda: near(r[0], vec(want["t"]), 1e-4)
                    and near_rot(r[1], quat(want["r"]), 1e-4),
                    "v": lambda: near(r, vec(want["v"]), 1e-4),
                    "p": lambda: near(r, vec(want["p"]), 1e-4),
                    "o": lambda: near_rot(r, quat(want["o"]), 1e-4),
                    "pose": lambda: near(r[0], vec(want["p"]), 1e-4)
                    and near_rot(r[1], quat(want["o"]), 1e-4),
                }[name]()
                if not ok:
                    out.append(vio(f"{name} of {src} in {dst} {kw}: {r}, "
                                   f"expected {want}", op))
        return out

    # ------------------------------------------------------- broadcaster
    def do_broadcast(self, op, want):
        if want["res"] == "any":
            return []
        lib, clock = self.lib, self.lib.clock
        w = rosstub.reset()
        kw = {}
        if op["b"]["k"] != "none":
            kw["base"] = lib.ref(op["b"])
        sub = op["sub"] or True if op["subscribe"] else False
        try:
            b = self.tf.ReferenceFrameTransformBroadcaster(
                lib.ref(op["a"]), publish_pose=op["pose"],
                publish_twist=op["twist"], subscribe=sub, **kw)
            res = "ok"
        except Exception as e:
            res, b = "err", e
        if res != want["res"]:
            return [vio(f"broadcaster: {res} {b!r}", op)]
        if res == "err":
            return []
        if op["twist"]:
            fr = lib.ref(op["a"])
            fr = lib.resolve(fr) if isinstance(fr, str) else fr
            lin, ang = fr.lookup_twist(lib.objs[want["bi"]], fr)
        subs = [e[1] for e in w.log if e[0] == "subscribe"]
        out = []
        if bool(subs) != op["subscribe"] or any(
                s.name != "/tf" for s in subs):
            out.append(vio(f"subscribed to {[s.name for s in subs]}", op))
        kinds = {e[1] for e in w.log if e[0] == "broadcaster"}
        if kinds != {"tf" if want["has"] else "tf_static"}:
            out.append(vio(f"broadcaster of kind {kinds}", op))
        tops = {(e[1], e[2]) for e in w.log if e[0] == "advertise"}
        exp = set()
        if op["pose"]:
            exp.add((f"/{want['frame']}/pose", "PoseStamped"))
        if op["twist"]:
            exp.add((f"/{want['frame']}/twist", "TwistStamped"))
        if tops != exp:
            out.append(vio(f"advertised {tops}, expected {exp}", op))
        if out:
            return out
        for ev, reply in zip(op["evs"], want["replies"]):
            k = len(w.log)
            try:
                if ev["ev"] == "set":
                    b.idx = ev["i"]
                elif ev["ev"] == "spin":
                    b.spin(block=ev["_block"])
                elif ev["ev"] == "pub":
                    b.publish()
                elif ev["ev"] == "idx":
                    if ev["_np"]:
                        b.publish(np.int64(ev["i"]))
                    else:
                        b.publish(idx=ev["i"])
                else:
                    ms = []
                    for child, at in ev["_noise"] + [(ev["child"],
                                                      ev["at"])]:
                        m = rosstub.MSGS["TransformStamped"]()
                        m.child_frame_id = child
                        m.header.stamp = rosstub.Time.from_sec(
                            seconds(clock, at))
                        ms.append(m)
                    for s in subs:
                        s.deliver(rosstub.MSGS["tfMessage"](ms))
            except Exception as e:
                out.append(vio(f"{ev['ev']} raised {e!r}", op))
                continue
            evs = [e for e in w.log[k:]
                   if e[0] in ("tf", "tf_static", "publish")]
            bad = [self.compare_events(
                op, want, evs, i, (lin[i], ang[i]) if op["twist"] else None)
                for i in reply]
            if not reply:
                if evs:
                    out.append(vio(f"published after {ev}: {evs}", op))
            elif all(bad):
                out.append(vio(f"{ev['ev']}: {bad[0]} (event {ev})", op))
        return out

    def compare_events(self, op, want, evs, i, twist):
        """None, or what differs from publishing sample i."""
        clock = self.lib.clock
        p = want["poses"][i]
        sec = seconds(clock, want["ts"][i]) if want["has"] else 0.0
        loose = {("header", "stamp")} if not want["has"] else set()
        tfs = [e[1] for e in evs if e[0] != "publish"]
        pubs = {}
        for e in evs:
            if e[0] == "publish":
                if e[1] in pubs:
                    return f"published twice on {e[1]}"
                pubs[e[1]] = e[2]
        if len(tfs) != 1:
            return f"{len(tfs)} transforms broadcast"
        m = tfs[0]

        def check(m, what, a, b):
            if m.header.frame_id != want["base"]:
                return f"{what} in frame {m.header.frame_id}"
            if not loose and abs(m.header.stamp.to_sec() - sec) > TOL:
                return f"{what} stamped {m.header.stamp}, expected {sec}"
            if p["ok"] and not (near(a, vec(p["t"]))
                                and near_rot(b, quat(p["r"]))):
                return f"{what} {a} {b}, expected {p}"

        if m.child_frame_id != want["frame"]:
            return f"transform of {m.child_frame_id}"
        bad = check(m, "transform", *tr_rot(m))
        if bad:
            return bad
        exp = set()
        if op["pose"]:
            t = f"/{want['frame']}/pose"
            exp.add(t)
            if t not in pubs:
                return "no pose published"
            bad = check(pubs[t], "pose",
                        *tr_rot(pubs[t], "position", "orientation"))
            if bad:
                return bad
        if op["twist"]:
            t = f"/{want['frame']}/twist"
            exp.add(t)
            if t not in pubs:
                return "no twist published"
            m = pubs[t]
            if m.header.frame_id != want["frame"]:
                return f"twist in frame {m.header.frame_id}"
            if abs(m.header.stamp.to_sec() - sec) > TOL:
                return f"twist stamped {m.header.stamp}, expected {sec}"
            v, a = m.twist.linear, m.twist.angular
            if not (near([v.x, v.y, v.z], twist[0])
                    and near([a.x, a.y, a.z], twist[1])):
                return f"twist {m.twist}, expected {twist}"
        if set(pubs) != exp:
            return f"published on {set(pubs) - exp}"
        return None

    # ------------------------------------------------------------ marker
    def do_path(self, op, want):
        if want["res"] == "any":
            return []
        lib = self.lib
        w = rosstub.reset()
        opt = op["_opt"]
        kw = {}
        if op["b"]["k"] != "none":
            kw["base"] = lib.ref(op["b"])
        if opt["max"]:
            kw["max_points"] = op["max"]
        if opt["topic"]:
            kw["topic"] = opt["topic"]
        if opt["color"]:
            kw["color"] = opt["color"]
        if opt["scale"]:
            kw["scale"] = opt["scale"]
        try:
            m = self.vis.ReferenceFrameMarkerPublisher(
                lib.ref(op["a"]), **kw)
            m.publish()
            res = "ok"
        except Exception as e:
            res, m = "err", e
        if res != want["res"]:
            return [vio(f"marker publisher: {res} {m!r}", op)]
        if res == "err":
            return []
        topic = opt["topic"] or f"/{want['frame']}/path"
        pubs = [e for e in w.log if e[0] == "publish"]
        if len(pubs) != 1 or pubs[0][1] != topic:
            return [vio(f"published {len(pubs)} markers on "
                        f"{[p[1] for p in pubs]}", op)]
        mk = pubs[0][2]
        out = []
        if mk.header.frame_id != want["base"]:
            out.append(vio(f"marker in frame {mk.header.frame_id}", op))
        if mk.type != rosstub.MSGS["Marker"].LINE_STRIP:
            out.append(vio(f"marker of type {mk.type}", op))
        h = (opt["color"] or "#ffffffff").lstrip("#")
        rgba = [int(h[i:i + 2], 16) / 255 for i in (0, 2, 4, 6)]
        c = mk.color
        if not near([c.r, c.g, c.b, c.a], rgba):
            out.append(vio(f"marker color {c}, expected {rgba}", op))
        if mk.scale.x != (opt["scale"] or 0.1):
            out.append(vio(f"marker scale {mk.scale}", op))
        o = fields(mk.pose)
        if o != {("position", "x"): 0, ("position", "y"): 0,
                 ("position", "z"): 0, ("orientation", "x"): 0,
                 ("orientation", "y"): 0, ("orientation", "z"): 0,
                 ("orientation", "w"): 1}:
            out.append(vio(f"marker pose {mk.pose}", op))
        pts = [np.array([p.x, p.y, p.z], float) for p in mk.points]
        k = 0
        for p in pts:
            while k < len(want["pos"]) and not near(p, vec(want["pos"][k])):
                k += 1
            k += 1
        if k > len(want["pos"]):
            out.append(vio(f"points {pts} are not positions of the frame "
                           f"in order {want['pos']}", op))
        elif not want["least"] <= len(pts) <= want["most"]:
            out.append(vio(
                f"{len(pts)} points of {len(want['pos'])} for at most "
                f"{op['max']}", op))
        return out


class Gen(kin.Gen):
    def names(self):
        return [f[0] for f in self.frames]

    def q_msg(self):
        r = self.r
        kind = r.choice(["transform", "pose", "twist", "vector", "point",
                         "quaternion"])

        def nums(n):
            return [r.randint(-9, 9) for _ in range(n)]

        nv = 4 if kind in ("transform", "pose", "quaternion") else 3
        self.ops.append(dict(
            op="msg", kind=kind, arg=dict(
                u=nums(3), v=nums(nv), frame=r.choice(["world", "a b", "f"]),
                child=r.choice(["body", "world", "x/y"]),
                stamp=r.choice([0, 1, 7, 3200000001 // 2])),
            _opt=dict(form=r.choice(["tuple", "list", "array"]),
                      time=r.choice(["kw", "pos", "none"]))))

    def q_marker(self):
        r = self.r
        o = {k: r.random() < 0.7 for k in ("pos", "ori", "color", "scale")}
        o["form"] = r.choice(["tuple", "list", "array"])
        self.ops.append(dict(
            op="marker", type=r.choice([-1, 0, 1, 2, 8, 11]),
            frame=r.choice(["", "map"]),
            pos=[r.randint(-5, 5) for _ in range(3)] if o["pos"] else [0] * 3,
            ori=[r.randint(-5, 5) for _ in range(4)] if o["ori"]
            else [0, 0, 0, 1],
            scale=[r.randint(1, 5) for _ in range(r.choice([1, 3]))]
            if o["scale"] else [1],
            color=[r.randint(0, 255) for _ in range(4)] if o["color"]
            else [255] * 4, _opt=o))

    def q_export(self):
        r = self.r
        n = len(self.frames)
        qs = []
        if n > 1:
            for _ in range(r.randint(2, 6)):
                a, b = self.pair()
                if a == b:
                    continue
                qs.append(dict(
                    source=a + 1, target=b + 1, time=r.randint(0, 9),
                    latest=r.random() < 0.3, p=self.vec(), o=self.quat(),
                    _names=[self.frames[a][0], self.frames[b][0]],
                    _ask=r.sample(["transform", "v", "p", "o", "pose"], 3)))
        self.ops.append(dict(op="export", a=self.ref(r.randrange(n)),
                             queries=qs))

    def target(self):
        r = self.r
        idx = [i for i in range(len(self.frames)) if self.frames[i][3] >= 0]
        a = r.choice(idx)
        same = [i for i in range(len(self.frames)) if i != a and
                self.frames[i][2] == self.frames[a][2]]
        if r.random() < 0.5:
            return self.ref(a), {"k": "none"}
        if r.random() < 0.05:
            return self.ref(a), self.ref(r.randrange(len(self.frames)))
        return self.ref(a), self.ref(r.choice(same))

    def q_broadcast(self):
        r = self.r
        if all(f[3] < 0 for f in self.frames):
            return self.q_msg()
        a, b = self.target()
        sub = r.random() < 0.5
        evs = []
        for _ in range(r.randint(1, 5)):
            x = r.random()
            if x < 0.2:
                evs.append(dict(ev="pub"))
            elif x < 0.3:
                evs.append(dict(ev="set", i=r.randint(1, 3)))
            elif x < 0.36:
                evs.append(dict(ev="spin", _block=r.random() < 0.5))
            elif x < 0.5 or not sub:
                evs.append(dict(ev="idx", i=r.randint(0, 3),
                                _np=r.random() < 0.4))
            else:
                evs.append(dict(
                    ev="tf", at=r.randint(0, 12),
                    child=r.choice(self.names() + ["else"]),
                    _noise=[("zz", r.randint(0, 9))] * r.randint(0, 2)))
        self.ops.append(dict(
            op="broadcast", a=a, b=b, pose=r.random() < 0.5,
            twist=r.random() < 0.4, subscribe=sub,
            sub=r.choice(["", "", "else"]) if sub else "", evs=evs))

    def q_path(self):
        r = self.r
        if all(f[3] < 0 for f in self.frames):
            return self.q_msg()
        a, b = self.target()
        mx = r.choice([1, 2, 3, 4, 1000])
        self.ops.append(dict(
            op="path", a=a, b=b, max=mx, _opt=dict(
                max=mx != 1000 or r.random() < 0.3,
                topic=r.choice([None, None, "/p/q"]),
                color=r.choice([None, "#ff000080", "#0102f0ff"]),
                scale=r.choice([None, 0.5]))))

def history(rng, **prof):
    p = dict(frames=(2, 5), twins=0, inverse=0.25, unordered=0, single=0.05,
             clocks=CLOCKS, odd=0.1, via=0.1, samesrc=0, cross=0.05,
             trees=0.1, lookup=0, transform=0, labelled=0)
    p.update(prof)
    g = Gen(rng, **p)
    g.add_frame(root=True)
    for _ in range(rng.randint(*p["frames"])):
        g.add_frame(root=g.chance("trees"))
    for _ in range(rng.randint(3, 6)):
        k = rng.choices(("msg", "export", "broadcast", "path", "marker"),
                        (1, 2, 4, 2, 1))[0]
        getattr(g, "q_" + k)()
    return dict(ops=g.ops, _clock=rng.choice(p["clocks"]))


def replay(scen, outs):
    lib = Lib(Clock(scen["_clock"]))
    ros = Ros(lib)
    count = [0]
    out, calls = [], 0
    for k, (op, want) in enumerate(zip(scen["ops"], outs)):
        calls += 1
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if op["op"] in ("msg", "export", "broadcast", "path", "marker"):
                if not fits(op, want):
                    continue
                try:
                    vs = getattr(ros, "do_" + op["op"])(op, want)
                except MachineryError:
                    raise
                except Exception as e:
                    vs = [vio(f"{op['op']} raised {e!r}", op)]
            else:
                vs, stop = kin.lib_call(lib, op, want, count)
                if stop:
                    break
                vs = []
        for v in vs:
            v.data = {"history": scen["ops"][:k], "clock": scen["_clock"],
                      **v.data}
        out += vs
    lib.rbm.clear_registry()
    return out, calls


def fits(op, want):
    """Requests for samples that do not exist, velocities of too few."""
    if op["op"] == "broadcast" and want["res"] == "ok":
        n = len(want["poses"])
        if not want["has"] or n < 5:
            if op["twist"]:
                op["twist"] = False
        op["evs"], want["replies"] = map(list, zip(*[
            (e, r) for e, r in zip(op["evs"], want["replies"])
            if not (e["ev"] == "spin" and want["has"])
            and all(i < n for i in r) and e.get("i", 0) < n] or [({"ev": "pub"}, [0])]))
    return True


CFG = """SPECIFICATION Spec
INVARIANTS Theorems Emit
CHECK_DEADLOCK FALSE
"""


def check(report):
    quick = report.tier == "quick"
    r = run_tlc("MCRos", CFG)
    report.tlc(r)
    recs = list(r.records("K"))

    def do(part):
        out, n = [], 0
        for k, x in part:
            ops = [dict(op="msg", kind=x["kind"], arg=x["arg"], _opt=dict(
                form=("tuple", "list", "array")[k % 3],
                time=("kw", "pos")[k % 2]))]
            v, c = replay(dict(ops=ops, _clock="int"), [x["want"]])
            out += v
            n += c
            if len(out) > 20:
                break
        return out, n

    for vs, n in fork_map(do, chunks(enumerate(recs), NPROC)):
        report.add(vs)
        report.count("calls_compared", n)
    report.traces += len(recs)
    report.count("messages_enumerated", len(recs))
    scens = []
    for k in range(700 if quick else 14000):
        rng = random.Random(f"{SEED}-ros-{k}")
        scens.append(history(rng))
    kin.run_random(report, scens, module="RosRun", replay=replay)
