"""C01-C03: replay of the registry/frame-tree machine (MCRegistry.tla)."""
import contextlib
import gc
import io
import json

import numpy as np

from .concrete import unspoken
from .common import (
    Violation, chunks, fork_map, load_library, pmap, run_tlc, SEED, NPROC,
)

EX_CFG = """SPECIFICATION Spec
CONSTANTS Names = {names}
 MaxObjs = {maxobjs}
 MaxSteps = 1000
 WithNone = {withnone}
VIEW ViewState
INVARIANTS Inv InvHistory EmitState
PROPERTIES FailuresAreAtomic EdgesStable
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
"""
SIM_CFG = """SPECIFICATION SimSpec
CONSTANTS Names = {names}
 MaxObjs = {maxobjs}
 MaxSteps = {steps}
 WithNone = TRUE
INVARIANTS Inv InvHistory EmitHist
CHECK_DEADLOCK FALSE
"""


def explore(names, maxobjs, withnone):
    return run_tlc(
        "MCRegistry",
        EX_CFG.format(
            names="{" + ",".join(f'"{n}"' for n in names) + "}",
            maxobjs=maxobjs, withnone=str(withnone).upper(),
        ),
        heap="6g",
    )


def simulate(names, maxobjs, steps, num, seed):
    return run_tlc(
        "SimRegistry",
        SIM_CFG.format(
            names="{" + ",".join(f'"{n}"' for n in names) + "}",
            maxobjs=maxobjs, steps=steps,
        ),
        args=("-simulate", f"num={num}", "-depth", str(steps + 3),
              "-seed", str(seed)),
    )


# ------------------------------------------------------------ the real thing
def bad_args(bad):
    if bad == "trshape":
        return dict(translation=np.zeros(4))
    if bad == "rotshape":
        return dict(rotation=np.zeros(3))
    if bad == "tsshape":
        return dict(timestamps=np.zeros((2, 2)))
    if bad == "trts":
        return dict(timestamps=np.arange(2.0), translation=np.zeros(3))
    if bad == "rotts":
        return dict(timestamps=np.arange(2.0), rotation=np.ones((3, 4)))
    if bad == "trnots":
        return dict(translation=np.zeros((2, 3)))
    if bad == "disc":
        return dict(discrete=True)
    raise AssertionError(bad)


class World:
    """The library driven through its public interface."""

    def __init__(self, rbm, names):
        self.rbm = rbm
        self.names = names
        rbm.clear_registry()
        self.held = {}

    # -- calls
    def _parent(self, p):
        if p["k"] == "none":
            return None
        if p["k"] == "obj":
            return self.obj(p["i"])
        if p["k"] == "name":
            return p["n"]
        return 42

    def obj(self, i):
        """A frame by its number, held or found through the trees."""
        if i in self.held:
            return self.held[i]
        return self.reachable().get(i)

    def reachable(self):
        seen, todo = {}, list(self.held.values())
        for n in self.names:
            o = self.resolve(n)
            if o is not None:
                todo.append(o)
        strangers = 0
        visited = set()
        while todo:
            o = todo.pop()
            if id(o) in visited:
                continue
            visited.add(id(o))
            tag = getattr(o, "vtag", None)
            if tag is None:
                strangers += 1
            else:
                seen[tag] = o
            if o.parent is not None:
                todo.append(o.parent)
            todo.extend(o.children)
        self.strangers = strangers
        return seen

    def resolve(self, name):
        """The frame a name stands for, by using it as a parent."""
        try:
            probe = self.rbm.ReferenceFrame(None, parent=name)
        except Exception:
            return None
        o = probe.parent
        probe.parent = None
        return o

    def can(self, op):
        """False if a frame the call needs has been garbage collected."""
        ids = []
        if op["op"] in ("register", "deregister", "forget"):
            ids.append(op["id"])
        p = op.get("parent")
        if p and p["k"] == "obj":
            ids.append(p["i"])
        return all(self.obj(i) is not None for i in ids)

    def call(self, op):
        """Perform one call; returns 'ok' or 'err'."""
        rbm = self.rbm
        kind = op["op"]
        if kind in ("new", "register_frame"):
            kw = {}
            if op["bad"]:
                kw = bad_args(op["bad"])
            elif op["parent"]["k"] != "none":
                kw = dict(translation=(float(2 ** (op["id"] - 1)), 0.0, 0.0))
            name = op["name"] or None
            parent = self._parent(op["parent"])
            try:
                if kind == "new":
                    o = rbm.ReferenceFrame(name, parent=parent, **kw)
                else:
                    rbm.register_frame(
                        name, parent=parent, **kw,
                        **unspoken(dict(update=op["update"]), update=False)
                    )
            except Exception:
                del parent
                return "err"
            del parent
            if kind == "new":
                if op["id"]:
                    o.vtag = op["id"]
                    self.held[op["id"]] = o
            else:
                o = self.resolve(name)
                if o is not None and op["id"] and not hasattr(o, "vtag"):
                    o.vtag = op["id"]
            return "ok"
        if kind == "forget":
            self.held.pop(op["id"], None)
            gc.collect()
            return "ok"
        try:
            if kind == "register":
                self.obj(op["id"]).register(
                    **unspoken(dict(update=op["update"]), update=False))
            elif kind == "deregister":
                self.obj(op["id"]).deregister()
            elif kind == "deregister_frame":
                rbm.deregister_frame(op["name"])
            elif kind == "clear":
                rbm.clear_registry()
            else:
                raise AssertionError(kind)
        except AssertionError:
            raise
        except Exception:
            return "err"
        return "ok"

    # -- observation
    def observe(self):
        """(names -> number, number -> (name, parent, children))"""
        reg = {}
        for n in self.names:
            o = self.resolve(n)
            if o is not None:
                reg[n] = getattr(o, "vtag", "?")
        objs = {}
        for i, o in self.reachable().items():
            objs[i] = (
                o.name or "",
                getattr(o.parent, "vtag", "?") if o.parent is not None else 0,
                [getattr(c, "vtag", "?") for c in o.children],
            )
        return reg, objs


def compare(world, post):
    """Differences between the library and the state of the specification:
    list of (kind, text)."""
    reg, objs = world.observe()
    diffs = []
    want = {n: i for n, i in post["reg"]}
    if reg != want:
        diffs.append(("names", f"names resolve to {reg}, expected {want}"))
    if world.strangers:
        diffs.append(
            ("tree", f"{world.strangers} unknown frame(s) attached to a tree")
        )
    for i, o in sorted(objs.items()):
        name, parent, kids = post["objs"][i - 1]
        if (o[0], o[1], o[2]) != (name, parent, list(kids)):
            diffs.append(
                ("tree", f"frame {i} is {o}, expected "
                         f"{(name, parent, list(kids))}")
            )
    # everything reachable in the specification must exist
    need = set(want.values()) | set(world.held)
    todo = list(need)
    while todo:
        i = todo.pop()
        _, p, kids = post["objs"][i - 1]
        for j in list(kids) + ([p] if p else []):
            if j not in need:
                need.add(j)
                todo.append(j)
    missing = need - set(objs)
    if missing:
        diffs.append(("tree", f"frames {sorted(missing)} are not reachable"))
    return diffs


def compare_lookups(world, post, dist, trees):
    """Positions of frames in each other, by object and by name."""
    rbm = world.rbm
    diffs = []
    objs = world.reachable()
    byname = {i: n for n, i in post["reg"]}

    def look(a, b):
        try:
            t, r = rbm.lookup_transform(a, b)
        except Exception:
            return None
        if not np.allclose(np.abs(r), (1, 0, 0, 0)) or t[1] or t[2]:
            return "bad rotation"
        return float(t[0])

    for i, oi in objs.items():
        for j, oj in objs.items():
            want = dist[i - 1][j - 1]
            want = float(want[0]) if want else None
            forms = [(oi, oj)]
            if i in byname and j in byname:
                forms.append((byname[i], byname[j]))
            if i in byname:
                forms.append((byname[i], oj))
            for a, b in forms:
                got = look(a, b)
                if got != want:
                    diffs.append(
                        ("names" if isinstance(a, str) else "lookup",
                         f"position of {a} in {b} is {got}, expected {want}")
                    )
    for n in world.names:
        if n not in byname.values():
            try:
                rbm.lookup_transform(n, n)
            except Exception:
                pass
            else:
                diffs.append(
                    ("names", f"unregistered name {n} accepted in a lookup")
                )
    for i, o in objs.items():
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            rbm.render_tree(o)
        lines = []
        for line in buf.getvalue().splitlines():
            body = line.lstrip("\u2502\u251c\u2514\u2500 ")
            lines.append(((len(line) - len(body)) // 4, body))
        want = [(d, post["objs"][k - 1][0] or "None")
                for k, d in trees[i - 1]]
        if lines != want:
            diffs.append(("render", f"tree {lines}, expected {want}"))
    return diffs


PROPS = {
    # kind of difference, expected outcome of the last call
    ("names", "ok"): {"C01"},
    ("names", "err"): {"C01", "C02"},
    ("tree", "ok"): {"C03"},
    ("tree", "err"): {"C02", "C03"},
    ("lookup", "ok"): {"C03"},
    ("lookup", "err"): {"C02", "C03"},
    ("render", "ok"): {"C03"},
    ("render", "err"): {"C02", "C03"},
}


def outcome_violation(op, got, want, hist):
    bad = op.get("bad")
    props = {"C20"} if bad else {"C01"}
    return Violation(
        props,
        f"{op} gave {got}, expected {want}",
        {"history": hist, "call": op},
    )


def diff_violations(diffs, expected_res, hist, op):
    return [
        Violation(
            PROPS[(kind, expected_res)],
            f"after {op['op']} ({expected_res}): {text}",
            {"history": hist, "call": op},
        )
        for kind, text in diffs
    ]


def build(rbm, names, hist):
    w = World(rbm, names)
    for e in hist:
        if e["op"]["op"] == "forget" and not w.can(e["op"]):
            continue
        got = w.call(e["op"])
        if got != e["res"]:
            return None
    return w


def key(post):
    return json.dumps(
        [post["objs"], sorted(map(list, post["reg"]))], sort_keys=True
    )


def replay_group(args):
    """All transitions out of one state."""
    names, pre, steps, states = args
    rbm = load_library()
    out = []
    n = 0
    world = None
    for step, post in steps:
        op, res = step["op"], step["res"]
        if world is None:
            world = build(rbm, names, pre)
            if world is None:
                break  # reported where the prefix is the transition
        if not world.can(op):
            continue
        got = world.call(op)
        n += 1
        if got != res:
            out.append(outcome_violation(op, got, res, pre))
            world = None
            continue
        try:
            diffs = compare(world, post)
            if res == "ok" and not diffs:
                s = states[key(post)]
                diffs = compare_lookups(world, post, s["dist"], s["trees"])
        except Exception as e:  # noqa
            diffs = [("tree", f"observation failed: {e!r}")]
        out += diff_violations(diffs, res, pre, op)
        if diffs or res == "ok":
            world = None
        if len(out) > 20:
            break
    rbm.clear_registry()
    world = None
    return out, n


def replay_histories(args):
    names, hists = args
    rbm = load_library()
    out, n, calls = [], 0, 0
    for h in hists:
        w = World(rbm, names)
        n += 1
        diverged = False
        for k, e in enumerate(h["hist"]):
            op, res = e["op"], e["res"]
            if not w.can(op):
                if op["op"] == "forget":
                    continue
                diverged = True
                break
            got = w.call(op)
            calls += 1
            if got != res:
                out.append(outcome_violation(op, got, res, h["hist"][:k]))
                diverged = True
                break
            try:
                diffs = compare(w, h["posts"][k])
            except Exception as ex:  # noqa
                diffs = [("tree", f"observation failed: {ex!r}")]
            out += diff_violations(diffs, res, h["hist"][:k], op)
            if diffs:
                diverged = True
                break
        if not diverged:
            diffs = compare_lookups(w, h["posts"][-1], h["dist"], h["trees"])
            out += diff_violations(diffs, "ok", h["hist"], {"op": "end"})
        if len(out) > 20:
            break
    rbm.clear_registry()
    return out, n, calls


def check(report):
    quick = report.tier == "quick"
    # exhaustive
    runs = [(("a", "b"), 3, False)]
    if quick:
        sims = [(("a", "b", "c"), 7, 24, 60)] * 4
    else:
        runs = [(("a", "b"), 3, True), (("a", "b", "c"), 3, False)]
        sims = [(("a", "b", "c"), 9, 40, 150)] * 12
    jobs = [("ex", r) for r in runs] + [
        ("sim", s + (SEED * 1000 + k,)) for k, s in enumerate(sims)
    ]
    results = pmap(
        lambda j: (j, explore(*j[1]) if j[0] == "ex" else simulate(*j[1])),
        jobs,
    )
    for (kind, par), r in results:
        report.tlc(r)
        if kind == "ex":
            names = par[0]
            states = {key(s["post"]): s for s in r.records("S")}
            groups = {}
            for t in r.records("T"):
                groups.setdefault(json.dumps(t["pre"]), []).append(
                    (t["step"], t["post"])
                )
            work = []
            for pre, steps in groups.items():
                pre = json.loads(pre)
                # rejected calls first: they share one world
                steps.sort(key=lambda s: s[0]["res"])
                for part in chunks(steps, max(1, len(steps) // 120)):
                    work.append((names, pre, part, states))
            res = fork_map(replay_group, work)
            for v, n in res:
                report.add(v)
                report.traces += n
            report.count("registry_states", len(states))
            report.count("registry_transitions_replayed",
                         sum(n for _, n in res))
            report.sample({"history": work[-1][1],
                           "call": work[-1][2][0][0]})
        else:
            hists = list(r.records("H"))
            res = fork_map(
                replay_histories,
                [(par[0], c) for c in chunks(hists, NPROC)],
            )
            for v, n, calls in res:
                report.add(v)
                report.traces += n
                report.count("random_history_calls", calls)
            if hists:
                report.sample({"random_history": hists[0]["hist"][:6]})
