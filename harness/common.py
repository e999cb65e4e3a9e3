"""Shared machinery: running TLC, collecting violations, writing evidence."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
OUT = os.environ.get("VERIF_OUT", VERIF)
REPO = os.environ.get("VERIF_REPO", "/repo")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
NPROC = max(1, min(8, os.cpu_count() or 1))
CP = ":".join(
    [
        "/opt/veriftools/tla/tla2tools.jar",
        "/opt/veriftools/tla/CommunityModules-deps.jar",
    ]
)


class MachineryError(Exception):
    """The check itself is broken (not a verdict about the code)."""


def load_library():
    """Import the library from the working tree under test."""
    os.environ.setdefault("MPLBACKEND", "Agg")
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import rigid_body_motion as rbm
    where = os.path.realpath(os.path.dirname(os.path.dirname(rbm.__file__)))
    if where != os.path.realpath(REPO):
        raise MachineryError(f"library imported from {where}, not {REPO}")
    return rbm


# --------------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self, out, rc, wall):
        self.out = out
        self.rc = rc
        self.wall = wall
        self.emitted = []
        self.log = []
        for line in out.splitlines():
            if line.startswith('"') and line.endswith('"'):
                self.emitted.append(json.loads(line))
            else:
                self.log.append(line)
        text = "\n".join(self.log)
        m = re.findall(
            r"(\d+) states generated, (\d+) distinct states found", text
        )
        self.generated = int(m[-1][0]) if m else 0
        self.distinct = int(m[-1][1]) if m else 0
        if not m:
            m = re.findall(r"The number of states generated: (\d+)", text)
            if m:
                self.generated = self.distinct = int(m[-1])
        self.ok = (
            rc == 0
            and (
                "No error has been found" in text
                or "Finished in" in text
            )
            and "Error:" not in text
        )

    def records(self, kind):
        pre = kind + " "
        for e in self.emitted:
            if e.startswith(pre):
                yield json.loads(e[len(pre):])

    def tail(self, n=40):
        return "\n".join(self.log[-n:])


def run_tlc(module, cfg, *, env=None, args=(), timeout=800, heap="3g",
            expect_ok=True):
    """Run TLC on spec/<module>.tla with the given configuration text."""
    tmp = tempfile.mkdtemp(prefix="verif-tlc-")
    try:
        cfgfile = os.path.join(tmp, module + ".cfg")
        with open(cfgfile, "w") as f:
            f.write(cfg)
        cmd = [
            "java", f"-Xmx{heap}", "-Xss16m", "-XX:+UseSerialGC",
            "-XX:TieredStopAtLevel=4",
            "-cp", CP, "tlc2.TLC",
            "-workers", "1", "-metadir", os.path.join(tmp, "md"),
            "-noGenerateSpecTE", "-config", cfgfile, *args,
            os.path.join(SPEC, module + ".tla"),
        ]
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        p = subprocess.run(
            cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, timeout=timeout, text=True,
        )
        r = TlcResult(p.stdout, p.returncode, time.time() - t)
        if expect_ok and not r.ok:
            raise MachineryError(
                f"TLC failed on {module} (rc={p.returncode}):\n{r.tail()}"
            )
        return r
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def pmap(fn, items, n=NPROC):
    with ThreadPoolExecutor(n) as ex:
        return list(ex.map(fn, items))


def fork_map(fn, items, n=NPROC):
    """Map fn over items in forked workers (results must be picklable)."""
    import multiprocessing as mp

    items = list(items)
    if n <= 1 or len(items) <= 1:
        return [fn(i) for i in items]
    global _FORK_FN, _FORK_ITEMS
    _FORK_FN, _FORK_ITEMS = fn, items
    ctx = mp.get_context("fork")
    with ctx.Pool(min(n, len(items)), initializer=_fork_init) as pool:
        return pool.map(_fork_call, range(len(items)), chunksize=1)


def _fork_init():
    import gc

    # what was inherited need not be scanned by every collection
    gc.collect()
    gc.freeze()


def _fork_call(i):
    return _FORK_FN(_FORK_ITEMS[i])


def chunks(seq, n):
    seq = list(seq)
    n = max(1, n)
    k = (len(seq) + n - 1) // n if seq else 0
    return [seq[i:i + k] for i in range(0, len(seq), k)] if k else []


# -------------------------------------------------------------- violations
class Violation:
    """props: ids of the properties the disagreement contradicts."""

    def __init__(self, props, what, data, key=None):
        self.props = frozenset(props)
        self.what = what
        self.data = data
        self.key = key or what


def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]


class Report:
    """Collects what one check run covered and found."""

    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.violations = []
        self.other = 0

    def tlc(self, r):
        self.states += r.distinct
        self.transitions += r.generated

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)

    def count(self, key, n=1):
        self.extra[key] = self.extra.get(key, 0) + n

    def add(self, violations):
        for v in violations:
            if self.prop in v.props:
                self.violations.append(v)
            else:
                self.other += 1

    def finish(self):
        new, known = [], {}
        findings = [f for f in known_findings()
                    if f["property"] == self.prop and f["status"] == "open"]
        for v in self.violations:
            for f in findings:
                if re.fullmatch(f["key"], v.key):
                    known.setdefault(f["id"], (f, 0))
                    known[f["id"]] = (f, known[f["id"]][1] + 1)
                    break
            else:
                new.append(v)
        for f in findings:
            if f["id"] in known:
                print(f"KNOWN-FINDING: property={self.prop} {f['what']}")
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "samples": self.samples or ["none"],
        }
        cov.update(self.extra)
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": SEED,
            "level": "model_checking",
            "coverage": cov,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        with open(
            os.path.join(OUT, "evidence", self.prop + ".json"), "w"
        ) as f:
            json.dump(ev, f, indent=1, default=str)
        if not new:
            print(
                f"{self.prop} {self.tier}: ok, {self.states} spec states, "
                f"{self.transitions} spec transitions, {self.traces} "
                f"behaviours replayed in {ev['wall_s']} s"
            )
            return 0
        out = os.path.join(OUT, "out")
        os.makedirs(out, exist_ok=True)
        path = os.path.join(out, f"{self.prop}-{self.tier}.json")
        with open(path, "w") as f:
            json.dump(
                [{"what": v.what, "key": v.key, "data": v.data}
                 for v in new[:20]],
                f, indent=1, default=str,
            )
        for v in new[:5]:
            print(f"  {v.what}")
        print(f"VIOLATION property={self.prop} replay={path}")
        return 1
