#!/usr/bin/env python3
"""Author and try a planted bug.

  plant.py new  DEF.py      DEF.py defines ID, PROP, FILE/EDITS, NEEDS,
                            BREAKS, DEMO; writes seeded/<ID>/
  plant.py try  ID [TIER]   scratch copy: applies, passes the stable tests,
                            the demo fails, and what the check says
"""
import json, os, re, shutil, subprocess, sys, tempfile
import xml.etree.ElementTree as ET

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
ENV = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1", "MPLBACKEND": "Agg",
       "PYTHONHASHSEED": "0"}


def new(path):
    txt = open(path).read()
    for part in re.split(r"^#####.*\n", txt, flags=re.M):
        if not part.strip():
            continue
        d = {}
        exec(part, d)
        out = os.path.join(V, "seeded", d["ID"])
        tmp = tempfile.mkdtemp(prefix="plant-")
        cp = os.path.join(tmp, "repo")
        shutil.copytree("/repo", cp, symlinks=True)
        for f, old, nw in d["EDITS"]:
            p = os.path.join(cp, "rigid_body_motion", f)
            s = open(p).read()
            if s.count(old) != 1:
                print(d["ID"], "EDIT matches", s.count(old), "times:", old)
                break
            open(p, "w").write(s.replace(old, nw))
        else:
            diff = subprocess.run(["git", "diff"], cwd=cp, text=True,
                                  stdout=subprocess.PIPE).stdout
            os.makedirs(out, exist_ok=True)
            open(out + "/patch.diff", "w").write(diff)
            open(out + "/demo.py", "w").write(d["DEMO"].lstrip())
            open(out + "/demo.sh", "w").write(
                "#!/bin/bash\n# run with cwd = repository\n"
                'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 '
                "MPLBACKEND=Agg\n"
                'exec /opt/venv/bin/python -W ignore '
                '"$(dirname "$(realpath "$0")")/demo.py"\n')
            os.chmod(out + "/demo.sh", 0o755)
            if "rosstub" in d["DEMO"]:
                shutil.copy(V + "/harness/rosstub.py", out)
            json.dump({"property": d["PROP"], "needs": d["NEEDS"],
                       "what_it_breaks": d["BREAKS"]},
                      open(out + "/meta.json", "w"), indent=1)
            print("planted", d["ID"])
        shutil.rmtree(tmp)


def stable(cp):
    x = os.path.join(cp, "junit-out.xml")
    subprocess.run(
        [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider",
         "--timeout=300", "-o", "junit_family=xunit2", f"--junitxml={x}",
         "tests"], cwd=cp, env=ENV, stdout=subprocess.DEVNULL,
        stderr=subprocess.DEVNULL)
    ok = set()
    for c in ET.parse(x).getroot().iter("testcase"):
        if all(c.find(k) is None for k in ("skipped", "failure", "error")):
            ok.add(c.get("classname") + "::" + c.get("name"))
    want = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [t for t in want if t not in ok]


def demo(d, cwd):
    return subprocess.run(["bash", d + "/demo.sh"], cwd=cwd, env=ENV,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          timeout=300, text=True)


def try_(id, tier="quick", only_check=False):
    d = os.path.join(V, "seeded", id)
    meta = json.load(open(d + "/meta.json"))
    tmp = tempfile.mkdtemp(prefix="plant-")
    cp = os.path.join(tmp, "repo")
    shutil.copytree("/repo", cp, symlinks=True)
    msg = []
    try:
        a = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=cp)
        if a.returncode:
            print(id, "DOES NOT APPLY")
            return
        if not only_check:
            bad = stable(cp)
            msg.append(f"tests broken: {bad[:3]}" if bad else "tests ok")
            r = demo(d, "/repo")
            msg.append("demo ok on HEAD" if r.returncode == 0 else
                       "DEMO FAILS ON HEAD " + r.stdout[-400:])
            r = demo(d, cp)
            msg.append("demo fails with patch" if r.returncode else
                       "DEMO PASSES WITH PATCH")
        out = os.path.join(tmp, "out")
        c = subprocess.run(
            [PY, V + "/check.py", meta["property"], tier], cwd=V,
            env={**ENV, "VERIF_REPO": cp, "VERIF_SEED": "1",
                 "VERIF_OUT": out}, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, text=True)
        hit = f"VIOLATION property={meta['property']}" in c.stdout
        msg.append(f"{meta['property']}: " + (
            "CAUGHT" if hit and c.returncode == 1 else
            f"MISSED rc={c.returncode} {c.stdout[-300:]}"))
        if hit:
            msg.append("   " + c.stdout.splitlines()[0][:200])
    finally:
        shutil.rmtree(tmp)
    print(id + ": " + "; ".join(msg), flush=True)


if sys.argv[1] == "new":
    new(sys.argv[2])
elif sys.argv[1] == "try":
    for i in sys.argv[2:]:
        try_(i)
else:
    for i in sys.argv[2:]:
        try_(i, only_check=True)
