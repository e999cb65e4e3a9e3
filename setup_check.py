"""Verify that the toolchain the checks need is there and the specs parse."""
import glob
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
CP = ("/opt/veriftools/tla/tla2tools.jar:"
      "/opt/veriftools/tla/CommunityModules-deps.jar")
rc = 0
for f in sorted(glob.glob(os.path.join(HERE, "spec", "*.tla"))):
    p = subprocess.run(["java", "-cp", CP, "tla2sany.SANY", f],
                       cwd=os.path.join(HERE, "spec"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True)
    bad = p.returncode != 0 or "Errors" in p.stdout or "error" in p.stdout
    print(os.path.basename(f), "FAILED" if bad else "ok")
    if bad:
        print(p.stdout)
        rc = 1
sys.exit(rc)
