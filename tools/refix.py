"""Reverts every repaired defect in a scratch copy and says whether the check named in known_findings.txt reports it again."""
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only = set(sys.argv[1:])


def one(m):
    pid, h, what = m
    d = "/tmp/refix-%s" % h
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    r = subprocess.run(["git", "revert", "--no-commit", h], cwd=d, capture_output=True, text=True)
    try:
        if r.returncode:
            return "%s %s CONFLICT %s" % (pid, h, what)
        if not os.path.exists(os.path.join(V, "qstatic/checks", pid.lower() + ".py")):
            return "%s %s NO CHECK YET %s" % (pid, h, what)
        r = subprocess.run(["python3", "-m", "qstatic.run", pid], cwd="/tmp/refix-v", env=dict(os.environ, QSTATIC_ROOT=d, PYTHONHASHSEED="0"), capture_output=True, text=True)
        return "%s %s %s %s" % (pid, h, "caught" if r.returncode == 1 else "MISSED rc=%d" % r.returncode, what)
    finally:
        shutil.rmtree(d, ignore_errors=True)


ms = [m for m in re.findall(r"^fixed: property=(\S+) (\S+) (.*)$", open(os.path.join(V, "known_findings.txt")).read(), re.M) if not only or m[1] in only or m[0] in only]
shutil.rmtree("/tmp/refix-v", ignore_errors=True)
shutil.copytree(V, "/tmp/refix-v", ignore=shutil.ignore_patterns(".git"))
with ThreadPoolExecutor(3) as ex:
    for l in ex.map(one, ms):
        print(l, flush=True)
shutil.rmtree("/tmp/refix-v", ignore_errors=True)
