"""Build and confirm planted bugs.  usage: seed.py SPEC.txt [id ...] [--notest]

SPEC blocks:
@@ id property
needs: ...
breaks: ...
=== file (below /repo)
<<<
old
---
new
>>>
!!! demo
python source (exit status nonzero / exception when broken)
@@ ...
"""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
           PYTHONPATH="/opt/vp/plugins", MPLBACKEND="Agg", HOME="/root", LANG="C.UTF-8",
           PATH="/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin")
DEMO_SH = '''#!/bin/bash
# run with cwd /repo after the build: exit 0 when the property holds
export OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=ENV, capture_output=True, text=True, **kw)


def main():
    args = [a for a in sys.argv[2:] if not a.startswith("--")]
    txt = open(sys.argv[1]).read()
    for blk in re.split(r"^@@ ", txt, flags=re.M)[1:]:
        head, rest = blk.split("\n", 1)
        sid, prop = head.split()
        if args and sid not in args:
            continue
        needs = re.search(r"^needs: (.*)$", rest, re.M).group(1)
        breaks = re.search(r"^breaks: (.*)$", rest, re.M).group(1)
        demo = rest.split("!!! demo\n", 1)[1]
        edits = re.findall(r"^=== (\S+)\n<<<\n(.*?)\n---\n(.*?)\n?>>>", rest, re.S | re.M)
        d = "/tmp/sd_" + sid
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", d], check=True)
        msgs = []
        out = os.path.join(V, "seeded", sid)
        os.makedirs(out, exist_ok=True)
        open(os.path.join(out, "demo.py"), "w").write(demo)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        r0 = sh("bash %s/demo.sh" % out, d)
        ok = r0.returncode == 0
        if not ok:
            msgs.append("demo fails on the clean tree: " + (r0.stdout + r0.stderr)[-400:])
        for f, a, b in edits:
            p = os.path.join(d, f)
            s = open(p).read()
            if s.count(a) != 1:
                msgs.append("%s: %d matches of %r" % (f, s.count(a), a[:50]))
                ok = False
            open(p, "w").write(s.replace(a, b))
        if ok:
            if any("pythran" in f for f, _, _ in edits):
                for f, _, _ in edits:
                    if "pythran" in f:
                        sh("rm -f %s*.so %s.cpp" % (f[:-3], f[:-3]), d)
                rb = sh("rm -rf build; /opt/venv/bin/python setup.py build_ext --inplace -j2", d)
                if rb.returncode:
                    msgs.append("build: " + rb.stderr[-300:])
                    ok = False
            r1 = sh("bash %s/demo.sh" % out, d)
            if r1.returncode == 0:
                msgs.append("demo passes with the bug")
                ok = False
            else:
                msgs.append("demo: " + (r1.stderr.strip().splitlines() or [""])[-1][:150])
        if ok and "--notest" not in sys.argv:
            x = "/tmp/sd_%s.xml" % sid
            sh("/opt/venv/bin/python -m pytest -q --tb=no -n 8 -p vp_seed -p no:cacheprovider --timeout=300 --benchmark-disable "
               "--continue-on-collection-errors -W ignore -o junit_family=xunit2 --junitxml=%s test qampy" % x, d)
            j = "/tmp/sd_%s.json" % sid
            subprocess.run(["python3", "/opt/vp/results.py", j, "junit:" + x], capture_output=True)
            b = json.load(open("/opt/vp/BASELINE.json"))
            o = json.load(open(j))
            miss = sorted(set(b["stable"]) - set(o["passed"]))
            if miss:
                ok = False
                msgs.append("%d stable tests fail, e.g. %s" % (len(miss), miss[:2]))
        diff = sh("git diff -- qampy", d).stdout
        shutil.rmtree(d)
        if ok:
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        else:
            shutil.rmtree(out)
        print(sid, prop, "OK" if ok else "REJECTED", "; ".join(msgs), flush=True)


main()
