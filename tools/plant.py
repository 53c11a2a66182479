"""plant.py SPEC.py [id...]: turns bug specifications into seeded/<id>/ after confirming them in a scratch copy.
A SPEC file defines B = [dict(id, prop, file, old, new (or edits=[(file, old, new)...]), demo, needs, breaks, tests=[...])]"""
import json
import os
import re
import shutil
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/plantcopy"
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", CUDA_VISIBLE_DEVICES="", TF_CPP_MIN_LOG_LEVEL="3", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")


def sh(cmd, cwd, t=1200):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, capture_output=True, text=True, timeout=t)
    return p.returncode, p.stdout + p.stderr


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    base = set(x if isinstance(x, str) else x.get("id", x.get("name")) for x in _base())
    for b in ns["B"]:
        if only and b["id"] not in only:
            continue
        shutil.rmtree(S, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", S], check=True)
        sh("git checkout -q -- . ", S)
        native = False
        for f, o, n in b.get("edits") or [(b["file"], b["old"], b["new"])]:
            t = open(os.path.join(S, f)).read()
            if t.count(o) != 1:
                print(b["id"], "BAD: old text occurs %d times in %s" % (t.count(o), f))
                break
            open(os.path.join(S, f), "w").write(t.replace(o, n))
            native |= not f.endswith(".py")
        else:
            d = os.path.join(ROOT, "seeded", b["id"])
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(sh("git diff", S)[1])
            open(os.path.join(d, "demo.py"), "w").write("import os\nimport sys\n\nsys.path.insert(0, os.getcwd())\n" + b["demo"].strip("\n") + "\n")
            open(os.path.join(d, "demo.sh"), "w").write("#!/bin/bash\nd=$(cd \"$(dirname \"$0\")\" && pwd)\nexec /opt/venv/bin/python \"$d/demo.py\"\n")
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
            if native:
                rc, o = sh("sed 's#/repo#%s#g' /opt/vp/build_ext.py > /tmp/be.py; %s /tmp/be.py" % (S, PY), S)
                if rc:
                    print(b["id"], "BUILD FAILS", o[-800:])
                    continue
            r0 = sh("bash %s/demo.sh" % d, "/repo", 300)
            r1 = sh("bash %s/demo.sh" % d, S, 300)
            bad = []
            if b.get("tests"):
                rc, o = sh("%s -m pytest -q -n 6 --dist worksteal -p no:cacheprovider --timeout=300 -rf %s" % (PY, " ".join(b["tests"])), S)
                bad = [x for x in re.findall(r"^FAILED (\S+)", o, re.M)]
                bad = [x for x in bad if any(_same(x, y) for y in base)]
                tail = (re.findall(r"\d+ passed.*", o) or o.strip().splitlines()[-1:])[-1]
            else:
                tail = "no tests"
            ok = r0[0] == 0 and r1[0] != 0 and not bad
            print(b["id"], "OK" if ok else "BAD", "demo", r0[0], r1[0], r1[1].strip().splitlines()[-1:], tail, bad[:5])
            if r0[0]:
                print(r0[1][-1500:])
    shutil.rmtree(S, ignore_errors=True)


def _base():
    d = json.load(open("/opt/vp/BASELINE.json"))
    if isinstance(d, dict):
        for k in ("passed", "tests", "stable"):
            if k in d:
                d = d[k]
                break
    return d


def _same(x, y):
    a, _, n = x.partition("::")
    m = re.split(r"::|\.", y)
    return y.endswith(n) and os.path.basename(a)[:-3] in y


main()
