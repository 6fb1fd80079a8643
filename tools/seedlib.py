"""Create planted bugs under /verif/seeded from a list of textual edits; see seeds_*.py.

Every bug is tried in a scratch copy: it must apply, leave the stable tests passing and be shown by its demo."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: behaves; the scratch directory takes every file written
. /opt/vp/env.sh
export PYTHONPATH="$PWD"
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
cd "$w"
timeout 120 python "$d/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def plant(seeds, only=()):
    scratch = tempfile.mkdtemp(prefix="seed-")
    repo = os.path.join(scratch, "repo")
    shutil.copytree("/repo", repo, symlinks=True)
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    bad = 0
    for s in seeds:
        if only and s["id"] not in only:
            continue
        sh("git checkout -q -- .", repo)
        err = None
        for path, old, new in s["edits"]:
            p = os.path.join(repo, path)
            t = open(p).read()
            if t.count(old) != 1:
                err = f"{path}: {t.count(old)} occurrences of {old[:60]!r}"
                break
            open(p, "w").write(t.replace(old, new))
        if err is None:
            d = os.path.join(VERIF, "seeded", s["id"])
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(sh("git diff", repo).stdout)
            open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip("\n"))
            open(os.path.join(d, "demo.sh"), "w").write(DEMO)
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
            r = sh(["bash", os.path.join(d, "demo.sh")], "/repo")
            if r.returncode != 0:
                err = "demo fails on the unchanged tree:\n" + r.stdout[-800:]
            r = sh(["bash", os.path.join(d, "demo.sh")], repo)
            if err is None and r.returncode == 0:
                err = "demo passes with the bug"
            if err is None:
                x = os.path.join(scratch, "junit.xml")
                env = dict(os.environ, PATH="/opt/venv/bin:/usr/bin:/bin", PYTHONDONTWRITEBYTECODE="1")
                sh(f"/opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 -o junit_family=xunit2 --junitxml={x} objutils/tests", repo, env=env)
                o = os.path.join(scratch, "res.json")
                sh(f"/usr/bin/python3 /opt/vp/results.py {o} junit:{x}", repo)
                passed = set(json.load(open(o))["passed"])
                miss = [t for t in base if t not in passed]
                if miss:
                    err = f"tests fail: {miss[:4]}"
            if err:
                shutil.rmtree(d)
        print(s["id"], "OK" if err is None else "REJECTED: " + err)
        bad += err is not None
    shutil.rmtree(scratch)
    return bad


def main(seeds):
    sys.exit(1 if plant(seeds, sys.argv[1:]) else 0)
