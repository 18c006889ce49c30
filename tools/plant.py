"""Helper for planting bugs: python3 tools/plant.py DEFS.py [ID ...]

DEFS.py defines BUGS = {id: dict(property, needs, breaks, edits=[(file, old, new[, count])], demo=python text)}. For each bug: a scratch
copy of /repo gets the edits, the diff is saved, the stable tests run, the demo runs with and without the change. Only a bug that
passes all of it is written to seeded/<id>/.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, **kw)


def plant(bid, bug):
    tmp = tempfile.mkdtemp(prefix="plant.")
    try:
        repo = os.path.join(tmp, "repo")
        shutil.copytree("/repo", repo, symlinks=True)
        for e in bug["edits"]:
            path = os.path.join(repo, e[0])
            text = open(path).read()
            n = text.count(e[1])
            want = e[3] if len(e) > 3 else 1
            if n != want and want != "all" or n == 0:
                return "edit of %s matches %d times: %r" % (e[0], n, e[1][:60])
            open(path, "w").write(text.replace(e[1], e[2]))
        diff = sh(["git", "diff"], repo).stdout
        env = dict(os.environ, PYTHONPATH=repo, PYTHONDONTWRITEBYTECODE="1")
        t = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], repo, timeout=300, env=env)
        if t.returncode or "257 passed" not in t.stdout:
            return "tests fail: " + t.stdout[-900:]
        d = os.path.join(tmp, "demo")
        os.mkdir(d)
        open(os.path.join(d, "demo.py"), "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\nsys.dont_write_bytecode = True\n" + bug["demo"].strip() + "\n")
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/sh\nexec timeout 120 python3 "$(dirname "$0")/demo.py"\n')
        clean = sh(["sh", os.path.join(d, "demo.sh")], "/repo")
        if clean.returncode:
            return "demo fails on the unchanged tree: " + clean.stderr[-600:]
        broken = sh(["sh", os.path.join(d, "demo.sh")], repo)
        if not broken.returncode:
            return "demo passes with the change"
        out = os.path.join(ROOT, "seeded", bid)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        for f in os.listdir(d):
            shutil.copy(os.path.join(d, f), out)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        json.dump(dict(property=bug["property"], needs=bug["needs"], what_it_breaks=bug["breaks"]), open(os.path.join(out, "meta.json"), "w"), indent=1)
        return None
    finally:
        shutil.rmtree(tmp)


def main():
    ns = {}
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"), ns)
    for bid, bug in ns["BUGS"].items():
        if len(sys.argv) > 2 and bid not in sys.argv[2:]:
            continue
        print(bid, plant(bid, bug) or "planted", flush=True)


main()
