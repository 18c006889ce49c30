"""Run checks against planted bugs: python3 tools/matrix.py own|all [ID ...]

Each bug is applied to a scratch copy of /repo, which the checks read through VERIF_REPO. Prints, per bug, which checks report it.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = ["C%02d" % n for n in range(1, 100) if os.path.exists(os.path.join(ROOT, "mc", "checks", "c%02d.py" % n))]


def main():
    mode, ids = sys.argv[1], sys.argv[2:]
    for bid in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
        if ids and bid not in ids:
            continue
        d = os.path.join(ROOT, "seeded", bid)
        prop = json.load(open(os.path.join(d, "meta.json")))["property"]
        tmp = tempfile.mkdtemp(prefix="matrix.")
        try:
            repo = os.path.join(tmp, "repo")
            shutil.copytree("/repo", repo, symlinks=True)
            subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=repo, check=True)
            res = []
            for c in CHECKS if mode == "all" else [prop]:
                ev = os.path.join(tmp, "verif")
                env = dict(os.environ, VERIF_REPO=repo, VERIF_EVIDENCE=tmp)
                r = subprocess.run([sys.executable, "-m", "mc", c], cwd=ROOT, env=env, capture_output=True, text=True)
                hit = r.returncode == 1 and "VIOLATION property=%s " % c in r.stdout
                if hit:
                    res.append(c)
                elif r.returncode:
                    res.append("%s?rc=%d %s" % (c, r.returncode, (r.stderr or r.stdout)[-200:]))
            print("%-24s %s %s %s" % (bid, prop, "CAUGHT" if prop in res else "MISSED", " ".join(res)), flush=True)
        finally:
            shutil.rmtree(tmp)


main()
