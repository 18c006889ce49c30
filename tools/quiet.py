"""Run every check against copies of /repo whose behaviour is unchanged: python3 tools/quiet.py DIR... [-- CHECK...]"""
import os
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
checks = ["C%02d" % n for n in range(1, 100) if os.path.exists(os.path.join(ROOT, "mc", "checks", "c%02d.py" % n))]
if "--" in args:
    k = args.index("--")
    args, checks = args[:k], args[k + 1:]
for d in args:
    with tempfile.TemporaryDirectory() as tmp:
        for c in checks:
            env = dict(os.environ, VERIF_REPO=os.path.abspath(d), VERIF_EVIDENCE=tmp)
            r = subprocess.run([sys.executable, "-m", "mc", c], cwd=ROOT, env=env, capture_output=True, text=True)
            if r.returncode or "VIOLATION" in r.stdout:
                print("%s %s rc=%d\n%s" % (d, c, r.returncode, (r.stdout + r.stderr)[-1500:]), flush=True)
    print(d, "done", flush=True)
