"""Run the checks against the planted bugs, each in a scratch copy of /repo.

    /opt/venv/bin/python tools/run_seeded.py [names...]

Not part of any check.  Prints one line per bug: CAUGHT, MISSED or what went wrong.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main(names):
    work = tempfile.mkdtemp(prefix="seeded-")
    repo, verif = work + "/repo", work + "/verif"
    try:
        sh(f"cp -a /repo {repo}; mkdir {verif} {verif}/evidence {verif}/out; cd {HERE} && cp -a mc run.sh known_findings.txt "
           f"properties.jsonl MANIFEST.json {verif}/")
        missed = 0
        for name in names or sorted(os.listdir(HERE + "/seeded")):
            d = f"{HERE}/seeded/{name}"
            prop = json.load(open(d + "/meta.json"))["property"]
            sh(f"git -C {repo} checkout -q -- .")
            if sh(f"git -C {repo} apply {d}/patch.diff").returncode:
                print(name, prop, "DOES NOT APPLY", flush=True)
                continue
            r = sh(f"{verif}/run.sh {prop}", env={**os.environ, "VERIF_REPO": repo}, cwd=verif)
            ok = r.returncode == 1 and f"VIOLATION property={prop} " in r.stdout
            missed += not ok
            first = next((x for x in r.stdout.splitlines() if x.startswith(prop + " ")), "")
            print(name, prop, "CAUGHT" if ok else f"MISSED rc={r.returncode} {r.stderr[-200:]}", first[:160], flush=True)
        print("missed:", missed)
    finally:
        shutil.rmtree(work)


main(sys.argv[1:])
