#!/usr/bin/env python3
"""Runs the check of every planted bug's property against a scratch copy of
/repo that carries the bug.   try_bugs.py [-j N] [--prop Cnn] [id...]"""
import argparse, concurrent.futures, glob, json, os, shutil, subprocess, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


def one(bug, prop=None, keep=False):
    meta = json.load(open(os.path.join(VERIF, "seeded", bug, "meta.json")))
    prop = prop or meta["property"]
    work = tempfile.mkdtemp(prefix="try_")
    try:
        repo = os.path.join(work, "repo")
        verif = os.path.join(work, "verif")
        os.makedirs(repo)
        shutil.copytree("/repo/include", repo + "/include")
        subprocess.run(["patch", "-s", "-p1", "-i", os.path.join(
            VERIF, "seeded", bug, "patch.diff")], cwd=repo, check=True)
        os.makedirs(verif)
        for n in ("harness", "shims", "tools"):
            shutil.copytree(os.path.join(VERIF, n), os.path.join(verif, n))
        for n in ("run_check.py", "checks.py", "known_findings.txt",
                  "properties.jsonl"):
            shutil.copy(os.path.join(VERIF, n), verif)
        t = time.time()
        r = subprocess.run(["python3", "run_check.py", prop, "--tier", "quick",
                            "--seed", "1"], cwd=verif,
                           env=dict(os.environ, VERIF_REPO=repo),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True)
        lines = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "key=" in l]
        detail = ""
        for f in glob.glob(verif + "/evidence/*.json"):
            e = json.load(open(f))
            detail = str(e.get("violations", e.get("violation", "")))[:300]
        return (bug, prop, r.returncode, time.time() - t,
                (lines or r.stdout.splitlines()[-3:])[:3], r.stdout[-1500:])
    finally:
        shutil.rmtree(work)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("-j", type=int, default=2)
    ap.add_argument("--prop")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("ids", nargs="*")
    a = ap.parse_args()
    ids = a.ids or sorted(os.listdir(os.path.join(VERIF, "seeded")))
    with concurrent.futures.ThreadPoolExecutor(a.j) as ex:
        for f in concurrent.futures.as_completed(
                [ex.submit(one, i, a.prop) for i in ids]):
            b, p, rc, t, lines, out = f.result()
            print("%-28s %s %s %4.0fs  %s" % (
                b, p, {1: "CAUGHT", 0: "MISSED"}.get(rc, "NOANSWER %d" % rc), t,
                " | ".join(l[:200] for l in lines)), flush=True)
            if a.v:
                print(out)
