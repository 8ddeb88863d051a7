#!/usr/bin/env python3
"""Turns a planted-bug spec into seeded/<id> and confirms it.

usage: plant.py [-j N] SPEC...

A spec is a text file:
  @id <id> / @property <Cnn> / @needs <text> / @breaks <text>
  then one or more  @file <path> @old <lines> @new <lines>  and  @demo <C++>.
Confirms, in a scratch copy: the replaced lines exist in the original
repository, the demo passes without and fails with the change, the change
builds and all the stable tests pass with it.
"""
import concurrent.futures, json, os, re, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = "/repo"
ORIGINAL = "1dd32b0"

DEMO_SH = r'''#!/bin/bash
# cwd: the repository.  exit 0 when it behaves, non-zero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
g++ -std=c++17 -O1 -w @FLAGS@ -I"$here/shims" -iquote "$repo/include/albatross" \
  -I"$repo/include" -isystem /usr/include/eigen3 \
  -isystem /usr/include/suitesparse "$here/demo.cc" -o "$work/demo" \
  -lnlopt -lz -lzstd -lspqr -lcholmod -lpthread > "$work/log" 2>&1 || {
  grep -m5 error "$work/log" | cut -c1-300; exit 2; }
cd "$work" && timeout 200 "$work/demo"
'''

DEMO_H = r'''#ifndef DEMO_H
#define DEMO_H
#include <cmath>
#include <cstdlib>
#include <iostream>
#define DEMO_CHECK(cond, msg)                                                  \
  do {                                                                         \
    if (!(cond)) {                                                             \
      std::cout << "FAILED: " << msg << std::endl;                             \
      std::_Exit(1);                                                           \
    }                                                                          \
  } while (0)
inline bool demo_close(double a, double b, double tol = 1e-6) {
  return std::isfinite(a) && std::isfinite(b) &&
         std::fabs(a - b) <= tol * (1. + std::fabs(a) + std::fabs(b));
}
#endif
'''


def parse(path):
    spec = {"edits": []}
    key, buf = None, []

    def flush():
        nonlocal key, buf
        if key is None:
            return
        text = "\n".join(buf)
        if key in ("old", "new"):
            spec["edits"][-1][key] = text.strip("\n")
        elif key == "demo":
            spec["demo"] = text.strip("\n") + "\n"
        elif key == "file":
            spec["edits"].append({"file": text.strip()})
        else:
            spec[key] = " ".join(text.split())
        key, buf = None, []

    for line in open(path).read().split("\n"):
        m = re.match(r"@(id|property|needs|breaks|file|old|new|demo|flags)\b ?(.*)", line)
        if m:
            flush()
            key, buf = m.group(1), [m.group(2)] if m.group(2) else []
            if key == "old" and "old" in spec["edits"][-1]:
                spec["edits"].append({"file": spec["edits"][-1]["file"]})
        else:
            buf.append(line)
    flush()
    return spec


def sh(cmd, cwd=None, timeout=1800):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors="replace")


def plant(path):
    spec = parse(path)
    bug = spec["id"]
    out = os.path.join(VERIF, "seeded", bug)
    scratch = tempfile.mkdtemp(prefix="plant_", dir="/tmp")
    try:
        repo = os.path.join(scratch, "repo")
        sh(f"git clone -q {REPO} {repo}")
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        shutil.copytree(os.path.join(VERIF, "shims"), os.path.join(out, "shims"))
        open(os.path.join(out, "demo.h"), "w").write(DEMO_H)
        open(os.path.join(out, "demo.cc"), "w").write(
            '#include "demo.h"\n' + spec["demo"])
        sh_path = os.path.join(out, "demo.sh")
        open(sh_path, "w").write(DEMO_SH.replace("@FLAGS@", spec.get("flags", "")))
        os.chmod(sh_path, 0o755)
        json.dump({"property": spec["property"], "needs": spec["needs"],
                   "what_it_breaks": spec["breaks"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        rc, log = sh(f"bash {sh_path}", cwd=repo)
        if rc != 0:
            return bug, f"demo fails unpatched rc={rc}: {log[-600:]}"
        for e in spec["edits"]:
            p = os.path.join(repo, e["file"])
            src = open(p).read()
            if src.count(e["old"]) != 1:
                return bug, f"old text occurs {src.count(e['old'])} times in {e['file']}"
            open(p, "w").write(src.replace(e["old"], e["new"]))
        rc, diff = sh("git diff", cwd=repo)
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        for e in spec["edits"]:
            rc, orig = sh(f"git show {ORIGINAL}:{e['file']}", cwd=repo)
            have = {l.strip() for l in orig.split("\n")}
            _, d = sh(f"git diff -- {e['file']}", cwd=repo)
            for l in d.split("\n"):
                if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:].strip() not in have:
                    print(f"{bug}: note: not an original line: {l}")
        rc, log = sh(f"bash {sh_path}", cwd=repo)
        if rc == 0:
            return bug, "demo passes with the bug"
        if rc == 2:
            return bug, f"demo does not compile with the bug: {log[-500:]}"
        shown = log.strip()[-200:]
        cm = os.path.join(scratch, "cmake")
        shutil.copytree("/opt/vp/cmake", cm)
        f = os.path.join(cm, "CMakeLists.txt")
        t = open(f).read().replace("set(REPO /repo)", f"set(REPO {repo})")
        open(f, "w").write(t)
        rc, log = sh(f"cmake -S {cm} -B {scratch}/b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo "
                     f"-DCMAKE_CXX_COMPILER=g++ && ninja -C {scratch}/b -j 4")
        if rc != 0:
            return bug, f"does not build: {log[-600:]}"
        rc, log = sh(f"{scratch}/b/albatross_unit_tests")
        if rc != 0:
            return bug, f"stable tests fail: {log[-600:]}"
        return bug, f"ok ({shown})"
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    args = sys.argv[1:]
    jobs = 4
    if args and args[0] == "-j":
        jobs, args = int(args[1]), args[2:]
    with concurrent.futures.ThreadPoolExecutor(jobs) as pool:
        for bug, res in pool.map(plant, args):
            print(f"{bug}: {res}", flush=True)
