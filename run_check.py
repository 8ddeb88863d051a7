#!/usr/bin/env python3
"""Builds the harness of one property from /repo's working tree, runs its
workload under the monitors, and turns what they observed into a verdict.

  run_check.py C01 [--tier quick|thorough] [--seed N]
  run_check.py C01 --replay FILE

exit 0: the property held on everything that was explored
exit 1: "VIOLATION property=<id> replay=<path>"
exit 2: no answer (harness did not build, or a run was inconclusive)
"""
import argparse
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "_build")
OBJ = os.path.join(BUILD, "obj")
NCPU = 8

sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

INCLUDES = [
    "-I" + os.path.join(HERE, "shims"),
    "-I" + os.path.join(HERE, "harness"),
    "-iquote", os.path.join(REPO, "include", "albatross"),
    "-I" + os.path.join(REPO, "include"),
    "-isystem", "/usr/include/eigen3",
    "-isystem", "/usr/include/suitesparse",
    "-isystem", "/usr/include/libfccp",
]
COMMON = ["-std=c++17", "-g1", "-w", "-DCEREAL_THREAD_SAFE=1",
          "-fno-omit-frame-pointer", "-ferror-limit=5"]
MODES = {
    "asan": ["-O0", "-fsanitize=address,undefined",
             "-fno-sanitize-recover=all",
             "-fsanitize-ignorelist=" + os.path.join(HERE, "harness", "ubsan.ignore")],
    "asan1": ["-O1", "-fsanitize=address,undefined",
              "-fno-sanitize-recover=all",
              "-fsanitize-ignorelist=" + os.path.join(HERE, "harness", "ubsan.ignore")],
    "tsan": ["-O1", "-fsanitize=thread"],
    "plain": ["-O1"],
    "memcheck": ["-O1"],
}
LINK = {
    "asan": ["-fsanitize=address,undefined"],
    "asan1": ["-fsanitize=address,undefined"],
    "tsan": ["-fsanitize=thread"],
    "plain": [],
    "memcheck": [],
}
LIBS = ["-lnlopt", "-lz", "-lzstd", "-lspqr", "-lcholmod", "-lpthread"]
NAN_FILL = ["-DEIGEN_INITIALIZE_MATRICES_BY_NAN"]


class NoAnswer(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def compile_one(src, mode, extra):
    """Content-addressed: an object is reused only when the compiler command
    and every file it read (its dependency list) are byte for byte the same."""
    os.makedirs(OBJ, exist_ok=True)
    path = os.path.join(HERE, "harness", src)
    cmd = ["clang++"] + COMMON + MODES[mode] + (
        [] if mode == "memcheck" else NAN_FILL) + INCLUDES + list(extra)
    base = os.path.join(OBJ, sha(" ".join(cmd), src))
    obj, dep, stamp = base + ".o", base + ".d", base + ".stamp"

    def digest():
        try:
            text = open(dep).read()
        except OSError:
            return None
        files = [f for f in text.replace("\\\n", " ").split()[1:]]
        h = hashlib.sha256()
        for f in sorted(set(files)):
            if f.startswith("/usr/"):
                continue
            try:
                h.update(f.encode() + b"\0" + open(f, "rb").read())
            except OSError:
                return None
        return h.hexdigest()

    if os.path.exists(obj) and os.path.exists(stamp):
        d = digest()
        if d is not None and d == open(stamp).read():
            return obj, None
    for f in (obj, stamp):
        if os.path.exists(f):
            os.remove(f)
    tmp = "%s.%d" % (base, os.getpid())
    r = subprocess.run(cmd + ["-MMD", "-MF", dep, "-c", path, "-o", tmp + ".o"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        return None, "compiling %s (%s) failed:\n%s" % (src, mode, r.stdout[-3000:])
    os.replace(tmp + ".o", obj)
    d = digest()
    if d:
        with open(stamp, "w") as f:
            f.write(d)
    return obj, None


def build(prop, cfg):
    """Returns {bin name: path}, and the list of build errors."""
    errors, bins = [], {}
    jobs = {}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for b in cfg["bins"]:
            for s in b["srcs"] + ["vf_main.cc"]:
                jobs[(b["name"], s)] = ex.submit(compile_one, s, b["mode"],
                                                 tuple(b.get("flags", ())))
    for b in cfg["bins"]:
        objs = []
        for s in b["srcs"] + ["vf_main.cc"]:
            o, err = jobs[(b["name"], s)].result()
            if err:
                errors.append(err)
            else:
                objs.append(o)
        if len(objs) <= 1:
            continue
        out = os.path.join(BUILD, "%s-%s" % (prop, b["name"]))
        r = subprocess.run(["clang++"] + LINK[b["mode"]] + objs + ["-o", out] + LIBS +
                           list(b.get("libs", ())),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            errors.append("linking %s failed:\n%s" % (b["name"], r.stdout[-3000:]))
            continue
        bins[b["name"]] = out
    return bins, errors


def run_env(mode, leaks):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = ("abort_on_error=0:exitcode=77:detect_leaks=%d:"
                           "max_malloc_fill_size=65536:malloc_fill_byte=255:"
                           "detect_stack_use_after_return=1:"
                           "allocator_may_return_null=1:handle_abort=0" % (1 if leaks else 0))
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4"
    env["OMP_NUM_THREADS"] = "1"
    env["OPENBLAS_NUM_THREADS"] = "1"
    env["MKL_NUM_THREADS"] = "1"
    return env


def crash_kind(rc, err):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        kind = "asan-" + m.group(1)
        if m.group(1) == "requested-allocation-size" or "out-of-memory" in m.group(1):
            kind = "asan-alloc"
    elif "ERROR: LeakSanitizer" in err:
        kind = "leak"
    elif "ThreadSanitizer: " in err:
        kind = "tsan-" + re.search(r"ThreadSanitizer: ([\w -]+)", err).group(1).strip().replace(" ", "-")
    elif re.search(r"^==\d+== (Conditional jump|Use of uninit|Syscall param|Invalid \w|Mismatched free|Argument)", err, re.M):
        m = re.search(r"^==\d+== (Conditional jump|Use of uninit|Syscall param|Invalid \w+|Mismatched free|Argument)", err, re.M)
        kind = "memcheck-" + m.group(1).lower().replace(" ", "-")
    elif "runtime error:" in err:
        m = re.search(r"runtime error: (.*)", err)
        kind = "ubsan-" + re.sub(r"[^a-z]+", "-", re.sub(r"'[^']*'|0x[0-9a-f]+|\d+", "", m.group(1).lower()))[:60].strip("-")
    elif "Assertion `" in err:
        kind = "assert"
    elif "terminate called" in err or "libc++abi" in err:
        kind = "terminate"
    elif rc < 0:
        kind = "signal-%s" % signal.Signals(-rc).name
    else:
        kind = "exit-%d" % rc
    return kind


def interesting(err):
    lines = err.splitlines()
    keep = [l for l in lines if "Assertion" in l or "runtime error" in l or
            "Sanitizer" in l or "/repo/" in l or "uninitialised" in l or "Invalid " in l or "terminate" in l]
    keep = keep[:12] if keep else lines[-8:]
    return "\n".join(l[:300] for l in keep)


class Runner:
    def __init__(self, prop, cfg, tier, seed, workdir):
        self.prop, self.cfg, self.tier, self.seed = prop, cfg, tier, seed
        self.work = workdir
        self.fails, self.dones, self.errors = [], [], []

    def launch(self, b, exe, args, tag, timeout):
        out = os.path.join(self.work, tag + ".jsonl")
        prog = os.path.join(self.work, tag + ".progress")
        scratch = os.path.join(self.work, tag + ".scratch")
        os.makedirs(scratch, exist_ok=True)
        cmd = [exe, "--seed", str(self.seed), "--tier", self.tier, "--out", out,
               "--progress", prog] + args
        if b["mode"] == "tsan":
            # TSan needs a fixed address-space layout on kernels with many
            # bits of mmap randomisation.
            cmd = ["setarch", "-R"] + cmd if setarch_ok() else cmd
        if b["mode"] == "memcheck":
            # Reads of values which were never written, on real executions.
            cmd = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes",
                   "--leak-check=no", "--num-callers=24", "--fair-sched=yes"] + cmd
        env = run_env(b["mode"], b.get("leaks", False))
        env["TMPDIR"] = scratch
        with open(os.path.join(self.work, tag + ".err"), "w+b") as ef, \
                open(os.path.join(self.work, tag + ".stdout"), "w+b") as of:
            p = subprocess.Popen(cmd, stdout=of, stderr=ef, env=env, cwd=scratch,
                                 start_new_session=True)
            timed_out = False
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                timed_out = True
                os.killpg(p.pid, signal.SIGKILL)
                rc = p.wait()
            ef.seek(0)
            err = ef.read().decode("utf-8", "replace")
        recs = []
        if os.path.exists(out):
            for line in open(out, errors="replace"):
                try:
                    recs.append(json.loads(line))
                except ValueError:
                    pass
        where = None
        if os.path.exists(prog):
            f = open(prog).read().split()
            if len(f) >= 3:
                where = (f[0], int(f[1]), int(f[2]))
        shutil.rmtree(scratch, ignore_errors=True)
        return rc, timed_out, err, recs, where

    def shard(self, b, exe, k, n):
        timeout = b.get("timeout", 200 if self.tier == "quick" else 3000)
        start_sec, start_case = 0, 0
        for attempt in range(6):
            tag = "%s-%d-%d" % (b["name"], k, attempt)
            args = ["--shard", str(k), "--nshards", str(n), "--from-section",
                    str(start_sec), "--from-case", str(start_case)]
            if b.get("scale"):
                args += ["--scale", str(b["scale"])]
            rc, timed_out, err, recs, where = self.launch(b, exe, args, tag, timeout)
            for r in recs:
                r["bin"] = b["name"]
                if r["t"] == "fail":
                    self.fails.append(r)
                elif r["t"] == "done":
                    self.dones.append(r)
            done = any(r["t"] == "done" for r in recs)
            if rc == 0 and done:
                return
            if where is None:
                self.errors.append("%s: no progress recorded (rc %s)\n%s" %
                                   (tag, rc, err[-1500:]))
                return
            sec, case, idx = where
            one = ["--section", sec, "--case", str(case)]
            if timed_out:
                # Inconclusive by itself: the hanging case is run again, alone.
                rc2, to2, err2, recs2, _ = self.launch(
                    b, exe, one, tag + "-again", min(timeout, 90))
                if to2:
                    self.fails.append(dict(t="fail", key="%s/hang" % sec, section=sec,
                                           case=case, msg="case does not finish (twice)",
                                           desc="", bin=b["name"]))
                    return
                elif rc2 == 0:
                    self.errors.append("%s: timed out in %s case %d, not reproduced" %
                                       (tag, sec, case))
                    return
            elif rc == -signal.SIGKILL:
                self.errors.append("%s: killed (memory?) in %s case %d" % (tag, sec, case))
                return
            else:
                kind = crash_kind(rc, err)
                self.fails.append(dict(t="fail", key="%s/crash:%s" % (sec, kind),
                                       section=sec, case=case, msg=interesting(err),
                                       desc="", bin=b["name"]))
                if done:
                    return
            start_sec, start_case = idx, case + 1
        return


_setarch = None


def setarch_ok():
    global _setarch
    if _setarch is None:
        try:
            _setarch = subprocess.run(["setarch", "-R", "true"], stdout=subprocess.DEVNULL,
                                      stderr=subprocess.DEVNULL).returncode == 0
        except OSError:
            _setarch = False
    return _setarch


def load_known(prop):
    known = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                known[m.group(2)] = m.group(3)
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="restrict to one section (development)")
    a = ap.parse_args()
    prop, cfg = a.property, CHECKS[a.property]
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    work = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    try:
        return check(prop, cfg, a, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def check(prop, cfg, a, work, t0):
    bins, build_errors = build(prop, cfg)
    t_build = time.time() - t0
    run = Runner(prop, cfg, a.tier, a.seed, work)
    run.errors += build_errors

    if a.replay:
        rep = json.load(open(a.replay))
        run.seed, run.tier = rep["seed"], rep["tier"]
        b = [x for x in cfg["bins"] if x["name"] == rep["bin"]][0]
        rc, to, err, recs, _ = run.launch(b, bins[rep["bin"]],
                                          ["--section", rep["section"], "--case",
                                           str(rep["case"])], "replay", 600)
        for r in recs:
            if r["t"] == "fail":
                print(json.dumps(r, indent=1))
        bad = rc != 0 or to or any(r["t"] == "fail" for r in recs)
        if rc != 0:
            print(err[-4000:])
        if bad:
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
        return 1 if bad else 0

    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs = []
        for b in cfg["bins"]:
            if b["name"] not in bins:
                continue
            n = b.get("shards", NCPU)
            for k in range(n):
                futs.append(ex.submit(run.shard, b, bins[b["name"]], k, n))
        for f in futs:
            f.result()

    known = load_known(prop)
    found, violations = {}, {}
    for f in run.fails:
        d = found if f["key"] in known else violations
        d.setdefault(f["key"], f)

    ev = dict(evaluations=0, oracle_checks=0)
    sections, counters, maxima, samples, distinct = {}, {}, {}, {}, set()
    for d in run.dones:
        ev["evaluations"] += d["evaluations"]
        ev["oracle_checks"] += d["oracle_checks"]
        for k, v in d["sections"].items():
            sections[k] = sections.get(k, 0) + v
        for k, v in d["counters"].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in d["maxima"].items():
            maxima[k] = max(maxima.get(k, 0), v)
        for k, v in d["samples"].items():
            s = samples.setdefault(k, [])
            s.extend(v[:max(0, 2 - len(s))])
        distinct.update(d["distinct"])
    # A run which observed nothing is no answer.
    if not violations and not run.errors:
        if len(distinct) < cfg.get("min_distinct", 2):
            run.errors.append("only %d non-trivial cases observed" % len(distinct))
        for k in cfg.get("must_count", ()):
            if counters.get(k, 0) <= 0:
                run.errors.append("monitored event '%s' was never observed" % k)

    flat = ["%s: %s" % (k, x) for k in sorted(samples) for x in samples[k]]
    evidence = dict(
        property=prop, tier=a.tier, seed=a.seed, level="exploration",
        coverage=dict(evaluations=ev["evaluations"],
                      distinct_nontrivial=len(distinct),
                      rule=cfg["rule"], samples=flat[:60],
                      oracle_comparisons=ev["oracle_checks"],
                      cases_per_section=sections, events_observed=counters,
                      largest_observed=maxima,
                      sanitizer_builds=sorted({b["mode"] for b in cfg["bins"]}),
                      exhaustive=False),
        assumptions=cfg.get("assumptions", []),
        wall_s=round(time.time() - t0, 2), violations=len(violations))
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(evdir, exist_ok=True)
    if not a.only:
        with open(os.path.join(evdir, prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)

    for k in sorted(found):
        print("KNOWN-FINDING: property=%s key=%s %s" % (prop, k, known[k]))
    print("%s %s seed=%d: %d cases, %d distinct, %d oracle comparisons, build %.0fs, total %.0fs" %
          (prop, a.tier, a.seed, ev["evaluations"], len(distinct), ev["oracle_checks"],
           t_build, time.time() - t0))
    if violations:
        repdir = os.path.join(evdir, "replay")
        os.makedirs(repdir, exist_ok=True)
        for k in sorted(violations):
            f = violations[k]
            path = os.path.join(repdir, "%s-%s.json" % (prop, sha(k)[:10]))
            with open(path, "w") as fh:
                json.dump(dict(property=prop, seed=a.seed, tier=a.tier, **f), fh, indent=1)
            print("  %s case %s: %s" % (k, f["case"], f["msg"][:1200]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        for e in run.errors:
            print("note: " + e[:1500], file=sys.stderr)
        return 1
    if run.errors:
        for e in run.errors:
            print("NO ANSWER: " + e[:3000], file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
