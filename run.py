#!/usr/bin/env python3
"""Builds the monitors from the current tree of /repo, runs the jobs of one property, merges what
the monitors observed and gives the verdict.

usage: run.py PROPERTY [quick|thorough]
       run.py PROPERTY --replay FILE     run one recorded case again

exit 0: the property held on everything observed
exit 1: violation, with a line "VIOLATION property=<id> replay=<path>"
exit 2: no verdict (the build failed, a monitor could not run or observed nothing)
"""
import json
import os
import re
import shutil
import subprocess
import sys
import time

import jobs

VERIF = os.path.dirname(os.path.abspath(__file__))
CARGO_BIN = "/root/.cargo/bin"
NIGHTLY_SIMD = "nightly-2023-04-01-x86_64-unknown-linux-gnu"
STABLE = "stable-x86_64-unknown-linux-gnu"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"
HOOK = "--cfg basic_dsp_verif"
AVX = "-C target-feature=+sse2,+sse3,+avx,+avx2 -Zgcc-ld=lld"
TMP = os.path.join(VERIF, "build", "tmp")

# name -> (toolchain, rustflags, cargo arguments, binary, environment of the monitor)
BUILDS = {
    # all three instruction sets, chosen at run time with the hook
    "simd": (NIGHTLY_SIMD, f"{HOOK} {AVX}", ["-p", "mon", "--no-default-features", "--features", "std,simd"], "debug/mon", {}),
    # what a user of the stable toolchain gets, with matrix and interop
    "full": (STABLE, HOOK, ["-p", "mon", "-p", "facade"], "debug/mon", {}),
    "plain": (STABLE, HOOK, ["-p", "mon", "--no-default-features", "--features", "std"], "debug/mon", {}),
    "nostd": (STABLE, HOOK, ["-p", "mon", "--no-default-features"], "debug/mon", {}),
    "asan": (NIGHTLY_SIMD, f"{HOOK} {AVX} -Zsanitizer=address",
             ["-p", "mon", "--no-default-features", "--features", "full,simd", "--target", TRIPLE], f"{TRIPLE}/debug/mon",
             # leaks are no undefined behavior, and to look for them needs privileges
             {"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0:exitcode=66", "MON_EXACT": "1"}),
    "tsan": (NIGHTLY, f"{HOOK} -Zsanitizer=thread",
             ["-p", "mon", "--no-default-features", "--features", "std", "-Zbuild-std", "--target", TRIPLE], f"{TRIPLE}/debug/mon",
             {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:history_size=4"}),
    # an interpreter, for small sizes only
    "miri": (NIGHTLY, HOOK, ["--no-default-features", "--features", "full"], None,
             {"MON_TINY": "1", "MON_EXACT": "1"}),
}
MIRI = "-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-tree-borrows"


def log(*a):
    print(*a, flush=True)


def env_for(build):
    tc, flags, _, _, _ = BUILDS[build]
    e = dict(os.environ)
    e["PATH"] = CARGO_BIN + ":" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = tc
    e["RUSTFLAGS"] = flags + " -Awarnings"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TARGET_DIR"] = os.path.join(VERIF, "build", build)
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e.pop("CARGO_INCREMENTAL", None)
    # the standard library for the interpreter is built there
    e["XDG_CACHE_HOME"] = os.path.join(VERIF, "build", "cache")
    e["MIRIFLAGS"] = MIRI
    return e


def build(name, crate="harness"):
    tc, flags, args, binary, _ = BUILDS[name]
    t = time.time()
    cmds = [["cargo", "build", "--offline"] + args]
    if binary is None:
        nothing = ["--", "none", "1", "quick", "1", os.path.join(TMP, "none.json")]
        cmds = [["cargo", "miri", "setup"], ["cargo", "miri", "run", "--offline"] + args + nothing]
    for c in cmds:
        p = subprocess.run(c, cwd=os.path.join(VERIF, crate), env=env_for(name), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            log(p.stdout[-6000:])
            log(f"ERROR: build {name} failed")
            sys.exit(2)
    log(f"built {name} in {time.time() - t:.0f} s")
    return binary and os.path.join(VERIF, "build", name, binary)


def sched():
    """The library which delays the threads of a monitor at random."""
    so = os.path.join(TMP, "sched.so")
    p = subprocess.run(["gcc", "-O1", "-shared", "-fPIC", "-o", so, os.path.join(VERIF, "harness", "sched.c"), "-ldl"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        log(p.stdout)
        log("ERROR: sched.so was not built")
        sys.exit(2)
    return so


class Job:
    """One process of a monitor."""

    def __init__(self, prop, build, binary, monitor, seed, tier, secs, env=None, case=None, tag=""):
        self.prop, self.build, self.monitor, self.seed, self.tier, self.secs = prop, build, monitor, seed, tier, secs
        self.tag = tag
        self.out = os.path.join(TMP, f"{prop}.{monitor}.{build}.{tag}.{seed}.json")
        self.case = case
        self.lost = False
        if binary is None:
            self.cmd = ["cargo", "miri", "run", "--offline"] + BUILDS[build][2] + ["--"]
            self.cwd = os.path.join(VERIF, "harness")
            self.env = env_for(build)
            self.env["MIRIFLAGS"] = f"{MIRI} -Zmiri-seed={seed} -Zmiri-preemption-rate={(seed % 5) / 20}"
        else:
            self.cmd = [binary]
            self.cwd = TMP
            self.env = dict(os.environ)
        self.cmd += [monitor, str(seed), tier, str(secs), self.out]
        if case is not None:
            self.cmd.append(str(case))
        self.env["RUST_BACKTRACE"] = "0"
        self.env.update(BUILDS[build][4])
        self.env.update(env or {})
        self.xenv = env or {}

    def start(self):
        for f in (self.out, self.out + ".case"):
            if os.path.exists(f):
                os.remove(f)
        self.log = open(self.out + ".log", "w+b")
        self.t = time.time()
        self.p = subprocess.Popen(self.cmd, cwd=self.cwd, env=self.env, stdout=self.log, stderr=subprocess.STDOUT,
                                  start_new_session=True)
        self.limit = self.secs * 3 + 180
        return self

    def wait(self):
        try:
            self.rc = self.p.wait(timeout=max(1, self.limit - (time.time() - self.t)))
        except subprocess.TimeoutExpired:
            try:
                os.killpg(self.p.pid, 9)
            except ProcessLookupError:
                pass
            self.p.wait()
            self.rc = "hang"
        self.log.flush()
        self.log.seek(0)
        self.text = self.log.read().decode(errors="replace")
        self.log.close()
        self.res = None
        if os.path.exists(self.out):
            try:
                self.res = json.load(open(self.out))
            except ValueError:
                pass
        return self

    def last_case(self):
        try:
            return int(open(self.out + ".case").read().split()[0])
        except (OSError, ValueError, IndexError):
            return None


def sanitizer_signature(text):
    """Signature of a sanitizer report: the kind and the innermost frame inside of the repository."""
    m = re.search(r"(AddressSanitizer|ThreadSanitizer|LeakSanitizer|MemorySanitizer): ([a-zA-Z\- ]+)", text)
    if m:
        kind = m.group(2).strip().split(" on ")[0]
        f = re.search(r"/repo/(\S+?\.rs):\d+", text)
        return f"{m.group(1)}|{kind}|{f.group(1) if f else '?'}"
    m = re.search(r"error: Undefined Behavior: (.*)", text)
    if m:
        f = re.search(r"/repo/(\S+?\.rs):\d+", text)
        return f"miri|{m.group(1)[:80]}|{f.group(1) if f else '?'}"
    return None


def run_jobs(js, width):
    done, running, todo = [], [], list(js)
    while todo or running:
        while todo and len(running) < width:
            running.append(todo.pop(0).start())
        j = running.pop(0)
        done.append(j.wait())
    return done


def confirmed(j, binary):
    """A process which didn't end or was killed may only have been short of time or memory: it counts
    if the case it worked on does the same on its own."""
    if j.rc not in ("hang", -9, -15):
        return j
    case = j.last_case()
    if case is not None:
        again = Job(j.prop, j.build, binary, j.monitor, j.seed, j.tier, j.secs, j.xenv, case, j.tag + "again")
        again.start().wait()
        if again.rc == j.rc:
            return j
    log(f"NOTE: a process of {j.build} ended with {j.rc} at case {case}, which didn't happen again")
    j.rc, j.lost = 0, True
    return j


def main():
    prop = sys.argv[1]
    if prop not in jobs.PROPS:
        log("unknown property", prop)
        sys.exit(2)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    if len(sys.argv) > 2:
        if sys.argv[2] == "--replay":
            replay = json.load(open(sys.argv[3]))
        else:
            tier = sys.argv[2]
    spec = jobs.PROPS[prop]
    t0 = time.time()
    shutil.rmtree(TMP, ignore_errors=True)
    os.makedirs(TMP, exist_ok=True)
    plan = spec[tier]
    # the longest running processes first
    todo, bins = [], {}
    if replay:
        b = replay["build"]
        if "LD_PRELOAD" in (replay.get("env") or {}):
            replay["env"]["LD_PRELOAD"] = sched()
        j = Job(prop, b, build(b), replay["monitor"], replay["seed"], replay["tier"], 30, replay.get("env"),
                replay["case"], "replay")
        j.start().wait()
        log(j.text)
        bad = j.rc != 0 or (j.res and j.res["violations"])
        if bad:
            log(f"VIOLATION property={prop} replay={sys.argv[3]}")
        sys.exit(1 if bad else 0)
    done = []
    for p in plan:
        b = p["build"]
        if b not in bins:
            bins[b] = build(b)
        js = []
        for i in range(p.get("procs", 8)):
            env = dict(p.get("env", {}))
            if p.get("late"):
                env.update(LD_PRELOAD=sched(), SCHED_SEED=str(seed * 1000 + i))
            js.append(Job(prop, b, bins[b], p.get("monitor", prop), seed * 1000 + i, tier, p["secs"], env,
                          tag="late" if p.get("late") else ""))
        done += [confirmed(j, bins[b]) for j in run_jobs(js, p.get("width", 8))]
    finish(prop, seed, tier, spec, done, t0)


def finish(prop, seed, tier, spec, done, t0):
    known = {}
    for k in json.load(open(os.path.join(VERIF, "known_findings.json")))["findings"]:
        if k["status"] == "known" and k["property"] == prop:
            known[k["signature"]] = k
    viol, errors = {}, []
    tot = dict(cases=0, judged=0, skipped=0, distinct=0)
    counters, samples = {}, []
    for j in done:
        sig = None
        if j.rc == "hang":
            sig, msg = "hang", f"the monitor did not finish within {j.limit} s"
        elif j.rc != 0:
            sig = sanitizer_signature(j.text)
            if sig is None and isinstance(j.rc, int) and (j.rc < 0 or j.rc in (134, 139, 101)):
                sig = f"crash|{-j.rc if j.rc < 0 else j.rc}"
            msg = j.text[-3000:]
            if sig is None:
                errors.append(f"{' '.join(j.cmd)}: exit {j.rc}\n{j.text[-3000:]}")
                continue
        if sig:
            viol.setdefault(sig, dict(sig=sig, msg=msg, case=j.last_case(), count=0, job=j))["count"] += 1
        if not j.res:
            if not sig and not j.lost:
                errors.append(f"{' '.join(j.cmd)}: no result\n{j.text[-2000:]}")
            continue
        r = j.res
        for k in tot:
            tot[k] += r[k]
        for k, v in r["counters"].items():
            k = k if len(spec[tier]) == 1 else f"{j.build}:{k}"
            if k.split(":")[-1].startswith("max-"):
                counters[k] = max(counters.get(k, 0), v)
            else:
                counters[k] = counters.get(k, 0) + v
        samples += r["samples"][:2]
        for v in r["violations"]:
            o = viol.setdefault(v["sig"], dict(v, job=j, count=0))
            o["count"] += v["count"]
    news = []
    for sig, v in sorted(viol.items()):
        if sig in known:
            log(f"KNOWN-FINDING: property={prop} {known[sig]['what']} ({v['count']} times, e.g. {v['msg'][:300]})")
        else:
            news.append(v)
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(rdir, f))
    wall = time.time() - t0
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": tot["judged"],
            "distinct_nontrivial": tot["distinct"],
            "rule": spec["rule"],
            "samples": samples[:12],
            "cases_generated": tot["cases"],
            "undecided": tot["skipped"],
            "processes": len(done),
            "builds": sorted({j.build for j in done}),
            "observed": dict(sorted(counters.items())),
            "known_findings_seen": sorted(s for s in viol if s in known),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 1),
        "violations": len(news),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    log(f"{prop} {tier}: {tot['cases']} cases, {tot['judged']} judged, {tot['distinct']} distinct, "
        f"{tot['skipped']} undecided, {wall:.0f} s")
    if news:
        for i, v in enumerate(news[:20]):
            j = v["job"]
            path = os.path.join(rdir, f"{prop}-{i}.json")
            with open(path, "w") as f:
                json.dump({"property": prop, "build": j.build, "monitor": j.monitor, "seed": j.seed, "tier": tier,
                           "case": v["case"], "env": j.xenv, "signature": v["sig"], "count": v["count"],
                           "message": v["msg"],
                           "how": f"python3 run.py {prop} --replay {path}"}, f, indent=1)
                f.write("\n")
            log(f"  {v['sig']} ({v['count']} times): {v['msg'][:600]}")
            log(f"VIOLATION property={prop} replay={path}")
        sys.exit(1)
    for e in errors:
        log("ERROR:", e)
    if errors:
        sys.exit(2)
    need = spec.get("min", 200)
    if tot["judged"] < need:
        log(f"ERROR: only {tot['judged']} observations, at least {need} are expected; no verdict")
        sys.exit(2)
    # every kind of observation the property is about must have been made
    for k in spec.get("must", []):
        if not any(re.search(k, c) and n for c, n in counters.items()):
            log(f"ERROR: nothing observed for {k}; no verdict")
            sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
