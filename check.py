#!/usr/bin/env python3
"""Builds the monitors of one property against /repo and runs them.

usage: check.py <property>            (VERIF_SEED, VERIF_TIER from the environment)
       check.py --replay <file>       re-run the case a violation was seen in
       check.py --setup

exit 0: held on everything explored; 1: VIOLATION; 2: no verdict.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(ROOT, ".build")
MON = os.path.join(ROOT, "monitor")
REPLAYS = os.path.join(ROOT, "replays")
EVID = os.path.join(ROOT, "evidence")
KNOWN = os.path.join(ROOT, "known-findings.txt")
TRIPLE = "x86_64-unknown-linux-gnu"
NPROC = max(2, min(8, os.cpu_count() or 2))

FEATURE = {
    "C01": "c01", "C02": "iters", "C03": "iters", "C04": "iters", "C05": "hist", "C06": "hist", "C07": "memory",
    "C08": "hist", "C09": "addr", "C10": "addr", "C11": "addr", "C12": "addr", "C13": "whole", "C14": "whole",
    "C15": "whole", "C16": "dot", "C17": "validate", "C18": "cmp", "C19": "cmp", "C20": "faults", "C21": "threads",
    "C22": "item", "C23": "node", "C24": "offset", "C25": "cost", "C26": "node", "C27": "addr",
}

# Work per property: percentage of the monitor's unit of work, quick tier.
SCALE = {
    "C01": 700, "C02": 2000, "C03": 900, "C04": 1000, "C05": 1000, "C06": 3000, "C08": 2000, "C09": 1800, "C10": 1200,
    "C11": 4000, "C12": 4000, "C13": 1500, "C14": 1800, "C15": 4000, "C16": 2000, "C17": 1000, "C18": 100, "C19": 400,
    "C20": 800, "C21": 3000, "C22": 4000, "C23": 2000, "C24": 4000, "C25": 1500, "C26": 3000, "C27": 800,
}

# How each flavour is built and what it adds to the oracles of the monitors.
FLAVOURS = {
    "dev": dict(args=[], dir="dev", rustflags=""),
    "rel": dict(args=["--release"], dir="rel", rustflags=""),
    "asan": dict(args=["--target", TRIPLE], toolchain="+nightly", dir="asan", san="asan",
                 rustflags="-Zsanitizer=address -Cdebug-assertions=off -Coverflow-checks=off -Zub-checks=yes"),
    "tsan": dict(args=["--target", TRIPLE, "-Zbuild-std"], toolchain="+nightly", dir="tsan", san="tsan",
                 rustflags="-Zsanitizer=thread"),
    "miri-sb": dict(args=[], toolchain="+nightly", miri=True, dir="miri-dev", rustflags="", flags=""),
    "miri-tb": dict(args=["--release"], toolchain="+nightly", miri=True, dir="miri-rel", rustflags="",
                    flags="-Zmiri-tree-borrows"),
}


def plan(prop, thorough):
    """The runs of a property: (flavour, monitor, extra arguments, shards, options)."""
    s = SCALE.get(prop, 100)
    base = []
    if thorough:
        nat = ["--thorough", "--scale", str(max(100, s // 2)), "--seconds", "420"]
    else:
        nat = ["--scale", str(s), "--seconds", "60"]
    if prop == "C07":
        if thorough:
            runs = [
                ("asan", "C07-blend", ["--thorough", "--scale", "3000", "--seconds", "120"], 8, {}),
                ("asan", "C07", ["--thorough", "--scale", "60", "--seconds", "300"], 8, {}),
                ("asan", "C07", ["--scale", "100", "--leaky", "--seconds", "60"], 4, {"leaks": False}),
                ("dev", "C07-blend", ["--scale", "3000", "--seconds", "60"], 8, {}),
                ("dev", "C07", ["--scale", "100", "--seconds", "60"], 8, {}),
                ("miri-sb", "C07-blend", ["--scale", "400"], 8, {}),
                ("miri-tb", "C07-blend", ["--scale", "400"], 8, {}),
                ("miri-sb", "C07", ["--thin", "2"], 8, {}),
                ("miri-tb", "C07", ["--thin", "2"], 8, {}),
                ("miri-sb", "C07", ["--thin", "2", "--leaky"], 4, {"leaks": False}),
                ("miri-tb", "C07", ["--thin", "2", "--leaky"], 4, {"leaks": False}),
            ]
        else:
            runs = [
                ("asan", "C07-blend", ["--scale", "1500", "--seconds", "60"], 4, {}),
                ("asan", "C07", ["--scale", "34", "--seconds", "90"], 8, {}),
                ("asan", "C07", ["--scale", "30", "--leaky", "--seconds", "60"], 2, {"leaks": False}),
                ("miri-sb", "C07-blend", ["--scale", "100"], 6, {}),
                ("miri-tb", "C07-blend", ["--scale", "100"], 6, {}),
                ("miri-sb", "C07", ["--thin", "12"], 6, {}),
                ("miri-tb", "C07", ["--thin", "12"], 6, {}),
                ("miri-sb", "C07", ["--thin", "12", "--leaky"], 2, {"leaks": False}),
            ]
        for case in ("itermut-held", "itermut-held-in-use", "itermut-held-apart"):
            for f in ("miri-sb", "miri-tb"):
                runs.append((f, "C07-held", ["--only", case + ":5"], 1, {"known": case}))
        return runs
    runs = [("dev", prop, nat, 8, {})]
    if prop != "C17":  # validate exists in debug builds only
        runs.append(("rel", prop, nat, 8, {}))
    if prop == "C19":
        runs.append(("asan", prop, ["--scale", "400" if thorough else "60", "--seconds", "60"], 8, {}))
        runs.append(("miri-sb", prop, ["--scale", "2500" if thorough else "600"], 8, {}))
    if prop == "C20":
        runs.append(("asan", prop, ["--scale", "400" if thorough else "100", "--leaky", "--seconds", "60"], 8, {"leaks": False}))
        runs.append(("miri-sb", prop, ["--leaky", "--thin", "1" if thorough else "3"], 8, {"leaks": False}))
    if prop == "C26":
        runs.append(("miri-sb", prop, ["--scale", "400" if thorough else "100"], 4, {}))
        runs.append(("miri-sb", prop, ["--leaky", "--scale", "800" if thorough else "200"], 8, {"leaks": False}))
    if prop == "C21":
        runs.append(("tsan", prop, ["--scale", "3000" if thorough else "400", "--seconds", "120"], 4, {}))
        for k in range(16 if thorough else 4):
            runs.append(("miri-sb", prop, ["--scale", "100"], 1, {"miriflags": "-Zmiri-seed=%d" % k, "skew": k}))
    return runs


RULE = {}


def load_rules():
    with open(os.path.join(ROOT, "rules.json")) as f:
        RULE.update(json.load(f))


class NoVerdict(Exception):
    pass


stop = threading.Event()
live = set()
lock = threading.Lock()


def sh(cmd, env, timeout, cwd=MON):
    """Runs a command in a process group of its own; (rc, out, err, timed out)."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         start_new_session=True)
    with lock:
        live.add(p)
    try:
        o, e = p.communicate(timeout=timeout)
        late = False
    except subprocess.TimeoutExpired:
        kill(p)
        o, e = p.communicate()
        late = True
    finally:
        with lock:
            live.discard(p)
    return p.returncode, o.decode("utf8", "replace"), e.decode("utf8", "replace"), late


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass


def kill_all():
    with lock:
        for p in list(live):
            kill(p)


def environment(fl):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",) or k in ("RUSTC", "RUSTFLAGS", "RUSTC_WRAPPER", "MIRIFLAGS", "RUSTDOCFLAGS"):
            del env[k]
    env["CARGO_NET_OFFLINE"] = "true"
    env["CARGO_TARGET_DIR"] = os.path.join(BUILD, fl["dir"])
    env["RUSTFLAGS"] = fl["rustflags"]
    env["CARGO_TERM_COLOR"] = "never"
    env["RUST_BACKTRACE"] = "0"
    return env


def cargo(fl, verb, feature):
    c = ["cargo"]
    if fl.get("toolchain"):
        c.append(fl["toolchain"])
    return c + verb + ["--offline", "--no-default-features", "--features", feature] + fl["args"]


def fresh(fl):
    """Forgets what cargo believes to be up to date (it compares dates)."""
    d = os.path.join(BUILD, fl["dir"])
    for base, dirs, _ in os.walk(d):
        if os.path.basename(base) == ".fingerprint":
            for x in dirs:
                if x.startswith(("raw-btree-", "monitor-")):
                    shutil.rmtree(os.path.join(base, x), ignore_errors=True)
            dirs[:] = []


def build(name, feature):
    """Builds a flavour; returns (command prefix, environment, seconds)."""
    fl = FLAVOURS[name]
    t0 = time.time()
    env = environment(fl)
    if fl.get("miri"):
        # what `cargo miri run` builds, by a run of no case at all
        env["MIRIFLAGS"] = "-Zmiri-disable-isolation"
        cmd = cargo(fl, ["miri", "run"], feature) + ["--", "C00-none"]
        rc, o, e, late = sh(cmd, env, 800)
        if "@@HARNESS" not in o or late:
            raise NoVerdict("building %s failed:\n%s" % (name, (e or o)[-3000:]))
        return cargo(fl, ["miri", "run", "--quiet"], feature) + ["--"], env, time.time() - t0
    rc, o, e, late = sh(cargo(fl, ["build"], feature), env, 800)
    if rc != 0 or late:
        raise NoVerdict("building %s failed:\n%s" % (name, e[-3000:]))
    prof = "release" if "--release" in fl["args"] else "debug"
    d = os.path.join(BUILD, fl["dir"])
    if "--target" in fl["args"]:
        d = os.path.join(d, TRIPLE)
    return [os.path.join(d, prof, "monitor")], env, time.time() - t0


def parse(out):
    r = {}
    for l in out.splitlines():
        for t in ("VIOL", "HARNESS", "DONE"):
            if l.startswith("@@" + t + " "):
                try:
                    r.setdefault(t, json.loads(l[len(t) + 3:]))
                except ValueError:
                    r.setdefault(t, {"msg": l[:2000]})
    return r


def journal_case(path):
    try:
        f = open(path).read().split()
        return f[0], int(f[1])
    except (OSError, IndexError, ValueError):
        return None, None


CRASH = {signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP}


def judge(flname, rc, out, err, late, opts, journal):
    """-> (verdict, message, scenario, seed, done), verdict: held, violated, known or none."""
    fl = FLAVOURS[flname]
    r = parse(out)
    done = r.get("DONE")
    scen, seed = journal_case(journal)
    if "VIOL" in r:
        v = r["VIOL"]
        return "violated", v.get("msg", ""), v.get("scenario") or scen, v.get("seed", seed), done, v
    if late:
        return "none", "time limit", scen, seed, done, None
    if fl.get("miri"):
        m = re.search(r"^error: (Undefined Behavior: .*|memory leaked: .*|abnormal termination: .*|the evaluated program deadlocked.*|the evaluated program leaked memory.*)$", err, re.M)
        if m:
            leak = "leak" in m.group(1)[:40] and "Undefined" not in m.group(1)[:20]
            if leak and (not opts.get("leaks", True) or (done or {}).get("leak_ok")):
                return "held", "", scen, seed, done, None
            return "violated", "Miri: " + m.group(1), scen, seed, done, None
        if rc == 0 and done:
            return "held", "", scen, seed, done, None
        return "none", "exit status %s: %s" % (rc, (err or out)[-1500:]), scen, seed, done, None
    if fl.get("san") == "asan":
        if "LeakSanitizer has encountered a fatal error" in err:
            return "retry-noleak", "", scen, seed, done, None
        m = re.search(r"ERROR: AddressSanitizer: (.*)", err)
        if m and not re.search(r"out of memory|failed to allocate|unable to mmap", m.group(1), re.I):
            return "violated", "AddressSanitizer: " + m.group(1), scen, seed, done, None
        if "LeakSanitizer: detected memory leaks" in err:
            if done and not done.get("leak_ok"):
                s = re.search(r"SUMMARY: AddressSanitizer: (.*)", err)
                return "violated", "LeakSanitizer: " + (s.group(1) if s else "memory leaked"), None, None, done, None
            if done:
                return "held", "", scen, seed, done, None
    if fl.get("san") == "tsan" and "WARNING: ThreadSanitizer:" in err:
        m = re.search(r"WARNING: ThreadSanitizer: (.*?)(\(pid|$)", err)
        return "violated", "ThreadSanitizer: " + m.group(1).strip(), scen, seed, done, None
    if rc < 0 and -rc in CRASH:
        if re.search(r"memory allocation of \d+ bytes failed", err):
            return "none", "out of memory", scen, seed, done, None
        return "violated", "the process died of signal %d: %s" % (-rc, err[-600:].strip()), scen, seed, done, None
    if rc == 0 and done:
        return "held", "", scen, seed, done, None
    return "none", "exit status %s: %s" % (rc, (r.get("HARNESS", {}).get("msg") or err or out)[-1500:]), scen, seed, done, None


def known_findings(prop):
    res = []
    try:
        for l in open(KNOWN):
            if l.startswith("known: property=" + prop + " "):
                res.append(json.loads(l.split(" ", 2)[2]))
    except OSError:
        pass
    return res


def match_known(prop, case, flname, err):
    for k in known_findings(prop):
        if k["case"] != case or k["flavour"] != flname:
            continue
        lines = [re.sub(r"<\d+>", "<N>", l) for l in err.splitlines()]
        at = [b for a, b in zip(lines, lines[1:]) if a.startswith("error: ")][:1]
        if all(any(re.search(p, l) for l in lines) for p in k["signature"]) and err.count("error: Undefined Behavior") == 1 \
                and at and re.search(k["at"], at[0]):
            return k
    return None


def options_env(flname, env, opts):
    fl = FLAVOURS[flname]
    env = dict(env)
    if fl.get("miri"):
        f = ["-Zmiri-disable-isolation"]
        if fl["flags"]:
            f.append(fl["flags"])
        if not opts.get("leaks", True):
            f.append("-Zmiri-ignore-leaks")
        if opts.get("miriflags"):
            f.append(opts["miriflags"])
        env["MIRIFLAGS"] = " ".join(f)
    if fl.get("san") == "asan":
        env["ASAN_OPTIONS"] = "exitcode=77:halt_on_error=1:abort_on_error=0:detect_stack_use_after_return=0:allocator_may_return_null=0:detect_leaks=%d" % (1 if opts.get("leaks", True) else 0)
        env["LSAN_OPTIONS"] = "exitcode=77"
    if fl.get("san") == "tsan":
        env["TSAN_OPTIONS"] = "exitcode=78:halt_on_error=1:second_deadlock_stack=1"
    return env


def run_one(job):
    prop, flname, cmd, env, mon, args, seed, shard, nshards, opts, tier, n = job
    if stop.is_set():
        return None
    os.makedirs(os.path.join(BUILD, "journal"), exist_ok=True)
    journal = os.path.join(BUILD, "journal", "%s-%d-%d" % (prop, os.getpid(), n))
    env = options_env(flname, env, opts)
    full = cmd + [mon, "--seed", str(seed), "--shard", "%d/%d" % (shard, nshards), "--journal", journal] + args
    t0 = time.time()
    rc, o, e, late = sh(full, env, 2400 if tier == "thorough" else 700)
    if stop.is_set() and rc == -signal.SIGKILL:
        return None
    res = judge(flname, rc, o, e, late, opts, journal)
    if res[0] == "retry-noleak":
        env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("detect_leaks=1", "detect_leaks=0")
        rc, o, e, late = sh(full, env, 700)
        res = judge(flname, rc, o, e, late, opts, journal)
        opts = dict(opts, leak_checker="unavailable")
    verdict, msg, scen, cseed, done, v = res
    if verdict == "violated" and opts.get("known"):
        k = match_known(prop, opts["known"], flname, e)
        if k:
            verdict, msg = "known", k["what"]
    try:
        os.unlink(journal)
    except OSError:
        pass
    if verdict == "violated":
        stop.set()
        kill_all()
    return dict(flavour=flname, monitor=mon, args=args, seed=seed, shard=shard, nshards=nshards, opts=opts, verdict=verdict,
                msg=msg, scenario=scen, case_seed=cseed, done=done, viol=v, wall=time.time() - t0, stderr=e[-6000:] if verdict != "held" else "")


def main(prop):
    t0 = time.time()
    load_rules()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    runs = plan(prop, tier == "thorough")
    feature = FEATURE[prop]
    names = []
    for r in runs:
        if r[0] not in names:
            names.append(r[0])
    os.makedirs(BUILD, exist_ok=True)
    for d in {FLAVOURS[n]["dir"]: FLAVOURS[n] for n in names}.values():
        fresh(d)
    built = {}
    bad = []
    jobs_done = []
    ex = cf.ThreadPoolExecutor(NPROC)
    bx = cf.ThreadPoolExecutor(len(names))
    futures = []
    n = 0
    fb = {bx.submit(build, name, feature): name for name in names}
    for f in cf.as_completed(fb):
        name = fb[f]
        try:
            built[name] = f.result()
        except NoVerdict as e:
            bad.append(str(e))
            continue
        cmd, env, _ = built[name]
        order = list(FLAVOURS)
        for (fl, mon, args, nshards, opts) in runs:
            if fl != name:
                continue
            # every flavour explores other cases
            s = seed * 1000 + order.index(fl) * 50 + opts.get("skew", 0)
            for k in range(nshards):
                futures.append(ex.submit(run_one, (prop, fl, cmd, env, mon, args, s, k, nshards, opts, tier, n)))
                n += 1
    for f in futures:
        r = f.result()
        if r:
            jobs_done.append(r)
    report(prop, tier, seed, t0, built, jobs_done, bad)


def report(prop, tier, seed, t0, built, rs, bad):
    viol = [r for r in rs if r["verdict"] == "violated"]
    none = [r for r in rs if r["verdict"] == "none"]
    known = [r for r in rs if r["verdict"] == "known"]
    evals, skipped, cut = 0, 0, 0
    hashes, shapes = set(), set()
    scen, counts, per = {}, {}, {}
    samples = []
    for r in rs:
        d = r["done"]
        p = per.setdefault(r["flavour"], {"processes": 0, "cases": 0, "distinct_nontrivial_cases": set(), "cpu_wall_s": 0.0})
        p["processes"] += 1
        p["cpu_wall_s"] = round(p["cpu_wall_s"] + r["wall"], 1)
        if r["opts"].get("leak_checker"):
            p["leak_checker"] = "unavailable"
        if not d:
            continue
        p["cases"] += d["evals"]
        evals += d["evals"]
        skipped += d["skipped_sem"]
        cut += bool(d["cut"])
        hashes.update(r["flavour"] + h if FLAVOURS[r["flavour"]].get("miri") else h for h in d["hashes"])
        p["distinct_nontrivial_cases"].update(d["hashes"])
        shapes.update(d["shapes"])
        for k, v in d["by_scenario"].items():
            scen[k] = scen.get(k, 0) + v
        for k, v in d["counts"].items():
            counts[k] = max(counts.get(k, 0), v) if k.startswith("max_") else counts.get(k, 0) + v
        for s in d["samples"]:
            if len(samples) < 40 and sum(x["scenario"] == s["scenario"] for x in samples) < 2:
                samples.append(dict(s, flavour=r["flavour"]))
    for p in per.values():
        p["distinct_nontrivial_cases"] = len(p["distinct_nontrivial_cases"])
    rule = RULE.get(prop, {})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(hashes),
            "rule": rule.get("rule", ""),
            "observed": counts,
            "cases_by_scenario": scen,
            "distinct_tree_shapes_or_interleavings": len(shapes),
            "flavours": per,
            "cases_ended_by_another_propertys_oracle": skipped,
            "processes_cut_by_the_time_limit": cut,
            "known_findings_seen": [r["msg"] for r in known],
            "inconclusive": [r["flavour"] + " " + r["monitor"] + ": " + r["msg"][:300] for r in none] + [b[:300] for b in bad],
            "samples": samples or [{"note": "no case was completed"}],
        },
        "wall_s": round(time.time() - t0, 2),
    }
    if viol:
        ev["coverage"]["violations"] = ["%s: %s" % (r["flavour"], r["msg"][:500]) for r in viol]
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for m in sorted({r["msg"] for r in known}):
        print("KNOWN-FINDING: property=%s %s" % (prop, m))
    if viol:
        os.makedirs(REPLAYS, exist_ok=True)
        r = viol[0]
        path = os.path.join(REPLAYS, "%s-%s-%d.json" % (prop, r["flavour"], seed))
        with open(path, "w") as f:
            json.dump({"property": prop, "flavour": r["flavour"], "monitor": r["monitor"], "args": r["args"], "seed": r["seed"],
                       "shard": "%d/%d" % (r["shard"], r["nshards"]), "scenario": r["scenario"], "case_seed": r["case_seed"],
                       "opts": r["opts"], "message": r["msg"], "report": r["viol"], "stderr": r["stderr"]}, f, indent=1)
        print("%s [%s, scenario %s, seed %s]" % (r["msg"][:1500], r["flavour"], r["scenario"], r["case_seed"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.stdout.flush()
        os._exit(1)
    if bad or none:
        for b in bad:
            print("no verdict: " + b)
        for r in none:
            print("no verdict: %s %s shard %d: %s" % (r["flavour"], r["monitor"], r["shard"], r["msg"][:600]))
        sys.stdout.flush()
        os._exit(2)
    if evals - skipped < 1 or len(hashes) < 2:
        print("no verdict: nothing was observed")
        sys.stdout.flush()
        os._exit(2)
    print("%s held: %d cases, %d distinct non-trivial, %d shapes or interleavings, %s [%.0f s]" % (
        prop, evals, len(hashes), len(shapes), ", ".join("%s %d" % (k, v["cases"]) for k, v in sorted(per.items())), time.time() - t0))
    sys.stdout.flush()
    os._exit(0)


def replay(path):
    d = json.load(open(path))
    fl = FLAVOURS[d["flavour"]]
    fresh(fl)
    cmd, env, _ = build(d["flavour"], FEATURE[d["property"]])
    env = options_env(d["flavour"], env, d["opts"])
    args = [d["monitor"], "--seed", str(d["seed"])] + d["args"]
    if d.get("scenario") and d.get("case_seed") is not None:
        args += ["--only", "%s:%s" % (d["scenario"], d["case_seed"])]
    else:
        args += ["--shard", d["shard"]]
    print(" ".join(cmd + args))
    return subprocess.call(cmd + args, env=env, cwd=MON)


if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) == 2 and sys.argv[1] == "--setup":
        for c in (["cargo", "--version"], ["cargo", "+nightly", "miri", "--version"]):
            subprocess.check_call(c)
        sys.exit(0)
    if len(sys.argv) != 2 or sys.argv[1] not in FEATURE:
        print(__doc__)
        sys.exit(2)
    try:
        main(sys.argv[1])
    except NoVerdict as e:
        print("no verdict: %s" % e)
        sys.exit(2)
