#!/usr/bin/env python3
"""Runs the check of one property: builds the instrumented program(s) from the
repository's working tree, drives the workload, collects the monitors' verdicts
and writes evidence/<id>.json.

  check.py C01                  (VERIF_TIER, VERIF_SEED from the environment)
  check.py C01 --tier thorough
  check.py C01 --replay replays/C01-....json
Exit: 0 held on everything explored, 1 violated (VIOLATION line), 2 harness error.
"""
import json, os, re, subprocess, sys, time, shutil, tempfile, argparse, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import build as B
from vlib.props import PROPS
from vlib.propdefs import P as DEFS

VERIF = B.VERIF
ENV = dict(os.environ)
ENV.update({
    # 0xff fill: a read of never-written heap memory yields NaN / huge integers
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:max_malloc_fill_size=268435456:malloc_fill_byte=255:"
                    "detect_stack_use_after_return=1:allocator_may_return_null=0:max_allocation_size_mb=3000:"
                    "handle_abort=1:quarantine_size_mb=32:symbolize=1:detect_invalid_join=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=98:second_deadlock_stack=1:history_size=4:die_after_fork=0",
    "LC_ALL": "C", "OPENBLAS_NUM_THREADS": "1",
})


def load_known():
    p = os.path.join(VERIF, "known_findings.jsonl")
    known = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith("#"):
                known.append(json.loads(l))
    return known


def classify_crash(rc, err):
    m = re.search(r"SUMMARY: (\w+): ([\w-]+)", err)
    if m:
        site = ""
        fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (.+?) (?:/\S*?/)?(?:src|include|tools)/\S*?([\w.]+):(\d+)", err)
        if fr:
            site = fr[0][0].split("(")[0] + "@" + fr[0][1]
        return "crash:%s:%s:%s" % (m.group(1), m.group(2), site)
    m = re.search(r"runtime error: (.*)", err)
    if m:
        loc = re.search(r"(\w+\.(?:cpp|h)):\d+:\d+: runtime error", err)
        return "crash:UB:%s:%s" % (re.sub(r"[0-9x]+", "N", m.group(1))[:60], loc.group(1) if loc else "")
    if "Assertion" in err:
        return "crash:assertion"
    m = re.search(r"terminate called after throwing an instance of '([^']+)'", err)
    if m:
        return "crash:terminate:" + m.group(1)
    return "crash:exit%d" % rc


def run_shard(cmd, outfile, timeout, env):
    errf = tempfile.TemporaryFile(mode="w+", errors="replace")
    t0 = time.time()
    p = subprocess.Popen(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=errf, env=env,
                         start_new_session=True)
    return p, errf, t0


def tail(errf, n=200000):
    errf.seek(0, 2)
    size = errf.tell()
    errf.seek(max(0, size - n))
    return errf.read()


class Run:
    def __init__(self):
        self.viol = []       # dicts: sig,msg,case,driver,flavour
        self.counters = {}
        self.distinct = set()
        self.samples = []
        self.done = 0
        self.harness_errors = []
        self.timeouts = 0
        self.maxms = 0
        self.stop = False


def parse_out(path, run, drv, flavour):
    last = None
    hang = False
    stats = False
    up = False
    if os.path.exists(path):
        for l in open(path, errors="replace"):
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d["t"] == "B":
                last = d["case"]
            elif d["t"] == "V":
                d["driver"] = drv; d["flavour"] = flavour
                run.viol.append(d)
            elif d["t"] == "U":
                up = True
            elif d["t"] == "HANG":
                hang = True
            elif d["t"] == "S":
                stats = True
                run.done += d["done"]
                run.maxms = max(run.maxms, d.get("maxms", 0))
                for k, v in d["counters"].items():
                    run.counters[k] = run.counters.get(k, 0) + v
                run.distinct.update(d["distinct"])
                for s in d["samples"]:
                    if len(run.samples) < 8:
                        run.samples.append("%s[%s]: %s" % (drv, flavour, s))
    return last, hang, stats, up


def drive(exe, drv, flavour, cases, seed, tier, run, deadline, shards=8, alarm=60, extra=None, wrap=None, only_case=None):
    """Run `cases` deterministic cases of a driver, sharded; resume after a crash."""
    scratch = tempfile.mkdtemp(prefix="vh-%s-" % drv)
    env = dict(ENV)
    if extra:
        env.update(extra)
        if "ASAN_OPTIONS_EXTRA" in extra:
            env["ASAN_OPTIONS"] += ":" + extra["ASAN_OPTIONS_EXTRA"]
    try:
        pend = []
        if only_case is not None:
            pend.append((only_case, only_case + 1, 1, 0))
        else:
            shards = max(1, min(shards, cases))
            for i in range(shards):
                pend.append((i, cases, shards, 0))
        active = []
        nout = 0
        hang_retry = set()
        crashes = 0
        while pend or active:
            while pend and len(active) < 8:
                frm, to, stride, tries = pend.pop(0)
                out = os.path.join(scratch, "out%d" % nout); nout += 1
                sd = os.path.join(scratch, "s%d" % nout); os.makedirs(sd)
                cmd = (wrap or []) + [exe, "--seed", str(seed), "--from", str(frm), "--to", str(to), "--stride", str(stride),
                       "--out", out, "--scratch", sd, "--alarm", str(alarm)] + (["--thorough"] if tier == "thorough" else [])
                p, ef, t0 = run_shard(cmd, out, None, env)
                active.append((p, ef, out, sd, frm, to, stride, tries))
            time.sleep(0.02)
            for a in list(active):
                p, ef, out, sd, frm, to, stride, tries = a
                rc = p.poll()
                if rc is None:
                    if time.time() > deadline:
                        os.killpg(p.pid, signal.SIGKILL); p.wait()
                        active.remove(a)
                        run.timeouts += 1
                        parse_out(out, run, drv, flavour)
                        shutil.rmtree(sd, ignore_errors=True)
                    continue
                active.remove(a)
                last, hang, stats, up = parse_out(out, run, drv, flavour)
                err = tail(ef); ef.close()
                shutil.rmtree(sd, ignore_errors=True)
                if rc == 0 and stats:
                    continue
                if last is None and up:
                    last = frm    # the code under test failed while the workload was being set up
                if last is None:
                    run.harness_errors.append("%s[%s] exited %d before its first case: %s" % (drv, flavour, rc, err[-1500:]))
                    continue
                if hang:
                    key = (drv, flavour, last)
                    if key not in hang_retry:
                        hang_retry.add(key)
                        pend.append((last, to, stride, tries))   # re-run once before believing it
                        continue
                    sig, msg = "hang", "case does not terminate (%ds watchdog, twice)" % alarm
                elif rc == -9:
                    run.harness_errors.append("%s[%s] killed (memory?) in case %d" % (drv, flavour, last))
                    continue
                else:
                    sig = classify_crash(rc, err)
                    m = re.search(r"(SUMMARY: .*|.*runtime error: .*|.*Assertion.*|terminate called.*)", err)
                    msg = (m.group(1) if m else "exit code %d" % rc) + " || " + err[-3000:]
                run.viol.append({"t": "V", "case": last, "sig": sig, "msg": msg, "note": "", "driver": drv, "flavour": flavour})
                crashes += 1
                if hang:          # one confirmed hang decides; do not wait for the others
                    pend.clear()
                    for b in active:
                        os.killpg(b[0].pid, signal.SIGKILL); b[0].wait()
                        parse_out(b[2], run, drv, flavour); b[1].close()
                    active.clear()
                    run.stop = True
                    break
                if crashes < 12 and only_case is None and last + stride < to:
                    pend.append((last + stride, to, stride, tries + 1))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--verbose", action="store_true")
    ap.add_argument("--scale", type=float, default=1.0)
    a = ap.parse_args()
    pid = a.property
    spec = PROPS[pid]
    tier = "thorough" if a.tier == "thorough" else "quick"
    t0 = time.time()
    budget = 780 if tier == "quick" else int(os.environ.get("VERIF_THOROUGH_S", "3000"))
    deadline = t0 + budget
    run = Run()
    only = json.load(open(a.replay)) if a.replay else None
    if only:
        a.seed = only["seed"]; tier = only.get("tier", tier)
    expected = 0
    try:
        jobs = spec["jobs"]
        for ji, j in enumerate(jobs):
            if only and (only["driver"] != j["driver"] or only["flavour"] != j["flavour"]):
                continue
            exe = B.build(j["flavour"], j["driver"])
            extra = dict(j.get("env", {}))
            for tool in j.get("tools", []):
                extra["TOOL_" + tool] = B.build(j["flavour"], None, repo_main=os.path.join(B.REPO, "tools", tool + ".cpp"))
            extra["VERIF_REPO_DIR"] = B.REPO
            n = max(1, int(j["cases"][0 if tier == "quick" else 1] * a.scale))
            expected += 1 if only else n
            jseed = a.seed if only else a.seed + 7919 * ji
            drive(exe, j["driver"], j["flavour"], n, jseed, tier, run, deadline, shards=j.get("shards", 8),
                  alarm=j.get("alarm", 60), extra=extra, wrap=j.get("wrap"), only_case=only["case"] if only else None)
            for v in run.viol:
                v.setdefault("seed", jseed)
            if run.stop:
                break
    except B.BuildError as e:
        print("harness error: build failed\n" + str(e))
        sys.exit(2)
    known = [k for k in load_known() if k.get("kind") == "known" and k["property"] == pid]
    new, old = [], {}
    for v in run.viol:
        for k in known:
            if re.fullmatch(k["sig"], v["sig"]) and re.search(k.get("match", ""), v["msg"]):
                old.setdefault(k["id"], (k, 0))
                old[k["id"]] = (k, old[k["id"]][1] + 1)
                break
        else:
            new.append(v)
    for v in new:
        v["property"] = pid
    for kid, (k, n) in old.items():
        print("KNOWN-FINDING: property=%s %s (%d occurrences in this run)" % (pid, k["what"], n))
    wall = time.time() - t0
    trivial = not only and not new and (run.done < expected // 2 or not run.distinct or run.done == 0)
    ev = {
        "property": pid, "tier": tier, "seed": a.seed, "level": "exploration",
        "coverage": {
            "evaluations": run.done, "distinct_nontrivial": len(run.distinct), "rule": DEFS.get(pid, {}).get("rule", "?"),
            "samples": run.samples or ["(no sample recorded)"],
            "monitor_observations": dict(sorted(run.counters.items())),
            "planned_cases": expected, "shards_cut_by_time_limit": run.timeouts,
            "configurations": sorted({j["flavour"] for j in spec["jobs"]}),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": len(new),
    }
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", pid + ".json.tmp")
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
    print("%s: %d/%d cases, %d distinct, %d violations (%d known), %d cut, longest case %d ms, %.1fs" %
          (pid, run.done, expected, len(run.distinct), len(run.viol), len(run.viol) - len(new), run.timeouts, run.maxms, wall))
    for k, v in sorted(run.counters.items()):
        print("   observed %-40s %d" % (k, v))
    if new:
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        seen = {}
        for v in new:
            seen.setdefault((v["driver"], v["flavour"], v["sig"]), []).append(v)
        for i, ((d, f, s), vs) in enumerate(list(seen.items())[:12]):
            v = vs[0]
            rp = os.path.join(VERIF, "replays", "%s-%d-%s-%d.json" % (pid, a.seed, d, i))
            json.dump({"property": pid, "driver": d, "flavour": f, "seed": v["seed"], "tier": tier, "case": v["case"],
                       "sig": s, "msg": v["msg"], "note": v["note"]}, open(rp, "w"), indent=1)
            print("  [%s x%d] case %d: %s%s" % (s, len(vs), v["case"], v["msg"][:1200 if a.verbose else 400], ("  {" + v["note"] + "}") if v["note"] else ""))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        sys.exit(1)
    if run.harness_errors:
        print("harness error: " + "\n".join(run.harness_errors)[:3000])
        sys.exit(2)
    if trivial:
        print("harness error: inconclusive, the workload did not run to completion (%d of %d cases)" % (run.done, expected))
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
