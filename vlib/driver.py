"""Runs the phases of a check, judges their outcome and writes the evidence file.

Protocol of a harness process (stdout):
  STATS {json}     counters of what the monitors observed (numbers are added up, lists collected)
  SAMPLE text      one case written out
  FOUND cls: text  a violation (exit status 1)
  INCONCLUSIVE ..  no verdict (exit status 4)
  DONE             ran to completion
Any other way of ending is a crash of the code under test (violation), unless the process was
killed from outside (SIGKILL) or ran out of its time (no verdict)."""
import concurrent.futures as cf
import json
import os
import signal
import subprocess
import sys
import time

from . import build as B

VERIF = B.VERIF
EVID = os.path.join(VERIF, "evidence")


class Phase:
    """One harness program run as `shards` processes for `quick` or `thorough` seconds.
    argv(seed, seconds) -> arguments"""

    def __init__(self, name, variant, argv, quick, thorough, shards=8, env=None, slack=120, tiers=("quick", "thorough")):
        self.name, self.variant, self.argv, self.shards, self.env = name, variant, argv, shards, env or {}
        self.secs = {"quick": quick, "thorough": thorough}
        self.slack = slack


class Check:
    def __init__(self, pid, phases, rule, assumptions=(), note="",
                 need=(), technique="runtime monitoring under a controlled scheduler"):
        self.pid, self.phases, self.rule = pid, phases, rule
        self.assumptions, self.note, self.need = list(assumptions), note, need
        self.technique = technique


class Result:
    pass


def known_findings(pid):
    """lines 'known: property=<id> key=<text>; what fails' of KNOWN_FINDINGS"""
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property=%s " % pid):
                rest = l.split("key=", 1)[1].strip()
                key, what = rest.split(";", 1)
                out.append((key.strip(), what.strip()))
    return out


def run_proc(exe, args, env, timeout):
    e = dict(os.environ)
    e.update(env)
    cmd = [exe] + [str(a) for a in args]
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
    r = Result()
    r.cmd, r.rc, r.out, r.to, r.t = cmd, p.returncode, out.decode("utf8", "replace"), to, time.time() - t0
    r.stats, r.samples, r.found = {}, [], None
    for l in r.out.splitlines():
        if l.startswith("STATS {"):
            try:
                r.stats = json.loads(l[6:])
            except ValueError:
                pass
        elif l.startswith("SAMPLE "):
            r.samples.append(l[7:])
        elif l.startswith("FOUND ") and not r.found:
            r.found = l[6:]
    if r.rc == 0 and "\nDONE" in "\n" + r.out:
        r.verdict = "ok"
    elif to or r.rc == -signal.SIGKILL or r.rc == 4:
        r.verdict = "none"
        if r.found:
            r.verdict = "bad"
    elif r.rc == 3:
        r.verdict = "error"
    else:
        r.verdict = "bad"
        if not r.found:
            key = ""
            for l in r.out.splitlines():
                if "SUMMARY:" in l or "WARNING: ThreadSanitizer" in l or "runtime error" in l or "Assertion" in l:
                    key = l.strip()
                    break
            r.found = "CRASH: exit status %s %s" % (r.rc, key)
    return r


def add_stats(total, s):
    for k, v in s.items():
        if isinstance(v, (int, float)):
            if k.startswith("max_") or k in ("guards_total", "guards_hit", "pair_bits"):
                total[k] = max(total.get(k, 0), v)
            else:
                total[k] = total.get(k, 0) + v
        elif isinstance(v, dict):
            add_stats(total.setdefault(k, {}), v)
        elif isinstance(v, list):
            t = total.setdefault(k, [])
            for x in v:
                if x not in t and len(t) < 64:
                    t.append(x)


def run_check(check, tier, seed):
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    pid = check.pid
    variants = []
    for ph in check.phases:
        if ph.secs[tier] and ph.variant not in variants:
            variants.append(ph.variant)
    try:
        exes = B.build([B.VARIANTS[v] for v in variants])
    except B.BuildError as e:
        print("build of the harness against /repo failed (no verdict):\n%s" % e)
        return 2
    t_build = time.time() - t0

    tasks = []
    for pi, ph in enumerate(check.phases):
        per = ph.secs[tier]
        if not per:
            continue
        for sh in range(ph.shards):
            base = (seed * 1000003 + pi * 7919) * 100000 + sh * 1000000007
            base &= (1 << 48) - 1
            tasks.append((ph, base, per, sh))
    total, phases, samples, bad, none, errors = {}, {}, [], [], 0, []
    ncpu = os.cpu_count() or 8

    def go(t, attempt=0):
        ph, base, per, sh = t
        return ph, run_proc(exes[ph.variant], ph.argv(base, per), ph.env, per * 2 + ph.slack)

    again = []
    with cf.ThreadPoolExecutor(min(8, ncpu)) as ex:
        futs = {ex.submit(go, t): t for t in tasks}
        for f in cf.as_completed(futs):
            ph, r = f.result()
            if r.verdict == "none":
                again.append(futs[f])
                continue
            collect(ph, r, total, phases, samples, bad, errors)
            if bad and tier == "quick":
                for g in futs:
                    g.cancel()
                break
    if not bad:
        for t in again[:8]:
            ph, r = go(t)
            if r.verdict == "none":
                none += 1
                phases.setdefault(ph.name, {}).setdefault("no_verdict", 0)
                phases[ph.name]["no_verdict"] += 1
                sys.stderr.write("no verdict: %s (rc %s)\n%s\n" % (" ".join(r.cmd), r.rc, r.out[-1500:]))
                add_stats(total, r.stats)
            else:
                collect(ph, r, total, phases, samples, bad, errors)
        none += max(0, len(again) - 8)

    findings, violations = [], []
    kf = known_findings(pid)
    for ph, r in bad:
        hit = [k for k in kf if k[0] in r.out]
        if hit:
            findings.append(hit[0])
        else:
            violations.append((ph, r))
    rc = 0
    os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    for i, (ph, r) in enumerate(violations[:5]):
        path = os.path.join(EVID, "replay", "%s-%d.txt" % (pid, i))
        with open(path, "w") as f:
            f.write("property %s, phase %s\nreplay: %s%s\n\n%s\n" % (
                pid, ph.name, "".join("%s=%s " % kv for kv in sorted(ph.env.items())), " ".join(r.cmd), r.out[-200000:]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("  phase %s: %s" % (ph.name, r.found[:600]))
        rc = 1
    for k in sorted(set(findings)):
        print("KNOWN-FINDING: property=%s %s" % (pid, k[1]))

    missing = []
    if not violations:
        for k in check.need:
            if not total.get(k):
                missing.append(k)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            # task programs and cases of the smaller harnesses
            "evaluations": int(total.get("programs", 0) + total.get("cases", 0)),
            "distinct_nontrivial": int(total.get("nontrivial", 0)),
            "rule": check.rule,
            "samples": samples[:6] or ["(none)"],
            "observed": total, "phases": phases, "build_s": round(t_build, 1),
            "processes_without_verdict": none,
        },
        "assumptions": check.assumptions,
        "wall_s": round(time.time() - t0, 1),
        "violations": len(violations),
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d evaluations, %d distinct, %d violations, %.0f s (build %.0f s)" % (
        pid, tier, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], len(violations),
        ev["wall_s"], t_build))
    if rc:
        return 1
    if errors:
        print("harness error:\n" + errors[0])
        return 2
    if missing or none * 2 > len(tasks):
        print("no verdict: nothing observed for %s, %d of %d processes without verdict" % (missing, none, len(tasks)))
        return 2
    return 0


def collect(ph, r, total, phases, samples, bad, errors):
    d = phases.setdefault(ph.name, {"processes": 0, "cpu_s": 0})
    d["processes"] += 1
    d["cpu_s"] = round(d["cpu_s"] + r.t, 1)
    if r.verdict == "bad":
        bad.append((ph, r))
    elif r.verdict == "error":
        errors.append(" ".join(r.cmd) + "\n" + r.out[-3000:])
    add_stats(total, r.stats)
    for k in ("programs", "cases", "runs"):
        if k in r.stats:
            d[k] = d.get(k, 0) + r.stats[k]
    for s in r.samples[:1]:
        if len(samples) < 6 and ph.name not in [x.split("|")[0] for x in samples]:
            samples.append(ph.name + "|" + s)


def main(checks):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    if a.property == "all":
        rc = 0
        for c in checks.values():
            rc = max(rc, run_check(c, a.tier, a.seed))
        sys.exit(rc)
    if a.property == "build":
        r = B.build(list(B.VARIANTS.values()))
        print(r["_build_s"])
        sys.exit(0)
    sys.exit(run_check(checks[a.property], a.tier, a.seed))
