#!/usr/bin/env python3
"""Decide one property by running monitored workloads.

  check.py Pxx quick|thorough        exit 0: held on everything observed; 1: VIOLATION line; 3: the machinery failed
  check.py replay FILE [N]           run the recorded failing execution again, up to N times
  check.py setup                     compile everything once (setup_cmd)
"""
import concurrent.futures as cf
import json, os, re, sys, threading, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import run as R
import plans

VERIF = B.VERIF
KNOWN = os.path.join(VERIF, "known-findings.txt")


def known():
    """known: property=P18 key=<failure key> scn=<scenario> | what fails"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith("known:"):
                head, _, what = line[6:].partition("|")
                d = dict(x.split("=", 1) for x in head.split())
                out.append((d.get("property"), d.get("key"), d.get("job"), what.strip()))
    return out


def match(kf, pid, key, job):
    for p, k, j, what in kf:
        if p == pid and k == key and (j is None or j == job.get("name", "")):
            return what
    return None


class Stop(Exception):
    pass


def job_str(j):
    return "%s %s np=%d %s %s" % (j["variant"], j["scn"], j["np"],
                                  " ".join("%s=%s" % x for x in sorted(j["args"].items())),
                                  " ".join("%s=%s" % x for x in sorted(j["env"].items())))


def room(gb):
    free = int(re.search(r"MemAvailable:\s+(\d+)", open("/proc/meminfo").read()).group(1)) >> 20
    v = os.statvfs("/dev/shm")
    t = os.statvfs("/tmp")
    return free > gb * 1.5 and v.f_bavail * v.f_frsize >> 30 > gb and t.f_bavail * t.f_frsize >> 30 > gb


def do_job(j, keep=None):
    r = R.run(j["variant"], j["scn"], j["np"], j["args"], j["env"], stall=j.get("stall"), total=j.get("total"),
              expect_exit=j.get("expect"), keep=keep)
    fails = list(r.fails)
    if "ub" in j.get("judge", ()):
        fails += r.ub
    if "ts" in j.get("judge", ()):
        fails += r.ts
    if j.get("verdict") and not (r.state == "overtime" and not r.fails):
        fails += plans.VERDICTS[j["verdict"]](j, r)
    if j.get("only"):
        # this property is judged on these reports alone; the others belong to other checks
        fails = [f for f in fails if re.match(j["only"], f[0])]
    return r, fails


def check(pid, tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    plan = plans.PLANS[pid]
    kf = known()
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration")
    evals, cov, stats, samples, incon, njobs = 0, set(), {}, [], [], 0
    known_hit, violation, perjob = {}, None, {}
    big = threading.Lock()
    stop = threading.Event()
    budget = float(os.environ.get("VERIF_BUDGET_S", "330" if tier == "quick" else "2400"))
    jobs = plans.jobs(pid, seed, tier)
    groups = {}

    def one(j):
        if stop.is_set() or time.time() - t0 > budget:
            return None
        try:
            if j.get("mem"):
                # big executions, one at a time, where the machine has the room
                with big:
                    return (j, do_job(j)) if room(j["mem"]) else None
            x = do_job(j)
            if any(match(kf, pid, k, j) is None for k, d in x[1]):
                stop.set()
                R.STOP.set()
            return j, x
        except (R.Harness, B.BuildError) as e:
            return j, e

    variants = list(dict.fromkeys(j["variant"] for j in jobs))
    for v in variants:
        R.harness(v)
    skipped = 0
    trouble = []
    with cf.ThreadPoolExecutor(8) as ex:
        for res in ex.map(one, jobs):
            if res is None:
                skipped += 1
                continue
            j, x = res
            if isinstance(x, Exception):
                trouble.append(str(x)[-1500:])
                if len(trouble) > 2:
                    stop.set()
                continue
            r, fails = x
            njobs += 1
            for k, v in r.stats.items():
                stats[k] = stats.get(k, 0) + v
            cov |= r.cov
            if r.inconclusive:
                incon.append(job_str(j))
            if len(samples) < 6 and r.stats:
                samples.append(dict(run=job_str(j), observed=r.stats, distinct=len(r.cov), wall_s=round(r.wall, 2)))
            fresh = []
            for k, d in fails:
                w = match(kf, pid, k, j)
                if w is not None:
                    known_hit.setdefault(w, (k, job_str(j)))
                else:
                    fresh.append((k, d))
            if fresh and violation is None:
                violation = (j, fresh, r)
                stop.set()
                R.STOP.set()
            if j.get("group"):
                # executions of one program under several configurations must agree (P19)
                groups.setdefault(j["group"], []).append((j, r))
                bad = plans.agree(groups[j["group"]])
                if bad and violation is None:
                    violation = (dict(j, peer=bad[1]), [bad[0]], r)
                    stop.set()
                    R.STOP.set()
    if violation is None and njobs == 0:
        raise R.Harness("no execution completed: %s" % trouble[:1])
    if violation is None and trouble and len(trouble) * 4 > njobs:
        raise R.Harness("too many executions could not be launched: %s" % trouble[:1])
    metric = plan["metric"]
    evals = sum(v for k, v in stats.items() if k in metric)
    if violation is None and (evals == 0 or not cov):
        raise R.Harness("the monitors observed nothing")
    ev["coverage"] = dict(evaluations=evals, distinct_nontrivial=len(cov), rule=plan["rule"], samples=samples,
                          executions=njobs, executions_skipped_for_time=skipped, inconclusive=incon,
                          launch_trouble=len(trouble), observed=stats, configurations=variants)
    ev["assumptions"] = plan.get("assumptions", []) + plans.ASSUME
    ev["wall_s"] = round(time.time() - t0, 2)
    ev["violations"] = 1 if violation else 0
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for w, (k, js) in sorted(known_hit.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, w))
    if violation:
        j, fresh, r = violation
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        p = os.path.join(rd, "%s-%d.json" % (pid, os.getpid()))
        json.dump(dict(property=pid, job=j, fails=[(k, d[:4000]) for k, d in fresh], output=r.out[-4000:]),
                  open(p, "w"), indent=1)
        print("failed: %s" % job_str(j))
        for k, d in fresh[:5]:
            print("  %s | %s" % (k, d[:1200]))
        print("VIOLATION property=%s replay=%s" % (pid, p))
        return 1
    print("%s %s seed=%d: held on %d executions, %d evaluations, %d distinct situations, %.0fs%s" %
          (pid, tier, seed, njobs, evals, len(cov), ev["wall_s"], (", %d inconclusive" % len(incon)) if incon else ""))
    return 0


def replay(path, n):
    d = json.load(open(path))
    for i in range(n):
        r, fails = do_job(d["job"], keep=os.path.join(VERIF, "_work", "replay"))
        if d["job"].get("peer"):
            bad = plans.agree([(d["job"]["peer"], do_job(d["job"]["peer"])[0]), (d["job"], r)])
            fails += bad[:1] if bad else []
        for k, t in fails[:6]:
            print("%s | %s" % (k, t[:2000]))
        if fails:
            print("VIOLATION property=%s replay=%s" % (d["property"], path))
            return 1
    print("not reproduced in %d runs" % n)
    return 0


def main():
    a = sys.argv[1:]
    try:
        if a[0] == "setup":
            for v in ("plain",):
                R.harness(v)
            print("ok")
            return 0
        if a[0] == "replay":
            return replay(a[1], int(a[2]) if len(a) > 2 else 5)
        return check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick"))
    except (R.Harness, B.BuildError) as e:
        print("no verdict: %s" % e)
        return 3
    except Exception:
        traceback.print_exc()
        return 3


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
