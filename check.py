#!/usr/bin/env python3
"""Driver of the simulation checks.

  check.py PROP [--thorough] [--budget SECONDS] [--count N]   decide one property on /repo's working tree
  check.py --replay FILE [-v]                                  run one replay file and print its outcome
  check.py --selftest [N]                                      determinism: every run twice, different worker counts
  check.py --setup                                             build everything once

Exit 0: no violation in everything explored.  Exit 1 + VIOLATION line: reproducible violation.
Exit 3: the machinery itself failed (build error, or a violation that does not reproduce).
"""
import json, os, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "sim"))
sys.dont_write_bytecode = True
import build  # noqa: E402
from meta import META, REAL, STUB  # noqa: E402

REPLAYS = os.path.join(HERE, "replays")
EVIDENCE = os.path.join(HERE, "evidence")
FINDINGS = os.path.join(HERE, "known_findings.txt")


def build_variant(v):
    b = build.Build(v)
    objs, n, t = b.compile(b.sim_sources())
    return b.link("qdsim", objs), n, t


def findings(prop):
    """known: property=C01 class=<violation class> match=<text in the detail or the plan> <what fails>"""
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if not line.startswith("known:"):
                continue
            w = line.split()
            d = dict(x.split("=", 1) for x in w[1:4])
            if d.get("property") == prop:
                out.append((d["class"], d["match"].replace("~", " "), " ".join(w[4:])))
    return out


class Fail:
    def __init__(self, line):
        head, self.detail, plan = line.rstrip("\n").split("\t", 2)
        w = head.split()
        self.index, self.cls, self.hash = int(w[1]), w[2], w[3]
        self.plan = plan.replace("\x1f", "\n")


def run_exec(exe, plan, extra=(), timeout=400):
    fd, path = tempfile.mkstemp(prefix="qdplan", dir="/dev/shm" if os.path.isdir("/dev/shm") else None)
    os.write(fd, plan.encode())
    os.close(fd)
    try:
        r = subprocess.run([exe, "exec", path, *extra], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out = r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        out = ""
    finally:
        os.unlink(path)
    for line in out.split("\n"):
        if line.startswith("RESULT "):
            head, detail = line.split("\t", 1)
            w = head.split()
            return w[1], w[2], detail, out
    return "no-answer", "", out[-500:], out


def decide(prop, tier, seed, budget=None, count=None):
    t0 = time.time()
    m = META[prop]
    exe, nbuilt, tbuild = build_variant(m.get("variant", "plain"))
    listing = {}
    for line in subprocess.run([exe, "list"], stdout=subprocess.PIPE, text=True).stdout.split("\n"):
        if line:
            w = line.split()
            listing[w[0]] = [int(x) for x in w[1:]]
    sq, fq, st, ft = listing[prop]
    thorough = tier == "thorough"
    n = count or (st if thorough else sq)
    limit = budget or (m.get("limit_thorough", 2400) if thorough else m.get("limit_quick", 240))
    workers = os.cpu_count() or 4
    trun = time.time()
    procs, fails, stats, states, samples, other = [], [], [], set(), [], []
    lock = threading.Lock()

    def reader(p):
        for raw in p.stdout:
            line = raw.decode(errors="replace")
            with lock:
                if line.startswith("FAIL "):
                    try:
                        fails.append(Fail(line))
                    except Exception:
                        other.append(line)
                elif line.startswith("STATS "):
                    stats.append(json.loads(line[6:]))
                elif line.startswith("STATES"):
                    states.update(line.split()[1:])
                elif line.startswith("SAMPLE "):
                    samples.append(line[7:].rstrip("\n").replace("\x1f", "\n").strip().split("\n"))
                elif line.strip():
                    other.append(line)

    for w in range(workers):
        p = subprocess.Popen([exe, "worker", prop, str(seed), "1" if thorough else "0", str(w), str(workers), str(n), str(limit)],
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        th = threading.Thread(target=reader, args=(p,))
        th.start()
        procs.append((p, th))
    first_fail = None
    stopped = False
    hard = trun + limit + 150
    while any(p.poll() is None for p, _ in procs):
        time.sleep(0.1)
        if fails and first_fail is None:
            first_fail = time.time()
        if (first_fail and time.time() - first_fail > 8) or time.time() > hard:
            stopped = True
            for p, _ in procs:
                if p.poll() is None:
                    p.kill()
    for p, th in procs:
        th.join()
    bad_exit = [p.returncode for p, _ in procs if p.returncode not in (0, -9)]
    trun = time.time() - trun
    if not fails and (bad_exit or other or len(stats) != workers):
        print("ERROR: simulator worker failed: exit %s, output %s" % (bad_exit, "".join(other[:5])[:2000]))
        return 3

    # gate: every reported violation is repeated twice, each time in a fresh process
    known = findings(prop)
    reported, known_hit, unstable = None, {}, []
    seen = {}
    for f in sorted(fails, key=lambda f: len(f.plan)):
        k = None
        for i, (c, mt, text) in enumerate(known):
            if f.cls == c and (mt in f.detail or mt in f.plan):
                k = i
        if k is not None:
            known_hit[k] = known_hit.get(k, 0) + 1
            continue
        if reported or seen.get(f.cls, 0) >= 4:
            continue
        seen[f.cls] = seen.get(f.cls, 0) + 1
        a = run_exec(exe, f.plan)
        b = run_exec(exe, f.plan)
        if a[0] == b[0] == f.cls and a[1] == b[1]:
            reported = f
        else:
            unstable.append((f, a[:3], b[:3]))
    for k in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k][2]))

    if not reported:
        # the violation repeats, but something else in the run (freed or uninitialised memory, say) differs each time
        for f, a, b in unstable:
            if a[0] == b[0] == f.cls:
                print("note: the runs of this plan end with the same violation but differ in detail")
                reported = f
                break
    code, replay, shrunk = 0, None, None
    if reported:
        os.makedirs(REPLAYS, exist_ok=True)
        base = os.path.join(REPLAYS, "%s-%s-%d" % (prop, reported.cls, reported.index))
        open(base + ".full.plan", "w").write(reported.plan)
        replay = base + ".full.plan"
        try:
            r = subprocess.run([exe, "shrink", base + ".full.plan", base + ".plan", "250"], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=m.get("shrink_s", 120))
            if os.path.exists(base + ".plan"):
                text = open(base + ".plan").read()
                a, b = run_exec(exe, text), run_exec(exe, text)
                if a[0] == b[0] == reported.cls and a[1] == b[1]:
                    replay, shrunk = base + ".plan", a
                    open(replay, "w").write("# %s: %s\n# %s\nexpect %s\nhash %s\n%s" % (prop, reported.cls, a[2].replace("\n", " ")[:500], a[0], a[1], text))
        except subprocess.TimeoutExpired:
            pass
        print("violated: %s: %s" % (reported.cls, (shrunk or (0, 0, reported.detail))[2][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        code = 1
    elif unstable:
        f, a, b = unstable[0]
        print("ERROR: a violation did not reproduce: %s %s / %s / %s\n%s" % (f.cls, f.hash, a, b, f.plan))
        code = 3

    # evidence, measured on this run
    tot, probes = {}, {}
    for s in stats:
        for k, v in s.items():
            if k == "probes":
                for a, b in v.items():
                    probes[a] = probes.get(a, 0) + b
            else:
                tot[k] = tot.get(k, 0) + v
    runs = tot.get("runs", 0)
    cov = {
        "evaluations": runs, "distinct_nontrivial": len(states), "rule": m["rule"], "samples": samples[:2],
        "base_plans_seeds": tot.get("base_plans", 0), "runs_per_hour": int(runs / max(trun, 1e-3) * 3600),
        "seeds_per_hour": int(tot.get("base_plans", 0) / max(trun, 1e-3) * 3600),
        "simulated_processes": tot.get("processes", 0), "simulated_events": tot.get("events", 0),
        "simulated_seconds": tot.get("sim_us", 0) / 1e6, "thread_switches": tot.get("switches", 0),
        "runs_with_faults": tot.get("faulted_runs", 0),
        "faults_injected": {k[6:]: v for k, v in sorted(probes.items()) if k.startswith("fault:")},
        "probes": {k: v for k, v in sorted(probes.items()) if not k.startswith("fault:")},
        "cut_by_time_limit": bool(tot.get("cut", 0) or stopped),
        "real_components": m.get("real", REAL), "stubbed_components": m.get("stub", STUB),
        "units_compiled": nbuilt, "build_s": round(tbuild, 1), "run_s": round(trun, 1),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": m.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": [] if not reported else [{"class": reported.cls, "replay": replay, "detail": reported.detail[:500]}]}
    with open(os.path.join(EVIDENCE, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d runs (%d seeds) in %.1f s, %d distinct, faults %s%s" % (
        prop, tier, runs, cov["base_plans_seeds"], trun, len(states), sum(cov["faults_injected"].values()),
        "" if code else ": held"))
    return code


def selftest(n):
    ok = True
    exes = {}
    for prop in META:
        v = META[prop].get("variant", "plain")
        exe = exes.setdefault(v, None) or build_variant(v)[0]
        exes[v] = exe
        one = [subprocess.Popen([exe, "hashes", prop, "77", str(n)], stdout=subprocess.PIPE, text=True)]
        many = [subprocess.Popen([exe, "hashes", prop, "77", str(n)], stdout=subprocess.PIPE, text=True) for _ in range(7)]
        outs = [p.communicate()[0] for p in one + many]
        same = all(o == outs[0] for o in outs)
        print("%s: %d runs x 8 processes: %s" % (prop, outs[0].count("\n"), "identical" if same else "DIFFERENT"))
        if not same:
            ok = False
            for o in outs[1:]:
                d = [(a, b) for a, b in zip(outs[0].split("\n"), o.split("\n")) if a != b]
                if d:
                    print("   ", d[:3])
    return 0 if ok else 3


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 3
    if a[0] == "--setup":
        for v in sorted({m.get("variant", "plain") for m in META.values()}):
            print(build_variant(v))
        return 0
    if a[0] == "--selftest":
        return selftest(int(a[1]) if len(a) > 1 else 40)
    if a[0] == "--replay":
        text = open(a[1]).read()
        prop = [line.split()[1] for line in text.split("\n") if line.startswith("prop ")][0]
        exe = build_variant(META[prop].get("variant", "plain"))[0]
        r = run_exec(exe, text, a[2:])
        print(r[3])
        want = [line.split()[1] for line in text.split("\n") if line.startswith("hash ")]
        if want:
            print("replay identical to the recorded run" if want[0] == r[1] else "replay differs from the recorded run (the code changed?)")
        return 0 if r[0] == "held" else 1
    prop = a[0]
    tier = "thorough" if "--thorough" in a else "quick"
    budget = int(a[a.index("--budget") + 1]) if "--budget" in a else None
    count = int(a[a.index("--count") + 1]) if "--count" in a else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    return decide(prop, tier, seed, budget, count)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit as e:
        if isinstance(e.code, str):
            print(e.code)
            sys.exit(3)
        raise
