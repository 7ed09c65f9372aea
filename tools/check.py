#!/usr/bin/env python3
"""check.py PROPERTY: builds the drivers from /repo's working tree, runs the
workloads of one property, lets the monitors in them decide, and writes
evidence/PROPERTY.json. Exit 0: held on everything observed. Exit 1: violated
(a VIOLATION line per distinct violation). Exit 2: no verdict."""
import json, os, re, resource, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import plan as P

VERIF = B.VERIF
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")

ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=66:detect_leaks=0:detect_stack_use_after_return=1:hard_rss_limit_mb=6000:allocator_may_return_null=0:strict_string_checks=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4",
}


def known_findings():
    """(property, key) -> text, for the entries that are not fixed."""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out[(m.group(1), m.group(2))] = m.group(3)
    return out


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setpgid(0, 0)


class Proc:
    """One run of a driver."""

    def __init__(self, exe, args, out, timeout, wrap=()):
        self.cmd = list(wrap) + [exe] + args + ["--out", out]
        self.out = out
        env = dict(os.environ, **ENV)
        env["ASAN_OPTIONS"] += ":detect_leaks=1" if "--lsan" in args else ""
        for p in (out, out + ".progress"):
            if os.path.exists(p):
                os.remove(p)
        self.log = out + ".log"
        t0 = time.time()
        with open(self.log, "wb") as f:
            p = subprocess.Popen(self.cmd, stdout=f, stderr=subprocess.STDOUT, env=env, preexec_fn=limits, stdin=subprocess.DEVNULL)
            try:
                self.rc = p.wait(timeout)
                self.timed_out = False
            except subprocess.TimeoutExpired:
                self.timed_out = True
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()
                self.rc = -9
        self.wall = time.time() - t0
        with open(self.log, "rb") as f:
            data = f.read()
        self.text = data[-400000:].decode("utf-8", "replace")
        self.viols = []
        for line in self.text.splitlines():
            if line.startswith("VIOL\t"):
                x = line.split("\t", 4)
                if len(x) == 5:
                    self.viols.append((x[1], x[2], x[3], x[4]))
        self.json = None
        if self.rc == 0 and os.path.exists(out):
            try:
                self.json = json.load(open(out))
            except ValueError:
                pass

    def at(self):
        """The seed of the case that was running."""
        try:
            b = open(self.out + ".progress", "rb").read(16)
            return int.from_bytes(b[:8], "little"), int.from_bytes(b[8:16], "little")
        except OSError:
            return 0, 0

    def trouble(self):
        """None, or (key, text) if the run ended in another way than it should."""
        if self.rc == 0 and self.json is not None:
            return None
        t = self.text
        if self.timed_out:
            return ("timeout", "the run did not end in its time")
        m = re.search(r"VF-HANG: (deadlock|no end).*", t)
        if m:
            return ("deadlock", m.group(0))
        if self.rc == 97 or "VF-HANG" in t:
            return ("hang", "VF-HANG: a case did not end")
        m = re.search(r"(SUMMARY: \w+Sanitizer: .*|runtime error: .*|WARNING: ThreadSanitizer: .*)", t)
        what = m.group(1) if m else ""
        if not what:
            m = re.search(r"(Assertion .* failed\.?|terminate called.*|VF-FATAL.*|ERROR SUMMARY: [1-9].*|AddressSanitizer:.*)", t)
            what = m.group(1) if m else "exit status %s" % self.rc
        kind = "crash"
        m = re.search(r"Sanitizer: (?:hard rss limit|[a-z]+-?[a-z-]*)", what)
        if "runtime error:" in t:
            kind = "undefined"
            m2 = re.search(r"runtime error: (.*)", t)
            what = "runtime error: " + m2.group(1)
        elif "ThreadSanitizer: data race" in t:
            kind = "race"
        elif "ThreadSanitizer" in t:
            kind = "tsan"
        elif "LeakSanitizer" in t:
            kind = "leak"
        elif "AddressSanitizer" in t:
            kind = "memory"
        elif "Assertion" in t:
            kind = "assert"
        elif self.rc == 98:
            kind = "driver"
        return (kind, what[:300])


def frames(text):
    out = []
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/[^ :]+):(\d+)", text):
        if m.group(2).startswith(B.MIRROR):
            out.append("%s (%s)" % (m.group(1)[:120], os.path.relpath(m.group(2), B.MIRROR)))
        if len(out) >= 6:
            break
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    spec = P.PLAN[prop]
    os.makedirs(EVID, exist_ok=True)
    runs = os.path.join(B.BUILD, "runs", prop)
    os.makedirs(runs, exist_ok=True)
    jobs = [j for j in spec["jobs"] if tier in j.get("tiers", ("quick", "thorough"))]
    try:
        exes = B.build([(j["flavour"], j["driver"]) for j in jobs])
    except B.BuildError as e:
        print("build failed:\n%s" % e)
        return 2
    t_build = time.time() - t0
    known = known_findings()
    ncpu = os.cpu_count() or 4
    tasks = []
    for ji, j in enumerate(jobs):
        n = j["thorough"] if tier == "thorough" else j["quick"]
        shards = min(j.get("shards", ncpu), n) or 1
        for s in range(shards):
            lo, hi = n * s // shards, n * (s + 1) // shards
            args = ["--prop", prop, "--seed", str(seed * 1000003 + ji * 7919), "--from", str(lo), "--cases", str(hi - lo), "--tier", "1" if tier == "thorough" else "0"]
            for k, v in j.get("args", {}).items():
                args += ["--" + k, str(v)]
            if j.get("pin"):
                args += ["--shard", str(s)]
            tasks.append((ji, s, args))
    viol = {}      # key -> dict
    notes = []
    limit = 3000 if tier == "thorough" else 400
    confirmed = set()   # kinds of hangs that have happened again

    def run(t):
        ji, s, args = t
        j = jobs[ji]
        exe = exes[(j["flavour"], j["driver"])]
        return t, Proc(exe, args, os.path.join(runs, "j%d.s%d.json" % (ji, s)), limit, j.get("wrap", ()))

    merged = {"cases": 0, "nontrivial": 0, "counters": {}, "others": {}, "samples": []}
    hashes = set()
    jobstat = [dict(flavour=j["flavour"], driver=j["driver"], args=j.get("args", {}), what=j.get("what", ""), cases=0, wall=0.0) for j in jobs]
    inconclusive = []
    pool = ThreadPoolExecutor(ncpu)
    results = list(pool.map(run, tasks))
    for t, p in results:
        ji, s, args = t
        j = jobs[ji]
        exe = exes[(j["flavour"], j["driver"])]
        jobstat[ji]["wall"] = round(max(jobstat[ji]["wall"], p.wall), 2)
        for (pr, key, cs, msg) in p.viols:
            if pr == prop and key not in viol:
                viol[key] = dict(job=ji, case=cs, msg=msg, log=p.text[-3000:], args=args)
        tr = p.trouble()
        if tr:
            cs, n = p.at()
            key, what = tr
            jobstat[ji]["cases"] += n
            # Run the case alone, once more, before it is called a violation.
            base = [a for i, a in enumerate(args) if a not in ("--from", "--cases") and (i == 0 or args[i - 1] not in ("--from", "--cases"))]
            again = None
            if key in ("hang", "timeout", "deadlock") and ji in confirmed:
                continue
            if n and time.time() - t0 < (7200 if tier == "thorough" else 650):
                hung = key in ("hang", "timeout")
                more = ["--casetime", "60"] if hung else []
                again = Proc(exe, base + ["--case", str(cs)] + more, os.path.join(runs, "again.%d.%d.json" % (ji, s)), 130 if hung else 200, j.get("wrap", ()))
                tr2 = again.trouble()
                if tr2 and tr2[0] in ("hang", "timeout", "deadlock"):
                    confirmed.add(ji)
                for (pr, k2, c2, msg) in again.viols:
                    if pr == prop and k2 not in viol:
                        viol[k2] = dict(job=ji, case=c2, msg=msg, log=again.text[-3000:], args=args)
            else:
                tr2 = None
            if key == "driver" or (key in ("hang", "timeout") and tr2 is None):
                inconclusive.append("job %d shard %d: %s, not again when run alone" % (ji, s, what))
                continue
            src = again if tr2 else p
            text = src.text
            fr = frames(text)
            if key in ("race", "tsan"):
                props_ok = True
            k = "%s:%s" % (key, (fr[0].split(" (")[0] if fr else what)[:80])
            k = re.sub(r"\s+", "-", k)
            k = re.sub(r"0x[0-9a-f]+|\b\d{5,}\b", "N", k)
            if k not in viol:
                viol[k] = dict(job=ji, case=str(cs), msg="%s; %s" % (what, " <- ".join(fr)), log=text[-12000:], args=args,
                               reproduced=bool(tr2))
            continue
        d = p.json
        jobstat[ji]["cases"] += d["cases"]
        merged["cases"] += d["cases"]
        merged["nontrivial"] += d["nontrivial"]
        for k, v in d["counters"].items():
            if k.startswith("max_"):
                merged["counters"][k] = max(v, merged["counters"].get(k, 0))
            else:
                merged["counters"][k] = merged["counters"].get(k, 0) + v
        for k, v in d["others"].items():
            merged["others"][k] = merged["others"].get(k, 0) + v
        if len(merged["samples"]) < 3 and d["samples"]:
            merged["samples"].append("[%s/%s] %s" % (j["flavour"], j["driver"], d["samples"][0]))
        for h in d["hashes"]:
            hashes.add((ji, h))
    rc = 0
    reported = []
    knownseen = []
    for key in sorted(viol):
        v = viol[key]
        if (prop, key) in known:
            knownseen.append(key)
            continue
        j = jobs[v["job"]]
        name = "%s-%s" % (prop, re.sub(r"[^A-Za-z0-9_.-]+", "_", key)[:60])
        rp = os.path.join(EVID, "replay-%s.json" % name)
        json.dump(dict(property=prop, key=key, message=v["msg"], flavour=j["flavour"], driver=j["driver"], wrap=list(j.get("wrap", ())),
                       args=[a for a in v["args"]], case=v["case"], reproduced_alone=v.get("reproduced"),
                       how="python3 /verif/tools/replay.py " + rp, log=v["log"]), open(rp, "w"), indent=1)
        if len(reported) < 20:
            print("%s: %s" % (key, v["msg"][:1200]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        reported.append(key)
        rc = 1
    for key in sorted(k for (pr, k) in known if pr == prop):
        if key in knownseen:
            print("KNOWN-FINDING: property=%s %s" % (prop, known[(prop, key)]))
        elif rc == 0:
            notes.append("the known finding %s was not seen" % key)
    floor = spec.get("observe", {})
    missing = [k for k in floor if merged["counters"].get(k, 0) < floor[k]]
    cov = dict(evaluations=merged["cases"], distinct_nontrivial=len(hashes), rule=spec["rule"], samples=merged["samples"],
               observed=merged["counters"], jobs=jobstat, seconds_building=round(t_build, 1),
               other_properties_violated=merged["others"], known_findings_seen=knownseen)
    if inconclusive:
        cov["inconclusive"] = inconclusive
    if missing:
        cov["not_observed"] = missing
    if notes:
        cov["notes"] = notes
    json.dump(dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
                   assumptions=spec.get("assumptions", []) + P.ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=len(reported)),
              open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    print("%s %s: %d cases (%d distinct non-trivial), %d violations, %.0f s (%.0f s building)" % (
        prop, tier, merged["cases"], len(hashes), len(reported), time.time() - t0, t_build))
    if rc == 0 and inconclusive:
        print("inconclusive: " + "; ".join(inconclusive))
        if len(inconclusive) > len(tasks) // 2:
            return 2
    if rc == 0 and missing:
        print("no verdict: the workload did not observe " + ", ".join(missing))
        return 2
    return rc


if __name__ == "__main__":
    sys.exit(main())
