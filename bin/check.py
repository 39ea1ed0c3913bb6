#!/usr/bin/env python3
"""check.py <property> [--replay FILE]

Builds the monitored binary from /repo's working tree, runs the property's workload in
shards, collects what the monitors saw, writes evidence/<property>.json.
exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: no verdict.
"""
import json, os, re, signal, struct, subprocess, sys, time, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
STALL_S = int(os.environ.get("MK_STALL", "100"))      # no progress for this long: suspected hang
RERUN_S = int(os.environ.get("MK_RERUN", "200"))                                         # a suspected hang is re-run alone with this limit
MAX_RESTARTS = 25
SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:handle_abort=1:exitcode=99:allocator_may_return_null=0:detect_stack_use_after_return=1:"
                    "max_malloc_fill_size=1048576:malloc_fill_byte=190:max_free_fill_size=4096:quarantine_size_mb=48:"
                    "allocation_size_too_big=0:max_allocation_size_mb=2500:strict_string_checks=1:print_legend=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=98",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=97:second_deadlock_stack=1",
    "OMP_NUM_THREADS": "2", "OMP_WAIT_POLICY": "passive", "LC_ALL": "C.UTF-8",
}
LEAK_PROPS = {"C05"}
META = json.load(open(os.path.join(VERIF, "bin", "props.json")))


def read_prog(p):
    try:
        d = open(p, "rb").read()
        c, inc, done = struct.unpack("<QQQ", d[:24])
        tr = d[24:].split(b"\0", 1)[0].decode("utf-8", "replace")
        return c, inc, done, tr
    except Exception:
        return None


def crash_key(stderr, rc, trace):
    """a stable key for an abnormal end: kind + innermost repo function"""
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", stderr)
    if m:
        kind = "asan-" + m.group(1)
    elif "runtime error:" in stderr:
        msg = re.search(r"runtime error: ([^\n]*)", stderr).group(1)
        msg = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", msg)
        kind = "ubsan-" + "-".join(msg.split()[:6])
    elif "ThreadSanitizer: data race" in stderr:
        kind = "tsan-data-race"
    elif "Assertion" in stderr or "__glibcxx_assert_fail" in stderr:
        kind = "stl-assertion"
    elif "terminate called" in stderr:
        kind = "uncaught-exception"
    elif rc is not None and rc < 0:
        kind = "signal-%d" % -rc
    else:
        kind = "exit-%s" % rc
    fn = ""
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+?):(\d+)", stderr):
        if m.group(2).startswith(B.REPO + "/"):
            fn = re.sub(r"\(.*", "", m.group(1)).strip()
            break
    ops = [l for l in trace.strip().split("\n") if l]
    last = ops[-1].split()[0] if ops else ""
    return "crash:%s:%s:%s" % (kind, fn, last), kind


def brief(v):
    """one line about a violation; for a crash its kind and the innermost frames in the repository"""
    d = v["detail"]
    if not v["key"].startswith("crash:"):
        return d.replace("\n", " | ")
    fr = ["%s:%s" % (os.path.relpath(m.group(1), B.REPO), m.group(2)) for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?[^\n]*? (/\S+?):(\d+)", d)
          if m.group(1).startswith(B.REPO + "/") or m.group(1).startswith(VERIF)]
    m = re.search(r"(runtime error: [^\n]*|ERROR: AddressSanitizer: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|Assertion [^\n]*)", d)
    return " < ".join(fr[:5]) + " | " + (m.group(1)[:120] if m else d[:200].replace("\n", " | "))


class Shard:
    def __init__(self, binp, prop, seed, tier, k, n, total, work):
        self.a = (binp, prop, seed, tier, n, total)
        self.k = k
        self.out = os.path.join(work, "out%d" % k)
        self.prog = os.path.join(work, "prog%d" % k)
        self.err = os.path.join(work, "err%d" % k)
        self.next = k
        self.restarts = 0
        self.viol = []
        self.done = False
        self.incon = []
        self.start(self.next)

    def start(self, frm):
        binp, prop, seed, tier, n, total = self.a
        if os.path.exists(self.prog):
            os.remove(self.prog)
        env = dict(os.environ)
        env.update(SAN_ENV)
        env.update(META.get(prop, {}).get("env", {}))
        self.ef = open(self.err, "wb")
        self.p = subprocess.Popen([binp, "--prop", prop, "--seed", str(seed), "--tier", tier, "--from", str(frm),
                                   "--step", str(n), "--to", str(total), "--out", self.out, "--prog", self.prog],
                                  stdout=self.ef, stderr=self.ef, env=env, start_new_session=True)
        self.last = (None, time.time())

    def poll(self):
        if self.done:
            return
        rc = self.p.poll()
        pr = read_prog(self.prog)
        if rc is None:
            if pr:
                mark = (pr[0], pr[3])
                if mark != self.last[0]:
                    self.last = (mark, time.time())
            if time.time() - self.last[1] > STALL_S:
                os.killpg(self.p.pid, signal.SIGKILL)
                self.p.wait()
                self.after_hang(pr)
            return
        self.ef.close()
        if rc == 0 and pr and pr[2] == 1:
            self.done = True
            return
        if rc == 3:
            raise SystemExit("harness error: " + open(self.err, errors="replace").read()[-2000:])
        stderr = open(self.err, errors="replace").read()
        case = pr[0] if pr else self.next
        key, kind = crash_key(stderr, rc, pr[3] if pr else "")
        if rc in (-9,) and "Sanitizer" not in stderr:
            self.incon.append("case %d killed (SIGKILL, memory?)" % case)
        else:
            self.viol.append(dict(case=case, key=key, detail=stderr[-6000:] if len(stderr) > 6000 else stderr, trace=(pr[3] if pr else "")[-6000:]))
        self.again(case)

    def again(self, case):
        self.restarts += 1
        n = self.a[4]
        nxt = case + n
        if nxt >= self.a[5] or self.restarts > MAX_RESTARTS:
            self.done = True
            return
        self.start(nxt)

    def after_hang(self, pr):
        binp, prop, seed, tier, n, total = self.a
        case = pr[0] if pr else self.next
        env = dict(os.environ)
        env.update(SAN_ENV)
        env.update(META.get(prop, {}).get("env", {}))
        try:
            subprocess.run([binp, "--prop", prop, "--seed", str(seed), "--tier", tier, "--from", str(case), "--to", str(case + 1),
                            "--out", "/dev/null"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=env, timeout=RERUN_S)
            self.incon.append("case %d stalled once, finished when re-run" % case)
        except subprocess.TimeoutExpired:
            ops = [l for l in (pr[3] if pr else "").strip().split("\n") if l]
            last = ops[-1].split()[0] if ops else ""
            self.viol.append(dict(case=case, key="hang:" + last, detail="no progress for %d s, and again alone for %d s" % (STALL_S, RERUN_S),
                                  trace=(pr[3] if pr else "")[-6000:]))
        self.again(case)


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    meta = META[prop]
    t0 = time.time()
    flav = meta.get("flavour", "asan")
    try:
        binp = B.build(flav)
    except RuntimeError as e:
        print(str(e))
        print("no verdict: /repo does not build")
        return 2
    if prop in LEAK_PROPS:
        # leak detection needs to stop its own threads; where the environment forbids that, go on without it
        le = dict(SAN_ENV, ASAN_OPTIONS=SAN_ENV["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1:leak_check_at_exit=0"), MK_LEAKS="1")
        if subprocess.run([binp, "--leakprobe"], env=dict(os.environ, **le), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 42:
            SAN_ENV.update(le)
        else:
            print("leak detection not available here")
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        r = json.load(open(sys.argv[3]))
        env = dict(os.environ)
        env.update(SAN_ENV)
        env.update(meta.get("env", {}))
        return subprocess.call([binp, "--prop", prop, "--seed", str(r["seed"]), "--tier", r["tier"], "--from", str(r["case"]),
                                "--to", str(r["case"] + 1), "-v"], env=env)
    lst = dict((l.split()[0], l.split()[1:]) for l in subprocess.check_output([binp, "--list"], text=True, env=dict(os.environ, **SAN_ENV)).splitlines())
    total = int(lst[prop][1 if tier == "thorough" else 0])
    if "MK_CASES" in os.environ:
        total = int(os.environ["MK_CASES"])
    work = os.path.join(B.CACHE, "run", prop)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    n = min(int(os.environ.get("MK_SHARDS", meta.get("shards", os.cpu_count() or 8))), max(1, total))
    sh = [Shard(binp, prop, seed, tier, k, n, total, work) for k in range(n)]
    while not all(s.done for s in sh):
        time.sleep(0.05)
        for s in sh:
            s.poll()
    viol, counters, samples, distinct, evals, incon = [], {}, [], set(), 0, []
    for s in sh:
        viol += s.viol
        incon += s.incon
        if os.path.exists(s.out):
            for line in open(s.out, errors="replace"):
                try:
                    d = json.loads(line)
                except Exception:
                    continue
                if d["type"] == "viol":
                    viol.append(d)
                else:
                    evals += d["evals"]
                    for k, v in d["counters"].items():
                        counters[k] = counters.get(k, 0) + v
                    samples += d["samples"]
                    distinct.update(d["distinct"])
    kf = []
    kfp = os.path.join(VERIF, "known_findings.json")
    if os.path.exists(kfp):
        kf = [e for e in json.load(open(kfp))["findings"] if e["property"] == prop]
    hit, new = {}, []
    for v in viol:
        m = next((e for e in kf if re.fullmatch(e["key"], v["key"]) and (not e.get("detail") or re.search(e["detail"], v["detail"]))), None)
        if m:
            hit.setdefault(m["key"], [0, m])[0] += 1
        else:
            new.append(v)
    wall = time.time() - t0
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=meta["rule"], samples=samples[:4],
                            cases=total, counters=counters, inconclusive=incon,
                            known_finding_hits={k: v[0] for k, v in hit.items()}),
              assumptions=meta.get("assumptions", []), wall_s=round(wall, 1), violations=len(new))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for k, (cnt, e) in hit.items():
        print("KNOWN-FINDING: property=%s %s (%d cases)" % (prop, e["what"], cnt))
    for e in kf:
        if e["key"] not in hit:
            print("KNOWN-FINDING: property=%s %s (not hit in this run)" % (prop, e["what"]))
    print("%s %s seed=%d: %d cases, %d oracle evaluations, %d distinct, %d completed, %d skipped, %.0fs" %
          (prop, tier, seed, total, evals, len(distinct), counters.get("cases_completed", 0), counters.get("cases_skipped", 0), wall))
    if os.environ.get("MK_COUNTERS"):
        print(json.dumps(counters, indent=1))
    if new:
        rp = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rp, exist_ok=True)
        seen = set()
        for v in new:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            f = os.path.join(rp, "%s_%s.json" % (prop, re.sub(r"[^\w.-]+", "_", v["key"])[:80]))
            json.dump(dict(property=prop, seed=seed, tier=tier, **v), open(f, "w"), indent=1)
            ncase = sum(1 for x in new if x["key"] == v["key"])
            print("  %s (%d cases, first case %d): %s" % (v["key"], ncase, v["case"], brief(v)[:int(os.environ.get("MK_DETAIL", "300"))]))
            print("VIOLATION property=%s replay=%s" % (prop, f))
        return 1
    if len(distinct) < meta.get("min_distinct", 1) or evals == 0:
        print("no verdict: the monitors observed too little (%d)" % len(distinct))
        return 2
    if incon and len(incon) > total * 0.02 + 2:
        print("no verdict: too many inconclusive cases: %s" % incon[:5])
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
