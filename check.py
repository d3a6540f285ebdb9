#!/usr/bin/env python3
"""Runs the check of one property:  check.py <property> [quick|thorough]

Builds the harnesses the property needs from /repo's current working tree, runs
them, turns what the monitors and sanitizers reported into a verdict, matches it
against known-findings.txt and rewrites evidence/<property>.json.

exit 0: held on everything explored;  exit 1: VIOLATION line(s) printed;
exit 2: the check itself could not decide (build failure, nothing observed ...).
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import checks_config as cfg  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
REPLAY = os.path.join(VERIF, "replay")
NCPU = min(8, os.cpu_count() or 1)
T0 = time.time()


class CheckError(Exception):
    pass


def log(*a):
    print("[%.1fs]" % (time.time() - T0), *a, flush=True)


# ------------------------------------------------------------------ building
def compile_env():
    env = dict(os.environ)
    env["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    env["CCACHE_NOHASHDIR"] = "1"
    return env


def run_cmd(cmd, timeout):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, env=compile_env(), cwd=BUILD)
    return p.returncode, p.stdout


def build(bins):
    """bins: set of (binary, variant). Returns {(binary, variant): path}."""
    os.makedirs(BUILD, exist_ok=True)
    ccache = shutil.which("ccache")
    jobs = {}
    outs = {}
    for b, v in sorted(bins):
        spec = cfg.BINARIES[b]
        flags = cfg.VARIANTS[v]["flags"]
        objs = []
        d = os.path.join(BUILD, v, b)
        os.makedirs(d, exist_ok=True)
        for src in spec["sources"] + cfg.VARIANTS[v].get("sources", []):
            plain = src in cfg.VARIANTS[v].get("sources", []) or src in spec.get("plain", [])
            o = os.path.join(d, os.path.basename(src).rsplit(".", 1)[0] + ".o")
            f = (cfg.VARIANTS[v].get("plain_flags", flags) if plain else flags) + spec.get("cflags", lambda r, b: [])(REPO, d)
            cmd = ([ccache] if ccache else []) + [cfg.VARIANTS[v]["cxx"], "-std=c++20"] + f + ["-I" + os.path.join(REPO, "src/rpp"), "-I" + os.path.join(VERIF, "harness"), "-c", os.path.join(VERIF, "harness", src), "-o", o]
            jobs[o] = cmd
            objs.append(o)
        exe = os.path.join(d, b)
        link = [cfg.VARIANTS[v]["cxx"]] + flags + objs + ["-o", exe, "-lpthread"] + spec.get("ldflags", [])
        outs[(b, v)] = (exe, link)
    for p in {x for k in outs for x in glob.glob(os.path.join(BUILD, k[1], k[0], "*"))}:
        if os.path.isfile(p):
            os.unlink(p)
    for b, v in sorted(bins):
        pre = cfg.BINARIES[b].get("prepare")
        if pre:
            pre(REPO, os.path.join(BUILD, v, b))
    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs = {ex.submit(run_cmd, c, 800): (o, c) for o, c in jobs.items()}
        for f in cf.as_completed(futs):
            rc, out = f.result()
            if rc:
                raise CheckError("compilation failed: %s\n%s" % (" ".join(futs[f][1]), "\n".join(x for x in out.splitlines() if "error" in x)[:4000] or out[:4000]))
        futs = {ex.submit(run_cmd, link, 600): exe for exe, link in outs.values()}
        for f in cf.as_completed(futs):
            rc, out = f.result()
            if rc:
                raise CheckError("link failed: %s\n%s" % (futs[f], out[:4000]))
    return {k: v[0] for k, v in outs.items()}


# ------------------------------------------------------------------- running
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=1:detect_stack_use_after_return=1:hard_rss_limit_mb=3500:symbolize=1:allocator_may_return_null=0:handle_abort=1:detect_container_overflow=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=98:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0:detect_deadlocks=0:suppressions=" + os.path.join(VERIF, "harness", "tsan.supp"),
    "LSAN_OPTIONS": "exitcode=97:report_objects=0:suppressions=" + os.path.join(VERIF, "harness", "lsan.supp"),
    "QT_QPA_PLATFORM": "offscreen",
}


def norm_func(f):
    f = re.sub(r"<.*", "", f)
    f = re.sub(r"\(.*", "", f)
    f = re.sub(r"\s+", " ", f)
    return f.strip()[:120]


def repo_frame(block):
    """first frame of a report that lies in the library"""
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(.*?) (/\S+?|<null>)(?::\d+)*(?: \(.*\))?\s*$", block, re.M):
        if "/repo/" in m.group(2) or m.group(2).startswith(REPO):
            return os.path.basename(m.group(2).split(":")[0]) + ":" + norm_func(m.group(1).split("::")[-1] if "<" not in m.group(1) else re.sub(r".*::", "", re.sub(r"<.*>", "", m.group(1))))
    return "no-library-frame"


def parse_sanitizer(text):
    """-> list of (key, message)"""
    res = []
    for m in re.finditer(r"WARNING: ThreadSanitizer: ([^\n(]*)(?: \(pid=\d+\))?\n(.*?)SUMMARY: ThreadSanitizer:([^\n]*)", text, re.S):
        res.append(("tsan:%s:%s" % (m.group(1).strip().replace(" ", "-"), repo_frame(m.group(2))), m.group(3).strip()[:400]))
    m = re.search(r"([^\n]*runtime error: [^\n]*)\n(.*)", text, re.S)
    if m:
        kind = re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1).split("runtime error:")[1])[:80].strip().replace(" ", "-")
        res.append(("ubsan:%s:%s" % (kind, repo_frame(m.group(2))), m.group(1).strip()[:400]))
    m = re.search(r"ERROR: AddressSanitizer:? ([\w\-]+)(.*)", text, re.S)
    if m and not res:
        s = re.search(r"SUMMARY: AddressSanitizer: ([^\n]*)", text)
        res.append(("asan:%s:%s" % (m.group(1), repo_frame(m.group(2))), (s.group(1) if s else m.group(1))[:400]))
    m = re.search(r"ERROR: LeakSanitizer: detected memory leaks(.*)", text, re.S)
    if m:
        s = re.search(r"SUMMARY: [^\n]*", text)
        res.append(("lsan:leak:%s" % repo_frame(m.group(1)), (s.group(0) if s else "leak")[:400]))
    return res


class Proc:
    def __init__(self, job, exe, shard, seed, tier, tag=""):
        self.job, self.exe, self.shard, self.seed, self.tier = job, exe, shard, seed, tier
        self.cases = job["quick"] if tier == "quick" else job["thorough"]
        d = os.path.join(BUILD, "run")
        os.makedirs(d, exist_ok=True)
        self.out = os.path.join(d, "%s-%s-%s-%d%s.json" % (job["bin"], job["variant"], job["mode"], shard, tag))
        self.err = self.out + ".err"
        for p in (self.out, self.err, self.out + ".progress"):
            if os.path.exists(p):
                os.unlink(p)

    def args(self, extra=()):
        a = [self.exe, "--mode", self.job["mode"], "--seed", str(self.seed), "--cases", str(self.cases), "--shard", str(self.shard), "--nshards", str(self.job["shards"]), "--hang", str(self.job.get("hang", 60))]
        if self.tier == "thorough":
            a.append("--thorough")
        a += self.job.get("args", [])
        return a + list(extra)

    def run(self, extra=(), timeout=None):
        if timeout is None:
            timeout = self.job.get("timeout", 500) if self.tier == "quick" else 7200
        env = dict(os.environ)
        env.update(SAN_ENV)
        env.update(self.job.get("env", {}))
        soft = str(int(timeout * 0.7))
        t = time.time()
        with open(self.err, "wb") as ef:
            p = subprocess.Popen(self.args(extra) + ["--out", self.out, "--soft", soft], stdout=ef, stderr=ef, env=env, cwd=BUILD, start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                rc = "timeout"
        self.wall = time.time() - t
        self.rc = rc
        try:
            with open(self.err, "rb") as f:
                self.text = f.read(40_000_000).decode("utf-8", "replace")
        except OSError:
            self.text = ""
        try:
            self.data = json.load(open(self.out))
        except Exception:
            self.data = None
        self.case = -1
        try:
            self.case = int(open(self.out + ".progress").read().split()[0])
        except Exception:
            pass
        return self

    def judge(self):
        """-> ('ok'|'hang'|'error', [(key, case, msg)])"""
        viol = []
        if self.data:
            for v in self.data["violations"]:
                k, c, m = v.split("\t", 2)
                viol.append((k, int(c), m))
        san = parse_sanitizer(self.text) if self.rc not in (0, 1, 77) or self.job["variant"].startswith("tsan") or "runtime error" in self.text else []
        if self.rc == "timeout":
            return "hang", viol
        if self.rc == 77:
            return "hang", viol
        for k, m in san:
            viol.append((k, self.case, m))
        if self.rc in (0, 1):
            if self.data is None:
                return "error", viol
            return "ok", viol
        if san:
            return "ok", viol
        if "hard rss limit" in self.text or "rss limit exhausted" in self.text.lower():
            return "hang", viol
        if isinstance(self.rc, int) and self.rc < 0 and -self.rc != signal.SIGKILL:
            viol.append(("crash:%s" % signal.Signals(-self.rc).name, self.case, self.text.strip()[-300:]))
            return "ok", viol
        if viol:
            return "ok", viol
        return "error", viol


def execute(p):
    p.run()
    st, viol = p.judge()
    if st == "hang":
        # inconclusive until it repeats: the same case alone (several times where the
        # schedule decides), then the same shard
        q = Proc(p.job, p.exe, p.shard, p.seed, p.tier, "-again")
        if p.case >= 0 and not p.job.get("concurrent"):
            q.run(["--only", str(p.case)], timeout=240)
        else:
            q.run()
        st2, viol2 = q.judge()
        if st2 == "hang":
            viol.append(("hang:%s" % p.job["mode"], p.case, "no progress, twice (cases %d and %d)" % (p.case, q.case)))
            st = "ok"
        else:
            st = "inconclusive" if st2 == "ok" else st2
            viol += viol2
            if st2 == "ok" and p.job.get("concurrent"):
                p.data = q.data
    return p, st, viol


# ------------------------------------------------------------ known findings
def known_findings():
    res = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m:
                res.append((m.group(1), m.group(2), m.group(3).strip()))
    return res


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = cfg.PROPERTIES[prop]
    jobs = [dict(j) for j in spec["jobs"]]
    for j in jobs:
        j.setdefault("shards", 8)
        j.setdefault("variant", "asan")
    try:
        exes = build({(j["bin"], j["variant"]) for j in jobs})
    except (CheckError, subprocess.TimeoutExpired) as e:
        print("check error:", e, flush=True)
        return 2
    log("built")
    procs = [Proc(j, exes[(j["bin"], j["variant"])], s, seed, tier) for j in jobs for s in range(j["shards"])]
    results = []
    with cf.ThreadPoolExecutor(spec.get("parallel", NCPU)) as ex:
        for r in ex.map(execute, procs):
            results.append(r)
    log("ran")

    evaluations = events = inconclusive = 0
    sigs, counters, samples, per_job = set(), {}, [], {}
    violations, errors = [], []
    for p, st, viol in results:
        key = "%s/%s/%s" % (p.job["bin"], p.job["variant"], p.job["mode"])
        pj = per_job.setdefault(key, {"evaluations": 0, "events": 0, "planned": p.cases})
        if p.data:
            evaluations += p.data["evaluations"]
            events += p.data["events"]
            pj["evaluations"] += p.data["evaluations"]
            pj["events"] += p.data["events"]
            sigs.update(key + s for s in p.data["sigs"])
            for k, v in p.data["counters"].items():
                counters[k] = (max(counters.get(k, 0), v) if k.startswith("max_") else counters.get(k, 0) + v)
            for s in p.data["samples"]:
                if len(samples) < 12:
                    samples.append(key + ": " + s)
        if st == "inconclusive":
            inconclusive += 1
        if st == "error":
            errors.append("%s shard %d: rc=%s\n%s" % (key, p.shard, p.rc, p.text[-1500:]))
        for k, c, m in viol:
            if "only" in p.job and not k.startswith(p.job["only"]):
                continue  # what another property's check reports
            violations.append((k, c, m, p))

    known = [(k, w) for pr, k, w in known_findings() if pr == prop]
    fresh, seen_known = {}, set()
    for k, c, m, p in violations:
        hit = next((kw for kw in known if kw[0] == k), None)
        if hit:
            seen_known.add(hit)
        elif k not in fresh:
            fresh[k] = (c, m, p)
    for k, w in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, w), flush=True)

    wall = time.time() - T0
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(sigs),
            "rule": spec["rule"],
            "samples": samples,
            "events_observed": events,
            "inconclusive_runs": inconclusive,
            "jobs": per_job,
            "observed": counters,
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(fresh),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")

    if fresh:
        os.makedirs(REPLAY, exist_ok=True)
        for n, (k, (c, m, p)) in enumerate(sorted(fresh.items())):
            path = os.path.join(REPLAY, "%s-%d.txt" % (prop, n))
            extra = ["--only", str(c)] if c >= 0 else []
            with open(path, "w") as f:
                f.write("property: %s\nkey: %s\ncase: %d\nmessage: %s\nbuild: python3 check.py %s %s (VERIF_SEED=%d)\nreplay: %s\n\n%s\n" % (prop, k, c, m, prop, tier, seed, " ".join(p.args(extra)), p.text[-20000:]))
            print("  %s case=%d %s" % (k, c, m[:600]), flush=True)
            print("VIOLATION property=%s replay=%s" % (prop, path), flush=True)
        return 1
    if errors:
        print("check error:", errors[0], flush=True)
        return 2
    low = [k for k, v in per_job.items() if v["evaluations"] * 2 < v["planned"] or v["events"] == 0]
    if low or evaluations == 0 or len(sigs) < 2:
        print("check error: too little observed:", low, evaluations, len(sigs), flush=True)
        return 2
    log("%s held on %d executions, %d events, %d distinct" % (prop, evaluations, events, len(sigs)))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception as e:  # harness failure: neither held nor violated
        import traceback

        traceback.print_exc()
        rc = 2
    sys.exit(rc)
