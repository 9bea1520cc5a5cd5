"""Shared machinery: building the engine, running analysis jobs, matching known findings, writing evidence."""
import os, sys, json, time, subprocess, tempfile, shutil, re, resource, hashlib
from concurrent.futures import ThreadPoolExecutor
import harness
VERIF = harness.VERIF; REPO = harness.REPO
ENGINE = os.path.join(VERIF, "build", "hashan")
WORKERS = int(os.environ.get("HASHAN_JOBS", "8"))

def build_engine():
    if os.environ.get("HASHAN_ENGINE"): return os.environ["HASHAN_ENGINE"]
    r = subprocess.run(["make", "-C", os.path.join(VERIF, "engine"), "OUT=" + os.path.join(VERIF, "build"), "-j8"], capture_output=True, text=True)
    if r.returncode or not os.path.exists(ENGINE):
        print("cannot build the analyser:\n" + r.stdout[-2000:] + r.stderr[-4000:]); sys.exit(2)
    return ENGINE

class NoAnswer(Exception): pass

class Job:
    """One translation unit handed to the analyser."""
    def __init__(self, name, text, cfg, std="c++14", extra=(), target=(), timeout=800, mem_gb=12, weight=1):
        self.name, self.text, self.cfg, self.std, self.extra, self.target = name, text, dict(cfg), std, list(extra), list(target)
        self.timeout, self.mem_gb, self.weight = timeout, mem_gb, weight

def alg_cfg(a, **kw):
    c = dict(B=a.B, G=a.G, D=a.D, lazy=a.lazy, key=a.key, maxlog=a.maxlog, bij=a.bij)
    c.update(kw); return c

def run_job(job, work):
    fn = re.sub(r"[^A-Za-z0-9]+", "_", job.name)
    bc = os.path.join(work, fn + ".bc"); out = os.path.join(work, fn + ".json")
    res = dict(name=job.name, findings=[], incomplete=[], notes=[], count={}, functions=[], wall=0, compile_error=None)
    t = time.time()
    rc, err = harness.compile_bc(job.text, bc, std=job.std, extra=job.extra, target=job.target)
    if rc:
        res["compile_error"] = err[-1500:]; res["wall"] = time.time() - t; return res
    left = DEADLINE[0] - time.time()
    if left < 3:
        res["incomplete"].append("not analysed: no time left"); return res
    limit = min(job.timeout, left)
    def lim(): resource.setrlimit(resource.RLIMIT_AS, (job.mem_gb << 30, job.mem_gb << 30))
    try:
        # the analyser stops by itself at the limit; it is ended when it does not, or when a violation was found elsewhere meanwhile
        p = subprocess.Popen([core_engine, bc, out, "limit=%d" % limit] + ["%s=%s" % kv for kv in job.cfg.items()], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, preexec_fn=lim)
        RUNNING.add(p)
        try:
            while True:
                try: err = p.communicate(timeout=2)[1]; break
                except subprocess.TimeoutExpired:
                    if time.time() > min(t + limit + 30, DEADLINE[0] + 30): p.kill(); p.communicate(); raise
        finally: RUNNING.discard(p)
        if p.returncode == 0 and os.path.exists(out): res.update(json.load(open(out)))
        else: res["incomplete"].append("analyser stopped (status %s) %s" % (p.returncode, err[-300:].strip()))
        if any(f["prop"] == PROP[0] for f in res["findings"]): DEADLINE[0] = min(DEADLINE[0], time.time() + 150)
    except subprocess.TimeoutExpired:
        res["incomplete"].append("analysis of this instance did not finish in %d s" % limit)
    for f in (bc, out, bc[:-3] + ".cpp"):
        if os.path.exists(f): os.remove(f)
    res["wall"] = round(time.time() - t, 2)
    return res

core_engine = ENGINE
RUNNING = set()
DEADLINE = [time.time() + 7200]
PROP = [None]
def set_deadline(prop, tier): PROP[0] = prop; DEADLINE[0] = time.time() + (760 if tier == 'quick' else 7200)
def run_jobs(jobs):
    global core_engine
    core_engine = build_engine()
    work = tempfile.mkdtemp(prefix="hashan.")
    try:
        order = sorted(range(len(jobs)), key=lambda i: -jobs[i].weight)
        res = [None] * len(jobs)
        with ThreadPoolExecutor(WORKERS) as ex:
            for i, r in zip(order, ex.map(lambda i: run_job(jobs[i], work), order)): res[i] = r
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)

def known():
    """known: property=<id> match=/<regex>/ <text>     fixed: property=<id> <commit> <text>  (suppresses nothing)"""
    ks = []
    p = os.path.join(VERIF, "known_findings.txt")
    for l in (open(p) if os.path.exists(p) else []):
        m = re.match(r"known: property=(\w+) match=/(.*?)/ (.*)", l.strip())
        if m: ks.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return ks

class Outcome:
    """Collects what a check found, decides the exit status and writes the evidence file."""
    def __init__(self, prop, tier, seed, level="other"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.t0 = time.time(); self.findings = []; self.undecided = []; self.notes = []; self.cov = {}; self.functions = set(); self.instances = []; self.assumptions = []; self.noanswer = []
        self.n = dict(obligations=0, discharged=0)
    def find(self, subject, msg, where="", kind=""): self.findings.append(dict(subject=subject, msg=msg, where=where, kind=kind))
    def oblige(self, n=1, ok=None):
        self.n["obligations"] += n; self.n["discharged"] += n if ok is None else ok
    def add_results(self, results, prop=None, keys=()):
        for r in results:
            if r["compile_error"]: self.noanswer.append("%s: the analysed translation unit does not compile: %s" % (r["name"], r["compile_error"])); continue
            for f in r["findings"]:
                if f["prop"] == (prop or self.prop): self.find(r["name"], f["msg"], f["where"], f["kind"])
            for x in r["incomplete"]: self.undecided.append("%s: %s" % (r["name"], x))
            for x in r["notes"]: self.notes.append("%s: %s" % (r["name"], x))
            self.functions.update(r["functions"])
            self.instances.append(dict(name=r["name"], wall_s=r["wall"], **r["count"]))
    def finish(self, explanation, rule, extra=None):
        ks = known(); out = []; seen_known = set()
        for f in self.findings:
            text = "%s: %s%s" % (f["subject"], f["msg"], (" @ " + f["where"]) if f["where"] else "")
            for p, rx, what in ks:
                if p == self.prop and rx.search(text): seen_known.add(what); break
            else: out.append(text)
        for w in sorted(seen_known): print("KNOWN-FINDING: property=%s %s" % (self.prop, w))
        for u in self.undecided[:40]: print("UNDECIDED %s" % u[:400])
        for u in self.notes[:40]: print("NOTE %s" % u[:300])
        cov = dict(explanation=explanation, rule=rule, obligations=self.n["obligations"], discharged=self.n["discharged"], undecided=self.undecided[:100], notes=self.notes[:100], instances=self.instances,
                   functions_analysed=len(self.functions), functions=sorted(self.functions)[:400], known_findings=sorted(seen_known))
        cov.update(extra or {})
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(out))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as fh: json.dump(ev, fh, indent=1)
        rp = os.path.join(VERIF, "evidence", self.prop + ".violations.txt")
        if os.path.exists(rp): os.remove(rp)
        if out:
            with open(rp, "w") as fh: fh.write("\n".join(out) + "\n")
            for t in out[:8]: print("  " + t[:600])
            print("VIOLATION property=%s replay=%s" % (self.prop, rp)); return 1
        if self.noanswer:
            for x in self.noanswer[:5]: print("NO ANSWER " + x[:1500])
            return 2
        print("%s: held on everything analysed (%d obligations, %d discharged, %d undecided; %d functions) in %.1f s" % (self.prop, self.n["obligations"], self.n["discharged"], len(self.undecided), len(self.functions), time.time() - self.t0))
        return 0
