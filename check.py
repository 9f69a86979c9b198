#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--job NAME] [--seed N]: build from /repo's working tree, run the property's
monitored workloads, write evidence/PROPERTY.json. Exit 0: held; 1: VIOLATION; 2: the check itself failed."""
import json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build as B
from jobs import PROPERTIES, SOURCES, SAN_ENV

NPROC = min(8, os.cpu_count() or 4)
T0 = time.time()


class Worker:
    """One process running cases a, a+step, ...; survives crashes and hangs of single cases."""

    def __init__(self, run, w):
        self.run, self.w = run, w
        self.viol = []  # (key, text, case, log lines, stderr)
        self.cases = 0
        self.counters = {}
        self.sample = ""
        self.hashes = []
        self.slow = 0
        self.notes = []

    def cmd(self, a, b, step, hashes=None):
        r = self.run
        c = list(r.job.get("wrap", [])) + [r.exe, r.job["check"], "--seed", str(r.seed), "--from", str(a), "--to", str(b), "--step", str(step)]
        if r.tier == "thorough":
            c.append("--thorough")
        if hashes:
            c += ["--hashes", hashes]
        if r.job.get("per_case_process"):
            pass
        else:
            c += ["--budget", str(max(1.0, r.deadline - time.time()))]
        return c

    def env(self):
        e = dict(os.environ)
        for k in list(e):
            if k.startswith("QRACK_"):
                del e[k]
        e.update(SAN_ENV.get(self.run.job.get("variant", "plain"), {}))
        envs = self.run.job.get("envs") or [{}]
        e.update(envs[self.w % len(envs)])
        e["HOME"] = self.run.tmp
        e["VF_TMP"] = self.run.tmp
        return e

    def go(self):
        r = self.run
        step = r.workers
        pos = self.w
        restarts = 0
        n = 0
        while pos < r.cases and time.time() < r.deadline and restarts <= 4:
            n += 1
            hf = os.path.join(r.tmp, "h.%s.%d.%d" % (r.job["check"], self.w, n))
            ef = os.path.join(r.tmp, "e.%s.%d.%d" % (r.job["check"], self.w, n))
            with open(ef, "wb") as err:
                p = subprocess.Popen(self.cmd(pos, r.cases, step, hf), stdout=subprocess.PIPE, stderr=err, env=self.env(),
                                     cwd=r.tmp, start_new_session=True)
            last = [time.time(), None, False]
            cur = [None]

            def pump():
                for raw in p.stdout:
                    l = raw.decode(errors="replace").rstrip("\n")
                    if l.startswith("C "):
                        last[0], last[1] = time.time(), int(l[2:])
                        self.cases += 1
                        cur[0] = None
                    elif l.startswith("V "):
                        m = re.match(r"V (\d+) ([^\t]*)\t(.*)", l)
                        if m:
                            cur[0] = [m.group(2), m.group(3), int(m.group(1)), [], ""]
                            self.viol.append(cur[0])
                    elif l.startswith("L ") and cur[0] is not None:
                        cur[0][3].append(l[2:])
                    elif l.startswith("S "):
                        try:
                            s = json.loads(l[2:])
                            for k, v in s["counters"].items():
                                if k.startswith("max:"):
                                    self.counters[k] = max(self.counters.get(k, 0), v)
                                else:
                                    self.counters[k] = self.counters.get(k, 0) + v
                            self.sample = s["sample"] or self.sample
                        except ValueError:
                            pass
                        last[2] = True

            th = threading.Thread(target=pump, daemon=True)
            th.start()
            hung = False
            while p.poll() is None:
                time.sleep(0.02)
                if time.time() - last[0] > r.case_timeout:
                    hung = True
                    break
            if hung:
                self.stacks(p)
            self.kill(p)
            th.join(10)
            if os.path.exists(hf):
                self.hashes.append(hf)
            if p.returncode == 0 and last[2] and not hung:
                if len(self.viol) >= 8:
                    break
                return
            restarts += 1
            idx = last[1] if last[1] is not None else pos
            tail = self.tail(ef)
            if hung:
                # once more, alone, with more time
                rc, out, e2 = self.alone(idx, 3 * r.case_timeout)
                if rc is None:
                    self.viol.append(["hang", "case %d does not terminate (no progress for %.0f s, twice)" % (idx, r.case_timeout),
                                      idx, [], tail + e2])
                else:
                    self.slow += 1
                    self.notes.append("case %d was slow once" % idx)
            elif last[1] is None:
                self.notes.append("worker did not start: rc=%s %s" % (p.returncode, tail[-500:]))
                r.broken = "worker of %s exited with %s before its first case: %s" % (r.job["check"], p.returncode, tail[-1500:])
                return
            else:
                if p.returncode == -signal.SIGKILL:
                    # not ours: the sandbox was short of memory; try alone
                    rc, out, e2 = self.alone(idx, 3 * r.case_timeout)
                    if rc == 0 and "\nV " not in out:
                        self.notes.append("case %d was killed from outside once" % idx)
                        pos = idx + step
                        continue
                k = self.crash_key(tail, p.returncode)
                log = self.trace(idx)
                self.viol.append(["crash:" + k, "case %d ended the process (%s): %s" % (idx, k, self.crash_line(tail)), idx, log, tail])
            pos = idx + step

    def stacks(self, p):
        pass

    @staticmethod
    def kill(p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        p.wait()

    def alone(self, idx, tmo):
        ef = os.path.join(self.run.tmp, "alone.%d" % self.w)
        with open(ef, "wb") as err:
            p = subprocess.Popen(self.cmd(idx, idx + 1, 1), stdout=subprocess.PIPE, stderr=err, env=self.env(), cwd=self.run.tmp,
                                 start_new_session=True)
        try:
            out, _ = p.communicate(timeout=tmo)
            return p.returncode, out.decode(errors="replace"), self.tail(ef)
        except subprocess.TimeoutExpired:
            self.kill(p)
            return None, "", self.tail(ef)

    def trace(self, idx):
        """Operations of a crashing case (verbose rerun)."""
        ef = os.path.join(self.run.tmp, "trace.%d" % self.w)
        try:
            with open(ef, "wb") as err:
                subprocess.run(self.cmd(idx, idx + 1, 1) + ["--verbose"], stdout=subprocess.DEVNULL, stderr=err, env=self.env(),
                               cwd=self.run.tmp, timeout=2 * self.run.case_timeout)
        except subprocess.TimeoutExpired:
            pass
        return self.tail(ef).splitlines()[-60:]

    @staticmethod
    def tail(f, n=12000):
        try:
            d = open(f, "rb").read()
        except OSError:
            return ""
        d = d if len(d) <= 2 * n else d[:n] + b"\n...\n" + d[-n:]
        return d.decode(errors="replace")

    @staticmethod
    def crash_line(t):
        for l in t.splitlines():
            if "runtime error:" in l or "ERROR: " in l or "WARNING: ThreadSanitizer" in l or "terminate called" in l or "what():" in l or re.match(r"==\d+== [A-Z]", l):
                return l.strip()[:300]
        return (t.strip().splitlines() or ["no message"])[-1][:300]

    @staticmethod
    def crash_key(t, rc):
        m = re.search(r"AddressSanitizer: ([\w-]+)", t) or re.search(r"ThreadSanitizer: ([\w -]+?) \(", t)
        if m:
            return m.group(1)
        m = re.search(r"==\d+== (Invalid (?:read|write|free).*|Conditional jump.*|Use of uninit.*|Syscall param.*|Mismatched free.*)", t)
        if m:
            return "memcheck " + m.group(1)
        if "runtime error:" in t:
            m = re.search(r"([\w./]+):\d+:\d+: runtime error: (.{0,60})", t)
            return "ubsan " + (m.group(2) if m else "")
        return "exit %s" % rc if rc >= 0 else "signal %d" % -rc


class Run:
    """One job of a check."""

    def __init__(self, job, tier, seed, tmp, exe):
        self.job, self.tier, self.seed, self.tmp, self.exe = job, tier, seed, tmp, exe
        self.cases = job["cases"][1 if tier == "thorough" else 0]
        self.workers = min(job.get("workers", NPROC), max(1, self.cases))
        self.case_timeout = job.get("timeout", 60)
        self.deadline = time.time() + job.get("budget", (150, 1500))[1 if tier == "thorough" else 0]
        self.broken = None

    def go(self):
        ws = [Worker(self, w) for w in range(self.workers)]
        ths = [threading.Thread(target=w.go) for w in ws]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        return ws


def read_known(prop):
    fnd = []
    path = os.path.join(VERIF, "known-findings.txt")
    for l in open(path) if os.path.exists(path) else ():
        m = re.match(r"finding: property=(\w+) probe=(\S+) (.*)", l)
        if m and m.group(1) == prop:
            fnd.append((m.group(2), m.group(3).strip()))
    return fnd


def main():
    args = sys.argv[1:]
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = None
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            tier = args[i + 1]
        elif args[i] == "--seed":
            seed = int(args[i + 1])
        elif args[i] == "--job":
            only = args[i + 1]
        i += 2
    spec = PROPERTIES[prop]
    jobs = [j for j in spec["jobs"] if only in (None, j["check"], j.get("name"))]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(B.BUILD, exist_ok=True)
    rdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(rdir, f))
    tmp = tempfile.mkdtemp(prefix="run-", dir=B.BUILD)
    rc = 0
    try:
        rc = do(prop, spec, jobs, tier, seed, tmp, rdir)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def do(prop, spec, jobs, tier, seed, tmp, rdir):
    viol, counters, samples, notes, per_job = [], {}, [], [], []
    states, programs = set(), set()
    evals = 0
    bt = time.time()
    exes = {}
    for v in sorted({j.get("variant", "plain") for j in jobs}):
        exes[v] = B.build(v, SOURCES)
    bt = time.time() - bt
    for j in jobs:
        t = time.time()
        r = Run(j, tier, seed, tmp, exes[j.get("variant", "plain")])
        ws = r.go()
        if r.broken:
            print("CHECK BROKEN: " + r.broken)
            return 2
        jc = jv = 0
        js, jp = set(), set()
        for w in ws:
            jc += w.cases
            jv += len(w.viol)
            for x in w.viol:
                viol.append((j, w, x))
            for k, v in w.counters.items():
                counters[k] = max(counters.get(k, 0), v) if k.startswith("max:") else counters.get(k, 0) + v
            if w.sample and len(samples) < 6:
                samples.append("%s: %s" % (j["check"], w.sample[:900]))
            notes += w.notes
            for hf in w.hashes:
                d = open(hf, "rb").read()
                o = 0
                for s in (js, jp):
                    if o + 8 <= len(d):
                        n = struct.unpack_from("<Q", d, o)[0]
                        o += 8
                        s.update(struct.unpack_from("<%dQ" % n, d, o))
                        o += 8 * n
                os.unlink(hf)
        evals += jc
        states |= js
        programs |= jp
        per_job.append({"check": j["check"], "variant": j.get("variant", "plain"), "cases": jc, "distinct_programs": len(jp),
                        "distinct_states": len(js), "violating_cases": jv, "wall_s": round(time.time() - t, 1),
                        "complete": jc >= r.cases})
        if viol and tier == "quick" and len(viol) >= 20:
            break
    # known findings: fixed programs that still fail on the unchanged tree
    known = 0
    for probe, what in read_known(prop):
        exe = exes.get("plain") or B.build("plain", SOURCES)
        still = probe_fails(exe, probe, tmp)
        if still:
            known += 1
            print("KNOWN-FINDING: property=%s %s" % (prop, what))
        else:
            notes.append("known finding %s did not show in this run" % probe)
    # report
    seen = {}
    for j, w, x in viol:
        seen.setdefault((j["check"], x[0]), []).append((j, w, x))
    for n, (k, l) in enumerate(sorted(seen.items(), key=lambda e: -len(e[1]))):
        j, w, x = min(l, key=lambda e: len(e[2][3]) or 10 ** 6)
        path = os.path.join(rdir, "%s-%d.txt" % (prop, n + 1))
        with open(path, "w") as f:
            f.write("property %s, job %s, variant %s, case %d (seed %d); %d violating cases of this kind\n" % (
                prop, j["check"], j.get("variant", "plain"), x[2], seed, len(l)))
            f.write("rerun: cd %s && %s python3 build.py %s %s && <exe> %s --seed %d --from %d --to %d --verbose\n" % (
                VERIF, " ".join("%s=%s" % e for e in (j.get("envs") or [{}])[w.w % len(j.get("envs") or [{}])].items()),
                j.get("variant", "plain"), ",".join(SOURCES), j["check"], seed, x[2], x[2] + 1))
            f.write(x[1] + "\n\n" + "\n".join(x[3]) + "\n\n" + (x[4] or ""))
        if n < 12:
            print("  %s [%s] x%d: %s" % (x[0], j["check"], len(l), x[1][:400]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(programs) if programs else len(states),
                       "rule": spec["rule"], "samples": samples or ["(none)"],
                       "distinct_states_observed": len(states), "jobs": per_job, "counters": dict(sorted(counters.items())),
                       "known_findings_reproduced": known, "build_s": round(bt, 1), "notes": notes[:20]},
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - T0, 1), "violations": len(viol)}
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d cases, %d distinct programs, %d distinct states, %d violations, build %.1f s, total %.1f s" % (
        prop, tier, evals, len(programs), len(states), len(viol), bt, time.time() - T0))
    # a monitor that saw nothing decides nothing
    if not viol and evals < spec.get("min_cases", 1):
        print("CHECK BROKEN: only %d cases ran" % evals)
        return 2
    return 1 if viol else 0


def probe_fails(exe, probe, tmp):
    e = dict(os.environ, HOME=tmp, VF_TMP=tmp)
    p = subprocess.Popen([exe, "probe:" + probe, "--from", "0", "--to", "1"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                         env=e, cwd=tmp, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=40)
    except subprocess.TimeoutExpired:
        Worker.kill(p)
        return True
    if p.returncode == 2:
        return False
    return p.returncode != 0 or b"\nV " in out


if __name__ == "__main__":
    try:
        main()
    except B.BuildError as e:
        print("BUILD FAILED: %s" % e)
        sys.exit(2)
