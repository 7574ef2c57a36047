#!/usr/bin/env python3
"""check.py <property> [quick|thorough]

Builds the harness against /repo's working tree, runs the drivers of the
property (they execute the real code and record what it did), and lets TLC
judge the recordings with the trace specifications in spec/, and check the
design models.  Exit 0: held on everything explored.  Exit 1 with a VIOLATION
line: a recording of the real code that the specification does not allow.
Exit 2: the check itself failed.
"""
import concurrent.futures as cf
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TLA = "/opt/veriftools/tla"
SPEC = os.path.join(VERIF, "spec")
NCPU = os.cpu_count() or 4
sys.path.insert(0, os.path.join(VERIF, "bin"))


class CheckError(Exception):
    pass


class Run:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.thorough = tier == "thorough"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.models, self.groups = [], [], {}
        self.violations, self.driver_info = [], {}
        self.notes = {}

    # ------------------------------------------------------------ building
    def gopath(self):
        gp = os.path.join(self.dir, "gp")
        src = os.path.join(gp, "src", "github.com", "mit-dci")
        os.makedirs(src, exist_ok=True)
        if not os.path.lexists(os.path.join(src, "zksigma")):
            os.symlink(REPO, os.path.join(src, "zksigma"))
            os.symlink(os.path.join(VERIF, "harness"), os.path.join(gp, "src", "vh"))
        return gp

    def goenv(self):
        e = dict(os.environ)
        e.update(GO111MODULE="off", GOFLAGS="", GOPATH=self.gopath(), CGO_ENABLED="1", GOTOOLCHAIN="local")
        e.pop("GOROOT", None)
        gc = e.get("GOCACHE") or os.path.join(os.path.expanduser("~"), ".cache", "go-build")
        try:
            os.makedirs(gc, exist_ok=True)
            probe = os.path.join(gc, "verif-probe-%d" % os.getpid())
            open(probe, "w").close()
            os.remove(probe)
        except OSError:
            gc = os.path.join(self.dir, "gocache")
        e["GOCACHE"] = gc
        return e

    def build(self, race=False):
        out = os.path.join(self.dir, "vh-race" if race else "vh")
        cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", out, "vh"]
        p = subprocess.run(cmd, env=self.goenv(), cwd=os.path.join(self.gopath(), "src", "vh"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if p.returncode != 0:
            raise CheckError("building the harness failed:\n" + p.stdout[-3000:])
        return out

    def build_java(self):
        d = os.path.join(self.dir, "jc")
        os.makedirs(d, exist_ok=True)
        p = subprocess.run(["javac", "-nowarn", "-d", d, "-cp", TLA + "/tla2tools.jar",
                            os.path.join(VERIF, "java", "VerifOverrides.java")],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        if p.returncode != 0:
            raise CheckError("javac failed:\n" + p.stdout[-3000:])
        return d

    # ------------------------------------------------------------ drivers
    def drive(self, idx, job):
        """Run one driver; returns its trace file."""
        out = os.path.join(self.dir, "trace-%03d.ndjson" % idx)
        env = dict(os.environ)
        env.update(VERIF_SEED=str(self.seed), VH_TIER=self.tier)
        if job.get("race"):
            env["GORACE"] = "halt_on_error=0 exitcode=66 log_path=stderr"
        env.update(job.get("env", {}))
        exe = self.exe_race if job.get("race") else self.exe
        cmd = [exe, job["driver"], out] + [str(a) for a in job.get("args", [])]
        tmo = 780 if not self.thorough else 6000
        silent = 240 if not self.thorough else 1200
        t = time.time()
        err = os.path.join(self.dir, "stderr-%03d" % idx)
        with open(err, "wb") as ef:
            p = subprocess.Popen(cmd, env=env, stdin=subprocess.DEVNULL, stdout=ef, stderr=ef,
                                 cwd=self.dir, start_new_session=True)
            # No event and no note for a long time: a call does not return.
            # (A slow machine makes the drivers slow, but not silent.)
            rc, mark, since = None, None, time.time()
            while time.time() - t < tmo:
                try:
                    rc = p.wait(timeout=0.5)
                    break
                except subprocess.TimeoutExpired:
                    pass
                m = []
                for f in (out, out + ".journal"):
                    try:
                        st = os.stat(f)
                        m.append((st.st_size, st.st_mtime_ns))
                    except OSError:
                        m.append(None)
                if m != mark:
                    mark, since = m, time.time()
                elif time.time() - since > silent:
                    break
            if rc is None:
                late = time.time() - t >= tmo
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
                if late:
                    raise CheckError("driver %s did not finish in %d s" % (job["driver"], tmo))
        text = open(err, "rb").read().decode("utf8", "replace")
        self.driver_info[idx] = {"cmd": [job["driver"]] + [str(a) for a in job.get("args", [])],
                                 "wall_s": round(time.time() - t, 2)}
        if "HARNESS-ERROR" in text:
            raise CheckError("driver %s: %s" % (job["driver"], text[-2000:]))
        extra = []
        if "WARNING: DATA RACE" in text:
            first = text[text.index("WARNING: DATA RACE"):][:3000]
            extra.append({"op": "race", "report": first})
            rc = 0 if rc == 66 else rc
        if rc is None:
            # a call did not return (the drivers take seconds): a recorded outcome
            jn = ""
            try:
                jn = open(out + ".journal", "rb").read().decode("utf8", "replace")
            except OSError:
                pass
            extra.append({"op": "hang", "doing": jn[:3000], "seconds": silent})
            rc = 0
        if rc != 0:
            # the process died in the code under test (a panic in another
            # goroutine, a runtime fatal error): a recorded outcome
            if re.search(r"^(panic:|fatal error:|unexpected fault)", text, re.M) or "goroutine " in text:
                jn = ""
                try:
                    jn = open(out + ".journal", "rb").read().decode("utf8", "replace")
                except OSError:
                    pass
                extra.append({"op": "crash", "doing": jn[:3000], "report": text[:3000]})
            else:
                raise CheckError("driver %s exited %d: %s" % (job["driver"], rc, text[-2000:]))
        if extra:
            data = open(out, "rb").read() if os.path.exists(out) else b""
            cut = data.rfind(b"\n") + 1
            with open(out, "wb") as f:
                f.write(data[:cut])
                for x in extra:
                    f.write((json.dumps(x) + "\n").encode())
        return out

    # ------------------------------------------------------------ TLC
    def tlc(self, name, module, cfg, env=None, args=(), timeout=None, workers=1, xmx="3g"):
        meta = os.path.join(self.dir, "meta-" + name)
        os.makedirs(meta, exist_ok=True)
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xss64m", "-Xmx" + xmx, "-Djava.io.tmpdir=" + meta,
               "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:VerifOverrides",
               "-cp", "%s/tla2tools.jar:%s/CommunityModules-deps.jar:%s" % (TLA, TLA, self.jc),
               "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               "-config", cfg] + list(args) + [module]
        tmo = timeout or (800 if not self.thorough else 5000)
        with open(os.path.join(meta, "out"), "wb") as of:
            p = subprocess.Popen(cmd, env=e, cwd=SPEC, stdin=subprocess.DEVNULL, stdout=of,
                                 stderr=subprocess.STDOUT, start_new_session=True)
            try:
                rc = p.wait(timeout=tmo)
            except subprocess.TimeoutExpired:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
                raise CheckError("TLC on %s did not finish in %d s" % (module, tmo))
        text = open(os.path.join(meta, "out"), "rb").read().decode("utf8", "replace")
        return rc, text

    @staticmethod
    def counts(text):
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
        if not m:
            m2 = re.findall(r"(\d[\d,]*) states checked", text)
            if m2:
                n = int(m2[-1].replace(",", ""))
                return n, n
            return 0, 0
        g, d = m[-1]
        return int(g.replace(",", "")), int(d.replace(",", ""))

    def judge(self, name, spec, mode, files, opts):
        """Concatenate the traces, let TLC judge them, collect the rejected events."""
        path = os.path.join(self.dir, "all-%s.ndjson" % name)
        where = []
        with open(path, "wb") as o:
            for idx, f in files:
                for i, line in enumerate(open(f, "rb")):
                    if not line.endswith(b"\n"):
                        line += b"\n"
                    o.write(line)
                    where.append((idx, i + 1))
        if not where:
            raise CheckError("no events recorded for " + name)
        rc, text = self.tlc(name, spec + ".tla", opts.get("cfg", "trace.cfg"), {"TRACE": path, "MODE": mode},
                            timeout=opts.get("tlc_timeout"))
        rejects = re.findall(r'^"?REJECT (\d+) ([^"\n]*)"?$', text, re.M)
        if "No error has been found" not in text or rc != 0:
            raise CheckError("TLC failed on %s (%s, rc %d):\n%s" % (spec, mode, rc, text[-3500:]))
        g, d = self.counts(text)
        lines = open(path, "rb").read().split(b"\n")
        rej = []
        for ln, why in rejects:
            ln = int(ln)
            ev = json.loads(lines[ln - 1])
            rej.append({"spec": spec, "mode": mode, "why": why, "event": ev,
                        "driver": self.driver_info[where[ln - 1][0]]["cmd"], "line": where[ln - 1][1]})
        sample = json.loads(lines[min(len(where) - 1, len(where) // 2)])
        return {"generated": g, "distinct": d, "events": len(where), "rejects": rej, "sample": sample, "text": text}

    def model(self, name, m):
        rc, text = self.tlc(name, m["module"] + ".tla", m.get("cfg", m["module"] + ".cfg"), m.get("env"),
                            m.get("args", ()), timeout=m.get("timeout"), workers=m.get("workers", 2), xmx=m.get("xmx", "4g"))
        ok = "No error has been found" in text or ("-simulate" in m.get("args", ()) and rc == 0)
        if not ok:
            raise CheckError("design model %s failed (rc %d):\n%s" % (m["module"], rc, text[-3500:]))
        g, d = self.counts(text)
        return {"module": m["module"], "cfg": m.get("cfg", m["module"] + ".cfg"), "states": d, "generated": g, "text": text}

    def proof(self, module):
        """tlapm checks the proofs of a module (they do not depend on the code)."""
        d = os.path.join(self.dir, "proof-" + module)
        shutil.copytree(SPEC, d)
        for attempt in (1, 2):
            p = subprocess.run(["tlapm", "--threads", "4", "--stretch", str(2 * attempt), module + ".tla"], cwd=d,
                               stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               text=True, errors="replace", timeout=2400)
            m = re.search(r"All (\d+) obligations? proved", p.stdout)
            if p.returncode == 0 and m:
                return {"module": module, "obligations_proved": int(m.group(1))}
        raise CheckError("tlapm on %s (rc %d):\n%s" % (module, p.returncode, p.stdout[-3000:]))

    def behaviours(self, name):
        return os.path.join(self.dir, "behaviours-%s.ndjson" % name)

    def generate(self, g):
        """TLC in simulation mode writes behaviours of a model, for a driver to replay."""
        rc, text = self.tlc("gen-" + g["name"], g["module"] + ".tla", g["cfg"],
                            args=("-simulate", "num=%d" % g["num"], "-depth", str(g.get("depth", 1000)), "-seed", str(self.seed)))
        bs = re.findall(r'^"BEHAVIOUR (.*)"$', text, re.M)
        if rc != 0 or not bs:
            raise CheckError("no behaviours from %s (rc %d):\n%s" % (g["module"], rc, text[-3000:]))
        with open(self.behaviours(g["name"]), "w") as f:
            for b in bs:
                f.write(b.replace('\\"', '"') + "\n")
        self.notes.setdefault("behaviours_generated", {})[g["name"]] = len(bs)

    # ------------------------------------------------------------ the run
    def run(self, plan):
        self.jc = self.build_java()
        self.exe = self.build()
        if any(j.get("race") for j in plan["drive"]):
            self.exe_race = self.build(race=True)
        # behaviours generated from the specification, to be replayed
        for g in plan.get("generate", []):
            self.generate(g)
        with cf.ThreadPoolExecutor(max_workers=NCPU) as ex:
            proofs = [ex.submit(self.proof, m) for m in plan.get("proofs", [])]
            models = [ex.submit(self.model, "m%d" % i, m) for i, m in enumerate(plan.get("models", []))]
            jobs = plan["drive"]
            par = [ex.submit(self.drive, i, j) if not j.get("alone") else None for i, j in enumerate(jobs)]
            traces = {}
            for i, j in enumerate(jobs):
                if par[i] is not None:
                    traces[i] = par[i].result()
            for i, j in enumerate(jobs):
                if par[i] is None:
                    traces[i] = self.drive(i, j)
            # group by what judges them
            groups = {}
            for i, j in enumerate(jobs):
                for spec, mode in j["judge"]:
                    groups.setdefault((spec, mode), []).append((os.path.getsize(traces[i]) * j.get("weight", 1), i))
            work = []
            total = sum(s for fs in groups.values() for s, _ in fs) or 1
            for (spec, mode), fs in sorted(groups.items()):
                share = sum(s for s, _ in fs) / total
                units = {}           # recordings with the same label are one history
                for s, i in fs:
                    label = plan["drive"][i].get("together", i)
                    u = units.setdefault(label, [0, []])
                    u[0] += s
                    u[1].append(i)
                n = max(1, min(len(units), round(share * NCPU)))
                bins = [[0, []] for _ in range(n)]
                for s, ii in sorted(units.values(), reverse=True):
                    b = min(bins, key=lambda b: b[0])
                    b[0] += s
                    b[1] += ii
                for bi, b in enumerate(bins):
                    work.append(("%s-%s-%d" % (spec, mode, bi), spec, mode, [(i, traces[i]) for i in sorted(b[1])]))
            futs = [ex.submit(self.judge, *w, plan) for w in work]
            for w, f in zip(work, futs):
                r = f.result()
                self.states += r["distinct"]
                self.transitions += r["generated"]
                self.events += r["events"]
                self.traces += len(w[3])
                g = self.groups.setdefault("%s/%s" % (w[1], w[2]), {"events": 0, "traces": 0})
                g["events"] += r["events"]
                g["traces"] += len(w[3])
                self.violations += r["rejects"]
                if len(self.samples) < 6:
                    s = json.dumps(r["sample"])
                    self.samples.append(r["sample"] if len(s) < 3000 else s[:3000])
                if plan.get("post"):
                    plan["post"](self, w, r)
            for f in models:
                r = f.result()
                self.states += r["states"]
                self.transitions += r["generated"]
                self.models.append({k: r[k] for k in ("module", "cfg", "states", "generated")})
            if proofs:
                self.notes["proofs"] = [f.result() for f in proofs]

    def finish(self, level):
        known = load_known(self.pid)
        fresh, listed = [], {}
        for v in self.violations:
            k = next((k for k in known if matches(k["match"], v["event"])), None)
            if k:
                listed.setdefault(k["text"], 0)
                listed[k["text"]] += 1
            else:
                fresh.append(v)
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "events_judged": self.events,
                "judged_by": self.groups,
                "design_models": self.models,
                "drivers": [self.driver_info[i] for i in sorted(self.driver_info)],
                "samples": self.samples or ["none"],
            },
            "assumptions": ["TLC and java.math.BigInteger / java.security (the evaluators of the specification) are correct",
                            "what the drivers did not execute was not judged"],
            "wall_s": round(time.time() - self.t0, 2), "violations": len(fresh),
        }
        ev["coverage"].update(self.notes)
        ed = os.path.join(VERIF, "evidence")
        os.makedirs(ed, exist_ok=True)
        for t in sorted(listed):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, t))
        rc = 0
        if fresh:
            rd = os.path.join(ed, "replay")
            os.makedirs(rd, exist_ok=True)
            rp = os.path.join(rd, "%s-%s-seed%d.json" % (self.pid, self.tier, self.seed))
            with open(rp, "w") as f:
                json.dump({"property": self.pid, "seed": self.seed, "tier": self.tier, "count": len(fresh),
                           "rejected": fresh[:50],
                           "how": "VERIF_SEED=%d python3 bin/check.py %s %s" % (self.seed, self.pid, self.tier)}, f, indent=1)
            for v in fresh[:5]:
                s = json.dumps(v["event"])
                print("rejected by %s (%s): %s" % (v["spec"], v["why"], s if len(s) < 600 else s[:600] + "..."))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            rc = 1
        with open(os.path.join(ed, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s seed=%d: %d events in %d traces judged, %d model states, %d rejected, %.1f s"
              % (self.pid, self.tier, self.seed, self.events, self.traces, self.states, len(fresh), time.time() - self.t0))
        return rc


def matches(pat, ev):
    if isinstance(pat, dict):
        return isinstance(ev, dict) and all(k in ev and matches(v, ev[k]) for k, v in pat.items())
    return pat == ev


def load_known(pid):
    """Open findings only: 'finding: property=<id> match=<json> <text>'.  'fixed:' lines suppress nothing."""
    r = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) match=(\{.*\}) :: (.*)$", line.strip())
            if m and m.group(1) == pid:
                r.append({"match": json.loads(m.group(2)), "text": m.group(3)})
    return r


def main():
    import plans
    if len(sys.argv) < 2 or sys.argv[1] not in plans.PLANS:
        print("usage: check.py <property> [quick|thorough]", file=sys.stderr)
        return 2
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    r = Run(pid, tier)
    try:
        plan = plans.PLANS[pid](r)
        r.run(plan)
        return r.finish(plan.get("level", "model_checking"))
    except CheckError as e:
        print("CHECK-ERROR %s: %s" % (pid, e))
        return 2
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("kept", r.dir)
        else:
            shutil.rmtree(r.dir, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
