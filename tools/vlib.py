"""Check runner: model checking of the specifications, driving the code under test, judging with TLC."""
import json, os, re, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PYPY = "/opt/venv/bin/python"

class Broken(Exception):
    """the machinery itself failed: no answer about the property"""

def brief(out):
    k = out.find("Error:")
    if k < 0:
        k = max(0, out.find("***"))
    return out[k:k + 700] + "\n...\n" + "\n".join(l for l in out.splitlines() if " in " in l and l[:1].isdigit())[-500:]

def failures(out, module):
    """(record number, clause) for every <<"FAIL", k, {clauses}>> TLC printed (long ones over several lines)"""
    found, n = [], 0
    for m in re.finditer(r'^<<\s*"FAIL",\s*(\d+),\s*\{(.*?)\}\s*>>', out, re.M | re.S):
        n += 1
        found += [(int(m.group(1)), cl) for cl in re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(2))]
    if n != out.count('"FAIL"'):
        raise Broken("%s: could not read every reported failure" % module)
    return found

class Ctx(object):
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or "1")
        self.quick = tier != "thorough"
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.fail = []          # (clause, sig, record)
        self.samples = []
        self.classes = {}
        self.distinct = set()
        self.stages = []
        self.assumptions = []
        self.classdir = None

    # ---- Java helper ----
    def classes_dir(self):
        if self.classdir is None:
            src = os.path.join(ROOT, "lib", "Rat.java")
            built = os.path.join(ROOT, "build", "Rat.class")
            if os.path.exists(built) and os.path.getmtime(built) >= os.path.getmtime(src):
                self.classdir = os.path.join(ROOT, "build")
            else:
                d = os.path.join(self.tmp, "classes")
                os.makedirs(d)
                subprocess.run(["javac", "-nowarn", "-cp", JARS, "-d", d, src], check=True, capture_output=True)
                self.classdir = d
        return self.classdir

    def tlc(self, module, cfg=None, env=None, workers=6, timeout=700, simulate=None, heap="6g", extra=()):
        cfg = cfg or module
        meta = tempfile.mkdtemp(dir=self.tmp, prefix="meta")
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss512m", "-cp", JARS + ":" + self.classes_dir(), "tlc2.TLC",
               "-config", cfg + ".cfg", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE", "-deadlock"]
        if simulate:
            cmd += ["-simulate", simulate, "-seed", str(self.seed)]
        cmd += list(extra) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        e.pop("JAVA_TOOL_OPTIONS", None)
        try:
            p = subprocess.run(cmd, cwd=os.path.join(ROOT, "spec"), env=e, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired as x:
            out = x.stdout or ""
            out = out.decode("utf-8", "replace") if isinstance(out, bytes) else out
            if "TLC threw an unexpected exception" in out:   # it can be very slow to word an exception in a deep recursion
                return 1, out, 0, 0
            raise Broken("TLC timed out on %s" % module)
        out = p.stdout
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
        return p.returncode, out, gen, dist

    def mc(self, module, cfg=None, env=None, workers=6, min_states=2, timeout=700, extra=()):
        """Model-check the specification itself; an error there is a mistake of the specification."""
        t = time.time()
        rc, out, gen, dist = self.tlc(module, cfg, env, workers, timeout, extra=extra)
        if rc != 0 or "No error has been found" not in out:
            raise Broken("model checking %s failed:\n%s" % (cfg or module, brief(out)))
        if dist < min_states:
            raise Broken("model %s explored only %d states" % (cfg or module, dist))
        self.states += dist
        self.transitions += gen
        self.stages.append(dict(stage="model-check", spec=cfg or module, distinct_states=dist, transitions=gen,
                                wall_s=round(time.time() - t, 2)))
        return out

    def gen(self, module, name, cfg=None, env=None, workers=4, timeout=700, simulate=None):
        """Let TLC enumerate scenarios: the module prints each as <<"SCEN", json-string>>."""
        t = time.time()
        rc, out, gen, dist = self.tlc(module, cfg, env, workers, timeout, simulate=simulate)
        if rc != 0 and not simulate:
            raise Broken("scenario generation %s failed:\n%s" % (cfg or module, out[-3000:]))
        path = os.path.join(self.tmp, name)
        seen = set()
        with open(path, "w") as f:
            for m in re.finditer(r'^<<"SCEN", "(.*)">>$', out, re.M):
                s = m.group(1).replace('\\"', '"').replace("\\\\", "\\")
                if s not in seen:
                    seen.add(s)
                    f.write(s + "\n")
        if not seen:
            raise Broken("no scenario generated by %s:\n%s" % (cfg or module, out[-2000:]))
        self.states += dist
        self.transitions += gen
        self.stages.append(dict(stage="generate", spec=cfg or module, scenarios=len(seen), distinct_states=dist,
                                wall_s=round(time.time() - t, 2)))
        return path, len(seen)

    def drive(self, script, parts=6, scen=None, timeout=600, env=None, tag=""):
        t = time.time()
        e = dict(os.environ)
        e.update(PYTHONPATH=REPO + ":" + os.path.join(ROOT, "drive"), PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8",
                 OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0", VERIF_SCRATCH=self.tmp)
        e.update(env or {})
        procs = []
        for k in range(parts):
            outp = os.path.join(self.tmp, "%s%s.%d.ndjson" % (script, tag, k))
            errp = outp + ".err"
            cmd = [PYPY, "-W", "ignore", os.path.join(ROOT, "drive", script + ".py"), outp, self.tier, str(self.seed), str(k), str(parts)]
            if scen:
                cmd.append(scen)
            procs.append((subprocess.Popen(cmd, cwd=self.tmp, env=e, stdout=subprocess.DEVNULL, stderr=open(errp, "w"), stdin=subprocess.DEVNULL), outp, errp))
        merged = os.path.join(self.tmp, script + tag + ".ndjson")
        if self.tier == "quick":
            timeout = max(60, min(timeout, 650 - (t - self.t0)))
        deadline = time.time() + timeout
        n = 0
        with open(merged, "w") as f:
            for p, outp, errp in procs:
                try:
                    rc = p.wait(max(1, deadline - time.time()))
                except subprocess.TimeoutExpired:
                    p.kill()
                    p.wait()
                    rc = "timeout"
                if os.path.exists(outp):
                    with open(outp) as g:
                        for line in g:
                            if line.endswith("\n"):
                                f.write(line)
                                n += 1
                if rc != 0:
                    err = open(errp).read()[-1500:]
                    self.fail.append(("driver-crashed", "%s:%s" % (script, rc), dict(driver=script, rc=str(rc), stderr=err)))
        self.stages.append(dict(stage="drive", driver=script, records=n, wall_s=round(time.time() - t, 2)))
        return merged

    def judge(self, module, trace, cfg=None, env=None, workers=6, timeout=None, min_records=1, chunk=60000):
        """TLC judges every record of the trace; failing clauses are collected."""
        t = time.time()
        if timeout is None:
            timeout = max(120, 800 - (t - self.t0)) if self.tier == "quick" else 3000
        with open(trace) as f:
            lines = f.readlines()
        if not lines:
            if self.fail:
                return
            raise Broken("no records to judge")
        for lo in range(0, len(lines), chunk):
            part = lines[lo:lo + chunk]
            path = trace
            if len(lines) > chunk:
                path = trace + ".part"
                with open(path, "w") as f:
                    f.writelines(part)
            e = dict(env or {})
            e["TRACE"] = path
            rc, out, gen, dist = self.tlc(module, cfg, e, workers, timeout)
            if rc != 0 or "No error has been found" not in out:
                # TLC stops at a record it cannot give a meaning to; whatever it judged before counts, and so does that record
                at = re.findall(r"^i = (\d+)$", out, re.M) if "TLC threw an unexpected exception" in out or "evaluating" in out else []
                if not at and "TLC threw an unexpected exception" in out:
                    at = [1]
                if not at or "OutOfMemory" in out or "StackOverflow" in out:
                    raise Broken("judging with %s failed:\n%s" % (module, brief(out)))
                for k, cl in failures(out, module) + [(int(at[-1]), "has-no-meaning-in-the-specification")]:
                    rec = json.loads(part[k - 1])
                    self.fail.append((cl, rec.get("sig", ""), rec))
                break
            lanes = dist - len(part)
            if not (0 < lanes <= 64):
                raise Broken("%s judged %d of %d records" % (module, dist, len(part)))
            for k, cl in failures(out, module):
                rec = json.loads(part[k - 1])
                self.fail.append((cl, rec.get("sig", ""), rec))
            self.states += dist
            self.transitions += gen
        if len(lines) < min_records and not self.fail:
            raise Broken("only %d records to judge" % len(lines))
        self.traces += len(lines)
        for k, line in enumerate(lines):
            r = json.loads(line)
            if r.get("nt", True):
                self.distinct.add(hash(line))
            c = r.get("cls", r.get("op", ""))
            self.classes[c] = self.classes.get(c, 0) + 1
            if self.classes[c] == 1 and len(self.samples) < 6:
                self.samples.append(json.dumps(r)[:600])
        self.stages.append(dict(stage="judge", spec=cfg or module, records=len(lines), wall_s=round(time.time() - t, 2)))

    def explore(self, module, trace, cfg=None, env=None, workers=6, timeout=None, min_records=1):
        """TLC explores every behaviour of each recorded scenario; <<"DONE", k>> / <<"FAIL", k, clauses>> report its ends."""
        t = time.time()
        if timeout is None:
            timeout = max(120, 800 - (t - self.t0)) if self.tier == "quick" else 3000
        with open(trace) as f:
            lines = f.readlines()
        if len(lines) < min_records:
            if self.fail:
                return
            raise Broken("only %d records to explore" % len(lines))
        e = dict(env or {})
        e["TRACE"] = trace
        rc, out, gen, dist = self.tlc(module, cfg, e, workers, timeout)
        if rc != 0 or "No error has been found" not in out:
            raise Broken("exploring with %s failed:\n%s" % (module, brief(out)))
        ended = set(int(m.group(1)) for m in re.finditer(r'^<<\s*"DONE",\s*(\d+)>>', out, re.M))
        fails = set(failures(out, module))
        for k, cl in sorted(fails):
            rec = json.loads(lines[k - 1])
            self.fail.append((cl, rec.get("sig", ""), rec))
        ended |= set(k for k, _ in fails)
        if len(ended) < min_records:
            raise Broken("%s: only %d of %d scenarios ran to an end" % (module, len(ended), len(lines)))
        self.states += dist
        self.transitions += gen
        self.traces += len(ended)
        for k, line in enumerate(lines):
            r = json.loads(line)
            if k + 1 in ended:
                self.distinct.add(hash(line))
                c = r.get("cls", r.get("op", ""))
                self.classes[c] = self.classes.get(c, 0) + 1
                if self.classes[c] == 1 and len(self.samples) < 6:
                    self.samples.append(json.dumps(r)[:600])
        self.stages.append(dict(stage="explore", spec=cfg or module, scenarios=len(ended), distinct_states=dist, wall_s=round(time.time() - t, 2)))

    # ---- verdict ----
    def known(self):
        out = []
        p = os.path.join(ROOT, "known_findings.txt")
        for line in open(p):
            m = re.match(r"finding: property=(\S+) clause=(\S+) sig=(\S+) :: (.*)$", line.strip())
            if m and m.group(1) == self.pid:
                out.append(m.groups()[1:])
        return out

    def finish(self, level, rule, assumptions=()):
        known = self.known()
        shown, bad = {}, []
        for cl, sig, rec in self.fail:
            hit = None
            for k in known:
                if k[0] == cl and k[1] == sig.replace(" ", "_"):
                    hit = k
            if hit:
                shown[hit] = shown.get(hit, 0) + 1
            else:
                bad.append((cl, sig, rec))
        for k in sorted(shown):
            print("KNOWN-FINDING: property=%s %s (%d observations)" % (self.pid, k[2], shown[k]))
        ev = os.path.join(ROOT, "evidence")
        os.makedirs(ev, exist_ok=True)
        replay = None
        if bad:
            replay = os.path.join(ev, "%s-violation.json" % self.pid)
            with open(replay, "w") as f:
                json.dump([dict(clause=c, sig=s, record=r) for c, s, r in bad[:50]], f, indent=1)
            groups = {}
            for c, s, r in bad:
                groups[(c, s)] = groups.get((c, s), 0) + 1
            for (c, s), n in sorted(groups.items(), key=lambda x: -x[1])[:12]:
                print("  broken clause %-28s %-32s %d observation(s)" % (c, s, n))
        wall = time.time() - self.t0
        doc = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level,
                   coverage=dict(states=self.states, transitions=self.transitions,
                                 traces_validated_against_impl=self.traces,
                                 distinct_nontrivial=len(self.distinct), kinds=len(self.classes),
                                 rule=rule, samples=self.samples[:6], exhaustive=False),
                   assumptions=list(assumptions) + self.assumptions, wall_s=round(wall, 2),
                   violations=len(bad), stages=self.stages, classes=self.classes,
                   known_findings=[k[2] for k in sorted(shown)])
        with open(os.path.join(ev, "%s.json" % self.pid), "w") as f:
            json.dump(doc, f, indent=1)
        print("%s %s: %d spec states, %d observations of the real code judged, %d kinds, %d broken, %.1fs" % (
            self.pid, self.tier, self.states, self.traces, len(self.classes), len(bad), wall))
        if bad:
            print("VIOLATION property=%s replay=%s" % (self.pid, replay))
            return 1
        return 0

    def close(self):
        shutil.rmtree(self.tmp, ignore_errors=True)
