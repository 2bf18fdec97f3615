"""Machinery shared by the checks: running TLC, driving the real code, validating traces, evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time, threading, random, hashlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(HERE, "spec")
PYPY = "/opt/venv/bin/python"
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = os.cpu_count() or 4


class Machinery(Exception):
    """The check itself is broken (not the code under test)."""


class Tlc(object):
    def __init__(self, text, rc, wall):
        self.text, self.rc, self.wall = text, rc, wall
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", text)
        self.generated = int(m[-1][0].replace(",", "")) if m else 0
        self.distinct = int(m[-1][1].replace(",", "")) if m else 0
        m = re.search(r"depth of the complete state graph search is (\d+)", text)
        self.depth = int(m.group(1)) if m else 0
        m = re.findall(r"The number of states generated: ([\d,]+)", text)   # simulation
        if m and not self.generated:
            self.generated = int(m[-1].replace(",", ""))

    @property
    def ok(self):
        return self.rc == 0


def tlc(module, cfg=None, cfg_text=None, env=None, workers=1, args=(), timeout=600, heap="2g", scratch=None):
    """Runs TLC on /verif/spec/<module>.tla."""
    own = scratch is None
    scratch = scratch or tempfile.mkdtemp(prefix="verif-tlc-")
    try:
        meta = tempfile.mkdtemp(prefix="meta", dir=scratch)
        if cfg_text is not None:
            cfg = os.path.join(meta, module + ".cfg")
            with open(cfg, "w") as f:
                f.write(cfg_text)
        elif cfg is None:
            cfg = os.path.join(SPEC, module + ".cfg")
        elif not os.path.isabs(cfg):
            cfg = os.path.join(SPEC, cfg)
        gc = ["-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4"] if workers == 1 else ["-XX:+UseParallelGC"]
        cmd = ["java"] + gc + ["-Xmx" + heap, "-Xss64m", "-cp", JAR, "tlc2.TLC", "-config", cfg, "-workers", str(workers),
                               "-metadir", meta, "-noTE"] + list(args) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        t = time.time()
        try:
            p = subprocess.run(cmd, env=e, cwd=meta, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Machinery("TLC on %s took more than %d s" % (module, timeout))
        return Tlc(p.stdout.decode("utf-8", "replace"), p.returncode, time.time() - t)
    finally:
        if own:
            shutil.rmtree(scratch, ignore_errors=True)


def driver_env(extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    e.update(PYTHONPATH=os.path.join(REPO, "src") + ":" + os.path.join(HERE, "driver"), PYTHONDONTWRITEBYTECODE="1",
             PYTHONHASHSEED="0", LANG="C.UTF-8", PYTHONWARNINGS="ignore", VERIF_REPO=REPO)
    e.update(extra or {})
    return e


def dump(path, items):
    with open(path, "w") as f:
        for x in items:
            f.write(json.dumps(x, separators=(",", ":")) + "\n")


def load(path):
    with open(path) as f:
        return [json.loads(line) for line in f if line.strip()]


def spent(pid):
    """The processor seconds a process of ours has used so far."""
    try:
        with open("/proc/%d/stat" % pid) as f:
            t = f.read().rsplit(")", 1)[1].split()
        return (int(t[11]) + int(t[12])) / float(os.sysconf("SC_CLK_TCK"))
    except (OSError, IndexError, ValueError):
        return 0.0


def drive(driver, cases, scratch, shards=None, timeout=700, case_timeout=20, extra_env=None):
    """Runs the driver over the cases (a list of JSON values), in parallel. Returns one list of events per case.
    A driver process that dies or hangs on a case yields the single event {"ev": "crash"} for it.  A hang is a case that
    uses case_timeout seconds of processor time (or blocks for six times that): a slow machine is no hang."""
    cases = list(cases)
    shards = max(1, min(shards or CORES, len(cases)))
    out = [None] * len(cases)
    deadline = time.time() + timeout

    def work(k):
        todo = list(range(k, len(cases), shards))
        n = 0
        crashes = 0
        while todo:
            n += 1
            src = os.path.join(scratch, "in-%s-%d-%d" % (driver, k, n))
            dst = os.path.join(scratch, "out-%s-%d-%d" % (driver, k, n))
            dump(src, [cases[i] for i in todo])
            open(dst, "w").close()
            p = subprocess.Popen([PYPY, "-B", os.path.join(HERE, "driver", "main.py"), driver, src, dst, str(case_timeout)],
                                 env=driver_env(extra_env), cwd=scratch, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            size, since, used = -1, time.time(), 0.0
            killer = None
            text = []
            th = threading.Thread(target=lambda: text.append(p.stdout.read()))
            th.start()
            while p.poll() is None:
                time.sleep(0.02)
                s = os.path.getsize(dst)
                if s != size:
                    size, since, used = s, time.time(), spent(p.pid)
                if killer is None and time.time() > deadline:
                    p.kill()
                    killer = "late"
                elif killer is None and time.time() - since > case_timeout + 20 and (
                        spent(p.pid) - used > case_timeout + 20 or time.time() - since > 8 * case_timeout):
                    p.kill()
                    killer = "hang"
            th.join()
            done = []
            with open(dst, "rb") as f:
                raw = f.read()
            for line in raw.split(b"\n")[:-1]:
                done.append(json.loads(line))
            for i, events in zip(todo, done):
                out[i] = events
            if p.returncode == 3:
                raise Machinery("driver %s failed: %s" % (driver, text[0].decode("utf-8", "replace")[-3000:]))
            todo = todo[len(done):]
            if todo and killer == "late" and not crashes:
                raise Machinery("driver %s is too slow: %d cases left" % (driver, len(todo)))
            if p.returncode == 0 and not todo:
                break
            if todo:
                crashes += 1
                out[todo[0]] = [{"ev": "crash", "why": killer or ("exit %s" % p.returncode),
                                 "text": text[0].decode("utf-8", "replace")[-1500:]}]
                todo = todo[1:]
                if crashes > 30 or (killer and crashes > 3) or time.time() > deadline:      # it dies on everything: that is established
                    for i in todo:
                        out[i] = []
                    break
    with ThreadPoolExecutor(shards) as ex:
        for r in [ex.submit(work, k) for k in range(shards)]:
            r.result()
    return out


REJ = re.compile(r'<<\s*"REJECT",\s*(\d+),\s*\{([^}]*)\}\s*>>', re.S)


def _one_trace(module, path, n, scratch, env, timeout, start=1):
    """Validates the trace in path; returns (rejections {line: [clauses]}, states generated)."""
    rejects, states = {}, 0
    while True:
        e = {"TRACE": path, "START": str(start)}
        e.update(env or {})
        r = tlc(module, cfg="Trace.cfg", env=e, timeout=timeout, scratch=scratch, heap="3g")
        states += r.generated
        for m in REJ.finditer(r.text):
            rejects[int(m.group(1))] = re.findall(r'"([^"]*)"', m.group(2))
        if r.ok and "Model checking completed" in r.text:
            return rejects, states
        # the specification could not make sense of a value: find the line it stopped at
        m = re.findall(r"/\\ l = (\d+)", r.text)
        if not m and "Parsing" in r.text:
            raise Machinery("TLC on %s: %s" % (module, r.text[-3000:]))
        at = int(m[-1]) if m else start
        if os.environ.get("VERIF_DEBUG"):
            sys.stderr.write(r.text[-4000:])
        if "Postcondition" in r.text or at > n:
            raise Machinery("TLC on %s stopped at %d of %d: %s" % (module, at, n, r.text[-3000:]))
        rejects[at] = ["unintelligible"]
        if len([1 for v in rejects.values() if v == ["unintelligible"]]) > 25:
            return rejects, states
        start = at + 1
        if start > n:
            return rejects, states


def validate(module, groups, scratch, shards=None, env=None, timeout=800):
    """Checks groups of events (each group: one case's events) against the trace specification.
    Returns ([(group index, event index, clauses)], states, events)."""
    groups = list(groups)
    total = sum(len(g) for g in groups)
    if not total:
        return [], 0, 0
    shards = max(1, min(shards or CORES, len(groups), (total + 199) // 200))
    bins = [[] for _ in range(shards)]
    weight = [0] * shards
    for i in sorted(range(len(groups)), key=lambda i: -len(groups[i])):
        k = weight.index(min(weight))
        bins[k].append(i)
        weight[k] += len(groups[i]) + 1

    def work(k):
        idx, lines = [], []
        for i in sorted(bins[k]):
            for j, e in enumerate(groups[i]):
                idx.append((i, j))
                lines.append(e)
        path = os.path.join(scratch, "trace-%s-%d.ndjson" % (module, k))
        dump(path, lines)
        rej, st = _one_trace(module, path, len(lines), scratch, env, timeout)
        return [(idx[l - 1][0], idx[l - 1][1], c) for l, c in sorted(rej.items())], st
    rejects, states = [], 0
    with ThreadPoolExecutor(shards) as ex:
        for r in [ex.submit(work, k) for k in range(shards)]:
            a, b = r.result()
            rejects += a
            states += b
    return sorted(rejects), states, total


class Run(object):
    """One run of one check."""
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.rng = random.Random("%s/%s" % (seed, pid))
        self.t0 = time.time()
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
        self.states = self.transitions = self.traces = self.events = 0
        self.models, self.samples, self.assumptions, self.extra = [], [], [], {}
        self.violations = []
        self.known = []
        self.seen = set()

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    # -- the design -------------------------------------------------------------
    def model(self, module, cfg=None, cfg_text=None, args=(), workers=None, timeout=600, env=None, what=""):
        """Model checks a design; a design that violates its own properties is broken machinery."""
        r = tlc(module, cfg=cfg, cfg_text=cfg_text, workers=workers or max(1, CORES // 2), args=args, timeout=timeout, env=env,
                scratch=self.scratch, heap="6g")
        if not r.ok:
            raise Machinery("the model %s (%s) does not check:\n%s" % (module, cfg, r.text[-4000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({"module": module, "config": cfg or what or "inline", "distinct": r.distinct, "generated": r.generated,
                            "depth": r.depth, "wall_s": round(r.wall, 1)})
        return r

    def behaviours(self, module, cfg=None, cfg_text=None, num=200, depth=30, exhaustive=False, timeout=300, env=None, seed=None):
        """Behaviours of the specification, as the JSON it prints with the marker BEH."""
        args = [] if exhaustive else ["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(seed or (self.seed * 7919 + 17))]
        r = tlc(module, cfg=cfg, cfg_text=cfg_text, workers=1, args=args, timeout=timeout, env=env, scratch=self.scratch, heap="4g")
        if not r.ok:
            raise Machinery("no behaviours from %s:\n%s" % (module, r.text[-3000:]))
        out, seen = [], set()
        for m in re.finditer(r'<<"BEH", ("(?:[^"\\]|\\.)*")>>', r.text):
            s = json.loads(m.group(1))
            if s not in seen:
                seen.add(s)
                out.append(json.loads(s))
        if not out:
            raise Machinery("no behaviours from %s:\n%s" % (module, r.text[-3000:]))
        self.states += r.distinct
        self.transitions += r.generated
        self.models.append({"module": module, "config": cfg or "inline", "behaviours": len(out), "generated": r.generated,
                            "wall_s": round(r.wall, 1), "mode": "exhaustive" if exhaustive else "simulation"})
        return out

    # -- the code ----------------------------------------------------------------
    def conform(self, module, driver, cases, timeout=700, case_timeout=20, env=None, extra_env=None, shards=None):
        """Drives the real code over the cases and validates what it did against the trace specification."""
        cases = list(cases)
        for c in cases[:3]:
            if len(self.samples) < 6:
                self.samples.append(json.dumps(c)[:600])
        groups = drive(driver, cases, self.scratch, timeout=timeout, case_timeout=case_timeout, extra_env=extra_env)
        lines = [[e for e in g] for g in groups]
        for i, g in enumerate(lines):
            if g and g[0].get("ev") == "crash" and len(g) == 1:
                self.reject(module, driver, cases[i], g[0], ["driver died: " + g[0].get("why", "")])
                lines[i] = []
        rejects, states, events = validate(module, lines, self.scratch, env=env, shards=shards)
        self.states += states
        self.transitions += events
        self.events += events
        self.traces += len([g for g in lines if g])
        for i, j, clauses in rejects:
            self.reject(module, driver, cases[i], lines[i][j], clauses, lines[i] if len(lines[i]) < 400 else lines[i][max(0, j - 50):j + 1])
        return groups

    def reject(self, module, driver, case, event, clauses, trace=None):
        key = hashlib.sha1(json.dumps([module, driver, case, event.get("ev"), clauses], sort_keys=True).encode()).hexdigest()[:12]
        if key in self.seen:
            return
        self.seen.add(key)
        self.violations.append({"property": self.pid, "spec": module, "driver": driver, "case": case, "event": event,
                                "clauses": clauses, "trace": trace, "key": key})

    # -- the end -----------------------------------------------------------------
    def finish(self, level="model_checking"):
        known = known_findings()
        new = []
        for v in self.violations:
            hit = [k for k in known if k["property"] == self.pid and all(w in json.dumps(v["case"]) + " " + " ".join(v["clauses"])
                                                                         for w in k["match"])]
            if hit:
                self.known.append(hit[0])
            else:
                new.append(v)
        for k in {json.dumps(k): k for k in self.known}.values():
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["text"]))
        rdir = os.path.join(HERE, "replays", self.pid)
        shutil.rmtree(rdir, ignore_errors=True)
        for v in new[:25]:
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, v["key"] + ".json")
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("  %s: %s  (event %s)" % (v["spec"], ", ".join(v["clauses"]), json.dumps(v["event"])[:400]))
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
        if len(new) > 25:
            print("  ... and %d more" % (len(new) - 25))
        cov = {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples, "events_validated": self.events, "models": self.models}
        cov.update(self.extra)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "wall_s": round(time.time() - self.t0, 2), "violations": len(new), "assumptions": self.assumptions}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %d violations, %d traces (%d events) validated, %d states, %.1f s" % (
            self.pid, self.tier, len(new), self.traces, self.events, self.states, time.time() - self.t0))
        return 1 if new else 0


def known_findings():
    """Lines 'finding: property=<id> match=<json list of substrings> <text>' of KNOWN_FINDINGS.txt."""
    out = []
    path = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) match=(\[.*?\]) (.*)", line)
            if m:
                out.append({"property": m.group(1), "match": json.loads(m.group(2)), "text": m.group(3)})
    return out
