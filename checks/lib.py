"""Shared machinery: compile drivers against /repo, record traces, check them with TLC."""
import json, os, re, subprocess, sys, time, random, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DRV = os.path.join(VERIF, "drivers")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CXX = ["g++", "-std=gnu++14", "-O0", "-w", "-ftrivial-auto-var-init=pattern", "-DBOOST_ALL_NO_LIB=1",
       "-I" + os.path.join(REPO, "include"), "-I" + DRV]

class Died(Exception):
    """The code under test ended a driver outside any scenario."""

class CheckError(Exception):
    """The check itself could not do its work (neither held nor violated)."""

class Rejection:
    def __init__(self, spec, scen, event, why, tail):
        self.spec, self.scen, self.event, self.why, self.tail = spec, scen, event, why, tail

class Check:
    def __init__(self, pid):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.thorough = self.tier == "thorough"
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random(self.seed * 7919 + int(hashlib.sha1(pid.encode()).hexdigest()[:6], 16))
        self.dir = os.path.join(VERIF, "build", pid)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.models, self.notes = [], [], []
        self.assumptions = []
        self.rejections, self.missing, self.died = [], [], []
        self.tlc_no = 0

    # -- building and running the real code ---------------------------------
    def compile(self, jobs):
        """jobs: {exe name: (source, [extra flags])}; all compiled in parallel."""
        def one(item):
            name, (src, flags) = item
            exe = os.path.join(self.dir, name)
            srcp = src if os.path.isabs(src) else os.path.join(DRV, src)
            cmd = CXX + list(flags) + [srcp, "-o", exe] + [f for f in flags if f.startswith("-l")]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=800)
            if r.returncode:
                errs = [l for l in r.stdout.splitlines() if "error" in l][:8]
                raise CheckError("driver %s does not compile:\n%s" % (name, "\n".join(errs) or r.stdout[-2000:]))
            return name, exe
        with ThreadPoolExecutor(8) as ex:
            return dict(ex.map(one, jobs.items()))

    def run(self, exe, *args, timeout=600, env=None, wrapper=(), again=False):
        # threads that wait must not spin: a loaded machine would starve the ones that work
        # and memory nobody has written holds garbage
        e = dict(os.environ, OMP_WAIT_POLICY="passive", GOMP_SPINCOUNT="0", MALLOC_PERTURB_="85"); e.update(env or {})
        try:
            r = subprocess.run(list(wrapper) + [exe] + [str(a) for a in args], stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=self.dir, text=True)
        except subprocess.TimeoutExpired:
            raise CheckError("driver %s timed out" % exe)
        if r.returncode == 77 and not wrapper:
            if again: raise Died(" ".join([exe] + [str(a) for a in args]))
            return self.run(exe, *args, timeout=timeout, env=env, again=True)
        if r.returncode:
            raise CheckError("driver %s exit %d: %s" % (exe, r.returncode, r.stdout[-2000:]))
        return r.stdout

    # -- TLC -----------------------------------------------------------------
    def tlc(self, spec, cfg=None, env=None, workers=8, timeout=800, heap="8g", args=(), consts=None):
        self.tlc_no += 1
        cfgp = os.path.join(SPEC, (cfg or spec) + ".cfg")
        if consts:
            # same configuration with other constants (tier-dependent bounds)
            txt = open(cfgp).read()
            for k, v in consts.items():
                txt, n = re.subn(r"\b%s\s*=\s*[^\s]+" % k, "%s = %s" % (k, v), txt)
                if n != 1: raise CheckError("constant %s in %s" % (k, cfgp))
            cfgp = os.path.join(self.dir, "%s-%d.cfg" % (cfg or spec, self.tlc_no))
            open(cfgp, "w").write(txt)
        md = os.path.join(self.dir, "md%d" % self.tlc_no)
        e = dict(os.environ); e.update(env or {})
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss16m", "-cp", JAR, "tlc2.TLC", "-workers", str(workers),
               "-metadir", md, "-noGenerateSpecTE", "-cleanup", "-config", cfgp] + list(args) + \
              [os.path.join(SPEC, spec + ".tla")]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                               timeout=timeout, env=e, cwd=self.dir)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on " + spec)
        shutil.rmtree(md, ignore_errors=True)
        out = r.stdout
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out.replace(",", "")
                      .replace("states generated ", "states generated, ").replace("found ", "found, "))
        gen = dist = 0
        m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            gen, dist = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
        ok = "Model checking completed. No error has been found." in out
        return ok, gen, dist, out

    def model(self, spec, cfg=None, **kw):
        """Exhaustive model checking of a specification on its own."""
        ok, gen, dist, out = self.tlc(spec, cfg, **kw)
        if not ok:
            raise CheckError("model %s fails:\n%s" % (spec, out[-3000:]))
        self.states += dist; self.transitions += gen
        self.models.append(dict(spec=cfg or spec, distinct_states=dist, states_generated=gen))
        return out

    def generate(self, spec, out, cfg=None, **kw):
        ok, gen, dist, txt = self.tlc(spec, cfg, env={"OUT": out}, workers=1, **kw)
        if not ok or not os.path.exists(out):
            raise CheckError("generator %s fails:\n%s" % (spec, txt[-3000:]))
        return json.load(open(out))

    def _validate_once(self, spec, path, nlines, cfg=None, **kw):
        ok, gen, dist, out = self.tlc(spec, cfg, env={"TRACE": path}, **kw)
        if ok:
            return None, gen, dist
        ss = re.findall(r"^/\\ scen = (\d+)", out, re.M)
        ii = re.findall(r"^/\\ pos = (\d+)", out, re.M)
        why = (re.findall(r"^Error: (.*)$", out, re.M) or ["?"])[0]
        if not ss:
            raise CheckError("trace spec %s fails:\n%s" % (spec, out[-3000:]))
        last = out[out.rfind("\nState "):][:3000]
        return (int(ss[-1]), int(ii[-1]), why, last), gen, dist

    def validate(self, spec, path, cfg=None, rerun=None, max_rej=int(os.environ.get('VERIF_MAXREJ','3')), what=None, expect=(), **kw):
        """Every scenario (line) of the recorded trace must be a behaviour of the specification."""
        lines = [l for l in open(path) if l.strip()]
        if not lines:
            if self.rejections: self.missing.append("empty trace " + path); return False
            raise CheckError("empty trace " + path)
        nev = sum(l.count('["') for l in lines)
        known = [k for k in self.known() if k.get("spec") == spec]
        live = []
        for l in lines:
            hit = [k for k in known if k["match"] in l]
            if hit: self.notes.append(hit[0])
            else: live.append(l)
        cur, rej = list(live), []
        while True:
            p = path + ".cur" if rej else path
            if rej or len(live) != len(lines):
                p = path + ".cur"
                open(p, "w").writelines(cur)
            r, gen, dist = self._validate_once(spec, p, len(cur), cfg, **kw)
            if r is None:
                break
            s, i, why, last = r
            bad = cur[s-1]
            # confirm: the recording repeats and is rejected on its own
            if rerun is not None:
                again = rerun()
                if bad not in [l for l in open(again)]:
                    # not the same twice (uninitialised memory, say): the second recording has to be rejected as well
                    new = [l for l in open(again) if l.strip() and not any(k["match"] in l for k in known)]
                    open(path + ".cur", "w").writelines(new)
                    r, gen, dist = self._validate_once(spec, path + ".cur", len(new), cfg, **kw)
                    if r is None: raise CheckError("unstable recording in %s" % spec)
                    rej.append(Rejection(spec, bad, i, why, last)); break
            one = os.path.join(self.dir, "one.ndjson")
            open(one, "w").write(bad)
            r2, _, _ = self._validate_once(spec, one, 1, cfg, **kw)
            if r2 is None:
                raise CheckError("rejection in %s not repeatable" % spec)
            rej.append(Rejection(spec, bad, i, why, last))
            cur.pop(s-1)
            if len(rej) >= max_rej or not cur:
                break
        self.states += dist; self.transitions += gen
        self.traces += len(lines); self.events += nev
        if dist < len(cur):
            raise CheckError("trace spec %s explored %d states for %d scenarios" % (spec, dist, len(cur)))
        self.rejections += rej
        kinds = {}
        for l in lines:
            for k in re.findall(r'\["([A-Za-z_0-9]+)"', l): kinds[k] = kinds.get(k, 0) + 1
        for k in expect:
            if not any(k in l for l in lines): self.missing.append("nothing recorded for %s in %s" % (k, spec))
        for l in self.rng.sample(live, min(2, len(live))):
            self.samples.append(dict(spec=cfg or spec, scenario=l.strip()[:1500]))
        self.models.append(dict(spec=cfg or spec, scenarios=len(lines), events=nev, distinct_states=dist, what=what or "", kinds=kinds))
        return not rej

    def known(self):
        p = os.path.join(VERIF, "known-findings.json")
        if not os.path.exists(p): return []
        return [k for k in json.load(open(p))["findings"] if k["property"] == self.pid]

    # -- verdict ---------------------------------------------------------------
    def finish(self, level="model_checking"):
        for cmd in self.died:
            self.rejections.append(Rejection("driver", cmd, 0, "the code under test ended the driver (crash or endless loop), twice", cmd))
        if self.missing and not self.rejections: raise CheckError("; ".join(self.missing))
        seen = set()
        for k in self.notes:
            if k["what"] not in seen:
                seen.add(k["what"])
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=level,
                  coverage=dict(states=self.states, transitions=self.transitions,
                                traces_validated_against_impl=self.traces,
                                events_validated=self.events,
                                runs=self.models, samples=self.samples[:8]),
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 1),
                  violations=len(self.rejections))
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w"), indent=1)
        code = 0
        for n, r in enumerate(self.rejections):
            rp = os.path.join("evidence", "replay", "%s-%d.txt" % (self.pid, n))
            with open(os.path.join(VERIF, rp), "w") as f:
                f.write("specification: %s\nrejected at event: %s\nreason: %s\n\nscenario:\n%s\n\nlast accepted state:\n%s\n"
                        % (r.spec, r.event, r.why, r.scen, r.tail))
            print("VIOLATION property=%s replay=%s" % (self.pid, os.path.join(VERIF, rp)))
            try:
                sc = json.loads(r.scen); e = sc["ev"]
                print("  %s rejects event %d %s of scenario %s" % (r.spec, r.event, json.dumps(e[r.event-1]) if r.event <= len(e) else "(end)",
                                                                    json.dumps(sc["cfg"])[:400]))
            except Exception as x:
                print("  ", r.why)
            code = 1
        if code == 0:
            if not os.environ.get("VERIF_KEEP"): shutil.rmtree(self.dir, ignore_errors=True)
            print("OK %s: %d scenarios, %d events, %d states, %.1fs" % (self.pid, self.traces, self.events, self.states, time.time() - self.t0))
        return code
