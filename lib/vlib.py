"""Common machinery of the checks: builds the harness from /repo's working
tree, lets TLC explore the specifications, generates test cases from them,
runs the real code and lets TLC validate the recorded traces."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = 8


class ToolError(Exception):
    pass


def goenv():
    e = dict(os.environ)
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_EXTRA="")
    e.setdefault("HOME", "/root")
    return e


def tail(out, n=2500):
    """The interesting part of TLC's output: from the first error on."""
    i = out.find("Error")
    return out[i:i + n] if i >= 0 else out[-n:]


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.work = tempfile.mkdtemp(prefix="vcheck-%s-" % prop)
        self.t0 = time.time()
        self.states = self.transitions = 0      # of the explored specifications
        self.tstates = 0                        # states of the trace specifications
        self.traces = 0
        self.cases = 0
        self.design = []
        self.fams = []
        self.samples = []
        self.viol = []                          # dicts: prop, case, family, reason ...
        self.other = []
        self.notes = []
        self.bins = {}

    def close(self):
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)

    # ---- building ------------------------------------------------------
    def harness(self, race=False):
        key = "race" if race else "plain"
        if key not in self.bins:
            out = os.path.join(self.work, "harness-" + key)
            cmd = ["go", "build", "-o", out] + (["-race"] if race else []) + ["."]
            r = subprocess.run(cmd, cwd=os.path.join(VERIF, "harness"), env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise ToolError("the harness does not build against /repo:\n" + tail(r.stdout))
            self.bins[key] = out
        return self.bins[key]

    def program(self):
        """The real program."""
        if "program" not in self.bins:
            out = os.path.join(self.work, "goslice")
            r = subprocess.run(["go", "build", "-o", out, "./cmd/goslice"], cwd=REPO, env=dict(goenv(), GOFLAGS="-mod=readonly"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise ToolError("the program does not build:\n" + tail(r.stdout))
            self.bins["program"] = out
        return self.bins["program"]

    # ---- TLC -----------------------------------------------------------
    def tlc(self, module, cfg, env=None, extra=(), workers=1, timeout=600, mem="2g", tag=None):
        tag = tag or module
        meta = tempfile.mkdtemp(prefix="tlc-", dir=self.work)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ["java", "-Djava.io.tmpdir=" + meta, "-Xmx" + mem, "-Xss32m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
               "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
               "-config", cfg] + list(extra) + [module + ".tla"]
        try:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise ToolError("TLC timed out on %s (%s)" % (module, cfg))
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return r.returncode, r.stdout

    @staticmethod
    def counts(out):
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            g, d = m[-1]
            return int(g.replace(",", "")), int(d.replace(",", ""))
        m = re.findall(r"The number of states generated: ([\d,]+)", out)
        if m:
            g = int(m[-1].replace(",", ""))
            return g, g
        return 0, 0

    def explore(self, module, cfg, workers=4, timeout=600, extra=(), env=None, mem="4g"):
        """Model checks a specification. A violation here is an error of the
        specification (never of the code), so it is a tool error."""
        t = time.time()
        rc, out = self.tlc(module, cfg, extra=extra, workers=workers, timeout=timeout, env=env, mem=mem)
        g, d = self.counts(out)
        if rc != 0:
            raise ToolError("TLC rejects the specification %s (%s), exit %d:\n%s" % (module, cfg, rc, tail(out)))
        if d == 0:
            raise ToolError("TLC explored no state of %s (%s):\n%s" % (module, cfg, out[-2000:]))
        self.states += d
        self.transitions += g
        self.design.append({"module": module, "config": cfg, "distinct_states": d, "states_generated": g, "wall_s": round(time.time() - t, 1)})
        return out

    def refute(self, module, cfg, timeout=300):
        """Model checks a specification with a mistake in it, which has to be found: its invariants are not void."""
        rc, out = self.tlc(module, cfg, timeout=timeout)
        if rc not in (12, 13):
            raise ToolError("TLC does not find the mistake in %s (%s), exit %d:\n%s" % (module, cfg, rc, tail(out)))
        self.design.append({"module": module, "config": cfg, "refuted": True})

    def gen_cases(self, module, cfg, path, prefix="CASE ", env=None, extra=(), timeout=300, limit=None, dedup=True):
        """Lets TLC print test cases as JSON. They come from the specification."""
        rc, out = self.tlc(module, cfg, env=env, extra=extra, timeout=timeout)
        cases = []
        seen = set()
        for line in out.splitlines():
            line = line.strip()
            if line.startswith('"') and line.endswith('"'):
                try:
                    line = json.loads(line)
                except ValueError:
                    continue
            if line.startswith(prefix):
                s = line[len(prefix):]
                if dedup:
                    if s in seen:
                        continue
                    seen.add(s)
                cases.append(s)
                if limit and len(cases) >= limit:
                    break
        if not cases or rc != 0:
            raise ToolError("TLC generated no cases from %s (%s), exit %d:\n%s" % (module, cfg, rc, tail(out)))
        g, d = self.counts(out)
        self.states += d
        self.transitions += g
        with open(path, "w") as f:
            for s in cases:
                json.loads(s)
                f.write(s + "\n")
        self.design.append({"module": module, "config": cfg, "cases_generated": len(cases), "distinct_states": d, "states_generated": g})
        return len(cases)

    # ---- running the code -----------------------------------------------
    def run_harness(self, fam, n=0, cases=None, chunks=CORES, limit=40, jobs=6, race=False, seed=None, tag="", timeout=700, extra=(), binary=False):
        exe = self.harness(race)
        out = os.path.join(self.work, "%s%s" % (fam, tag))
        tmp = out + ".tmp"
        os.makedirs(tmp, exist_ok=True)
        seed = self.seed if seed is None else seed
        base = [exe, fam, "-seed", str(seed), "-n", str(n), "-tier", self.tier, "-chunks", str(chunks), "-limit", str(limit), "-tmp", tmp] + list(extra)
        if cases:
            base += ["-cases", cases]
        skip, extra_files = [], []
        env = dict(os.environ)
        env["GOMEMLIMIT"] = "20GiB"
        if race:
            env["GORACE"] = "halt_on_error=1 exitcode=66"
        if binary:
            env["GOSLICE_BIN"] = self.program()
        for attempt in range(6):
            try:
                r = subprocess.run(base + ["-out", out, "-jobs", str(jobs), "-skip", ",".join(map(str, skip))], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=env)
                rc, err = r.returncode, r.stderr
            except subprocess.TimeoutExpired:
                raise ToolError("the harness timed out in family " + fam)
            if rc == 0:
                break
            if rc == 3:
                raise ToolError("harness: " + err[-3000:])
            # The process died (fatal error, out of memory, hang): find the case.
            begun, ended = [], set()
            try:
                for l in open(out + ".journal"):
                    k, i = l.split()
                    if k == "B":
                        begun.append(int(i))
                    elif k == "E":
                        ended.add(int(i))
            except OSError:
                raise ToolError("the harness died without a journal: " + err[-2000:])
            sus = [i for i in begun if i not in ended]
            confirmed = []
            for i in sus:
                o1 = out + ".only%d" % i
                try:
                    r1 = subprocess.run(base + ["-out", o1, "-jobs", "1", "-only", str(i)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=limit + 60, env=env)
                    rc1, err1 = r1.returncode, r1.stderr
                except subprocess.TimeoutExpired:
                    rc1, err1 = 99, "timeout"
                if rc1 == 0:
                    continue
                confirmed.append(i)
                skip.append(i)
                p = out + ".crash%d.ndjson" % i
                if rc1 == 4 and os.path.exists(o1 + ".0.ndjson"):
                    evs = []
                    for k in range(chunks):
                        evs += [l for l in open("%s.%d.ndjson" % (o1, k)) if l.strip()]
                    open(p, "w").write("".join(evs))
                else:
                    msg = "data race" if "DATA RACE" in err1 else "process died: " + (re.findall(r"(?m)^(?:fatal error|panic|runtime).*$", err1) or [err1[-300:]])[0][:300]
                    open(p, "w").write(json.dumps({"ev": "crash", "case": i, "msg": msg, "stack": err1[:1500]}) + "\n")
                extra_files.append(p)
            if not confirmed and sus and "DATA RACE" in err and "/repo/" in err:
                # it was seen once, that is enough
                p = out + ".crash%d.ndjson" % sus[0]
                i = err.index("DATA RACE")
                open(p, "w").write(json.dumps({"ev": "crash", "case": sus[0], "msg": "data race", "stack": err[i:i + 1500]}) + "\n")
                extra_files.append(p)
                break
            if not confirmed:
                raise ToolError("the harness died (exit %d) and no single case reproduces it: %s" % (rc, err[-2000:]))
            if len(skip) >= 3:
                # enough: what is known is reported, the rest is not needed
                break
        files = [] if rc != 0 else ["%s.%d.ndjson" % (out, k) for k in range(chunks)]
        files = [f for f in files if os.path.exists(f) and os.path.getsize(f) > 0] + extra_files
        shutil.rmtree(tmp, ignore_errors=True)
        return {"fam": fam, "files": files, "cmd": base, "seed": seed, "cases": cases, "n": n}

    # ---- validating traces ------------------------------------------------
    def validate(self, run, module, cfg=None, timeout=800, mem="3g", count=True, par=CORES, env=None):
        cfg = cfg or module + ".cfg"
        fam = run["fam"]

        def one(f):
            e = {"TRACE": f}
            e.update(env or {})
            return f, self.tlc(module, cfg, env=e, timeout=timeout, mem=mem)
        t = time.time()
        ncases, nlines, tst, errors = set(), 0, 0, []
        with ThreadPoolExecutor(par) as ex:
            results = list(ex.map(one, run["files"]))
        for f, (rc, out) in results:
            lines = open(f).read().splitlines()
            nlines += len(lines)
            for l in lines:
                m = re.search(r'"case":\s*(\d+)', l)
                ncases.add(int(m.group(1)))
            g, d = self.counts(out)
            tst += d
            for l in out.splitlines():
                l = l.strip()
                if l.startswith('"VIOL '):
                    v = json.loads(json.loads(l)[5:])
                    v["family"] = fam
                    v["file"] = f
                    v["run"] = {"seed": run["seed"], "n": run["n"], "fam": fam}
                    self.add_viol(v, run)
            # An error of the validation only matters if it hides something.
            if rc != 0:
                bad = "TLC could not validate %s with %s, exit %d:\n%s" % (os.path.basename(f), module, rc, tail(out))
            elif d < len(lines):
                bad = "TLC consumed %d of %d lines of %s (%s)" % (d, len(lines), os.path.basename(f), module)
            else:
                continue
            if self.viol:
                self.notes.append(bad[:500])
            else:
                errors.append(bad)
        if errors and not self.viol:
            raise ToolError(errors[0])
        if not ncases:
            raise ToolError("no case of family %s was validated" % fam)
        self.tstates += tst
        self.traces += len(ncases)
        self.cases += len(ncases)
        self.fams.append({"family": fam, "trace_spec": module, "cases": len(ncases), "events": nlines, "trace_states": tst, "wall_s": round(time.time() - t, 1)})
        return ncases

    def add_viol(self, v, run):
        if v["prop"] == "crash":
            v["prop"] = self.prop
        if v["prop"] != self.prop:
            self.other.append(v)
            return
        self.viol.append(v)

    def sample(self, s):
        if len(self.samples) < 8:
            self.samples.append(s)

    def sample_lines(self, run, k=2, maxlen=600):
        for f in run["files"][:k]:
            with open(f) as fh:
                l = fh.readline().strip()
                self.sample("%s: %s" % (run["fam"], l[:maxlen]))


def known_findings():
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r"known: property=(\S+) match=(\S+) (.*)$", l)
            if m:
                out.append({"prop": m.group(1), "match": m.group(2), "text": m.group(3)})
    return out


def finish(ctx, assumptions, level="model_checking"):
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    known = [k for k in known_findings() if k["prop"] == ctx.prop]
    fresh, seen_known = [], set()
    for v in ctx.viol:
        hit = None
        for k in known:
            if v.get("key", "") == k["match"]:
                hit = k
        if hit:
            seen_known.add(hit["match"])
        else:
            fresh.append(v)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (ctx.prop, k["text"]))
    groups = {}
    for v in fresh:
        groups.setdefault((v["family"], v["case"]), []).append(v)
    shown = 0
    for (fam, case), vs in list(groups.items()):
        if shown >= 5:
            break
        shown += 1
        p = os.path.join(VERIF, "evidence", "replay", "%s-%s-%s.json" % (ctx.prop, fam, case))
        trace = []
        try:
            for l in open(vs[0]["file"]):
                if re.search(r'"case":\s*%d[,}]' % case, l) and len(trace) < 400:
                    trace.append(l.strip()[:20000])
        except OSError:
            pass
        for v in vs:
            v.pop("file", None)
        json.dump({"property": ctx.prop, "family": fam, "case": case, "tier": ctx.tier, "seed": ctx.seed, "run": vs[0].get("run"),
                   "reproduce": "VERIF_SEED=%d VERIF_TIER=%s bin/check %s" % (ctx.seed, ctx.tier, ctx.prop),
                   "violations": vs[:20], "trace": trace}, open(p, "w"), indent=1)
        print("  %s case %s: %s" % (fam, case, json.dumps({k: vs[0][k] for k in vs[0] if k not in ("run", "family")})[:600]))
        print("VIOLATION property=%s replay=%s" % (ctx.prop, p))
    ev = {
        "property": ctx.prop, "tier": ctx.tier, "seed": ctx.seed, "level": level,
        "coverage": {
            "states": ctx.states, "transitions": ctx.transitions,
            "traces_validated_against_impl": ctx.traces,
            "trace_spec_states": ctx.tstates,
            "cases": ctx.cases,
            "design_models": ctx.design, "conformance": ctx.fams,
            "samples": ctx.samples or ["(none)"],
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - ctx.t0, 2),
        "violations": len(groups),
    }
    if ctx.notes:
        ev["coverage"]["notes"] = ctx.notes
    json.dump(ev, open(os.path.join(VERIF, "evidence", ctx.prop + ".json"), "w"), indent=1)
    print("%s %s: %d design states, %d traces validated, %d violating cases, %.1f s" % (ctx.prop, ctx.tier, ctx.states, ctx.traces, len(groups), time.time() - ctx.t0))
    return 1 if groups else 0
