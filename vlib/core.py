"""Machinery shared by all checks: build the driver from /repo, run TLC to
generate behaviours, run them against the real code, and let TLC judge the
recorded observations."""
import concurrent.futures as cf
import json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
GOENV = dict(HOME=os.environ.get("HOME", "/root"),
             PATH="/opt/veriftools/go1.27.3/bin:" + os.environ.get("PATH", "/usr/local/bin:/usr/bin:/bin"),
             GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", CGO_ENABLED="1",
             GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod",
             GOCACHE=os.environ.get("GOCACHE", "/root/.cache/go-build"))
CPUS = min(8, os.cpu_count() or 8)


class Raw(str):
    """A TLA+ expression as the value of a constant."""


class Infra(Exception):
    """The check itself could not run (never a verdict)."""


ANTLR = "github.com/antlr4-go/antlr/v4."


def races(stderr):
    """The data races reported, without the known finding: races within the ANTLR runtime's shared
    prediction cache (both accesses are made by its ATN simulator on cached configurations)."""
    out = []
    for rep in stderr.decode("utf8", "replace").split("WARNING: DATA RACE")[1:]:
        tops = []
        for m in re.finditer(r"(?:Read|Write|read|write) at .*\n((?:  .*\n)+)", rep):
            fns = [f.strip() for f in re.findall(r"^  (\S.*?)\(\)$", m.group(1), re.M)]
            tops.append(next((f for f in fns if not f.startswith("runtime.")), ""))
        if os.environ.get("VERIF_RACES"):
            with open(os.environ["VERIF_RACES"], "a") as f:
                f.write(" | ".join(tops) + "\n")
        if len(tops) >= 2 and all(t.startswith(ANTLR + "(*ATNConfig).") for t in tops):
            continue
        out.append("DATA RACE" + rep)
    return out


class Run:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        base = os.path.join(VERIF, ".work")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=f"{prop}-{tier}-", dir=base)
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes = [], []
        self.bad = []          # (vector, observation, reason)
        self.known = []
        self.cov = {}
        self.assumptions = []
        self.driver = {}
        self.log = os.environ.get("VERIF_VERBOSE")

    @property
    def thorough(self):
        return self.tier == "thorough"

    def say(self, *a):
        if self.log:
            print(f"[{time.time()-self.t0:6.1f}s]", *a, file=sys.stderr, flush=True)

    def path(self, name):
        return os.path.join(self.dir, name)

    # ------------------------------------------------------------------ build
    def build(self, race=False):
        if race in self.driver:
            return self.driver[race]
        d = self.path("drv")
        if not os.path.isdir(d):
            os.makedirs(d)
            for f in os.listdir(os.path.join(VERIF, "harness")):
                if f.endswith(".go"):
                    shutil.copy(os.path.join(VERIF, "harness", f), d)
            req = open(os.path.join(REPO, "go.mod")).read()
            req = req[req.index("require"):] if "require" in req else ""
            head = open(os.path.join(VERIF, "harness", "go.mod.in")).read().replace("=> /repo", "=> " + REPO)
            open(os.path.join(d, "go.mod"), "w").write(head + req)
            shutil.copy(os.path.join(REPO, "go.sum"), d)
        out = self.path("vdrive" + ("-race" if race else ""))
        cmd = ["go", "build"] + (["-race"] if race else []) + ["-o", out, "."]
        r = subprocess.run(cmd, cwd=d, env=dict(os.environ, **GOENV), capture_output=True, text=True)
        if r.returncode != 0:
            raise Infra("the driver does not build:\n" + r.stderr[-3000:])
        self.driver[race] = out
        self.say("built", out)
        return out

    # -------------------------------------------------------------------- TLC
    def tlc(self, module, consts, spec="Spec", invs=(), props=(), post=None, view=None, constraint=None,
            args=(), workers=CPUS, env=None, count=True, timeout=840, deadlock=False, extra=""):
        """Run TLC on a module of spec/; returns (stdout, vectors)."""
        args = list(args)
        if "-simulate" in args and workers > 1:
            # the workers of one TLC share the seed of RandomElement: simulate in processes with seeds of their own
            def one(k):
                a = list(args)
                a[a.index("-seed") + 1] = str(self.seed * 1000 + k)
                return self.tlc(module, consts, spec, invs, props, post, view, constraint, a, 1, env, count, timeout, deadlock, extra)
            with cf.ThreadPoolExecutor(workers) as ex:
                rs = list(ex.map(one, range(workers)))
            return "\n".join(o for o, _ in rs), [v for _, vs in rs for v in vs]
        d = tempfile.mkdtemp(prefix="tlc-", dir=self.dir)
        for f in os.listdir(os.path.join(VERIF, "spec")):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(VERIF, "spec", f), d)
        raw = {k: v for k, v in (consts or {}).items() if isinstance(v, Raw)}
        if raw:
            with open(os.path.join(d, "MC.tla"), "w") as f:
                f.write(f"---- MODULE MC ----\nEXTENDS {module}\n" + "".join(f"CC_{k} == {v}\n" for k, v in raw.items()) + "====\n")
        with open(os.path.join(d, "x.cfg"), "w") as f:
            f.write(f"SPECIFICATION {spec}\n")
            if consts:
                f.write("CONSTANTS\n")
                for k, v in consts.items():
                    f.write(f"  {k} <- CC_{k}\n" if k in raw else f"  {k} = {tla(v)}\n")
            for i in invs:
                f.write(f"INVARIANT {i}\n")
            for i in props:
                f.write(f"PROPERTY {i}\n")
            if post:
                f.write(f"POSTCONDITION {post}\n")
            if view:
                f.write(f"VIEW {view}\n")
            if constraint:
                f.write(f"CONSTRAINT {constraint}\n")
            f.write(f"CHECK_DEADLOCK {'TRUE' if deadlock else 'FALSE'}\n{extra}")
        cmd = ["tlc", "-noGenerateSpecTE", "-metadir", os.path.join(d, "meta"), "-config", "x.cfg",
               "-workers", str(workers)] + list(args) + [("MC" if raw else module) + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        # quiet JVMs: validation shards run side by side
        e.setdefault("JAVA_TOOL_OPTIONS", "-Xmx3g -Xss64m -XX:ParallelGCThreads=2" if workers == 1 else "-Xmx8g -Xss64m")
        try:
            r = subprocess.run(cmd, cwd=d, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise Infra(f"TLC timed out on {module}")
        out = r.stdout
        vecs = [json.loads(json.loads(l)[4:]) for l in out.split("\n") if l.startswith('"VEC ')]
        sim = "-simulate" in args
        if r.returncode != 0 or "Error:" in out or "is violated" in out or "was not true" in out:
            errs = "\n".join(l for l in out.splitlines() if not l.startswith('"VEC ') and not l.startswith('"BAD '))
            raise Infra(f"TLC failed on {module} (rc {r.returncode}):\n" + errs[max(0, errs.find("Error:")):][:3000] + r.stderr[-500:])
        if count:
            m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
            if m:
                self.transitions += int(m.group(1))
                self.states += int(m.group(2))
            elif sim:
                m = re.findall(r"(\d+) states checked", out)
                if m:
                    self.transitions += int(m[-1])
                    self.states += int(m[-1])
        shutil.rmtree(d, ignore_errors=True)
        self.say("tlc", module, "vectors", len(vecs))
        return out, vecs

    # ------------------------------------------------------------------ drive
    def drive(self, mode, vecs, shards=CPUS, race=False, timeout=800, seed=None, per_shard_env=None):
        """Run vectors through the real code; returns the observations, in the order of the vectors."""
        exe = self.build(race)
        seed = self.seed if seed is None else seed
        if os.environ.get("VERIF_DUMP"):  # for mutation campaigns (tools/campaign.py)
            self.dumped = getattr(self, "dumped", 0) + 1
            with open(os.path.join(os.environ["VERIF_DUMP"], f"{self.prop}-{self.dumped}-{mode}{'-race' if race else ''}.ndjson"), "w") as f:
                f.writelines(json.dumps(v) + "\n" for v in vecs)
        parts = [p for p in (vecs[i::shards] for i in range(shards)) if p]

        def one(part):
            inp = "".join(json.dumps(v) + "\n" for v in part)
            e = dict(os.environ)
            if race:
                e["GORACE"] = "halt_on_error=0 exitcode=0"
            try:
                r = subprocess.run([exe, mode, str(seed)], input=inp.encode(), capture_output=True, timeout=timeout, env=e)
            except subprocess.TimeoutExpired:
                return part, None, "timeout", b""
            rc = r.returncode
            if rc == 0 and race and races(r.stderr):
                rc = 66
            return part, r.stdout, rc, r.stderr
        obs = {}
        with cf.ThreadPoolExecutor(CPUS) as ex:
            for part, out, rc, err in ex.map(one, parts):
                if rc != 0:
                    dead = self.isolate(exe, mode, part, seed, race)
                    if dead is None:
                        text = err.decode("utf8", "replace")
                        if race and races(err):
                            dead = (part[0], "crash: " + races(err)[0][:3000], {})
                        elif "concurrent map" in text:
                            dead = (part[0], "crash: " + text[-3000:], {})
                        else:
                            raise Infra(f"driver mode {mode} ended with {rc}:\n" + text[-3000:])
                    v, why, o = dead
                    self.fail(v, o, why)
                    continue
                for l in out.splitlines():
                    o = json.loads(l)
                    obs[o["id"]] = o
        self.say("drove", len(vecs), mode)
        return [obs[v["id"]] for v in vecs if v["id"] in obs]

    def isolate(self, exe, mode, part, seed, race):
        """Find one vector that kills or hangs the real code (a fatal error or an endless loop)."""
        e = dict(os.environ)
        if race:
            e["GORACE"] = "halt_on_error=0 exitcode=0"

        def dies(vs):
            inp = "".join(json.dumps(v) + "\n" for v in vs)
            try:
                r = subprocess.run([exe, mode, str(seed)], input=inp.encode(), capture_output=True, timeout=60 if len(vs) > 1 else 20, env=e)
            except subprocess.TimeoutExpired:
                return "hang"
            t = r.stderr.decode("utf8", "replace")
            if r.returncode == 3:
                return None
            if r.returncode:
                m = re.search(r"(fatal error:.*|panic:.*)", t)
                return "crash: " + (m.group(1)[:2000] if m else t[-500:])
            if race and races(r.stderr):
                return "crash: " + races(r.stderr)[0][:3000]
            return None
        why = dies(part)
        if why is None:
            return None
        while len(part) > 1:
            h = len(part) // 2
            w = dies(part[:h])
            if w:
                part, why = part[:h], w
                continue
            w = dies(part[h:])
            if w:
                part, why = part[h:], w
                continue
            break
        return part[0], why, {"_error": why}

    # --------------------------------------------------------------- validate
    def validate(self, module, consts, obs, vecs, shards=CPUS, post="Complete", spec="Spec", invs=(), timeout=800):
        """Let TLC judge observations; a BAD line names the record and the reason."""
        if not obs:
            return
        byid = {v["id"]: v for v in vecs}
        oid = {o["id"]: o for o in obs}
        n = max(1, min(shards, (len(obs) + 199) // 200))
        parts = [obs[i::n] for i in range(n)]

        def one(a):
            i, part = a
            p = self.path(f"trace-{module}-{i}-{time.time_ns()}.ndjson")
            with open(p, "w") as f:
                for o in part:
                    f.write(json.dumps({k: v for k, v in o.items() if k[0] != "_"}) + "\n")
            out, _ = self.tlc(module, consts, spec=spec, invs=invs, post=post, workers=1, env={"TRACE": p}, count=False, timeout=timeout)
            os.unlink(p)
            if post is None and f'"END {len(part)}"' not in out:
                raise Infra(f"{module} did not judge every record")
            return out
        with cf.ThreadPoolExecutor(CPUS) as ex:
            for out in ex.map(one, enumerate(parts)):
                for l in out.split("\n"):
                    if l.startswith('"BAD '):
                        w = l.strip().strip('"').replace('\\"', '"').split(" ", 2)
                        i = int(w[1])
                        self.fail(byid[i], oid[i], w[2] if len(w) > 2 else "")
        self.traces += len(obs)
        self.say("validated", len(obs), module)

    # ---------------------------------------------------------------- results
    def fail(self, vec, obs, why):
        if vec.get("known"):
            self.known.append(vec["known"])
        else:
            self.bad.append((vec, obs, why))

    def finish(self, level, module_info, mode):
        for k in dict.fromkeys(self.known):
            print(f"KNOWN-FINDING: property={self.prop} {k}")
        viol = 0
        if self.bad:
            viol = 1
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            rp = os.path.join(VERIF, "replays", f"{self.prop}-{self.tier}-{self.seed}.json")
            with open(rp, "w") as f:
                json.dump({"property": self.prop, "mode": mode, "seed": self.seed, "count": len(self.bad),
                           "violations": [{"vector": v, "observed": o, "reason": w} for v, o, w in self.bad[:20]]},
                          f, indent=1, ensure_ascii=False)
            for v, o, w in self.bad[:5]:
                print("  " + str(w)[:600])
                if isinstance(o, dict) and o.get("_text") is not None:
                    print("    input: " + repr(o["_text"])[:600])
            print(f"VIOLATION property={self.prop} replay={rp}")
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples[:6] or ["none"]}
        cov.update(self.cov)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump({"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
                       "assumptions": self.assumptions, "violations": viol, "wall_s": round(time.time() - self.t0, 2)},
                      f, indent=1, ensure_ascii=False)
        return 1 if viol else 0

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted((tla(x) for x in v))) + "}"
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"') + '"'
    return str(v)


def number(vecs, start=0):
    for i, v in enumerate(vecs):
        v["id"] = start + i
    return vecs


def known_vectors(prop):
    """Vectors of the recorded (not repaired) findings of a property."""
    p = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))["findings"] if f["property"] == prop]


def sample(vecs, n, seed):
    if len(vecs) <= n:
        return vecs
    return random.Random(seed).sample(vecs, n)
