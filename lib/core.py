"""Plumbing: building, running the driver and TLC, evidence, verdicts."""
import concurrent.futures, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
R = 21888242871839275222246405745257275088548364400416034343698204186575808495617

class Broken(Exception):
    """The check itself failed: an error exit, never a verdict."""

def log(*a): print(*a, file=sys.stderr, flush=True)

# -------------------------------------------------------------------- building
def goenv():
    e = dict(os.environ)
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:/usr/local/go/bin:" + e.get("PATH", "")
    e.update(GOTOOLCHAIN="local", GOPROXY="off", GO111MODULE="on", GOWORK="off", GOSUMDB="off",
             GOMODCACHE="/root/go/pkg/mod", GOCACHE=e.get("GOCACHE", "/root/.cache/go-build"), GONOSUMDB="*",
             GOFLAGS="-overlay=%s/overlay.json -mod=mod" % os.path.join(BUILD, "drv"))
    return e

def build(work, race=False):
    """Builds the driver from /repo's working tree into the work directory."""
    src = os.path.join(VERIF, "harness/drv")
    dst = os.path.join(BUILD, "drv")
    os.makedirs(dst, exist_ok=True)
    for f in glob.glob(src + "/*"):
        t = os.path.join(dst, os.path.basename(f))
        b = open(f, "rb").read()
        if not os.path.exists(t) or open(t, "rb").read() != b: open(t, "wb").write(b)
    ov = {"Replace": {REPO + "/go.mod": dst + "/repo_go.mod", REPO + "/go.sum": dst + "/repo_go.sum"}}
    open(dst + "/overlay.json", "w").write(json.dumps(ov))
    gm = open(src + "/go.mod").read().replace("/repo", REPO)
    open(dst + "/go.mod", "w").write(gm)
    out = os.path.join(work, "drv-race" if race else "drv")
    p = subprocess.run(["go", "build"] + (["-race"] if race else [])
                       + (["-cover", "-coverpkg=" + ",".join("github.com/mottla/go-AlgebraicProgram-SNARK/" + x for x in ("circuitcompiler", "utils", "pairing", "zkSNARK")) + ",verif/drv"] if os.environ.get("GOCOVERDIR") and not race else []) + ["-o", out, "."], cwd=dst, env=goenv(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise Broken("go build failed:\n" + p.stdout[-4000:])
    return out

def build_java():
    out = os.path.join(BUILD, "cls")
    srcs = sorted(glob.glob(os.path.join(VERIF, "harness/java/verif/*.java")))
    h = hashlib.sha256(b"".join(open(s, "rb").read() for s in srcs)).hexdigest()
    stamp = os.path.join(out, "stamp")
    if os.path.exists(stamp) and open(stamp).read() == h: return out
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    p = subprocess.run(["javac", "-cp", CP, "-d", out] + srcs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise Broken("javac failed:\n" + p.stdout)
    open(stamp, "w").write(h)
    return out

# ---------------------------------------------------------------------- driver
def drive(binary, reqs, mod="", timeout=20, jobs=8, fresh=False, env=None):
    """Hands the requests to the real code and returns its replies, in order."""
    if not reqs: return []
    inp = "".join(json.dumps(r) + "\n" for r in reqs)
    args = [binary, "pool", "-j", str(jobs), "-timeout", str(timeout)]
    if mod: args += ["-mod", str(mod)]
    if fresh: args += ["-fresh"]
    e = dict(os.environ)
    if env: e.update(env)
    p = subprocess.run(args, input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e)
    lines = p.stdout.decode().splitlines()
    if p.returncode or len(lines) != len(reqs):
        raise Broken("driver: exit %s, %d replies for %d requests\n%s" % (p.returncode, len(lines), len(reqs), p.stderr.decode()[-2000:]))
    out = []
    for l in lines:
        r = json.loads(l)
        r.setdefault("crash", "")
        r.setdefault("timeout", False)
        r.setdefault("err", "")
        if r["crash"].startswith("panic: driver:") or r["crash"].startswith("driver:"): raise Broken(r["crash"])
        out.append(r)
    return out

# ------------------------------------------------------------------------- TLC
def tlc(module, cfg, env=None, heap="3000m", workers="1", timeout=800, extra=(), work=None, stack="256m"):
    """Runs TLC; returns (ok, output).  ok is False if an invariant fails."""
    meta = tempfile.mkdtemp(prefix="tlc", dir=work)
    e = dict(os.environ)
    e.update({k: str(v) for k, v in (env or {}).items()})
    args = ["java", "-XX:+UseSerialGC", "-Xms256m", "-Xmx" + heap, "-Xss" + stack, "-XX:TieredStopAtLevel=4",
            "-DTLA-Library=" + SPEC, "-Djava.io.tmpdir=" + meta,
            "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:verif.VerifOverrides",
            "-cp", CP + ":" + os.path.join(BUILD, "cls"), "tlc2.TLC", "-metadir", meta, "-workers", str(workers),
            "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=meta)
    except subprocess.TimeoutExpired:
        raise Broken("TLC timed out on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout.decode(errors="replace")
    return p.returncode, out

STAT = re.compile(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found")
def stats(out):
    m = STAT.findall(out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)

def records(out):
    """The JSON objects printed by PrintT(ToJson(..))."""
    r = []
    for l in out.splitlines():
        if l.startswith('"{') and l.endswith('}"'):
            r.append(json.loads(json.loads(l)))
    return r

def validate(module, recs, work, env=None, jobs=8, cfg=None, weight=None, heap="3000m", timeout=800):
    """Has TLC judge the records.  Returns the per record lines and statistics."""
    if not recs: return [], dict(states=0, transitions=0)
    jobs = max(1, min(jobs, len(recs)))
    w = weight or (lambda r: 1)
    order = sorted(range(len(recs)), key=lambda i: -w(recs[i]))
    loads, parts = [0] * jobs, [[] for _ in range(jobs)]
    for i in order:
        k = loads.index(min(loads))
        loads[k] += w(recs[i]); parts[k].append(i)
    d = tempfile.mkdtemp(prefix="val", dir=work)
    def one(k):
        f = os.path.join(d, "t%d.ndjson" % k)
        with open(f, "w") as h:
            for i in sorted(parts[k]): h.write(json.dumps(recs[i]) + "\n")
        ev = dict(env or {}); ev["TRACE"] = f
        rc, out = tlc(module, cfg or module + ".cfg", ev, work=d, heap=heap, timeout=timeout)
        got = records(out)
        if rc != 0 or sum(1 for g in got if g.get("kind") == "rec") != len(parts[k]):
            keep = os.path.join(BUILD, "last-tlc-failure.txt")
            open(keep, "w").write(out)
            raise Broken("TLC failed on %s (exit %s, %d of %d records): %s" %
                         (module, rc, len(got), len(parts[k]), tail(out)))
        return got, stats(out)
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex: res = list(ex.map(one, range(jobs)))
    shutil.rmtree(d, ignore_errors=True)
    got = [g for r in res for g in r[0]]
    return got, dict(states=sum(r[1][1] for r in res), transitions=sum(r[1][0] for r in res))

def tail(out):
    k = out.find("Error:")
    if k >= 0: return out[k:k + 1500]
    ls = [l for l in out.splitlines() if l.strip() and not l.startswith(('"{', "Parsing", "Semantic", "Linting", "Progress"))]
    return "\n".join(ls[-25:])[:3000]

# ----------------------------------------------------------------------- cases
class Case:
    """One request to the real code and the record TLC judges it by.

    build(reply) makes the record; the record's id is set by the runner."""
    __slots__ = ("module", "req", "build", "mod", "weight", "nontrivial", "key", "sample", "timeout", "race", "tries")
    def __init__(s, module, req, build, mod="", weight=None, nontrivial=None, key=None, sample=None, timeout=20, race=False, tries=1):
        s.race, s.tries = race, tries
        s.module, s.req, s.build, s.mod, s.timeout = module, req, build, mod, timeout
        s.weight = weight or (lambda rec: 1)
        s.nontrivial = nontrivial or (lambda rec: True)
        s.key = key if key is not None else json.dumps(req, sort_keys=True)
        s.sample = sample if sample is not None else req

def groupby(xs, f):
    d = {}
    for x in xs: d.setdefault(f(x), []).append(x)
    return d

class Run:
    """One execution of one check."""
    def __init__(s, prop, tier, seed):
        s.prop, s.tier, s.seed = prop, tier, seed
        s.quick = tier == "quick"
        s.rng = random.Random("%s/%s" % (prop, seed))
        os.makedirs(BUILD, exist_ok=True)
        s.work = tempfile.mkdtemp(prefix="run-%s-" % prop, dir=BUILD)
        s.t0 = time.time()
        s.states = s.transitions = s.traces = s.evals = 0
        s.distinct = set()
        s.samples, s.bad, s.notes, s.rules = [], [], {}, []
        build_java()
        s._bin = {}
    def binary(s, race=False):
        if race not in s._bin: s._bin[race] = build(s.work, race)
        return s._bin[race]
    def left(s, limit):
        return limit - (time.time() - s.t0)
    def add(s, st): s.states += st["states"]; s.transitions += st["transitions"]
    def model(s, module, cfg=None, env=None, what="", workers="8", timeout=800, heap="8000m", expect_bad=False):
        """Model checks a specification; a failure here means the model itself is wrong."""
        rc, out = tlc(module, cfg or module + ".cfg", env, workers=workers, work=s.work, timeout=timeout, heap=heap)
        if rc != 0: raise Broken("model checking of %s failed:\n%s" % (module, tail(out)))
        g, d = stats(out)
        s.states += d; s.transitions += g
        s.notes.setdefault("models", []).append(dict(module=module, what=what, states=d, transitions=g))
        return out
    def judge(s, cases, tags, fresh=False, jobs=8):
        """Runs the cases; returns [(case, reasons, feature record)]."""
        res = []
        for (mod, race), cs in groupby(cases, lambda c: (c.mod, c.race)).items():
            reps = drive(s.binary(race), [c.req for c in cs], mod=mod, env=dict(GORACE="halt_on_error=1 exitcode=66"), timeout=max(c.timeout for c in cs) * (2 if fresh else 1), fresh=fresh, jobs=jobs)
            for module, prs in groupby(list(zip(cs, reps)), lambda x: x[0].module).items():
                recs = []
                for i, (c, r) in enumerate(prs):
                    rec = c.build(r)
                    rec["id"] = i
                    recs.append(rec)
                wt = {i: prs[i][0].weight(recs[i]) for i in range(len(recs))}
                got, st = validate(module, recs, s.work, env=dict(TAGS=tags), jobs=jobs, weight=lambda r: wt[r["id"]])
                s.add(st)
                for g in got:
                    c = prs[g["id"]][0]
                    res.append((c, [tuple(w) for w in g["why"]], g.get("ft", {}), recs[g["id"]], prs[g["id"]][1]))
        return res
    def cases(s, cases, tags, rule=""):
        """Judges the cases and confirms what looks bad in fresh processes."""
        if rule and rule not in s.rules: s.rules.append(rule)
        res = s.judge(cases, tags)
        ft = s.notes.setdefault("features", {})
        for c, why, f, rec, rep in res:
            s.evals += 1
            s.traces += 1
            if c.nontrivial(rec): s.distinct.add(hashlib.sha256((str(c.mod) + c.key).encode()).hexdigest()[:20])
            for k, v in f.items():
                if isinstance(v, (int, bool)): ft[k] = ft.get(k, 0) + int(v)
        s.samples += [c.sample for c in cases[:2]]
        bad = [(c, why, rep) for c, why, f, rec, rep in res if why]
        mach = [w for _, why, _ in bad for w in why if w[0] == "machinery"]
        if mach: raise Broken("machinery: %s" % (mach[0],))
        if not bad: return res
        bad = bad[:6]
        # what depends on the schedule gets several chances to show up again
        again = s.judge([c for c, _, _ in bad for _ in range(c.tries)], tags, fresh=True, jobs=4)
        confirmed = {id(c): why for c, why, *_ in again if why}
        n = 0
        for c, why, rep in bad:
            if id(c) in confirmed:
                s.bad.append((c, confirmed[id(c)], tags))
                n += 1
        if n == 0:
            # what depends on what the process did before shows only in company
            for _ in range(2):
                more = [x for x in s.judge(cases, tags) if x[1]]
                if more: break
            s.bad += [(c, why + [("history", "only in a process that did other things before")], tags) for c, why, *_ in more[:3]]
            n = len(more)
        if n == 0:
            # a reply the process gave is what the code did, whether or not it does it again
            seen = [(c, why + [("once", "seen once, not again")], tags) for c, why, rep in bad if not rep["timeout"] and not rep["crash"]]
            s.bad += seen[:3]
            n = len(seen)
        if n == 0: raise Broken("not reproducible in a fresh process: %s on %s" % (bad[0][1], json.dumps(bad[0][0].sample)[:2000]))
        return res
    def fail(s, case, why, tags=""): s.bad.append((case, why, tags))
    # ---- the end of a run
    def finish(s, level, assumptions=()):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = dict(states=s.states, transitions=s.transitions, traces_validated_against_impl=s.traces,
                   evaluations=s.evals, distinct_nontrivial=len(s.distinct), rule="; ".join(s.rules) or "see DESIGN.md",
                   samples=s.samples[:6], **s.notes)
        ev = dict(property=s.prop, tier=s.tier, seed=s.seed, level=level, coverage=cov, wall_s=round(time.time() - s.t0, 2),
                  assumptions=list(assumptions), violations=len(s.bad))
        known, new = [], []
        kf = known_findings()
        for c, why, tags in s.bad:
            k = next((x for x in kf if x["property"] == s.prop and x["match"] in json.dumps(c.sample)), None)
            (known if k else new).append((c, why, tags, k))
        for c, why, tags, k in known: print("KNOWN-FINDING: property=%s %s" % (s.prop, k["what"]))
        for n, (c, why, tags, _) in enumerate(new[:3]):
            d = os.path.join(VERIF, "replays")
            os.makedirs(d, exist_ok=True)
            f = os.path.join(d, "%s-%d.json" % (s.prop, n))
            with open(f, "w") as h:
                json.dump(dict(property=s.prop, tier=s.tier, seed=s.seed, reasons=why, tags=tags, module=c.module, mod=str(c.mod),
                               request=c.req, sample=c.sample), h, indent=1)
            log("reason:", why)
            log("case:", json.dumps(c.sample)[:1500])
            print("VIOLATION property=%s replay=%s" % (s.prop, f))
        with open(os.path.join(VERIF, "evidence", s.prop + ".json"), "w") as h: json.dump(ev, h, indent=1)
        shutil.rmtree(s.work, ignore_errors=True)
        log("%s %s: %d evaluations, %d distinct, %d states, %.1fs, violations %d" %
            (s.prop, s.tier, s.evals, len(s.distinct), s.states, time.time() - s.t0, len(new)))
        return 1 if new else 0

def known_findings():
    f = os.path.join(VERIF, "known-findings.json")
    if not os.path.exists(f): return []
    return json.load(open(f)).get("known", [])
