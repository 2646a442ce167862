"""Build and exploration driver shared by every check. Everything under test is rebuilt from /repo's working tree."""
import fcntl, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.abspath(__file__))
BUILD = os.path.join(VERIF, ".build")
NPROC = os.cpu_count() or 4
CC = "gcc"
GOENV = dict(os.environ, GOPROXY="off", GOTOOLCHAIN="local", GOFLAGS="-mod=mod", GO111MODULE="on", GONOSUMDB="*", GONOSUMCHECK="1", GOFLAGS_EXTRA="")
GOENV.pop("GOFLAGS_EXTRA")
GOENV.setdefault("HOME", "/root")
WRAP = "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=strdup,--wrap=strndup"
KINDS = {}
ASAN = ["-g", "-O1", "-fno-omit-frame-pointer", "-fsanitize=address"]
KINDS.update({"asan": ASAN, "plain": ["-g", "-O1"], "cov": ["-g", "-O0", "--coverage"]})


class BuildError(Exception):
    pass


class GenError(BuildError):
    """the code generator itself failed"""


class GenRun(GenError):
    """the generator was built but fails on a valid program, or what it prints does not compile"""


def sh(cmd, **kw):
    t = kw.pop("timeout", 300)
    what = kw.pop("what", None)
    exc = kw.pop("exc", BuildError)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=t, **kw)
    if r.returncode:
        raise exc("%s failed (%d): %s\n%s" % (what or cmd[0], r.returncode, " ".join(map(str, cmd))[:600],
                                             (r.stderr[-3000:] + r.stdout[-1000:]).decode("utf8", "replace")))
    return r.stdout


def tree_hash():
    """hash of every file of /repo the checks build from (tests and generated files left out) and of our own sources"""
    h = hashlib.sha256()
    for top in ("src", "include", "pkg", "cmd", "modules", "main.go", "go.mod"):
        p = os.path.join(REPO, top)
        files = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            if re.search(r"\.(o|d|a|gcda|gcno)$|\.reflect\.c$|\.dummy\.c$|\.test\.c$|/_meta_", f) or not re.search(r"\.(c|h|go|tpl|yaml|mod|cpp)$", f):
                continue
            h.update(os.path.relpath(f, REPO).encode())
            h.update(open(f, "rb").read())
    for d in ("gostub",):
        for r, _, fs in sorted(os.walk(os.path.join(VERIF, d))):
            for f in sorted(fs):
                h.update(open(os.path.join(r, f), "rb").read())
    h.update(open(os.path.join(VERIF, "vlib.py"), "rb").read())
    return h.hexdigest()[:20]


class Build:
    """build products of the current tree, under .build/<hash of the tree>"""

    def __init__(self):
        self.hash = tree_hash()
        self.dir = os.path.join(BUILD, self.hash)
        os.makedirs(self.dir, exist_ok=True)
        os.utime(self.dir)
        self._lock = open(os.path.join(self.dir, "lock"), "w")
        fcntl.flock(self._lock, fcntl.LOCK_EX)
        olds = sorted((d for d in os.scandir(BUILD) if d.is_dir() and d.name != self.hash), key=lambda d: d.stat().st_mtime)
        for d in olds[:-3]:
            shutil.rmtree(d.path, ignore_errors=True)
        self.pool = ThreadPoolExecutor(NPROC)
        self.bg = ThreadPoolExecutor(4)
        self.llock, self.glock = threading.RLock(), threading.RLock()

    def unlock(self):
        fcntl.flock(self._lock, fcntl.LOCK_UN)

    def p(self, *a):
        return os.path.join(self.dir, *a)

    def _done(self, f):
        return os.path.exists(f)

    def metac(self):
        """the real generator, with the unavailable third-party modules replaced by /verif/gostub"""
        with self.glock:
            return self._metac()

    def _metac(self):
        o = self.p("metac")
        if not self._done(o):
            gm = self.p("gomod")
            os.makedirs(gm, exist_ok=True)
            m = open(os.path.join(VERIF, "gostub", "go.mod")).read().replace("/verif/gostub", os.path.join(VERIF, "gostub"))
            open(os.path.join(gm, "go.mod"), "w").write(m)
            shutil.copy(os.path.join(VERIF, "gostub", "go.sum"), os.path.join(gm, "go.sum"))
            sh(["go", "build", "-modfile=" + os.path.join(gm, "go.mod"), "-o", o + ".tmp", "."], cwd=REPO, env=GOENV, what="go build", exc=GenError)
            os.rename(o + ".tmp", o)
        return o

    def reflect(self, elf, out, typ="elf", module="metac-reflect-gen"):
        r = subprocess.run([self.metac(), "run", module, "-M", os.path.join(REPO, "modules"), "-s", 'path_type: "%s"' % typ, "-s", 'path: "%s"' % elf],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300, cwd=REPO)
        if r.returncode or b"auto-generated" not in r.stdout[:400] and module == "metac-reflect-gen":
            raise GenRun("generator failed on %s: %s" % (elf, r.stderr.decode("utf8", "replace")[-3000:]))
        open(out, "wb").write(r.stdout)
        return out

    def lib_sources(self):
        s = os.path.join(REPO, "src")
        return sorted(f for f in os.listdir(s) if f.endswith(".c") and not re.search(r"(_test|_checkmk|\.reflect|\.dummy|\.test)\.c$", f) and f != "_module.c")

    def cflags(self):
        return ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness"), "-w", "-Wno-packed-bitfield-compat"]

    def lib(self, kind="asan", reflect=True):
        """every library source compiled as its own object -> archive, with the reflection data of the library itself"""
        o = self.p("libmetac_%s%s.a" % (kind, "" if reflect else "_norefl"))
        with self.llock:
            if self._done(o):
                return o
            gen = self.bg.submit(self.metac) if reflect else None
            fl = KINDS[kind]
            d = self.p("lib_" + kind)
            os.makedirs(d, exist_ok=True)
            srcs = self.lib_sources()
            refl = self.p("libmetac.reflect.c")
            mflags = self.cflags() + ["-DMETAC_MODULE_NAME=libmetac"]

            def comp(a):
                src, obj, extra = a
                if not os.path.exists(obj):
                    sh([CC] + mflags + extra + ["-c", src, "-o", obj + ".tmp"], what="compile " + src, exc=GenRun if src.endswith(".reflect.c") else BuildError)
                    os.rename(obj + ".tmp", obj)
                return obj
            jobs = [(os.path.join(REPO, "src", s), os.path.join(d, s[:-2] + ".o"), fl) for s in srcs]
            mobjs = []
            if reflect and not self._done(refl):
                md = self.p("lib_meta")
                os.makedirs(md, exist_ok=True)
                ms = [s for s in srcs if re.search(r"METAC_GSYM_LINK|DECLLOC", open(os.path.join(REPO, "src", s)).read())]
                mj = [(os.path.join(REPO, "src", s), os.path.join(md, s[:-2] + ".meta.o"), ["-g3", "-D_METAC_OFF_"]) for s in ms]
                mj.append((os.path.join(REPO, "src", "_module.c"), os.path.join(md, "_module.o"), ["-g3"]))
                mobjs = [j[1] for j in mj]
                jobs += mj
            objs = [x for x in self.pool.map(comp, jobs) if x not in mobjs]
            if mobjs:
                elf = os.path.join(md, "meta")
                sh([CC] + mobjs + ["-o", elf, "-Wl,--unresolved-symbols=ignore-all"], what="link lib meta")
                gen.result()
                self.reflect(elf, refl + ".tmp")
                os.rename(refl + ".tmp", refl)
            if reflect:
                objs.append(comp((refl, os.path.join(d, "reflect.o"), fl)))
            tmp = o + ".tmp"
            if os.path.exists(tmp):
                os.unlink(tmp)
            sh(["ar", "rcs", tmp] + objs, what="ar")
            os.rename(tmp, o)
            return o

    def harness(self, name, reflect=True, kind="asan", extra_src=(), src=None, ldextra=(), cextra=(), gflags=("-g3",), deps=(), srcflags=None, metacc=None):
        """two-pass build of harness/<name>.c as the project's own makefiles do it (meta pass -> generator -> real pass)"""
        src = src or os.path.join(VERIF, "harness", name + ".c")
        srcs = [src] + list(extra_src)
        key = hashlib.sha256(b"".join(open(f, "rb").read() for f in srcs + [os.path.join(VERIF, "harness", x) for x in ("h.c", "h.h")]) + repr((cextra, ldextra, kind, reflect, gflags) + ((srcflags,) if srcflags else ()) + ((metacc,) if metacc else ())).encode()).hexdigest()[:12]
        for f in sorted(os.listdir(os.path.join(VERIF, "harness"))):
            if f.endswith(".h") or f in deps:
                key = hashlib.sha256((key + open(os.path.join(VERIF, "harness", f)).read()).encode()).hexdigest()[:12]
        exe = self.p("h_%s_%s" % (name, key))
        if self._done(exe):
            return exe
        lib = self.lib(kind, reflect)
        fl = KINDS[kind]
        base = self.p("t_%s_%s" % (name, key))
        cf = self.cflags() + list(cextra)
        objs = []
        jobs = []
        if reflect:
            def meta(s):
                o = base + "_" + os.path.basename(s) + ".meta.o"
                sh([metacc or CC] + cf + list(gflags) + ["-D_METAC_OFF_", "-c", s, "-o", o], what="meta pass " + s)
                return o
            mobjs = list(self.pool.map(meta, srcs))
            sh([metacc or CC] + mobjs + ["-o", base + ".meta", "-Wl,--unresolved-symbols=ignore-all"] + (["-Wl,--defsym=main=0"] if False else ["-nostartfiles", "-Wl,-e,0"]), what="link meta")
            self.reflect(base + ".meta", base + ".reflect.c")
            jobs.append((base + ".reflect.c", base + ".reflect.o", ["-g", "-O0"]))
        for s in srcs:
            jobs.append((s, base + "_" + os.path.basename(s) + ".o", fl if srcflags is None else list(srcflags)))
        jobs.append((os.path.join(VERIF, "harness", "h.c"), base + "_h.o", ["-g", "-O2"] + (["-fsanitize=address"] if False else [])))

        def comp(a):
            s, o, ex = a
            sh([CC] + cf + ex + ["-c", s, "-o", o], what="compile " + s, exc=GenRun if s.endswith(".reflect.c") else BuildError)
            return o
        objs = list(self.pool.map(comp, jobs))
        try:
            sh([CC] + fl + objs + [lib, "-o", exe + ".tmp", WRAP, "-lm"] + list(ldextra), what="link " + name)
        except BuildError as e:
            if re.search(r"undefined reference to `metac_(\w+_gsym_|entry_dflt|entry_libmetac|\w+_db_dflt)", str(e)):
                raise GenRun("no answer to a request for reflection data: " + str(e))
            raise
        os.rename(exe + ".tmp", exe)
        for f in os.listdir(self.dir):
            if f.startswith(os.path.basename(base)) and not f.endswith(".reflect.c"):
                os.unlink(self.p(f))
        return exe


# --------------------------------------------------------------------------------------------------------------
def read_shm(path):
    try:
        b = open(path, "rb").read()
        idx, running = struct.unpack_from("qq", b)
        return idx, running, b[16:].split(b"\0", 1)[0].decode("utf8", "replace")
    except Exception:
        return -1, 0, ""


class Result:
    def __init__(self):
        self.violations = []      # dicts: harness, mode, idx, desc, msg
        self.cases = self.ops = self.total = 0
        self.states = set()
        self.nstates = 0
        self.samples = []
        self.outcomes = {}
        self.truncated = False


def _summ(err):
    m = re.search(r"(ERROR: AddressSanitizer: [^\n]*)", err) or re.search(r"(runtime error: [^\n]*)", err) or re.search(r"(Assertion [^\n]*failed)", err) or re.search(r"(FATAL[^\n]*|deadlock[^\n]*)", err)
    s = m.group(1) if m else err.strip()[-300:]
    s = re.sub(r"0x[0-9a-f]+", "0x..", s)
    s = re.sub(r"==\d+==", "", s)
    fr = [f for f in re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) (/\S+?):\d+", err) if "/src/" in f[1]]
    return s + ((" at " + " < ".join(f[0] for f in fr[:3])) if fr else "")


def run_harness(exe, tier, mode="", shards=None, budget=600, stall=40, max_restarts=6, extra=()):
    """explores every case of the harness over parallel shards; a crash or hang is a violation of that case and the
    shard is resumed behind it"""
    shards = shards or NPROC
    res = Result()
    tmp = exe + "_run_%d" % os.getpid()
    os.makedirs(tmp, exist_ok=True)
    base = [exe] + (["--thorough"] if tier == "thorough" else []) + (["--mode", mode] if mode else []) + list(extra)
    t0 = time.time()
    bad = [0, 0]   # crashed executions, hung executions so far (all shards)

    def one(i):
        start = 0
        vs, parts = [], []
        for attempt in range(max_restarts + 1):
            shm, out, st, errf = (os.path.join(tmp, "%d_%d.%s" % (i, attempt, x)) for x in ("shm", "out", "st", "err"))
            with open(errf, "wb") as ef:
                p = subprocess.Popen(base + ["--shard", "%d/%d" % (i, shards), "--start", str(start), "--shm", shm, "--out", out, "--states", st],
                                     stdout=subprocess.DEVNULL, stderr=ef, stdin=subprocess.DEVNULL)
                last, tl, why = None, time.time(), None
                while True:
                    try:
                        p.wait(0.05 if attempt == 0 and time.time() - t0 < 2 else 0.3)
                        break
                    except subprocess.TimeoutExpired:
                        pass
                    cur = read_shm(shm)[0]
                    if cur != last:
                        last, tl = cur, time.time()
                    if time.time() - tl > stall:
                        why = "hang: no progress for %d s" % stall
                    elif time.time() - t0 > budget:
                        why = "budget"
                    if why:
                        p.kill()
                        p.wait()
                        break
            parts.append((out, st))
            if why == "budget":
                return vs, parts, True
            if p.returncode == 0 and not why:
                return vs, parts, False
            idx, running, desc = read_shm(shm)
            err = open(errf, errors="replace").read()
            if p.returncode == 3 and not (idx >= 0 and running):
                if err.startswith("SETUP"):
                    vs.append({"idx": -2, "desc": "(preparation of the cases)", "msg": err[:500].strip(), "crash": True, "exe_none": True})
                    return vs, parts, True
                raise RuntimeError("harness infrastructure error: " + err[-2000:])
            if idx < 0 or not running:
                if p.returncode == -signal.SIGKILL:
                    raise RuntimeError("harness was killed: " + err[-2000:])
                vs.append({"idx": -2, "desc": "(code outside of a case, behind case %d: %s)" % (idx, desc[:200]), "msg": "crash: " + _summ(err), "crash": True, "exe_none": True})
                return vs, parts, True
            vs.append({"idx": idx, "desc": desc, "msg": (why if why else "crash: " + _summ(err)), "crash": True})
            bad[0] += 1
            bad[1] += bool(why)
            if bad[1] >= 2 or bad[0] >= 3 * shards:
                return vs, parts, True      # enough to report: the property is violated
            start = idx + 1
        return vs, parts, True

    with ThreadPoolExecutor(shards) as ex:
        outs = list(ex.map(one, range(shards)))
    for vs, parts, trunc in outs:
        res.violations += vs
        res.truncated |= trunc
        for out, st in parts:
            try:
                for ln in open(out, errors="replace"):
                    try:
                        j = json.loads(ln)
                    except ValueError:
                        continue
                    if j["k"] == "V":
                        res.violations.append({"idx": j["idx"], "desc": j["desc"], "msg": j["msg"]})
                    else:
                        res.cases += j["cases"]
                        res.ops += j["ops"]
                        res.total = max(res.total, j["total"])
                        res.samples += j["samples"]
                        for k, v in j["outcomes"].items():
                            res.outcomes[k] = res.outcomes.get(k, 0) + v
            except FileNotFoundError:
                pass
            if os.path.exists(st):
                b = open(st, "rb").read()
                if len(res.states) < 20_000_000:
                    res.states.update(struct.unpack("%dQ" % (len(b) // 8), b))
    res.nstates = len(res.states)
    shutil.rmtree(tmp, ignore_errors=True)
    seen, u = set(), []
    for v in sorted(res.violations, key=lambda v: v["idx"]):
        if v["idx"] not in seen:
            seen.add(v["idx"])
            u.append(v)
    res.violations = u
    return res


def replay_case(exe, tier, mode, idx, timeout=60, extra=()):
    cmd = [exe] + (["--thorough"] if tier == "thorough" else []) + (["--mode", mode] if mode else []) + list(extra) + ["--only", str(idx)]
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "hang", ""
    out = r.stdout.decode("utf8", "replace")
    for ln in out.splitlines():
        try:
            j = json.loads(ln)
        except ValueError:
            continue
        if j.get("k") == "V":
            return j["msg"], r.stderr.decode("utf8", "replace")
    if r.returncode:
        e = r.stderr.decode("utf8", "replace")
        return "crash: " + _summ(e), e
    return None, r.stderr.decode("utf8", "replace")


def known_findings():
    p = os.path.join(VERIF, "known_findings.jsonl")
    r = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln and not ln.startswith("#"):
                j = json.loads(ln)
                if "fixed" not in j:
                    r.append(j)
    return r


class Check:
    """one property check: collects results, decides, writes evidence, prints the outcome"""

    def __init__(self, prop, tier, level="model_checking"):
        self.prop, self.tier, self.level = prop, tier, level
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "exhaustive": True, "parts": {}}
        self.viol = []
        self.assumptions = []
        self.known = [k for k in known_findings() if k["property"] == prop]
        self.hit_known = {}

    def is_known(self, v, part):
        for k in self.known:
            if k.get("part", part) == part and re.search(k["case"], v["desc"]) and re.search(k.get("msg", ""), v["msg"]):
                return k
        return None

    def add(self, part, res, exe=None, mode="", bound="", extra=()):
        c = self.cov
        c["states"] += res.nstates
        c["transitions"] += res.ops
        c["traces_validated_against_impl"] += res.cases
        c["samples"] += ["%s: %s" % (part, s) for s in res.samples[:3]]
        c["exhaustive"] = c["exhaustive"] and not res.truncated
        c["parts"][part] = {"executions": res.cases, "space": res.total, "states": res.nstates, "transitions": res.ops,
                            "outcomes": dict(sorted(res.outcomes.items(), key=lambda kv: -kv[1])[:40]), "bound": bound,
                            "completed": not res.truncated}
        for v in res.violations:
            k = self.is_known(v, part)
            if k:
                self.hit_known.setdefault(json.dumps(k, sort_keys=True), []).append(v)
                continue
            v.update(part=part, exe=exe, mode=mode, extra=list(extra))
            self.viol.append(v)

    def violation(self, part, desc, msg, **kw):
        v = dict(idx=-1, desc=desc, msg=msg, part=part, exe=None, **kw)
        k = self.is_known(v, part)
        if k:
            self.hit_known.setdefault(json.dumps(k, sort_keys=True), []).append(v)
        else:
            self.viol.append(v)

    def finish(self):
        confirmed = []
        for v in self.viol[:40]:
            if v.get("exe") and not v.get("exe_none"):
                # replay before report: the same execution has to fail twice, alone, with the same verdict
                a, e = replay_case(v["exe"], self.tier, v["mode"], v["idx"], extra=v.get("extra", ()))
                b, _ = (a, "") if a == "hang" else replay_case(v["exe"], self.tier, v["mode"], v["idx"], extra=v.get("extra", ()))
                if a is None or b is None:
                    print("note: case %d of %s failed in the sweep but not on replay (%s / %s): %s" % (v["idx"], v["part"], a, b, v["msg"]))
                    v["unstable"] = True
                    if not v.get("crash") or "hang" in v["msg"]:
                        continue
                v["trace"] = e[-6000:]
            confirmed.append(v)
            if len(confirmed) >= 10 or time.time() - self.t0 > 400:
                break
        for k, vs in self.hit_known.items():
            j = json.loads(k)
            print("KNOWN-FINDING: property=%s %s (%d case(s), first: %s)" % (self.prop, j["what"], len(vs), vs[0]["desc"][:300]))
        rc = 0
        if confirmed:
            rc = 1
            d = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            f = os.path.join(d, "%s.json" % self.prop)
            v = confirmed[0]
            json.dump({"property": self.prop, "tier": self.tier, "violations": confirmed,
                       "how": "python3 %s/check.py --replay %s" % (VERIF, f)}, open(f, "w"), indent=1)
            for v in confirmed[:5]:
                print("violation in %s case %s: %s\n    -> %s" % (v["part"], v["idx"], v["desc"][:1500], v["msg"][:1500]))
            print("VIOLATION property=%s replay=%s" % (self.prop, f))
        c = self.cov
        c["samples"] = c["samples"][:12]
        ev = {"property": self.prop, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": self.level,
              "coverage": c, "wall_s": round(time.time() - self.t0, 2), "assumptions": self.assumptions,
              "violations": len(confirmed), "known_findings_seen": [json.loads(k)["what"] for k in self.hit_known]}
        if self.level in ("exploration", "fault_enumeration"):
            c["evaluations"] = c.pop("traces_validated_against_impl")
            c["distinct_nontrivial"] = c.pop("states")
            c["operations"] = c.pop("transitions")
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        print("%s %s: %d executions, %d states, %d transitions, exhaustive=%s, %.1fs -> %s" % (
            self.prop, self.tier, sum(p.get("executions", 0) for p in c["parts"].values()), sum(p.get("states", 0) for p in c["parts"].values()),
            sum(p.get("transitions", 0) for p in c["parts"].values()), c["exhaustive"], time.time() - self.t0, "VIOLATED" if rc else "held"))
        return rc
