"""explorations of the real generator as a command line tool (P22..P25): every case is one history of runs of the tool,
its exit status and complete output are compared with a reference"""
import itertools, json, os, re, shutil, struct, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import vlib

MODS = os.path.join(vlib.REPO, "modules")


class Tool:
    def __init__(self, ck, b, part):
        self.ck, self.b, self.part = ck, b, part
        self.metac = b.metac()
        self.dir = tempfile.mkdtemp(prefix="tool_", dir=b.dir)
        self.res = vlib.Result()
        self.runs = 0

    def run(self, args, cwd=None, stdout=subprocess.PIPE, timeout=120):
        self.runs += 1
        r = subprocess.run([self.metac, "run"] + list(args), stdout=stdout, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, timeout=timeout, cwd=cwd or self.dir)
        return r.returncode, (r.stdout or b""), r.stderr

    def path(self, *a):
        p = os.path.join(self.dir, *a)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def write(self, name, data):
        p = self.path(name)
        open(p, "wb").write(data if isinstance(data, bytes) else data.encode())
        return p

    def each(self, cases, fn):
        """cases: (description, ...) ; fn returns None or a message; outcome classes are counted"""
        def one(a):
            i, c = a
            try:
                return i, c, fn(*c[1:])
            except subprocess.TimeoutExpired:
                return i, c, "hang: the tool does not finish"
        with ThreadPoolExecutor(vlib.NPROC) as ex:
            for i, c, r in ex.map(one, list(enumerate(cases))):
                msg, out = r if isinstance(r, tuple) else (r, "ok")
                self.res.cases += 1
                self.res.total += 1
                self.res.outcomes[out] = self.res.outcomes.get(out, 0) + 1
                if i % max(1, len(cases) // 2) == 0:
                    self.res.samples.append(c[0])
                if msg:
                    self.res.violations.append({"idx": self.res.cases - 1, "desc": c[0], "msg": msg, "exe_none": True})

    def finish(self, bound):
        self.res.ops = self.runs
        self.res.nstates = self.res.nstates or self.res.cases
        self.ck.add(self.part, self.res, bound=bound)
        shutil.rmtree(self.dir, ignore_errors=True)


def compile_meta(t, name, files, flags=("-g3",), cc="gcc", link=()):
    """the meta pass of the project's makefiles: objects compiled with _METAC_OFF_ and linked"""
    objs = []
    for i, (fn, text) in enumerate(files):
        s = t.write("%s/%s" % (name, fn), text)
        o = s[:-2] + ".meta.o"
        vlib.sh([cc, "-I" + os.path.join(vlib.REPO, "include"), "-w", *flags, "-D_METAC_OFF_", "-c", os.path.basename(s), "-o", o], cwd=os.path.dirname(s))
        objs.append(o)
    elf = t.path(name, "meta")
    vlib.sh([cc] + objs + ["-o", elf, "-Wl,--unresolved-symbols=ignore-all", "-nostartfiles", "-Wl,-e,0", *link])
    return elf


SMALL = """#include "metac/reflect.h"
enum e { A, B = 7 };
struct s { int a; struct s *next; enum e e; unsigned f : 3; char t[4]; union { int x; float y; } u; short d[2][3][4]; const volatile int *restrict cv; int (*fp)(struct s *, ...); };
typedef struct s st; st v2; static st *arr[2][2]; METAC_GSYM_LINK(arr);
struct s v; METAC_GSYM_LINK(v);
int fn(struct s *p, const char *q, ...) { return 0; } METAC_GSYM_LINK(fn);
"""


def sections(b):
    """(index, name, offset, size, position of the header) of every section"""
    shoff, = struct.unpack_from("<Q", b, 0x28)
    n, = struct.unpack_from("<H", b, 0x3c)
    sx, = struct.unpack_from("<H", b, 0x3e)
    h = [struct.unpack_from("<IIQQQQ", b, shoff + 64 * i) for i in range(n)]
    st = h[sx][4]
    return [(i, b[st + x[0]:b.index(b"\0", st + x[0])].decode(), x[4], x[5], shoff + 64 * i) for i, x in enumerate(h)]


SPEC = """apiVersion: github.com/aodinokov/metac/v1
kind: %s
metadata:
  name: doesn't matter
spec:
%s"""


def spec(template, settings="", include=(), kind="goTemplate"):
    s = ""
    if include:
        s += "  include:\n" + "".join("  - %s\n" % i for i in include)
    s += "  settings:%s\n" % (" {}" if not settings else "\n" + "".join("    " + l + "\n" for l in settings.splitlines()))
    if template is not None:
        s += "  template: |\n" + "".join("    " + l + "\n" for l in template.splitlines())
    return SPEC % (kind, s)


def p25(ck, b):
    import yaml
    t = Tool(ck, b, "failures")
    thorough = ck.tier == "thorough"
    elf = compile_meta(t, "small", [("a.c", SMALL)])
    vlib.sh(["objcopy", "--strip-all", "--keep-section=.debug_*", elf, elf + ".x"]) if False else None
    data = open(elf, "rb").read()
    args = lambda typ, p: ["metac-reflect-gen", "-M", MODS, "-s", 'path_type: "%s"' % typ, "-s", 'path: "%s"' % p]
    rc, full, err = t.run(args("elf", elf))
    if rc or len(full) < 1000:
        ck.violation("failures", "intact input", "the tool fails: %s" % err.decode("utf8", "replace")[-500:])
        return
    ysp = t.write("y.yaml", spec("{{- dwarfToYaml (dwarfFromElf .path) -}}", "path: x"))
    jsp = t.write("j.yaml", spec("{{- dwarfToJson (dwarfFromElf .path) -}}", "path: x"))
    forms = {}
    for k, f in (("yaml", ysp), ("json", jsp)):
        rc, o, err = t.run(["-f", f, "-s", "path: " + elf])
        if rc:
            ck.violation("failures", "export of intact input", err.decode("utf8", "replace")[-500:])
            return
        forms[k] = o
    fulls = {"elf": full}
    for k in forms:
        rc, fulls[k], err = t.run(args(k, t.write("in." + k, forms[k])))

    def bad(argv, **kw):
        def f():
            rc, o, e = t.run(argv, **kw)
            if rc == 0:
                return "exit status 0 (%d bytes of output)" % len(o), "accepted"
            if o:
                return "failed, but printed %d bytes of output first" % len(o), "partial"
            return None, "refused"
        return f

    def cut(typ, name, content):
        def f():
            p = t.write(name, content)
            try:
                rc, o, e = t.run(args(typ, p))
            finally:
                os.unlink(p)
            if rc:
                return ("failed, but printed %d bytes of output first" % len(o), "partial") if o else (None, "refused")
            if o != fulls[typ]:
                return "exit status 0 with %d bytes of output instead of %d" % (len(o), len(fulls[typ])), "accepted"
            return None, "complete output"
        return f
    C = []
    # truncated binaries
    secs = sections(data)
    cuts = {0, 1, 4, 16, 63, 64, 65}
    for _, n, off, size, h in secs:
        cuts |= {off, off + 1, off + size - 1, off + size, h, h + 1, h + 63}
    cuts |= set(range(0, len(data), 64 if thorough else 512))
    for c in sorted(x for x in cuts if 0 <= x < len(data)):
        C.append(("binary cut at byte %d of %d" % (c, len(data)), cut("elf", "cut/e%d" % c, data[:c])))
    # truncated debug sections
    for i, n, off, size, h in secs:
        if n in (".debug_info", ".debug_abbrev", ".debug_str", ".debug_line", ".debug_line_str"):
            step = max(1, size // (400 if thorough else 60)) if n in (".debug_info", ".debug_str", ".debug_line") else 1 if thorough else max(1, size // 60)
            for k in range(1 if n == ".debug_info" else 0, size, step):
                d = bytearray(data)
                struct.pack_into("<Q", d, h + 32, k)
                C.append(("%s cut at byte %d of %d" % (n, k, size), cut("elf", "cut/%s%d" % (n, k), bytes(d))))
            # its bytes replaced
    for i, n, off, size, h in secs:
        if n in (".debug_info", ".debug_abbrev"):
            for fill in (0xff,):
                d = bytearray(data)
                d[off:off + size] = bytes([fill]) * size
                C.append(("%s filled with 0x%02x" % (n, fill), cut("elf", "cut/f%s%d" % (n, fill), bytes(d))))
    # truncated texts
    j = forms["json"].rstrip(b"\n")
    for k in sorted(set(range(0, len(j), max(1, len(j) // (2000 if thorough else 150)))) | {1, 2, len(j) - 2, len(j) - 1}):
        C.append(("json cut at byte %d of %d" % (k, len(j)), cut("json", "cut/j%d" % k, j[:k])))
    # entries which others refer to are missing
    dj = json.loads(j)
    refs = {int(f["val"]) for e in dj["entries"].values() for f in e.get("fields", []) if f.get("class") == "ClassReference" and f["attr"] == "Type"} | {c for e in dj["entries"].values() for c in e.get("children", [])}
    for k in sorted(refs):
        d = {"entries": {a: x for a, x in dj["entries"].items() if a != str(k)}}
        C.append(("json whose entry %d (%s) is missing" % (k, dj["entries"][str(k)].get("kind")), cut("json", "cut/m%d" % k, json.dumps(d))))
    # top-level entries of another kind, entries that refer to nothing
    for k in dj["entries"]:
        if dj["entries"][k].get("kind") == "CompileUnit":
            for kind in ("TypeUnit", "PartialUnit", "SkeletonUnit", "BaseType", "StructType", "compileunit", "CompileUnit ", "Foo", ""):
                d = json.loads(j)
                d["entries"][k]["kind"] = kind
                C.append(("json whose compile unit is called '%s'" % kind, cut("json", "cut/k%s_%s" % (k, re.sub(r"\W", "x", kind)), json.dumps(d))))
                C.append(("yaml whose compile unit is called '%s'" % kind, cut("yaml", "cut/ky%s_%s" % (k, re.sub(r"\W", "x", kind)), yaml.safe_dump(d))))
    y = forms["yaml"]
    for k in range(0, len(y), max(1, len(y) // (600 if thorough else 60))):
        try:
            yaml.load(y[:k], Loader=getattr(yaml, "CSafeLoader", yaml.SafeLoader))
        except yaml.YAMLError:
            C.append(("yaml cut at byte %d of %d" % (k, len(y)), cut("yaml", "cut/y%d" % k, y[:k])))
    # kinds of input x declared kind of input
    for k, content in (("elf", data), ("yaml", y), ("json", j), ("empty", b""), ("text", b"int x;\n"), ("binary", bytes(range(256)))):
        p = t.write("kind." + k, content)
        for typ in ("elf", "yaml", "json", "pe", "macho", "", "ELF", "unknown"):
            if typ == k or (typ == "yaml" and k in ("json", "empty")):
                continue
            C.append(("%s input declared as '%s'" % (k, typ), bad(args(typ, p))))
    for typ in ("elf", "yaml", "json", "pe", "macho"):
        for what, p in (("missing file", t.path("absent")), ("directory", t.dir), ("empty name", ""), ("name below a file", elf + "/x")):
            C.append(("%s as %s input" % (what, typ), bad(args(typ, p))))
    # settings
    ok = args("elf", elf)
    for what, s in (("unclosed yaml list", "a: [1"), ("yaml with a tab", "a:\n\t- 1"), ("yaml list at top level", "- a"), ("yaml scalar", "just text"), ("unclosed json", '{"a": 1'), ("json with a trailing comma", '{"a": 1,}'), ("json followed by text", '{"a": 1} x'),
                    ("json without quotes", "{a: }"), ("missing settings file", "--file:" + t.path("absent")), ("settings directory", "--file:" + t.dir), ("bad settings file", "--file:" + t.write("bad.yaml", "a: [1")), ("settings file with bad json", "--file:" + t.write("bad.json", '{"a": }')),
                    ("path_type as list", "path_type: [elf]"), ("path as list", "path: [x]"), ("path as map", "path: {a: 1}"), ("path_type null", "path_type: null"), ("path null", "path: null")):
        C.append(("settings: " + what + " (last)", bad(ok + ["-s", s])))
        if "path" not in what:
            C.append(("settings: " + what + " (first)", bad(ok[:3] + ["-s", s] + ok[3:])))
    C.append(("no settings", bad(ok[:3])))
    # modules
    for n in ("absent", "", ".", "..", "a/b", "../modules/metac-reflect-gen", "a\\b", "metac-reflect-gen/"):
        C.append(("module name '%s'" % n, bad([n] + ok[1:])))
    C.append(("no search path contains the module", bad(["metac-reflect-gen", "-M", t.dir] + ok[3:])))
    C.append(("specification file missing in the module", bad(ok + ["-f", "absent.yaml"])))
    C.append(("specification file missing", bad(["-f", t.path("absent.yaml")])))
    C.append(("neither module nor specification", bad(["-M", MODS])))
    full_spec = spec("{{ .a }}", "a: 1")
    good = t.write("good.yaml", full_spec)
    rc, o, e = t.run(["-f", good])
    if rc or o != b"1\n\n":
        ck.violation("failures", "intact module specification", "rc %d, output %r" % (rc, o))
    for k in range(0, len(full_spec)):
        pre = full_spec[:k]
        try:
            d = yaml.safe_load(pre)
            complete = isinstance(d, dict) and d.get("kind") == "goTemplate" and isinstance(d.get("spec"), dict) and isinstance(d["spec"].get("template"), str) and isinstance(d["spec"].get("settings"), dict)
        except yaml.YAMLError:
            complete = False
        if not complete:
            C.append(("module specification cut at byte %d" % k, bad(["-f", t.write("sp/%d.yaml" % k, pre)])))
    for what, body in (("unclosed action", "text {{ .a"), ("unknown function", "text {{ nofn .a }}"), ("missing end", "text {{ if .a }}"), ("stray end", "text {{ end }}"), ("missing template", 'text {{ include "no" . }}'), ("missing template called directly", 'text {{ template "no" . }}'),
                       ("explicit failure behind output", 'text {{ fail "stop" }}'), ("failure in an included template", 'text {{ define "x" }}{{ fail "stop" }}{{ end }}{{ include "x" . }}'), ("index out of range", "text {{ index .l 7 }}"), ("method of a number", "text {{ .a.b }}"), ("wrong argument", 'text {{ dwarfToMetaDb "x" }}'),
                       ("unwritable yaml export", 'text {{ dwarfToYamlFile (dwarfFromElf "%s") "%s" }}' % (elf, t.path("nodir") + "/a/b")), ("unwritable json export", 'text {{ dwarfToJsonFile (dwarfFromElf "%s") "%s" }}' % (elf, t.path("nodir") + "/a/b")),
                       ("failure in a range", "text {{ range $i, $v := .l }}{{ $v }}{{ if eq $i 1 }}{{ fail \"stop\" }}{{ end }}{{ end }}"), ("failure in a pipeline", 'text {{ "no" | fail | upper }}')):
        C.append(("template: " + what, bad(["-f", t.write("tp/%s.yaml" % what.replace(" ", "_"), spec(body, "a: 1\nl: [1, 2]"))])))
    C.append(("module without template", bad(["-f", t.write("notemplate.yaml", spec(None))])))
    C.append(("module of unknown kind", bad(["-f", t.write("kind.yaml", spec("x", kind="starlark"))])))
    C.append(("included module absent", bad(["-f", t.write("inc1.yaml", spec("x", include=["absent"]))])))
    t.write("m/empty/module.yaml", spec("x"))
    t.write("m/broken/module.yaml", spec("x"))
    t.write("m/broken/templates/_a.tpl", '{{ define "a" }}{{ if }}{{ end }}')
    C.append(("included module without templates", bad(["-f", t.write("inc2.yaml", spec("x", include=["empty"])), "-M", t.path("m")])))
    C.append(("included module with a broken template", bad(["-f", t.write("inc3.yaml", spec("x", include=["broken"])), "-M", t.path("m")])))
    C.append(("own template broken", bad(["broken", "-M", t.path("m")])))
    C.append(("working directory missing", bad(["-f", good, "-C", t.path("absent")])))
    C.append(("working directory is a file", bad(["-f", good, "-C", elf])))

    def output(argv, how):
        def f():
            if how == "full":
                with open("/dev/full", "wb") as o:
                    rc, _, e = t.run(argv, stdout=o)
            else:
                r, w = os.pipe()
                os.close(r)
                try:
                    rc, _, e = t.run(argv, stdout=w)
                finally:
                    os.close(w)
            return (None, "refused") if rc else ("exit status 0 although nothing could be written", "accepted")
        return f
    for how in ("full", "closed pipe"):
        C.append(("output device %s, long output" % how, output(ok, how)))
        C.append(("output device %s, short output" % how, output(["-f", good], how)))
    t.each(C, lambda f: f())
    t.finish("binary cut at every section boundary and every %d bytes; debug sections cut at up to %d places each; json/yaml cut at up to %s places; every referenced entry removed; 6 kinds of input x 8 declared kinds; 17 bad settings x position; 8 bad module names; module specification cut at every byte; 15 template faults; includes; working directories; output faults" % ((64, 400, "2000/600") if thorough else (512, 60, "150/60")))
    ck.assumptions += ["cobra, sprig, xstrings and copystructure are offline stand-ins (gostub); Go's debug/dwarf decides what is readable DWARF"]


def merge(a, o):
    r = dict(a)
    for k, v in o.items():
        r[k] = merge(r[k], v) if isinstance(v, dict) and isinstance(r.get(k), dict) else v
    return r


def p23(ck, b):
    import yaml
    t = Tool(ck, b, "settings")
    thorough = ck.tier == "thorough"
    # settings
    leaf = [1, "x", None, [], [1, 2], {}]
    lvl1 = leaf + [{"p": 1}, {"p": "x"}, {"q": [3]}, {"p": {"r": 1}}, {"p": {"s": None}, "q": 2}, {"p": {}}, {"q": {"p": {}}}]
    trees = [{}] + [{k: v} for k in ("a", "b") for v in lvl1] + [{"a": v, "b": w} for v in (1, {"p": 2, "q": 3}, None, [7]) for w in (2, {"p": {"r": 9}}, {})]
    base = [{}, {"a": 1, "b": {"p": 1, "q": 2}}, {"a": {"p": {"r": 5, "s": 6}, "q": [1]}, "b": "t", "c": {"z": [1, {"y": 2}]}}]
    for i, s in enumerate(base):
        t.write("b%d.yaml" % i, SPEC % ("goTemplate", "  settings: %s\n  template: |\n    {{- toJson . -}}\n" % json.dumps(s)))

    def form(k, o, name):
        if k == "json":
            return json.dumps(o)
        if k == "yaml":
            return yaml.safe_dump(o, default_flow_style=False) if o else "a_: 0"
        f = t.path("f", name)
        open(f, "w").write(json.dumps(o, indent=1) if k == "jfile" else yaml.safe_dump(o))
        return "--file:" + f

    def settings(i, ovs, kinds):
        want = base[i]
        argv = ["-f", t.path("b%d.yaml" % i)]
        for n, (o, k) in enumerate(zip(ovs, kinds)):
            if k == "yaml" and not o:
                k = "json"
            want = merge(want, o)
            argv += ["-s", form(k, o, "%d_%s_%d" % (i, abs(hash(json.dumps(ovs) + str(kinds))), n))]
        rc, o, e = t.run(argv)
        if rc:
            return "fails: " + e.decode("utf8", "replace")[-300:], "failed"
        try:
            got = json.loads(o)
        except ValueError:
            return "prints %r" % o[:200], "odd"
        if got != want:
            return "settings are %s instead of %s" % (json.dumps(got, sort_keys=True), json.dumps(want, sort_keys=True)), "wrong"
        return None, "%d overrides" % len(ovs)
    C = []
    K = ("json", "yaml", "yfile", "jfile")
    for i in range(len(base)):
        C.append(("settings %s, no override" % json.dumps(base[i]), i, [], []))
        for o in trees:
            for k in K:
                C.append(("settings %s <- %s (%s)" % (json.dumps(base[i]), json.dumps(o), k), i, [o], [k]))
        for n, (o1, o2) in enumerate(itertools.product(trees, repeat=2)):
            if i == 2 or thorough:
                C.append(("settings %s <- %s <- %s" % (json.dumps(base[i]), json.dumps(o1), json.dumps(o2)), i, [o1, o2], [K[n % 2], K[(n // 2) % 2]]))
    small = [{"a": 1}, {"a": {"p": 1}}, {"a": {"p": {"r": 2}}}, {"a": {"q": 3}, "b": 4}, {"a": None}, {"b": {"p": [1]}}]
    for n, os_ in enumerate(itertools.product(small, repeat=4 if thorough else 3)):
        C.append(("settings %s <- %s" % (json.dumps(base[1]), " <- ".join(map(json.dumps, os_))), 1, list(os_), [K[(n + m) % 4] for m in range(len(os_))]))
        C.append(("settings %s <- %s (%s)" % (json.dumps(base[1]), " <- ".join(map(json.dumps, os_)), K[n % 2]), 1, list(os_), [K[n % 2]] * len(os_)))
    # scale: deep trees (every pair of depths at which an override begins to differ), many overrides, many keys, long values
    def chain(d, leaf, side=None):
        x = leaf
        for k in range(d, 0, -1):
            x = {"k%d" % k: x}
            if side is not None:
                x["s%d" % k] = side + k
        return x
    D = 20 if thorough else 12
    for d in range(1, D + 1):
        for d2 in range(1, d + 1):
            for n, k in enumerate(K if d2 == d else K[d % 4:d % 4 + 1]):
                C.append(("nested settings of depth %d overridden at depth %d (%s)" % (d, d2, k), 0, [chain(d, {"v": 1, "w": [1]}, 10), chain(d2, {"v": 2, "n": {"m": 1}})], [k, K[(n + 1) % 4]]))
    for cnt in (8, 15, 16, 17, 31, 32, 33, 64, 100):
        for k in K:
            C.append(("%d overrides (%s)" % (cnt, k), 1, [{"a": {"p": i, "x%d" % i: i}, "y%d" % i: {"z": {"q": [i]}}} for i in range(cnt)], [k] * cnt))
            C.append(("%d overrides of one key (%s)" % (cnt, k), 2, [{"a": {"p": {"r": i}}} for i in range(cnt)], [k] * cnt))
    for size in (1000, 4095, 4096, 4097, 20000, 65536, 100000):
        for k in K[2:] if size > 30000 else K:
            C.append(("settings value of %d characters (%s)" % (size, k), 1, [{"a": {"p": "x" * size, "zz": 1}, "zlast": "end"}], [k]))
            C.append(("%d settings keys (%s)" % (size // 50, k), 1, [{"key%06d" % i: {"p": i, "q": {"r": "v%d" % i}} for i in range(size // 50)}], [k]))
    t.each(C, settings)
    t.finish("3 settings trees x every sequence of %s overrides over %d trees (maps, lists, null, scalars to depth 3) in 4 notations; trees to depth %d overridden at every depth, up to 100 overrides, values to 100000 characters, up to 2000 keys" % ("up to 2 (4 over 6 trees)" if thorough else "up to 2 for one settings tree (1 for others, 3 over 6 trees)", len(trees), D))

    # search paths
    t = Tool(ck, b, "lookup")
    kinds = ("absent", "nospec", "badyaml", "unknownkind", "good", "goodalt", "specdir")
    n = 3
    for i in range(n):
        for k in kinds:
            d = "p%d_%s" % (i, k)
            t.path(d, "x")
            os.makedirs(t.path(d), exist_ok=True)
            if k == "absent":
                continue
            os.makedirs(t.path(d, "m"), exist_ok=True)
            if k == "nospec":
                t.write(d + "/m/readme", "x")
                t.write(d + "/m/alt.yaml", spec("ALT%d" % i))
            elif k == "badyaml":
                t.write(d + "/m/module.yaml", "kind: [goTemplate")
                t.write(d + "/m/alt.yaml", spec("ALT%d" % i))
            elif k == "unknownkind":
                t.write(d + "/m/module.yaml", spec("WRONG", kind="other"))
                t.write(d + "/m/alt.yaml", spec("ALT%d" % i))
            elif k == "specdir":
                os.makedirs(t.path(d, "m", "module.yaml", "x"), exist_ok=True)
            else:
                t.write(d + "/m/module.yaml", spec("MAIN%d" % i + '{{ include "t" . }}'))
                t.write(d + "/m/templates/_t.tpl", '{{ define "t" }}-T%d{{ end }}' % i)
                if k == "goodalt":
                    t.write(d + "/m/alt.yaml", spec("ALT%d" % i + '{{ include "t" . }}'))
    inc = t.write("inc/user.yaml", spec('USER{{ include "t" . }}', include=["m"]))

    def lookup(layout, mode):
        paths = [t.path("p%d_%s" % (i, k)) for i, k in layout]
        argv = [x for p in paths for x in ("-M", p)]
        first = next(((i, k) for i, k in layout if k in ("good", "goodalt")), None)
        if mode == "main":
            argv = ["m"] + argv
            want = None if not first else b"MAIN%d-T%d" % (first[0], first[0])
        elif mode == "alt":
            argv = ["m", "-f", "alt.yaml"] + argv
            want = None if not first or first[1] != "goodalt" else b"ALT%d-T%d" % (first[0], first[0])
        elif mode == "include":
            argv = ["-f", inc] + argv
            want = None if not first else b"USER-T%d" % first[0]
        else:
            i, k = layout[0]
            argv = ["-f", t.path("p%d_%s" % (i, k), "m", "alt.yaml")] + argv
            want = b"ALT%d-T%d" % (i, i) if k == "goodalt" else b"ALT%d" % i if k in ("nospec", "badyaml", "unknownkind") else None
        rc, o, e = t.run(argv)
        got = None if rc else o.strip()
        if got != want:
            return "gives %r instead of %r" % (got, want), "wrong"
        return None, "%s %s" % (mode, "found" if want else "refused")
    C = []
    for m in range(0, n + 1):
        for layout in itertools.product(kinds, repeat=m):
            for mode in ("main", "alt", "include", "spec"):
                if mode == "spec" and m == 0 or m == 0 and mode in ("main", "alt"):
                    continue
                if m == 3 and not thorough and mode == "spec":
                    continue
                C.append(("search paths %s, %s" % (",".join(layout) or "none", mode), list(enumerate(layout)), mode))
    for order in itertools.permutations(range(3)):
        C.append(("three good modules in order %s" % (order,), [(i, "good") for i in order], "main"))
        C.append(("three good modules in order %s, include" % (order,), [(i, "good") for i in order], "include"))
    for cnt in list(range(4, 18)) + [31, 32, 33, 64]:
        for k in kinds:
            for last in ("good", "goodalt"):
                if k not in ("good", "goodalt"):
                    for mode in ("main", "alt", "include"):
                        C.append(("%d search paths %s, then %s, %s" % (cnt, k, last, mode), [(0, k)] * cnt + [(1, last), (2, "goodalt")], mode))
    t.each(C, lookup)

    # names that are paths lead to existing modules, but are refused
    for d in ("deep/sub", "deep/sub/inner", "deep/x\\y"):
        t.write(d + "/module.yaml", spec('DEEP{{ include "t" . }}'))
        t.write(d + "/templates/_t.tpl", '{{ define "t" }}-T{{ end }}')
    absp = t.path("deep", "sub")

    def refused(n, how, root):
        argv = ["-M", t.path(root)]
        if how == "name":
            argv = [n] + argv
        elif how == "alt":
            argv = [n, "-f", "module.yaml"] + argv
        else:
            argv = ["-f", t.write("incp/%d.yaml" % abs(hash((n, root))), spec('USER{{ include "t" . }}', include=[json.dumps(n)]))] + argv
        rc, o, e = t.run(argv)
        return (None, "refused") if rc else ("gives %r" % o.strip(), "accepted")
    P = [("deep", x) for x in ("sub/inner", "./sub", "sub/", "sub/.", "sub/../sub", "../deep/sub", "sub//inner", "/sub", "x\\y", "sub/inner/..")] + [("deep/sub", x) for x in (".", "..", "./", "../sub", "inner/..", "/")] + [("", "deep/sub"), ("", absp), ("deep/sub/inner", ".."), ("deep/sub/inner", "../..")]
    t.each([("module name '%s' below '%s' as %s" % (x, r or ".", how), x, how, r) for r, x in P for how in ("name", "alt", "include")], refused)

    # templates of the own module and of included ones
    names = ["i%d" % i for i in range(1, 41)]
    for i in names:
        t.write("mm/%s/module.yaml" % i, spec("x"))
        t.write("mm/%s/templates/sub/_t.tpl" % i, '{{ define "t_%s" }}<%s>{{ end }}' % (i, i))
        t.write("mm/%s/templates/_u.tpl" % i, '{{ define "u_%s" }}<u%s>{{ end }}' % (i, i))
    def incl(order):
        body = "".join('{{ include "t_%s" . }}{{ include "u_%s" . }}' % (i, i) for i in order)
        f = t.write("in_%s/s.yaml" % "_".join(order), spec("S" + body + '{{ include "own" (dict "v" 5) }}', include=order))
        t.write("in_%s/templates/_o.tpl" % "_".join(order), '{{ define "own" }}[{{ .v }}]{{ end }}')
        rc, o, e = t.run(["-f", f, "-M", t.path("mm")])
        want = ("S" + "".join("<%s><u%s>" % (i, i) for i in order) + "[5]").encode()
        return None if rc == 0 and o.strip() == want else "gives %d %r instead of %r: %s" % (rc, o.strip(), want, e[-300:])
    t.each([("includes " + ",".join(o), list(o)) for m in range(0, 4) for o in itertools.permutations(names[:3], m)] + [("%d includes" % m, o) for m in (4, 5, 6, 7, 8, 9, 12, 16, 17, 24, 32, 33, 40) for o in (names[:m], names[:m][::-1])], incl)
    t.finish("every sequence of up to 3 search paths over 7 states of the module x {by name, with another specification, as include, by specification path}; up to 66 search paths; all orders of 3 includes, up to 40 includes; 20 names that are paths to modules")
    ck.assumptions += ["cobra, sprig, xstrings and copystructure are offline stand-ins (gostub)"]


def p22(ck, b):
    import tgrammar, enums
    t = Tool(ck, b, "forms")
    thorough = ck.tier == "thorough"
    progs = [("small", [("a.c", SMALL)])]
    big = lambda x: x
    # enumerations with boundary constants, layouts, declarations
    cs = [0, 1, -1, 2**31 - 1, -2**31, 2**31, 2**32 - 1, 2**32, 2**53 - 1, 2**53, 2**53 + 1, 2**62 + 1, 2**63 - 1, -2**63, -2**53 - 1, -2**63 + 1]
    L = lambda c: ("(-9223372036854775807LL-1)" if c == -2**63 else "%dLL" % c)
    progs.append(("consts", [("a.c", '#include "metac/reflect.h"\n' + "".join("enum e%d { C%d = %s } v%d; METAC_GSYM_LINK(v%d);\n" % (i, i, L(c), i, i) for i, c in enumerate(cs)) +
                              "".join("enum u%d { U%d = %s } w%d; METAC_GSYM_LINK(w%d);\n" % (i, i, c, i, i) for i, c in enumerate(("18446744073709551615ULL", "9223372036854775808ULL", "9007199254740993ULL")))
                              + "char big[0x20000000001ULL]; METAC_GSYM_LINK(big); char f0[0]; METAC_GSYM_LINK(f0); extern char fx[]; struct { int a; char f[]; } fs; METAC_GSYM_LINK(fs);\n"
                              + 'struct fa { char g[9007199254740993ULL]; char h; } *pf; METAC_GSYM_LINK(pf);\n')]))
    progs.append(("names", [("a.c", '#include "metac/reflect.h"\nint yes, no, on, off, y, n, null, Null, true_, e1, E10, x0x10, _, __, inf, Nan;\n' + "".join("METAC_GSYM_LINK(%s);\n" % x for x in "yes no on off y n null Null true_ e1 E10 x0x10 _ __ inf Nan".split()) + "int \u00e9t\u00e9; METAC_GSYM_LINK(\u00e9t\u00e9); struct yes { int no, null, on; enum { off_, y_ } e; } st; METAC_GSYM_LINK(st);\n")]))
    progs.append(("two", [("a.c", '#include "metac/reflect.h"\n#include "h.h"\nstruct sh a; METAC_GSYM_LINK(a);\nstatic struct loc { int x; } l; METAC_GSYM_LINK(l); void f(void) { WITH_METAC_DECLLOC(d, struct loc v = {1}); metac_entry_t *p = METAC_ENTRY_FROM_DECLLOC(d, v); }\n'), ("b.c", '#include "metac/reflect.h"\n#include "h.h"\nstruct sh b; METAC_GSYM_LINK(b);\nstatic struct loc { double x; } l2; METAC_GSYM_LINK(l2);\n')]))
    hdr = "struct sh { int q; struct sh *n; const volatile char *const s; int (*fn)(struct sh *, ...); };\n"
    src = tgrammar.source(thorough, "types")
    pre = src[src.index("/*PRE*/"):src.index("/*END*/")]
    progs.append(("types", [("a.c", '#include <complex.h>\n#include "metac/reflect.h"\n' + pre)]))
    src = tgrammar.source(thorough, "anon")
    pre = src[src.index("/*PRE*/"):src.index("/*END*/")]
    progs.append(("anon", [("a.c", '#include <complex.h>\n#include "metac/reflect.h"\n' + pre)]))
    N = 10300 if thorough else 2600
    progs.append(("large", [("a.c", '#include "metac/reflect.h"\nstruct large {\n' + "".join("char (*m%d)[%d];\n" % (i, i + 1) for i in range(N)) + "} large; METAC_GSYM_LINK(large);\n" + "".join("int lf%d(struct large *p, char (*q)[%d]) { return 0; } METAC_GSYM_LINK(lf%d);\n" % (i, N + i, i) for i in range(20)))]))
    flagsets = [("gcc", ("-g3",)), ("gcc", ("-g3", "-gdwarf-3", "-gstrict-dwarf")), ("gcc", ("-g3", "-gdwarf-4")), ("clang", ("-g3",)), ("gcc", ("-g3", "-O2"))]
    SP = {
        "e2y": "{{- dwarfToYaml (dwarfFromElf .path) -}}", "e2j": "{{- dwarfToJson (dwarfFromElf .path) -}}",
        "y2y": "{{- dwarfToYaml (dwarfFromYamlFile .path) -}}", "j2j": "{{- dwarfToJson (dwarfFromJsonFile .path) -}}",
        "y2j": "{{- dwarfToJson (dwarfFromYamlFile .path) -}}", "j2y": "{{- dwarfToYaml (dwarfFromJsonFile .path) -}}",
        "u2y": "{{- dwarfToYaml (dwarfFromUnstructured (dwarfToUnstructured (dwarfFromElf .path))) -}}",
        "file": '{{- dwarfToYamlFile (dwarfFromElf .path) .y -}}{{- dwarfToJsonFile (dwarfFromElf .path) .j -}}done',
    }
    for k, v in SP.items():
        t.write("sp/%s.yaml" % k, spec(v, "path: x"))

    def one(name, files, cc, flags, link=()):
        tag = re.sub(r"[^\w-]", "", "%s_%s%s" % (name, cc, "".join(flags + link)))
        t.write("%s/h.h" % tag, hdr)
        elf = compile_meta(t, tag, files, flags, cc, link)
        def do(argv, out=None):
            rc, o, e = t.run(argv, timeout=400)
            if rc:
                raise ValueError("%s fails: %s" % (" ".join(argv[:4]), e.decode("utf8", "replace")[-300:]))
            if out:
                # the tool ends its output with one line break of its own
                open(t.path(tag, out), "wb").write(o[:-1] if o.endswith(b"\n") else o)
            return o
        ex = lambda s, inp, out: do(["-f", t.path("sp", s + ".yaml"), "-s", json.dumps({"path": inp})], out)
        gen = lambda typ, p: do(["metac-reflect-gen", "-M", MODS, "-s", json.dumps({"path_type": typ, "path": p})])
        T = lambda f: t.path(tag, f)
        try:
            ref = gen("elf", elf)
            y, j = ex("e2y", elf, "y"), ex("e2j", elf, "j")
            for k, en in json.loads(j)["entries"].items():
                for f in en.get("fields", []):
                    if isinstance(f.get("val"), list) and any(not isinstance(x, int) or not 0 <= x <= 255 for x in f["val"]):
                        return "%s of entry %s is exported as %s" % (f.get("attr"), k, f["val"]), "no bytes"
            for a, bb, w in ((ex("y2y", T("y"), "yy"), y, "yaml exported again"), (ex("j2j", T("j"), "jj"), j, "json exported again"), (ex("u2y", elf, "uy"), y, "unstructured form exported as yaml"),
                             (ex("y2j", T("y"), "yj"), j, "yaml exported as json"), (ex("j2y", T("j"), "jy"), y, "json exported as yaml")):
                if a != bb:
                    al, bl = a.splitlines(), bb.splitlines()
                    d = next((i for i, (p, q) in enumerate(zip(al, bl)) if p != q), min(len(al), len(bl)))
                    k = next((i for i, (p, q) in enumerate(zip(a, bb)) if p != q), 0)
                    return "%s differs: %r instead of %r" % (w, a[max(0, k - 80):k + 60], bb[max(0, k - 80):k + 60]), "differs"
            do(["-f", t.path("sp", "file.yaml"), "-s", json.dumps({"path": elf, "y": T("fy"), "j": T("fj")})])
            for f, g in (("fy", "y"), ("fj", "j")):
                if open(T(f), "rb").read() != open(T(g), "rb").read():
                    return "exported file differs from the printed export", "differs"
            for typ, f in (("yaml", "y"), ("json", "j"), ("yaml", "yy"), ("json", "yj"), ("yaml", "jy")):
                if gen(typ, T(f)) != ref:
                    return "reflection data generated from %s (%s) differ" % (typ, f), "differs"
            for i, typ in enumerate(("elf", "yaml", "json")):
                p = (elf, T("y"), T("j"))[i]
                a = do(["metac-test-gen", "-M", MODS, "-s", json.dumps({"path_type": typ, "path": p})])
                if i == 0:
                    rt = a
                elif a != rt:
                    return "test runner generated from %s differs" % typ, "differs"
        except ValueError as e:
            return str(e), "failed"
        finally:
            shutil.rmtree(t.path(tag), ignore_errors=True)
        return None, "equal"
    C = []
    for name, files in progs:
        for cc, fl in flagsets:
            if name == "large" and (cc, fl) != ("gcc", ("-g3",)):
                continue
            if name in ("types", "anon") and fl != ("-g3",) and not thorough and not (name == "types" and "-gdwarf-3" in fl):
                continue
            if cc == "clang" and name == "consts":
                files = [(f, x.replace("char big[0x20000000001ULL]; METAC_GSYM_LINK(big);", "")) for f, x in files]
            C.append(("program %s, %s %s" % (name, cc, " ".join(fl)), name, files, cc, fl))
    # addresses of every magnitude
    for addr in ("0x7fff0000", "0x80000000", "0x100000000", "0x200000000", "0x20000000010000", "0x7fffffff00000000", "0x8000000000000000", "0xffffffff80000000"):
        C.append(("program small at address %s" % addr, "small", progs[0][1], "gcc", ("-g3", "-mcmodel=large"), ("-no-pie", "-Wl,-Ttext-segment=" + addr)))
    t.each(C, one)
    t.finish("programs {one structure, 19 boundary constants and array sizes, 17 names that look like other yaml values, two files, all types of the grammar, anonymous aggregates, a structure of thousands of types (gcc -g3 only)} x 5 compilers/debug formats x {binary, yaml, json, yaml/json exported again, unstructured form, exported files} for both generators")


TESTMAIN = '#include <check.h>\n#include "metac/test.h"\n'


def p24(ck, b):
    t = Tool(ck, b, "runner")
    thorough = ck.tier == "thorough"
    names = ["a", "test", "test_1", "x__y", "_u", "mtest_z", "ttest", "gsym_a", "a_ttest2", "Z9"]
    inc = ["-I" + os.path.join(vlib.REPO, "include")]

    def one(files, noise):
        """files: list of lists of (name, passes)"""
        tag = "r%d" % abs(hash(repr((files, noise))))
        try:
            srcs = []
            want = {}
            for i, f in enumerate(files):
                x = TESTMAIN
                if noise:
                    x += "static int metac__test; int metac__tests_n%d = 1; int metac__testx_n%d; int xmetac__test_n%d; int metac_test_n%d; static int metac__dflt_test_n%d; int not_metac__test_q%d(void) { static int metac__test_inner = 3; { int metac__test_inner2 = 4; } return metac__test_inner; } struct { int metac__test_member; } st%d;\n" % ((i,) * 7)
                for n, ok in f:
                    want[n] = ok
                    x += "METAC_START_TEST(%s) { %s; } END_TEST\n" % (n, "ck_assert_int_eq(1, %d)" % (1 if ok else 2))
                srcs.append(t.write("%s/f%d.c" % (tag, i), x))
            dm = t.write(tag + "/dummy.c", "int main(int argc, char **argv) { return 0; }\n")
            objs = []
            for s in srcs + [dm]:
                vlib.sh(["gcc", "-w", "-g3", "-D_METAC_OFF_"] + inc + ["-c", s, "-o", s + ".meta.o"])
                objs.append(s + ".meta.o")
            meta = t.path(tag, "meta")
            vlib.sh(["gcc"] + objs + ["-o", meta, "-lcheck_pic", "-lrt", "-lm", "-lsubunit", "-lpthread"])
            rc, o, e = t.run(["metac-test-gen", "-M", MODS, "-s", 'path_type: "elf"', "-s", json.dumps({"path": meta})])
            if rc:
                return "the generator fails: " + e.decode("utf8", "replace")[-400:], "failed"
            r = t.write(tag + "/runner.c", o)
            exe = t.path(tag, "exe")
            c = subprocess.run(["gcc", "-w", "-g3"] + inc + srcs + [r, "-o", exe, "-lcheck_pic", "-lrt", "-lm", "-lsubunit", "-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if c.returncode:
                return "the runner does not build: " + c.stderr.decode("utf8", "replace")[-600:], "failed"
            q = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=dict(os.environ, CK_VERBOSITY="verbose", CK_FORK="no" if all(want.values()) else "yes"), timeout=60)
            got = []
            for ln in q.stdout.decode("utf8", "replace").splitlines():
                p = ln.split(":")
                if len(p) >= 6 and p[2] in ("P", "F", "E"):
                    got.append((p[4], p[2] == "P", p[3]))
            exp = sorted((n, ok, "default") for n, ok in want.items())
            if sorted(got) != exp:
                return "ran %s instead of %s" % (sorted(got), exp), "wrong"
            if (q.returncode == 0) != all(want.values()):
                return "exit status %d although %s" % (q.returncode, "all tests pass" if all(want.values()) else "a test fails"), "wrong"
            return None, "%d tests in %d files" % (len(want), len(files))
        finally:
            shutil.rmtree(t.path(tag), ignore_errors=True)
    C = []
    def add(files, noise):
        C.append(("tests %s%s" % (" | ".join(",".join(n + ("" if ok else " (fails)") for n, ok in f) or "none" for f in files), " beside look-alikes" if noise else ""), files, noise))
    for noise in (0, 1):
        add([[]], noise)
        for n in names:
            for ok in (1, 0):
                add([[(n, ok)]], noise)
    for n in range(1, 4 if not thorough else 6):
        for oks in itertools.product((1, 0), repeat=n):
            for split in range(0, n + 1):
                l = list(zip(names[1:] , oks))
                add([l[:split], l[split:]], 1)
                if thorough or n < 3:
                    add([l[split:], l[:split], []], 0)
    for p in itertools.permutations(names[:4], 3):
        add([[(p[0], 1)], [(p[1], 1)], [(p[2], 0)]], 1)
    add([[(n, 1) for n in names]], 1)
    add([[("t%d" % i, 1) for i in range(60)]], 0)
    add([[("t%d" % i, 0) for i in range(256)]], 0)     # as many failures as an exit status can't tell
    add([[("t%d" % i, 0) for i in range(200)], [("u%d" % i, i % 3 != 0) for i in range(168)]], 0)
    t.each(C, one)
    t.finish("every single test over 10 names x outcome x look-alike variables; every split of 1..%d tests with every outcome over two or three files; permutations over three files; 60 tests, 256 failing tests" % (5 if thorough else 3))
    ck.assumptions += ["libcheck reports what it ran"]
