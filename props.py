"""the checks, one function per property"""
import os, sys
from concurrent.futures import ThreadPoolExecutor
import vlib
sys.path.insert(0, os.path.join(vlib.VERIF, "gen"))
from vlib import Build, Check, run_harness

REG = {}


def prop(pid, level="model_checking"):
    def d(f):
        REG[pid] = (f, level)
        return f
    return d


def harness_parts(ck, b, parts):
    """parts: dicts with name, part, mode, bound and build arguments; built in parallel, explored one after another"""
    if any(p.get("reflect", True) for p in parts):
        b.lib("asan")
    own = ("name", "part", "mode", "bound", "budget")
    with ThreadPoolExecutor(min(8, len(parts))) as ex:
        exes = list(ex.map(lambda p: b.harness(p["name"], **{k: v for k, v in p.items() if k not in own}), parts))
    r = []
    for p, exe in zip(parts, exes):
        budget = p.get("budget") or (420 if ck.tier == "quick" else 3 * 3600)
        res = run_harness(exe, ck.tier, mode=p.get("mode", ""), budget=budget)
        for v in res.violations:
            v["hname"] = p["name"]
        ck.add(p["part"], res, exe=exe, mode=p.get("mode", ""), bound=p.get("bound", ""))
        r.append(res)
    return r


def harness_part(ck, b, name, part, **kw):
    return harness_parts(ck, b, [dict(name=name, part=part, **kw)])[0]


def gen_src(b, name, text):
    d = b.p("gen")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, name + ".c")
    if not os.path.exists(f) or open(f).read() != text:
        open(f, "w").write(text)
    return f


def rebuild(b, pid, v):
    """used by --replay: make sure the harness of a recorded counterexample exists for the current tree"""
    if not os.path.exists(v["exe"]) and v.get("hname"):
        v["exe"] = b.harness(v["hname"], reflect=v["hname"] not in ("hashmap", "iterator"))


@prop("P01")
def p01(ck, b):
    harness_part(ck, b, "hashmap", "hashmap", reflect=False,
                 bound="all histories of length %d over 33 operations x 6 hash regimes x 3 capacities x prefills 0..13; all single allocation failures of 0..36-key lifecycles" % (4 if ck.tier == "thorough" else 3))
    ck.assumptions += ["single-threaded use", "keys are not mutated while stored"]


@prop("P02")
def p02(ck, b):
    harness_part(ck, b, "iterator", "iterator", reflect=False,
                 bound="every task program within (tasks, activations per task) in " + ("(1,4) (2,4) (3,3) (3,4) (4,3) (5,2)" + (" (4,4) (5,3)" if ck.tier == "thorough" else "")) + "; nesting depth up to %d" % (200000 if ck.tier == "thorough" else 60000))


@prop("P09")
def p09(ck, b):
    harness_part(ck, b, "basetypes", "accessors", bound="17 types x plain/packed x 11 placements (const, volatile, typedef, element, union) x 17 accessors x 10 boundary values x 3 backgrounds; comparison and copy between %s pairs of placements and types" % ("all" if ck.tier == "thorough" else "all same-type and a fifth of the mixed"), ldextra=())


@prop("P10")
def p10(ck, b):
    import bitfields
    src = gen_src(b, "bitfields_" + ck.tier, bitfields.source(ck.tier == "thorough"))
    harness_parts(ck, b, [dict(name="bitfields%d" % ver, part="bitfields-dwarf%d" % ver, src=src, deps=("bitfields_rt.c",),
                               gflags=("-g3", "-gdwarf-%d" % ver) + (("-gstrict-dwarf",) if ver == 3 else ()),
                               bound="types x preceding bits x widths x packed, and 10 fields behind 300/8190/70000/40000000 bytes; 4 backgrounds x all single-bit and boundary values") for ver in (5, 3)])


@prop("P11")
def p11(ck, b):
    import enums
    src = gen_src(b, "enums_" + ck.tier, enums.source(ck.tier == "thorough"))
    harness_part(ck, b, "enums", "enums", src=src, deps=("enums_rt.c",), bound="pairs of 26 boundary constants x plain/packed x member/element/bit-field x 3 backgrounds x 5 values (x 5 for equal/copy); enumerations of 2 to %d constants in 8 orders: every constant and its neighbours" % (4000 if ck.tier == "thorough" else 300))


def tgrammar_src(b, tier, part):
    import tgrammar
    return gen_src(b, "types_%s_%s" % (part, tier), tgrammar.source(tier == "thorough", part)), tgrammar.last_checks


@prop("P12")
def p12(ck, b):
    src, _ = tgrammar_src(b, ck.tier, "types")
    harness_part(ck, b, "types", "navigation", src=src, deps=("types_rt.c",), mode="nav", bound="every type of the grammar to depth 2 (base, enum, pointer, array, struct, union, packed, flexible array, const, volatile, function pointer, typedef, anonymous members); every member and element reachable from it")


@prop("P20")
def p20(ck, b):
    src, _ = tgrammar_src(b, ck.tier, "types")
    thorough = ck.tier == "thorough"
    conf = [("gcc", 5), ("gcc", 4), ("gcc", 3), ("clang", 5)] + ([("clang", 4), ("clang", 3)] if thorough else [])
    many, _ = tgrammar_src(b, ck.tier, "many")
    harness_parts(ck, b, [dict(name="types_many", part="many", src=many, deps=("types_rt.c",), mode="entry", bound="a structure that needs %d types without name" % (20600 if thorough else 2200))] +
                  [dict(name="types_%s%d" % (cc, ver), part="entries-%s-dwarf%d" % (cc, ver), src=src, deps=("types_rt.c",), mode="entry", metacc=cc, gflags=("-g3", "-gdwarf-%d" % ver) + (("-gstrict-dwarf",) if ver == 3 else ()),
                               bound="every type of the grammar to depth 2, bit-fields of 6 types x leading member x packed, functions without prototype, long and similar names, 22 functions; every entry reachable to depth 5") for cc, ver in conf])


@prop("P13")
def p13(ck, b):
    """the compiler is the oracle: every printed declaration is compiled as a redeclaration of the object it describes"""
    import re, subprocess
    srcs = [tgrammar_src(b, ck.tier, p) for p in ("decls", "anon")]
    checks = srcs[1][1]
    b.lib("asan")
    with ThreadPoolExecutor(2) as ex:
        exes = list(ex.map(lambda x: b.harness(x[0], src=x[1], deps=("types_rt.c",)), [("decls", srcs[0][0]), ("anon", srcs[1][0])]))
    rows, pre = [], ""
    for exe, (src, _) in zip(exes, srcs):
        r = subprocess.run([exe, "--mode", "cdecl"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        if r.returncode:
            ck.violation("cdecl", "printing all declarations", "crash: " + vlib._summ(r.stderr.decode("utf8", "replace")))
        rows += [ln.split("\t") for ln in r.stdout.decode().splitlines() if ln.startswith("CDECL\t")]
        text = open(src).read()
        t = text[text.index("/*PRE*/" if not pre else "/*VARS*/"):text.index("/*END*/")]
        pre += re.sub(r"METAC_GSYM_LINK\([a-z0-9]+\);", "", t) + "\n"
    chk = {n: (el, leaves, bits, enums) for n, el, leaves, bits, enums in checks}
    lines, desc = [], {}
    n = 0
    for _, kind, name, decl, d in rows:
        n += 1
        desc[n] = (kind, name, decl, d)
        tag = '#line %d "row"' % n
        if name in chk:
            if kind != "v":
                continue
            el, leaves, bits, enums = chk[name]
            o, w = el % ("(*o%s)" % name), el % name
            body = "__typeof__(%s) *o%s = &%s; { __extension__ %s; _Static_assert(sizeof(%s) == sizeof(*o%s) && sizeof(%s) == sizeof(%s), \"size\");" % (name, name, name, decl, name, name, w, o)
            for l in leaves:
                body += " _Static_assert(__builtin_types_compatible_p(__typeof__(&%s.%s), __typeof__(&%s.%s)), \"type of %s\");" % (w, l, o, l, l)
                body += " _Static_assert(__builtin_offsetof(__typeof__(%s), %s) == __builtin_offsetof(__typeof__(%s), %s), \"offset of %s\");" % (w, l, o, l, l)
            if bits:
                body += " __typeof__(%s) x; __typeof__(%s) y;" % (w, o)
            for l in bits:
                body += " __builtin_memset(&x, 0, sizeof x); __builtin_memset(&y, 0, sizeof y); x.%s = -1; y.%s = -1; if (__builtin_memcmp(&x, &y, sizeof x) || (x.%s < 0) != (y.%s < 0)) return %d;" % (l, l, l, l, n)
            for e, v in enums.items():
                body += " _Static_assert(%s == %d, \"enumerator\");" % (e, v)
            lines += [tag, "static int chk%d(void) { %s } return 0; }" % (n, body)]
        elif kind == "v":
            lines += [tag, "extern %s;" % decl]
        else:
            if decl.count("%s") != 1:
                ck.violation("cdecl", d, "declaration of the %s type of %s has no single placeholder: %s" % ({"p": "target", "e": "element"}[kind], name, decl))
                continue
            v = "x%s_%s" % (kind, name)
            # typeof drops nothing but top-level array decay, so the object of the sub-type is declared from the original
            lines += [tag, "extern __typeof__(%s) %s; extern %s;" % ({"p": "*" + name, "e": name + "[0]"}[kind], v, decl % v)]
    runs = "".join("    if (!r) r = chk%d();\n" % k for k, v in desc.items() if v[1] in chk and v[0] == "v")
    f = b.p("gen", "cdecl_check_%s.c" % ck.tier)
    open(f, "w").write("#include <complex.h>\n" + pre + "\n" + "\n".join(lines) + "\nint main(void) { int r = 0;\n" + runs + "    return r != 0 ? (__builtin_printf(\"%d\\n\", r), 1) : 0; }\n")
    c = subprocess.run(["gcc", "-w", "-fmax-errors=0", f, "-o", f[:-2]], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    res = vlib.Result()
    res.cases = res.total = len(rows)
    res.ops = sum(x[3].count("(") + x[3].count("[") + x[3].count("*") + 1 for x in rows)
    res.states = {x[3] for x in rows}
    res.nstates = len(res.states)
    res.samples = ["%s  =>  %s" % (x[4], x[3]) for x in rows[5::max(1, len(rows) // 4)]]
    seen = set()
    err = c.stderr.decode("utf8", "replace")
    for m in re.finditer(r"^row:(\d+):\d+: error: (.*)$", err, re.M):
        k = int(m.group(1))
        if k not in seen and k in desc:
            seen.add(k)
            kind, name, decl, d = desc[k]
            res.violations.append({"idx": k, "desc": d, "msg": "printed as '%s' (%s): %s" % (decl, {"v": "the object", "p": "its target type", "e": "its element type"}[kind], m.group(2)), "exe_none": True})
    if c.returncode and not res.violations:
        res.violations.append({"idx": 0, "desc": "all declarations", "msg": "do not compile: " + err[:1500], "exe_none": True})
    if not c.returncode:
        q = subprocess.run([f[:-2]], stdout=subprocess.PIPE, timeout=60)
        if q.returncode:
            kind, name, decl, d = desc[int(q.stdout.split()[0])]
            res.violations.append({"idx": 0, "desc": d, "msg": "bit-fields of the printed declaration differ: " + decl, "exe_none": True})
    ck.add("cdecl", res, bound="every declarator of pointer/array/const/function over int to depth %d, every constructor over 4 leaves, 20 functions, 87 anonymous aggregates and enumerations" % (5 if ck.tier == "thorough" else 4))


G_BOUND = "every graph of 1..3 nodes (two links and one interior/own-int pointer each; %s) under a pointer or as the top-level object; all slices of an array of 3; unions x strings x flexible arrays x pointers to pointers and arrays; lists through inner members; typed untyped pointers"


B_BOUND = "10 chains (open, closed at 5 places, doubly linked, with interior pointers or separate numbers) of 33 lengths 1..400 (thorough: 1,000) and 5 arrays of pointers (own, shared, interior, mutual) of 30 lengths 1..1,537 (thorough: 4,097); each of 1..9 also with its objects 4 GiB apart. The longest only where the cost allows"


@prop("P03")
def p03(ck, b):
    harness_part(ck, b, "deep", "copy", mode="copy", bound=G_BOUND % "dag and tree modes")
    harness_part(ck, b, "big", "big", mode="copy", bound=B_BOUND)


@prop("P04")
def p04(ck, b):
    harness_part(ck, b, "deep", "free", mode="free", bound=G_BOUND % "free records every address")
    harness_part(ck, b, "big", "big", mode="free", bound=B_BOUND)


@prop("P05")
def p05(ck, b):
    harness_part(ck, b, "deep", "equal", mode="equal", bound="all pairs of graphs of 1..2 nodes; every byte and every link of every graph of 1..3 nodes changed one at a time; dag and tree modes; both argument orders")
    harness_part(ck, b, "big", "big", mode="equal", bound=B_BOUND)
    harness_part(ck, b, "unknown", "undescribed", mode="equal", bound="10 kinds of undescribed data x 5 positions x every pair of 3 contents x what else differs (nothing, a member in front, behind, or behind the pointer) x 4 pointer modes x 3 union modes x dag/tree")


@prop("P06", "fault_enumeration")
def p06(ck, b):
    harness_part(ck, b, "oom", "no-memory", bound="28 objects (basic, bit-fields, pointers, lists, cycles, shared, tagged, undescribed) x copy (both allocators), comparison, free, text, navigation x modes; 23 declarations; tag maps, contexts, tag look-up; storages with 0..7 parameters x nesting; 9 captured calls x capture, text, copy, comparison; in each of them every allocation fails, alone and with all later ones; then the same call undisturbed")


@prop("P07")
def p07(ck, b):
    harness_part(ck, b, "unknown", "unknown", bound="10 kinds of unknown data x 5 positions x 3 contents (x 3 in arrays) x 4 pointer modes x 3 union modes x dag/tree x copy, equal (against every content), free, text; flexible arrays of 0..3 elements x 3 placements x modes")


@prop("P18")
def p18(ck, b):
    harness_part(ck, b, "printf", "printf", bound="every string of length <= %d over 14 characters; every byte as conversion behind 13 length modifiers; flags x widths x precisions x lengths x conversions; all pairs and triples of 24 conversions; up to 14 arguments in registers and on the stack" % (7 if ck.tier == "thorough" else 6))
    ck.assumptions += ["x86-64 SysV va_list layout; glibc's parse_printf_format is the reference for what a format consumes", "widths and precisions of at most 3 digits"]


@prop("P14")
def p14(ck, b):
    harness_part(ck, b, "tagmap", "tagmap", bound="15 entities (variables, members, parameters, types) x every single-level mask x attachment sequences to length %d; 49 two-level arrangements x sequences to length 2; external maps as only/first/last/middle level; every tag text over 6 characters to length %d (and inside longer texts) x 5 keys" % ((3, 8) if ck.tier == "thorough" else (2, 7)))


@prop("P15")
def p15(ck, b):
    harness_part(ck, b, "handlers", "handlers", bound="18 selector types (integers, enum, typedef, const, volatile, bit-fields) x 23 values x 8 arrangements (count before/behind, flexible array, union by number/cases/anonymous, cast with/without count); strings of length 0..19 in 6 arrangements; missing or wrong selectors; copy, comparison (every byte flipped), free, text; strict/tolerant, dag/tree")
    harness_part(ck, b, "params", "params", bound="counts in 9 parameter lists (front, behind, among similar names, missing, no number; 7 types) x 23 lengths -1..1,025; selectors among siblings with similar names: 4 arrangements x 4 values x 5 values of the others; containers of 0..3 items, open or ring, with the linking member at 15 offsets 0..65,544; copy, comparison, free, text; dag/tree")
    ck.assumptions += ["a described length never exceeds the memory that is there"]


@prop("P17")
def p17(ck, b):
    import calls
    n = 40 if ck.tier == "thorough" else 12
    bound = "%s; every kind behind every combination of %s integer and %s floating point arguments, followed by six more; all triples over %d passing classes; 12 structures with floating point or 16-byte alignment in 4 positions; variable arguments and argument lists behind/in front of every kind x 4 formats x described/undescribed; every kind as result; 3 value patterns, both entry points" % (("all pairs of 46 parameter kinds", "0..8", "0..9", 12) if ck.tier == "thorough" else ("pairs of 46 parameter kinds with the passing classes", "{0,4,5,6}", "{0,7,8}", 7))
    harness_parts(ck, b, [dict(name="calls%d" % i, part="calls%d" % i, src=gen_src(b, "calls_%s_%d" % (ck.tier, i), calls.source(ck.tier == "thorough", i, n)), deps=("calls_rt.c",), srcflags=("-g", "-O0", "-fno-omit-frame-pointer"), bound=bound) for i in range(n)])
    ck.assumptions += ["x86-64 SysV calling convention, gcc", "arguments have the parameter's type after default promotion"]


@prop("P16")
def p16(ck, b):
    harness_part(ck, b, "storage", "history", mode="history", bound="every sequence of up to %d appends of 7 kinds (4 plain, an array with its own description, two nested lists) into the storage or its nested storages to depth 3; then copy, change, growth, cleanup, reuse" % (6 if ck.tier == "thorough" else 5))
    harness_part(ck, b, "storage", "values", mode="values", bound="10 functions (no parameters, basic types, structures, counted arrays, strings, lists, shared pointers, variable arguments, argument lists) x every argument changed: all pairs compared in both orders, copied, printed, freed; dag and tree")


@prop("P08")
def p08(ck, b):
    """the compiler is the oracle: every printed text is compiled as initializer of an object of the value's type, which is compared with the value"""
    import re, subprocess, texts
    N = 40 if ck.tier == "thorough" else 8
    srcs = [gen_src(b, "texts_%s_%d" % (ck.tier, i), texts.source(ck.tier == "thorough", i, N)) for i in range(N)]
    bound = "%d types of a grammar (17 basic types, enumerations, pointers, arrays, structures, anonymous and unnamed ones, bit-fields, typedefs, const, volatile; depth %d) x %d value patterns; counted arrays, strings, unions, flexible arrays, cast pointers; every content of 4-byte arrays and strings over 12 characters; every char; every graph of 1..3 nodes" % (len(texts.types(ck.tier == "thorough")), 3, 9 if ck.tier == "thorough" else 5)
    parts = [dict(name="texts%d" % i, part="text%d" % i, src=srcs[i], mode="text", srcflags=("-g", "-O0", "-fno-omit-frame-pointer"), bound=bound) for i in range(N)]
    harness_parts(ck, b, parts)
    harness_part(ck, b, "big", "big", mode="text", bound=B_BOUND)
    chunks = []
    for p, src in zip(parts, srcs):
        r = subprocess.run([b.harness(p["name"], src=src, srcflags=p["srcflags"]), "--mode", "dump"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
        if r.returncode:
            ck.violation("compiled", "printing all values", "crash: " + vlib._summ(r.stderr.decode("utf8", "replace")))
        chunks.append([ln.split("\t") for ln in r.stdout.decode("latin1").split("\n") if ln.startswith("TEXT\t")])
    rows = [x for c in chunks for x in c]
    bad = [x for x in rows if len(x) != 6]
    for x in bad[:5]:
        ck.violation("compiled", x[-1], "the text contains a tab or line break: %r" % x)
    rows = [x for x in rows if len(x) == 6]
    res = vlib.Result()
    res.cases = res.total = len(rows)
    res.ops = len(rows)
    res.states = {x[4] for x in rows}
    res.nstates = len(res.states)
    res.samples = ["%s  =>  %s" % (x[5], x[4]) for x in rows[7::max(1, len(rows) // 3)]]

    def chunk(c):
        f = b.p("gen", "texts_check_%s_%d.c" % (ck.tier, c))
        mine = [x for x in chunks[c] if len(x) == 6]
        with open(f, "w", encoding="latin1") as o:
            o.write('#include "%s"\n' % srcs[c])
            for n, x in enumerate(mine):
                o.write('#line %d "row"\nstatic %s r%d = %s;\n' % (n + 1, "TY_" + x[2] if x[1] == "t" else texts.SPECIAL_T[int(x[2])], n, x[4]))
            o.write('#line 1 "main"\nstatic struct { int t, i; long k; const void *o; } R[] = {\n')
            for n, x in enumerate(mine):
                o.write("{%d, %s, %s, &r%d},\n" % (x[1] == "t", x[2], x[3], n))
            o.write("{0}};\nint main(void) { for (int n = 0; n < %d; ++n) { int cyc = 0, ok; if (R[n].t) { struct row *w = 0; for (unsigned j = 0; j < sizeof rows / sizeof *rows; ++j) if (rows[j].id == R[n].i) w = &rows[j]; void *e = calloc(1, w->size + 1); Q = R[n].k; w->fill(e); ok = w->eq(e, R[n].o); } else ok = xeq(R[n].i, xbuild(R[n].i, R[n].k, &cyc), R[n].o); if (!ok) printf(\"%%d\\n\", n); } return 0; }\n" % len(mine))
        v = []
        cc = subprocess.run(["gcc", "-w", "-O0", "-DTEXTCHECK", "-fmax-errors=0", f, "-o", f[:-2], "-lm"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=600, env=dict(os.environ, LC_ALL="C"))
        err = cc.stderr.decode("utf8", "replace")
        seen = set()
        for m in re.finditer(r"^row:(\d+):\d+: error: (.*)$", err, re.M):
            k = int(m.group(1)) - 1
            if k not in seen:
                seen.add(k)
                v.append({"idx": k, "desc": mine[k][5], "msg": "printed as %s, which does not compile: %s" % (mine[k][4], m.group(2)), "exe_none": True})
        if cc.returncode and not v:
            v.append({"idx": 0, "desc": "all initializers", "msg": "do not compile: " + err[:1500], "exe_none": True})
        if not cc.returncode:
            q = subprocess.run([f[:-2]], stdout=subprocess.PIPE, timeout=300)
            if q.returncode:
                v.append({"idx": 0, "desc": "all initializers", "msg": "the recreated values cannot be compared (status %d)" % q.returncode, "exe_none": True})
            for k in q.stdout.split():
                x = mine[int(k)]
                v.append({"idx": int(k), "desc": x[5], "msg": "printed as %s, which makes another value" % x[4], "exe_none": True})
            os.unlink(f[:-2])
        return v
    with ThreadPoolExecutor(8) as ex:
        for v in ex.map(chunk, range(N)):
            res.violations += v
    ck.add("compiled", res, bound=bound)
    ck.assumptions += ["floating point values are exact in the six printed decimals, finite, and within the range of double", "structures with a flexible array are printed as top-level objects (C has no initializer for them behind a pointer)"]


@prop("P22")
def p22(ck, b):
    import tool
    tool.p22(ck, b)


@prop("P23")
def p23(ck, b):
    import tool
    tool.p23(ck, b)


@prop("P24")
def p24(ck, b):
    import tool
    tool.p24(ck, b)


@prop("P25", "fault_enumeration")
def p25(ck, b):
    import tool
    tool.p25(ck, b)


@prop("P19")
def p19(ck, b):
    import multi
    multi.p19(ck, b)


@prop("P21")
def p21(ck, b):
    import multi
    multi.p21(ck, b)


def run(pid, tier):
    f, level = REG[pid]
    b = Build()
    ck = Check(pid, tier, level)
    try:
        f(ck, b)
    except vlib.GenRun as e:
        ck.cov["exhaustive"] = False
        ck.violation("generator", "reflection data of a valid program", str(e)[:1200])
    return ck.finish()
