"""functions over every pair of parameter kinds, every kind behind every register-exhausting prefix, triples over the
passing classes; variable arguments and argument lists in every position; every kind as result"""
# key: (parameter declaration with %s, argument type, class)
BASE = {"c": "char", "uc": "unsigned char", "s": "short", "us": "unsigned short", "i": "int", "u": "unsigned int", "l": "long",
        "ul": "unsigned long", "ll": "long long", "ull": "unsigned long long", "b": "bool", "f": "float", "d": "double",
        "ld": "long double", "fc": "float complex", "dc": "double complex", "ldc": "long double complex"}
KINDS = {k: (v + " %s", v) for k, v in BASE.items()}
KINDS.update({
    "pv": ("void *%s", "void *"), "pc": ("const char *%s", "const char *"), "pp": ("int **%s", "int **"), "fp": ("fp_t %s", "fp_t"),
    "fq": ("int (*%s)(int)", "fp_t"), "ar": ("int %s[3]", "int *"), "ta": ("ta_t %s", "short *"),
    "e1": ("enum e1 %s", "enum e1"), "n1": ("enum n1 %s", "enum n1"), "e2": ("enum e2 %s", "enum e2"), "e4": ("enum e4 %s", "enum e4"), "n4": ("te4_t %s", "te4_t"), "e8": ("enum e8 %s", "enum e8"),
    "ti": ("ti_t %s", "ti_t"), "ci": ("const int %s", "int"), "vs": ("volatile short %s", "short"), "tf": ("tf_t %s", "tf_t"),
    "ts": ("ts_t %s", "ts_t"), "cs": ("const struct S16 %s", "struct S16"),
    "U8": ("union U8 %s", "union U8"), "U16": ("union U16 %s", "union U16"), "UDL": ("union UDL %s", "union UDL"), "SB": ("struct SB %s", "struct SB"), "SFI": ("struct SFI %s", "struct SFI"),
})
for n in (1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 24, 40):
    KINDS["S%d" % n] = ("struct S%d %%s" % n, "struct S%d" % n)
KINDS["S16p"] = ("struct S16p %s", "struct S16p")
# floating point eightbytes or 16-byte alignment inside structures
FLOATS = {k: ("%s %%s" % t, t) for k, t in {"SF": "struct SF", "SD": "struct SD", "SFF": "struct SFF", "SDD": "struct SDD", "SDI": "struct SDI", "SID": "struct SID", "SF3": "struct SF3",
                                             "SLD": "struct SLD", "SFC": "struct SFC", "SDC": "struct SDC", "UD": "union UD", "SL32": "struct SL32"}.items()}
LARGE = {k: ("struct %s %%s" % k, "struct " + k) for k in ("S100", "S256", "S600", "S5000")}
DEFS = """
typedef int (*fp_t)(int); typedef short ta_t[4]; typedef int ti_t; typedef float tf_t;
enum e1 { e1a, e1b = 200 } __attribute__((packed)); enum n1 { n1a = -5, n1b = 100 } __attribute__((packed)); enum e2 { e2a, e2b = 60000 } __attribute__((packed));
enum e4 { e4a, e4b = 0x7fffffff }; typedef enum { n4a = -1000000, n4b } te4_t; enum e8 { e8a, e8b = 0x123456789abcll };
struct S1 { char a; }; struct S2 { short a; }; struct S3 { char a[3]; }; struct S4 { int a; }; struct S5 { unsigned char a[5]; }; struct S7 { char a[7]; }; struct S8 { long a; }; struct S9 { char a[9]; };
struct S12 { int a[3]; }; struct S16 { long a, b; }; struct S16p { char *p; int a, b; }; struct S17 { char a[17]; }; struct S24 { long a; struct S16p b; }; struct S40 { struct S16 a[2]; short b[4]; };
typedef struct { long a; int b[2]; } ts_t; union U8 { int i; long l; char *p; }; union U16 { long l; char c[16]; }; union UDL { double d; long l; }; struct SB { int a : 5; unsigned b : 27; int c; }; struct SFI { float f; int i; };
struct SF { float f; }; struct SD { double d; }; struct SFF { float a, b; }; struct SDD { double a, b; }; struct SDI { double a; long b; }; struct SID { long a; double b; }; struct SF3 { float a[3]; };
struct SLD { long double a; }; struct SFC { float complex a; }; struct SDC { double complex a; }; union UD { double d; float f; }; struct SL32 { long double a; long b[2]; };
struct S100 { char a[100]; }; struct S256 { long a[32]; }; struct S600 { int a[150]; }; struct S5000 { struct S16 a[300]; char b[200]; };
"""
CLASSES = ["i", "d", "ld", "c", "S16", "S24", "dc", "S3", "f"]


def signatures(thorough):
    ks = list(KINDS)
    seen = set()
    for a in ks:
        yield (a,)
    pair = ks if thorough else ["c", "us", "i", "l", "b", "f", "d", "ld", "fc", "dc", "ldc", "pv", "e1", "e8", "S3", "S8", "S16", "S17", "U8"]
    for a in ks:
        for b in ks:
            if a in pair or b in pair and (a, b) not in seen:
                if thorough or (a in pair and b in CLASSES) or (b in pair and a in CLASSES) or a == b:
                    seen.add((a, b))
                    yield (a, b)
    gp, fp = ((0, 1, 3, 4, 5, 6, 7, 8), (0, 1, 6, 7, 8, 9)) if thorough else ((0, 4, 5, 6), (0, 7, 8))
    for g in gp:
        for f in fp:
            for k in ks:
                yield ("i",) * g + ("d",) * f + (k, "l", "f", k, "S16", "ld", "c")
    tri = CLASSES + ["S8", "b", "ldc"] if thorough else CLASSES[:7]
    for a in tri:
        for b in tri:
            for c in tri:
                yield (a, b, c)


def long_signatures(thorough):
    """many parameters: one kind only, and all kinds in turn"""
    ks = list(KINDS)
    for n in (17, 33, 64) if not thorough else (16, 17, 31, 32, 33, 48, 63, 64, 65, 70):
        for k in CLASSES if not thorough else ks:
            yield (k,) * n
        for st in (1, 5, 7) if not thorough else range(1, 12):
            yield tuple(ks[(i * st) % len(ks)] for i in range(n))


def source(thorough, part=0, parts=1):
    take = lambda xs: list(xs)[part::parts]
    out = ['#include "calls_rt.h"', DEFS]
    allk = dict(KINDS)
    allk.update(FLOATS)
    allk.update(LARGE)
    order = list(allk)
    for k in order:
        out.append("typedef %s T_%s; static T_%s X_%s[NPAT][NPOS];" % (allk[k][1], k, k, k) if k not in ("ar", "ta", "fq") or True else "")
    rows = []
    n = 0

    def fn(sig, ret="void", pre=(), name=None):
        nonlocal n
        name = name or "f%d" % n
        n += 1
        out.append("%s %s(%s) { %s }" % (ret, name, ", ".join(allk[k][0] % ("a%d" % i) for i, k in enumerate(sig)) or "void", "return X_%s[0][0];" % ret[2:] if ret != "void" else ""))
        out.append("METAC_GSYM_LINK(%s);" % name)
        return name
    for sig in take(list(signatures(thorough)) + list(long_signatures(thorough))):
        f = fn(sig)
        out.append("static metac_value_t *c_%s(wrap_fn *w, metac_value_t *v, metac_tag_map_t *tm, int p) { return w(v, tm, %s); }" % (f, ", ".join("X_%s[p][%d]" % (k, i) for i, k in enumerate(sig))))
        rows.append('    {"%s", &METAC_GSYM_LINK_NAME(%s), %d, (const unsigned char[]){%s}, c_%s, -1, NULL},' % (",".join(sig), f, len(sig), ",".join("K_" + k for k in sig), f))
    for k in take(list(FLOATS) + list(LARGE)):
        for sig in ((k,), ("i", k, "d"), (k, k, k), ("l",) * 7 + (k, "i")):
            f = fn(sig)
            out.append("static metac_value_t *c_%s(wrap_fn *w, metac_value_t *v, metac_tag_map_t *tm, int p) { return w(v, tm, %s); }" % (f, ", ".join("X_%s[p][%d]" % (q, i) for i, q in enumerate(sig))))
            rows.append('    {"%s", &METAC_GSYM_LINK_NAME(%s), %d, (const unsigned char[]){%s}, c_%s, -1, NULL},' % (",".join(sig), f, len(sig), ",".join("K_" + q for q in sig), f))
    # variable arguments behind, and argument lists in front of, every kind
    tags = []
    fmts = ["", "%d", "%s|%ld", "%f%c%p%hd%Lf%lld%x%u"]
    for k in take(KINDS):
        for pos in ("e", "l", "m"):
            # e: (k, fmt, ...)   l: (k, fmt, va_list)   m: (fmt, va_list, k, i)
            name = "v%s_%s" % (pos, k)
            ps = {"e": [allk[k][0] % "a0", "const char *fmt", "..."], "l": [allk[k][0] % "a0", "const char *fmt", "va_list ap"], "m": ["const char *fmt", "va_list ap", allk[k][0] % "a0", "int a1"]}[pos]
            out.append("void %s(%s) { } METAC_GSYM_LINK(%s);" % (name, ", ".join(ps), name))
            for h in (1, 0):
                args = {"e": "X_%s[p][0], fmt, __VA_ARGS__" % k, "l": "X_%s[p][0], fmt, ap" % k, "m": "fmt, ap, X_%s[p][2], X_i[p][3]" % k}[pos]
                if pos == "e":
                    body = "switch (nf) { " + " ".join("case %d: return w(v, tm, X_%s[p][0], fmt%s);" % (j, k, a) for j, a in enumerate(["", ", 11", ', "str", -5L', ", 1.5, 'c', (void *)0x1234, -3, 2.25L, -7LL, 0xdeadu, 9u"])) + " } return NULL;"
                    out.append("static metac_value_t *c%d_%s(wrap_fn *w, metac_value_t *v, metac_tag_map_t *tm, int p, const char *fmt, int nf) { %s }" % (h, name, body)) if h else None
                elif h:
                    out.append("static metac_value_t *ci_%s(wrap_fn *w, metac_value_t *v, metac_tag_map_t *tm, int p, const char *fmt, ...) { va_list ap; va_start(ap, fmt); metac_value_t *r = w(v, tm, %s); va_end(ap); return r; }" % (name, args))
                    body = "switch (nf) { " + " ".join("case %d: return ci_%s(w, v, tm, p, fmt%s);" % (j, name, a) for j, a in enumerate(["", ", 11", ', "str", -5L', ", 1.5, 'c', (void *)0x1234, -3, 2.25L, -7LL, 0xdeadu, 9u"])) + " } return NULL;"
                    out.append("static metac_value_t *c%d_%s(wrap_fn *w, metac_value_t *v, metac_tag_map_t *tm, int p, const char *fmt, int nf) { %s }" % (h, name, body))
            kk = {"e": "K_%s, K_FMT, K_VA" % k, "l": "K_%s, K_FMT, K_VA" % k, "m": "K_FMT, K_VA, K_%s, K_i" % k}[pos]
            nn = 4 if pos == "m" else 3
            rows.append('    {"%s", &METAC_GSYM_LINK_NAME(%s), %d, (const unsigned char[]){%s}, NULL, %d, c1_%s},' % ({"e": "%s,fmt,...", "l": "%s,fmt,va_list", "m": "fmt,va_list,%s,i"}[pos] % k, name, nn, kk, 1 if pos == "m" else 2, name))
            tags.append('    METAC_TAG_MAP_ENTRY(METAC_GSYM_LINK_ENTRY(%s)) METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_PARAMETER({.n = "fmt"}), METAC_ZERO_ENDED_STRING()) METAC_TAG_MAP_SET_TAG(0, METAC_TEO_entry, 0, METAC_TAG_MAP_ENTRY_PARAMETER({.i = %d}), METAC_FORMAT_BASED_VA_ARG()) METAC_TAG_MAP_ENTRY_END' % (name, 1 if pos == "m" else 2))
    res = []
    for k in take(order):
        if k in ("ar", "ta"):
            continue
        f = fn((), "T_" + k, name="r_" + k)
        res.append('    {"%s", &METAC_GSYM_LINK_NAME(%s), K_%s},' % (allk[k][1], f, k))
    f = fn((), name="r_void")
    res.append('    {"void", &METAC_GSYM_LINK_NAME(r_void), K_N},')
    out.append("enum { %s, K_N, K_FMT, K_VA };" % ", ".join("K_" + k for k in order))
    out.append("static struct kind kinds[] = {")
    out += ['    {"%s", sizeof(T_%s), X_%s, {0}},' % (allk[k][1], k, k) for k in order]
    out.append("};")
    # the rows use the enumerators, so the functions above are emitted first and the table last
    out.append("static void fill_all(void) {")
    for k in order:
        t = allk[k][1]
        if k in BASE or k in ("ti", "ci", "vs", "tf"):
            out.append("    FILL_%s(%s);" % ("B" if k == "b" else "F" if k in ("f", "d", "ld", "tf") else "C" if k in ("fc", "dc", "ldc") else "I", k))
        elif t.startswith("enum") or k == "n4":
            out.append("    FILL_I(%s);" % k)
        elif k in FLOATS:
            out.append("    FILL_S(%s);" % k)
        else:
            out.append("    FILL_R(%s);" % k)
    m = {"ld": "MASK(K_ld, 10, 16)", "ldc": "MASK(K_ldc, 10, 16); MASK(K_ldc, 26, 32)", "SLD": "MASK(K_SLD, 10, 16)", "SL32": "MASK(K_SL32, 10, 16)"}
    out += ["    %s;" % v for v in m.values()]
    out.append("}")
    out.append("static struct row rows[] = {")
    out += rows
    out.append("};")
    out.append("static struct resrow resrows[] = {")
    out += res
    out.append("};")
    out.append("METAC_TAG_MAP_NEW(new_tags, NULL, {.mask = METAC_TAG_MAP_ENTRY_CATEGORY_MASK(METAC_TEC_func_parameter),},)")
    out += tags
    out.append("METAC_TAG_MAP_END")
    out.append('#include "calls_rt.c"')
    return "\n".join(x for x in out if x) + "\n"
