"""programs of several files (P21): every ordered combination of files that use the same names for the same or for different
types is linked, generated and compiled like a user's program; what the reflection data says about a symbol must not depend
on the files it is linked with"""
import itertools, os, re, subprocess
import vlib
from tool import Tool, MODS

PRE = """#include "metac/reflect.h"
#ifdef _METAC_OFF_
#define L(...)
#else
#define L(...) __VA_ARGS__
#endif
"""
DUMP = r"""
#include "metac/reflect.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
static char *o; static size_t n, cap;
static void pr(const char *f, ...) { va_list a; for (;;) { va_start(a, f); int k = vsnprintf(o + n, cap - n, f, a); va_end(a); if (n + k + 1 < cap) { n += k; return; } cap = 2 * cap + k + 100; o = realloc(o, cap); } }
static struct { metac_entry_t *p; } ids[4000]; static int nid;
static void note(metac_entry_t *e) { if (!metac_entry_name(e) || metac_entry_kind(e) == METAC_KND_subprogram) return; for (int i = 0; i < nid; ++i) if (ids[i].p == e) return; if (nid < 4000) ids[nid++].p = e; }
static const char *cu; static metac_entry_t *lost; static int nlost;
static int in_cu(metac_entry_t *e, int depth) {
    if (!e || depth > 30) return 0;
    if (metac_entry_kind(e) == METAC_KND_compile_unit) { const char *x = metac_entry_name(e), *b = x ? strrchr(x, '/') : 0; b = b ? b + 1 : x; return b && strlen(b) > 4 && !strncmp(b + strlen(b) - 4, cu, 2) && !strcmp(b + strlen(b) - 2, ".c"); }
    for (int i = 0; i < (int)metac_entry_parent_count(e); ++i) if (in_cu(metac_entry_parent_entry(e, i), depth + 1)) return 1;
    return 0;
}
static void d(metac_entry_t *e, int depth, int names) {
    if (e && cu && !in_cu(e, 0)) { if (!nlost++) lost = e; }
    if (!e) { pr("nil"); return; }
    if (!depth) { pr("..."); return; }
    metac_quals_t q; memset(&q, 0, sizeof q);
    metac_entry_t *f = metac_entry_final_entry(e, &q); metac_size_t sz = 0;
    if (names) { char *c = metac_entry_cdecl(e); pr("[%s]", c ? c : "-"); free(c); }
    if (!f) { pr("(no type)"); return; }
    note(f);
    pr("%s%s%s k%d", q.flag_const ? "const " : "", q.flag_volatile ? "volatile " : "", q.flag_restrict ? "restrict " : "", (int)metac_entry_kind(f));
    if (metac_entry_name(f) && metac_entry_kind(f) != METAC_KND_subprogram) pr(" '%s'", metac_entry_name(f));
    if (metac_entry_kind(f) != METAC_KND_subprogram && metac_entry_kind(f) != METAC_KND_subroutine_type && !metac_entry_byte_size(f, &sz)) pr(" size %d", (int)sz);
    if (metac_entry_is_base_type(f)) { metac_encoding_t en = 0; metac_entry_base_type_encoding(f, &en); pr(" enc %d", (int)en); }
    else if (metac_entry_is_enumeration(f)) { for (int i = 0; i < metac_entry_enumeration_info_size(f); ++i) { struct metac_type_enumerator_info const *x = metac_entry_enumeration_info(f, i); pr(" %s=%lld", x->name, (long long)x->const_value); } }
    else if (metac_entry_is_pointer(f)) { if (metac_entry_is_void_pointer(f)) pr("->void"); else { if (metac_entry_is_declaration_pointer(f)) pr("(declared only)"); pr("->("); d(metac_entry_pointer_entry(f), depth - 1, 1); pr(")"); } }
    else if (metac_entry_has_elements(f)) { pr("[%lld](", (long long)metac_entry_element_count(f)); d(metac_entry_element_entry(f), depth - 1, 1); pr(")"); }
    else if (metac_entry_has_members(f)) {
        pr("{%d:", (int)metac_entry_member_count(f));
        for (int i = 0; i < (int)metac_entry_member_count(f); ++i) {
            metac_entry_t *m = metac_entry_by_member_id(f, i); metac_offset_t by = 0, bi = 0, bs = 0; int r = metac_entry_member_bitfield_offsets(m, &by, &bi, &bs);
            struct metac_member_raw_location_info ri; memset(&ri, 0, sizeof ri); metac_entry_member_raw_location_info(m, &ri);
            pr("%s@%d", metac_entry_name(m) ? metac_entry_name(m) : "", (int)ri.byte_offset); if (ri.p_bit_size) pr(" bits %d %d.%d:%d", r, (int)by, (int)bi, (int)bs); pr("("); d(metac_entry_member_entry(m), depth - 1, 1); pr(");");
        }
        pr("}");
    } else if (metac_entry_has_parameters(f)) {
        pr("(");
        for (int i = 0; i < (int)metac_entry_parameters_count(f); ++i) { metac_entry_t *m = metac_entry_by_paremeter_id(f, i); pr("%s%s:", metac_entry_name(m) ? metac_entry_name(m) : "", metac_entry_is_unspecified_parameter(m) ? "..." : ""); if (!metac_entry_is_unspecified_parameter(m)) d(metac_entry_parameter_entry(m), depth - 1, 1); pr(";"); }
        pr(")"); if (metac_entry_has_result(f)) { pr(":"); d(metac_entry_result_type(f), depth - 1, 1); }
    }
}
@EXT@
int main(void) {
    struct { const char *f; const char *(*n)(int); metac_entry_t *(*g)(int); } T[] = {@TAB@};
    for (unsigned k = 0; k < sizeof T / sizeof T[0]; ++k) for (int i = 0; T[k].n(i); ++i) { n = 0; pr(""); cu = T[k].f; d(T[k].g(i), @DEPTH@, 1); cu = 0; if (lost) printf("PARENT\t%s\t%s\t%s kind %d\n", T[k].f, T[k].n(i), metac_entry_name(lost) ? metac_entry_name(lost) : "", (int)metac_entry_kind(lost)); printf("SYM\t%s\t%s\t%s\n", T[k].f, T[k].n(i), o); }
    int cnt = nid; char **s = calloc(cnt + 1, sizeof *s);
    for (int i = 0; i < cnt; ++i) { n = 0; pr(""); d(ids[i].p, @DEPTH@, 0); s[i] = strdup(o); }
    for (int i = 0; i < cnt; ++i) for (int k = i + 1; k < cnt; ++k) if (!strcmp(s[i], s[k])) printf("TWICE\t%s\n", s[i]);
    printf("IDS\t%d\n", cnt);
    return 0;
}
"""
# what the name 'struct T' (and the names it uses) means in a file; %S% is the file's prefix
VARIANTS = [
    ("struct T declared only", "struct T;", 0),
    ("struct T{int a}", "struct T { int a; };", 1),
    ("struct T{int a,b}", "struct T { int a, b; };", 1),
    ("struct T{long a}", "struct T { long a; };", 1),
    ("struct T{int b}", "struct T { int b; };", 1),
    ("struct T{unsigned a}", "struct T { unsigned a; };", 1),
    ("struct T{int a:3}", "struct T { int a : 3; };", 1),
    ("struct T{int:2,a:3}", "struct T { int : 2; int a : 3; };", 1),
    ("struct T{int a aligned 16}", "struct T { int a __attribute__((aligned(16))); };", 1),
    ("struct T{struct T *a}", "struct T { struct T *a; };", 1),
    ("struct T{const struct T *a}", "struct T { const struct T *a; };", 1),
    ("struct T{struct W *a}", "struct W; struct T { struct W *a; };", 1),
    ("struct T{enum E a}, E{X,Y}", "enum E { X, Y }; struct T { enum E a; };", 1),
    ("struct T{enum E a}, E{X=1,Y}", "enum E { X = 1, Y }; struct T { enum E a; };", 1),
    ("struct T{struct {int a;}}", "struct T { struct { int a; }; };", 1),
    ("struct T{struct {long a;}}", "struct T { struct { long a; }; };", 1),
    ("struct T{union {int a;}}", "struct T { union { int a; }; };", 1),
    ("struct T{const int a}", "struct T { const int a; };", 1),
    ("struct T{int a[2]}", "struct T { int a[2]; };", 1),
    ("struct T{int n,a[]}", "struct T { int n; int a[]; };", 1),
    ("struct T{M a}, M int", "typedef int M; struct T { M a; };", 1),
    ("struct T{M a}, M long", "typedef long M; struct T { M a; };", 1),
    ("struct T{M a}, M struct{int x}", "typedef struct { int x; } M; struct T { M a; };", 1),
    ("struct T{M a}, M struct{int y}", "typedef struct { int y; } M; struct T { M a; };", 1),
    ("struct T{int (*a)(struct T*)}", "struct T { int (*a)(struct T *); };", 1),
    ("struct T{int (*a)(int)}", "struct T { int (*a)(int); };", 1),
    ("struct T{struct In a}, In{int x}", "struct In { int x; }; struct T { struct In a; };", 1),
    ("struct T{struct In a}, In{float x}", "struct In { float x; }; struct T { struct In a; };", 1),
    ("struct T{struct J *a}, J{struct In *i}, In{int x}", "struct In { int x; }; struct J { struct In *i; }; struct T { struct J *a; };", 1),
    ("struct T{struct J *a}, J{struct In *i}, In{float x}", "struct In { float x; }; struct J { struct In *i; }; struct T { struct J *a; };", 1),
    ("struct T{struct J *a}, J{struct In *i}, In declared only", "struct In; struct J { struct In *i; }; struct T { struct J *a; };", 1),
    ("struct T{struct J a[2]}, J{K *i[2]}, K of K2 of In*", "struct In { int x; }; typedef struct In *K2; typedef K2 K; struct J { K *i[2]; }; struct T { struct J a[2]; };", 1),
    ("struct T{struct J a[2]}, J{K *i[2]}, K of K2 of long*", "typedef long *K2; typedef K2 K; struct J { K *i[2]; }; struct T { struct J a[2]; };", 1),
]
M32 = "".join("int m%d; " % i for i in range(40))
LONG = "a_name_that_is_much_longer_than_the_names_people_usually_give_to_what_they_declare_and_goes_on_for_a_while"
# further meanings, paired only with the meanings of their own group, but with every compiler and debug format
GROUPS = [
    ("enumerations", [("E " + x, "enum E {%s}%s; struct T { enum E a; char b[16 - sizeof(enum E)]; };" % (x, at), 1) for x, at in [
        ("X=1,Y=2", ""), ("X=1,Y=2 ", "__attribute__((packed))"), ("X=0x100000001LL,Y=2", ""), ("X=0x200000001LL,Y=2", ""), ("X=-1,Y=2", ""), ("X=0xffffffffLL,Y=2", ""), ("X=2,Y=1", ""), ("Y=2,X=1", ""), ("X=1", ""), ("X=1,Y=2,Z=3", ""), ("X=0x8000000000000000ULL,Y=2", ""), ("X=0,Y=2,Z=0x100000000LL", "")]]),
    ("long names", [("long typedef " + x, "typedef %s %s; struct T { %s a; char c; };" % (x, LONG, LONG), 1) for x in ("int", "unsigned", "float", "struct T *", "const int", "volatile int", "struct { int a; }", "struct { int b; }", "union { int a; }", "enum { X0 }")]
        + [("long tag %s" % x, "struct %s %s; struct T { struct %s *a; char c; };" % (LONG, x, LONG), 1) for x in ("", "{ int a; }", "{ int b; }")]
        + [("long member %s" % x, "struct T { int %s; };" % (LONG + x), 1) for x in ("", "1", "2")]),
    ("qualifiers", [("T{%s}" % x, "struct T { %s; char b; };" % x, 1) for x in ("int *a", "const int *a", "int *const a", "volatile int *a", "const volatile int *a", "int *volatile a", "int *restrict a", "const int *const a", "int *a[1]", "int *const a[1]", "int **a", "int *const *a", "const struct T *a", "volatile struct T *a", "void *a", "const void *a", "char *a", "unsigned char *a", "signed char *a", "_Bool *a", "__int128 *a", "long long *a", "long *a")]),
    ("layouts", [("T{%s}" % x, "struct T { %s }%s;" % (x, at), 1) for x, at in [
        ("int:32; int a:3;", ""), ("int a:3; int:32;", ""), ("int a:3; int b:4; int c;", ""), ("int a:4; int b:3; int c;", ""), ("unsigned a:3; int b:4; int c;", ""), ("long a:3; long b:4;", ""), ("int a:3; int:0; int b:4;", ""), ("char a:3; char b:4; int c;", ""), ("int a; int b;", ""), ("int b; int a;", ""), ("char a; int b;", ""), ("char a; int b;", "__attribute__((packed))"), ("char a; int b;", "__attribute__((packed, aligned(8)))"),
        ("int c; int a:3;", ""), ("int:3; int a:3; int c;", ""), ("int:4; int a:3; int c;", ""), ("int a:3; int c;", ""),
        ("char a; int b __attribute__((aligned(2)));", "__attribute__((packed))"), (M32 + "int last;", ""), (M32 + "int Last;", ""), (M32 + "unsigned last;", ""), (M32 + "int last:31;", ""), (M32 + "int last[1];", ""), ("struct { int a; int b; };", ""), ("struct { int a; }; int b;", ""), ("struct { int a; } x; int b;", ""), ("union { int a; int b; }; int c;", ""), ("union { int a; int b; }; int c:31;", "")]]
        + [("T{union of %s}" % x, "union In { %s }; struct T { union In a; };" % x, 1) for x in ("int x; float y;", "float y; int x;", "int x; int y;", "int x;", "int x:31; float y;")]),
    ("functions and arrays", [("T{%s}" % x, "typedef int F(int); struct T { %s; };" % x, 1) for x in ("int (*a)(int, ...)", "int (*a)(int)", "int (*a)(long)", "void (*a)(int)", "int (*a)(int, int)", "int (*a)()", "int (*a)(void)", "F *a", "F **a", "int *(*a)(int)", "const int *(*a)(int)", "int (*a)(int (*)(int))", "int (*a)(int (*)(long))", "int (*a)(const int *)", "int (*a)(int *)", "int (*(*a)(int))[2]", "int (*(*a)(int))[3]",
        "int (*a)[2][3]", "int (*a)[3][2]", "int (*a)[6]", "int (*a)[]", "int (*a)[0]", "long (*a)[6]", "int (*a)[4294967302ULL]")]),
]
def chain(n, end, link):
    t = "struct J%d%s;" % (n, end)
    for i in range(n - 1, 0, -1):
        t += " typedef struct J%d *TJ%d; struct J%d { int k%d; %s; };" % (i + 1, i + 1, i, i, {"pointer": "struct J%d *a", "typedef": "TJ%d a", "array": "struct J%d *a[2]", "function": "void (*a)(struct J%d *)"}[link] % (i + 1))
    return t + " struct T { struct J1 *j; };"


# chains of structures which differ only at their far end (or come back to T there); deeper than the other groups
CHAINS = [("chain of %d by %s to J%s" % (n, link, end), chain(n, end, link), 1) for n, link in ((4, "pointer"), (7, "pointer"), (12, "pointer"), (7, "typedef"), (7, "array"), (7, "function")) for end in (" { int x; }", " { float x; }", "", " { struct T *x; }")]
USES = """
struct W { struct T *p; int n; };
struct N { struct N *next; struct T *t; };
union U { struct T *p; long l; const struct T *c; };
typedef struct T TT; typedef struct T *TP; typedef TP TPA[2];
struct Q { struct { struct T *t; } q; struct { TT *z; }; };
struct T *%S_p; struct T **%S_pp; struct T *%S_arr[3]; struct W %S_w; struct W *%S_wp; TP %S_tp; TPA %S_tpa; const struct T *%S_cp; volatile TT *%S_vp;
struct N %S_n; union U %S_u; struct Q %S_q; struct T *(*%S_fp)(struct T *, struct W *); int %S_i; const char *%S_s; void *%S_v;
int %S_f(struct T *p, TT *q, struct N *z) { return 0; }
struct T *%S_g(int a, ...) { return 0; }
"""
NAMES = ["p", "pp", "arr", "w", "wp", "tp", "tpa", "cp", "vp", "n", "u", "q", "fp", "i", "s", "v", "f", "g"]


def source(v, s):
    desc, text, full = v
    names = [s + "_" + x for x in NAMES]
    t = PRE + text + USES.replace("%S", s)
    if full:
        t += "struct T %s_t;\n" % s
        names.append(s + "_t")
    t += "".join("METAC_GSYM_LINK(%s);\n" % x for x in names)
    t += "L(metac_entry_t *get_%s(int i) { switch (i) { %s } return 0; }\nconst char *name_%s(int i) { static const char *const n[] = {%s, 0}; return n[i]; })\n" % (
        s, " ".join("case %d: return METAC_GSYM_LINK_ENTRY(%s);" % (i, x) for i, x in enumerate(names)), s, ", ".join('"%s"' % x for x in names))
    return t


class Multi:
    def __init__(self, t, pid):
        self.t, self.b = t, t.b
        self.cf = ["-I" + os.path.join(vlib.REPO, "include"), "-w"]
        self.lib = self.b.lib("plain")
        self.n = itertools.count()

    def compile(self, name, text, cc="gcc", flags=()):
        s = self.t.write(name + ".c", text)
        vlib.sh([cc] + self.cf + ["-g3"] + list(flags) + ["-D_METAC_OFF_", "-c", s, "-o", s[:-2] + ".meta.o"])
        vlib.sh(["gcc"] + self.cf + ["-O0", "-c", s, "-o", s[:-2] + ".o"])
        return s[:-2]

    def dumper(self, k, depth):
        pre = PREFIX[:k]
        t = DUMP.replace("@EXT@", "".join("extern const char *name_%s(int); extern metac_entry_t *get_%s(int);\n" % (s, s) for s in pre))
        t = t.replace("@DEPTH@", str(depth)).replace("@TAB@", ", ".join('{"%s", name_%s, get_%s}' % (s, s, s) for s in pre))
        s = self.t.write("dump%d_%d.c" % (k, depth), t)
        vlib.sh(["gcc"] + self.cf + ["-O1", "-c", s, "-o", s[:-2] + ".o"])
        return s[:-2] + ".o"

    def program(self, objs, main, flags=(), twice=False):
        """links, generates, compiles and runs; returns the lines of the program or an error"""
        base = self.t.path("prog", "p%d" % next(self.n))
        vlib.sh(["gcc"] + [o + ".meta.o" for o in objs] + ["-o", base + ".meta", "-Wl,--unresolved-symbols=ignore-all", "-nostartfiles", "-Wl,-e,0"])
        rc, out, err = self.t.run(["metac-reflect-gen", "-M", MODS, "-s", 'path_type: "elf"', "-s", 'path: "%s"' % (base + ".meta")])
        if rc:
            return None, "the generator fails: " + err.decode("utf8", "replace")[-300:]
        again = out if not twice else self.t.run(["metac-reflect-gen", "-M", MODS, "-s", 'path_type: "elf"', "-s", 'path: "%s"' % (base + ".meta")])[1]
        if again != out:
            return None, "a second run of the generator prints something else"
        open(base + ".reflect.c", "wb").write(out)
        try:
            vlib.sh(["gcc"] + self.cf + list(flags) + ["-O0", base + ".reflect.c", main] + [o + ".o" for o in objs] + [self.lib, "-lm", "-o", base])
        except vlib.BuildError as e:
            return None, "what the generator printed does not compile: " + str(e)[-400:]
        try:
            r = subprocess.run([base], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        except subprocess.TimeoutExpired:
            return None, "the program that reads its types does not finish"
        for x in (".meta", ".reflect.c", ""):
            os.unlink(base + x)
        if r.returncode:
            return None, "the program that reads its types fails (%d)" % r.returncode
        return [ln.split("\t") for ln in r.stdout.decode("utf8", "replace").splitlines()], None


PREFIX = ["xa", "xb", "xc"]


def strip(s):
    return re.sub(r"\bx[abc]_", "x_", s)


def p21(ck, b):
    t = Tool(ck, b, "files")
    m = Multi(t, "P21")
    thorough = ck.tier == "thorough"
    nf = 3 if thorough else 2
    from concurrent.futures import ThreadPoolExecutor
    ex = ThreadPoolExecutor(vlib.NPROC)
    depths = {d: {k: m.dumper(k, d) for k in range(1, nf + 1)} for d in (14, 40)}

    def family(fam, variants, tuples, cc="gcc", flags=(), depth=14):
        mains = depths[depth]
        lab = "%s%s: " % (fam, " (%s)" % " ".join((cc,) + tuple(flags)) if fam else "") if fam else ""
        tag = re.sub(r"\W", "", fam + cc + "".join(flags))
        jobs = [(i, k) for i in range(len(variants)) for k in range(nf)]
        objs = dict(zip(jobs, ex.map(lambda a: m.compile("%s_v%d_%s" % (tag, a[0], PREFIX[a[1]]), source(variants[a[0]], PREFIX[a[1]]), cc, flags), jobs)))
        alone = {}

        def single(i):
            ls, e = m.program([objs[(i, 0)]], mains[1], twice=True)
            if e:
                return e, "fails"
            alone[i] = {strip(l[2]): strip(l[3]) for l in ls if l[0] == "SYM"}
            if any("nil" in x or "(no type)" in x for x in alone[i].values()):
                return "a symbol has no type", "wrong"
            return None, "alone"
        t.each([("%sone file: %s" % (lab, v[0]), i) for i, v in enumerate(variants)], single)

        def combo(c):
            ls, e = m.program([objs[(v, k)] for k, v in enumerate(c)], mains[len(c)], twice=len(c) > 2 or c[0] <= c[1])
            if e:
                return e, "fails"
            seen = set()
            for l in ls:
                if l[0] == "TWICE":
                    return "one type is described by two entries: %s" % l[1][:200], "twice"
                if l[0] == "PARENT":
                    return "the compile unit of file %s is not among the parents of what %s uses: %s" % (l[1], l[2], l[3]), "parents"
                if l[0] != "SYM":
                    continue
                k = PREFIX.index(l[1])
                seen.add(l[2])
                want, got = alone[c[k]].get(strip(l[2])), strip(l[3])
                if want != got:
                    return "%s of file %d is described as %s, alone it is %s" % (l[2], k + 1, got[:300], (want or "")[:300]), "differs"
            if len(seen) != sum(len(alone[v]) for v in c):
                return "%d symbols instead of %d" % (len(seen), sum(len(alone[v]) for v in c)), "lost"
            return None, "same types" if len(set(c)) == 1 else "different types"
        if len(alone) == len(variants):
            t.each([("%sfiles %s" % (lab, " | ".join(variants[v][0] for v in c)), c) for c in tuples], combo)

    n = len(VARIANTS)
    core = [0, 1, 3, 9, 11, 13, 22, 29, 30]
    family("", VARIANTS, list(itertools.product(range(n), repeat=2)) + (list(itertools.product(core, repeat=3)) if thorough else []))
    forms = [("gcc", ()), ("gcc", ("-gdwarf-3", "-gstrict-dwarf"))]
    if thorough:
        forms += [("gcc", ("-gdwarf-4",)), ("clang", ())]
    total = 0
    for name, vs in GROUPS:
        for cc, fl in forms:
            if fl and not thorough and name != "layouts":
                continue
            # every unordered pair; the order of the files is covered by the family above (and by the thorough tier)
            tu = list(itertools.product(range(len(vs)), repeat=2)) if thorough else list(itertools.combinations_with_replacement(range(len(vs)), 2))
            total += len(tu)
            family(name, vs, tu, cc, fl)
    for cc, fl in forms:
        if not fl or thorough:
            tu = [(a, c) for a, c in itertools.product(range(len(CHAINS)), repeat=2) if a // 4 == c // 4 or thorough]
            total += len(tu)
            family("chains", CHAINS, tu, cc, fl, 40)
    t.finish("every ordered pair of files%s over %d meanings of the same names, every %s pair within %d further groups of meanings (%s, chains of up to 12 structures %d; %d pairs); every symbol to depth 14 (chains 40)" % (
        " and every ordered triple over 9 of them" if thorough else "", n, "ordered" if thorough else "unordered", len(GROUPS), ", ".join("%s %d" % (x, len(v)) for x, v in GROUPS), len(CHAINS), total))


# ---------------------------------------------------------------------------------------------------------------- P19
P19H = r"""#include "metac/reflect.h"
#include <stdio.h>
#include <string.h>
#define S(loc, decl...) WITH_METAC_DECLLOC(loc, decl);
void p19_use(const volatile void *p);
#ifdef _METAC_OFF_
#define CHK(loc, var, what) p19_use((const volatile void *)&var);
#define NUL(...)
#else
#define CHK(loc, var, what) p19_chk(METAC_ENTRY_FROM_DECLLOC(loc, var), #var, sizeof(var), what, #loc);
#define NUL(loc, var, what) p19_nul(METAC_ENTRY_FROM_DECLLOC(loc, var), #var, what, #loc);
#endif
extern int p19_n;
void p19_chk(metac_entry_t *e, const char *n, long sz, const char *what, const char *loc);
void p19_nul(metac_entry_t *e, const char *n, const char *what, const char *loc);
"""
P19M = r"""#include "p19.h"
int p19_n; static int bad; void p19_use(const volatile void *p) {}
void p19_chk(metac_entry_t *e, const char *n, long sz, const char *what, const char *loc) {
    ++p19_n; if (bad) return; metac_size_t s = -1;
    if (!e) { printf("BAD\t%s: %s at %s is not found\n", what, n, loc); bad = 1; return; }
    if (!metac_entry_name(e) || strcmp(metac_entry_name(e), n)) { printf("BAD\t%s: %s at %s is found as %s\n", what, n, loc, metac_entry_name(e) ? metac_entry_name(e) : "nothing"); bad = 1; return; }
    if (metac_entry_kind(e) == METAC_KND_subprogram) return;
    if (metac_entry_kind(e) != METAC_KND_variable) { printf("BAD\t%s: %s at %s is an entry of kind %d\n", what, n, loc, (int)metac_entry_kind(e)); bad = 1; return; }
    if (metac_entry_byte_size(e, &s) || s != sz) { printf("BAD\t%s: %s at %s has size %ld, the one declared there has %ld\n", what, n, loc, (long)s, sz); bad = 1; }
}
void p19_nul(metac_entry_t *e, const char *n, const char *what, const char *loc) { ++p19_n; if (e && !bad) { printf("BAD\t%s: %s is found at %s where it is not declared\n", what, n, loc); bad = 1; } }
@EXT@
int main(void) { @CALLS@ printf("N\t%d\n", p19_n); return 0; }
"""


def shapes(maxs, maxb, maxdepth):
    """bodies of functions: sites and nested blocks, no empty blocks; as nested lists"""
    out = []

    def rec(seq, stack, s, b, content):
        # stack: for every open block whether it has a site (directly or inside)
        if not stack and s:
            out.append("".join(seq))
        if len(seq) > 3 * maxs + 2 * maxb:
            return
        if s < maxs:
            rec(seq + ["S"], stack, s + 1, b, content)
        if b < maxb and len(stack) < maxdepth:
            rec(seq + ["{"], stack + [s], s, b + 1, content)
        if stack and s > stack[-1]:
            rec(seq + ["}"], stack[:-1], s, b, content)
    rec([], [], 0, 0, 0)
    return sorted(set(out), key=lambda x: (len(x), x))


def growth(n):
    """restricted growth strings: all ways to give n things equal or different names"""
    res = [[]]
    for i in range(n):
        res = [r + [k] for r in res for k in range((max(r) + 1 if r else 0) + 1)]
    return res


def bodies(maxs, maxb, maxdepth):
    for sh in shapes(maxs, maxb, maxdepth):
        blocks, cur, nb, sites = {}, [0], 0, []
        for c in sh:
            if c == "S":
                sites.append(cur[-1])
            elif c == "{":
                nb += 1
                cur.append(nb)
            else:
                cur.pop()
        for locs in growth(len(sites)):
            for vs in growth(len(sites)):
                if len({(sites[i], locs[i]) for i in range(len(sites))}) < len(sites) or len({(sites[i], vs[i]) for i in range(len(sites))}) < len(sites):
                    continue
                yield sh, sites, locs, vs


def function(fn, sh, sites, locs, vs, oneline, block, stat, size0):
    """text of one function; every site declares an array of its own size"""
    desc = "%s %s locs %s names %s" % (sh, "on one line" if oneline else "on several lines", "".join(map(str, locs)), "".join(map(str, vs)))
    if stat:
        desc += " static"
    if block != "{":
        desc += " " + block.strip()
    sep = " " if oneline else "\n"
    names = ["v%d" % k for k in range(4)] + ["nosuch"]

    def checks(blk):
        t = ""
        mine = [i for i, b in enumerate(sites) if b == blk and i < done]
        for i in mine:
            for k, n in enumerate(names):
                same = [j for j, b in enumerate(sites) if b == blk and vs[j] == k]
                if same and same[0] == i:
                    t += 'CHK(l%d, %s, "%s") ' % (locs[i], n, desc)
                elif same and oneline and same[0] < done:
                    t += 'CHK(l%d, %s, "%s") ' % (locs[i], n, desc)
                elif oneline and k in vs:
                    pass          # declared elsewhere on this line: not specified
                else:
                    t += 'NUL(l%d, %s, "%s") ' % (locs[i], n, desc)
        return t
    t, cur, nb, done = "void %s(void) {%s" % (fn, sep), [0], 0, 0
    for c in sh:
        if c == "S":
            t += "S(l%d, %schar v%d[%d])%s" % (locs[done], "static " if stat else "", vs[done], size0 + done, sep)
            done += 1
            t += checks(cur[-1]) + sep
        elif c == "{":
            nb += 1
            cur.append(nb)
            t += block + sep
        else:
            t += checks(cur.pop()) + "}" + sep
    t += checks(0) + "}\n"
    return t, desc


GSYM = r"""
extern int a1[]; int a1[3];
extern struct S s1; struct S { int a, b; }; struct S s1;
extern int e1; int e1 = 1;
char e2[7]; extern char e2[7];
int f1(int); int f1(int q) { return q; } int f1(int);
int f2(); int f2(int z, long y) { return 0; }
static int st1[5];
static inline int in1(int a) { return a; }
int f3(int a[3], const char *b); int f3(int *z, const char *w) { return 0; }
const volatile short cv = 1;
long tent; long tent;
void k1(a, b) int a; char b; {}
int same[9];
int h1(void) { char same[2]; { static char h1[3]; extern int e1; return same[0] + h1[0] + e1; } }
typedef int fnt(int); fnt ft; int ft(int q) { return q; }
fnt *fp; int (*fpa[4])(int); struct S *sp[6]; union V { int i; char c[11]; } un; enum EN { EA } en; struct { char q[13]; } an;
extern long x1[8]; int g1(int x);
int x_ = 0; short _x; char metac[15]; char metac_x[17]; char x__y[19];
"""
GNAMES = "a1 s1 e1 e2 f1 f2 st1 in1 f3 cv tent k1 same h1 ft fp fpa sp un en an x1 g1 x_ _x metac metac_x x__y".split()
DECLS = r"""
extern int dl1; extern char dl2[]; int dl3(int);
WITH_METAC_DECLLOC(g1, int dl1 = 1);
WITH_METAC_DECLLOC(g2, char dl2[5]);
WITH_METAC_DECLLOC(g3, int dl3(int q) { return q; })
WITH_METAC_DECLLOC(g4, char dl4[6]; char dl5[7], *dl6, **dl7, dl8[8][8]; int (*dl9)(int);)
WITH_METAC_DECLLOC(g5, char dl10[9]); WITH_METAC_DECLLOC(g6, char dl11[10]);
WITH_METAC_DECLLOC(g7, struct DLT { int a[11]; } dl12); WITH_METAC_DECLLOC(g8, union { char c[12]; } dl13);
WITH_METAC_DECLLOC(g9,) char dl14[13];
char dl15[14];
WITH_METAC_DECLLOC(g10, const char dl16[15]) = "x"; typedef char dlt[16]; WITH_METAC_DECLLOC(g11, volatile dlt dl17);
"""
DFOUND = [("g1", "dl1"), ("g2", "dl2"), ("g3", "dl3")] + [("g4", "dl%d" % i) for i in range(4, 10)] + [(g, d) for g in ("g5", "g6") for d in ("dl10", "dl11")] + [(g, d) for g in ("g7", "g8") for d in ("dl12", "dl13")] + [
    ("g9", "dl14")] + [(g, d) for g in ("g10", "g11") for d in ("dl16", "dl17")]
DBTYPES = {"structs": ["S", "DLT", "D1", "D2"], "unions": ["V", "U1"], "enums": ["EN", "E1"], "typedefs": ["fnt", "t1"], "base_types": ["int", "char", "long int", "short int"],
           "variables": ["a1", "s1", "e1", "e2", "st1", "cv", "tent", "same", "dl1", "dl4", "dl16", "loc1", "other"], "subprograms": ["f1", "f2", "in1", "k1", "h1", "ft", "dl3", "dbf", "dbg"]}
DBEXTRA = r"""
struct D1 { int a; }; struct D2 { struct D1 d; }; struct D2 d2v; union U1 { int a; } u1v; enum E1 { E1A } e1v; typedef struct D1 *t1; t1 t1v; int dbf(void) { int loc1 = 0; { short other = 1; return loc1 + other; } }
"""


def p19(ck, b):
    import props
    thorough = ck.tier == "thorough"
    props.harness_part(ck, b, "entrydb", "lookup", reflect=False, bound="every database over 5 files, 5 places and 5 names%s; every query with at most one unknown component" % ("" if thorough else " with at most 9 in total"))
    t = Tool(ck, b, "programs")
    m = Multi(t, "P19")
    t.write("p19.h", P19H)
    nlook = [0]
    # bodies of functions
    progs = []
    allb = list(bodies(3, 3 if thorough else 2, 2))
    kinds = [("{", 0), ("{", 1), ("for (int q = 0; q < 1; ++q) {", 0)]
    for cc, ver in (("gcc", 5), ("clang", 5)) + ((("gcc", 4), ("gcc", 3), ("clang", 4)) if thorough else ()):
        # clang 18 places a static variable of an inner block in the function, not in its block: left out
        for block, stat in [k for k in (kinds[:3] if thorough else kinds[:2]) if not (k[1] and cc == "clang")]:
            for one in (0, 1):
                for ch in range(0, len(allb), 40):
                    progs.append((cc, ver, block, stat, one, ch))

    def prog(files, main, cc, ver, flags=(), single=False):
        objs = []
        for f, text in files:
            s = t.write(f, text)
            o = s[:-2]
            vlib.sh([cc] + m.cf + list(flags) + ["-I" + t.dir, "-g3", "-gdwarf-%d" % ver] + (["-gstrict-dwarf"] if ver == 3 else []) + ["-D_METAC_OFF_", "-c", s, "-o", o + ".meta.o"], cwd=t.dir)
            vlib.sh(["gcc"] + m.cf + list(flags) + ["-I" + t.dir, "-O0", "-c", s, "-o", o + ".o"])
            objs.append(o)
        mm = t.write(main[0], main[1])
        vlib.sh(["gcc"] + m.cf + list(flags) + ["-I" + t.dir, "-O0", "-c", mm, "-o", mm[:-2] + ".o"])
        ls, e = m.program(objs, mm[:-2] + ".o", flags)
        for o in objs + [mm[:-2]]:
            for x in (".o", ".meta.o"):
                if os.path.exists(o + x):
                    os.unlink(o + x)
        if e:
            return e, "fails"
        bad = [l[1] for l in ls if l[0] == "BAD"]
        nlook[0] += sum(int(l[1]) for l in ls if l[0] == "N")
        if bad:
            return bad[0], "wrong"
        if not any(l[0] == "N" for l in ls):
            return "the program does not finish", "wrong"
        return None, "found"

    def fprog(cc, ver, block, stat, one, ch):
        text, fns = '#include "p19.h"\n', []
        size = 1
        for i, (sh, sites, locs, vs) in enumerate(allb[ch:ch + 40]):
            f, d = function("f%d" % i, sh, sites, locs, vs, one, block, stat, size)
            size += len(sites)
            text += f
            fns.append("f%d" % i)
        nm = "b%s%d_%d%d%d_%d" % (cc, ver, [k[0] for k in kinds].index(block), stat, one, ch)
        return prog([(nm + "/f.c", text)], (nm + "/m.c", P19M.replace("@EXT@", "".join("void %s(void);\n" % f for f in fns)).replace("@CALLS@", " ".join(f + "();" for f in fns))), cc, ver)
    def deep(cc, ver, block, stat, one, depth):
        text, fns, size = '#include "p19.h"\n', [], 1
        for d in depth:
            for pat in ("down", "up", "both", "twice", "many"):
                sh = {"down": "S{" * d + "S" + "}" * d, "up": "{" * d + "S" + "}S" * d, "both": "S{" * d + "S" + "}S" * d, "twice": ("{" * d + "S" + "}" * d) * 2, "many": "{S}" * (4 * d)}[pat]
                sites, cur, nb = [], [0], 0
                for ch in sh:
                    if ch == "S":
                        sites.append(cur[-1])
                    elif ch == "{":
                        nb += 1
                        cur.append(nb)
                    else:
                        cur.pop()
                k, pos = len(sites), [sites[:i].count(b_) for i, b_ in enumerate(sites)]
                f, _ = function("f%d" % len(fns), sh, sites, [(b_ + p_) % 4 for b_, p_ in zip(sites, pos)], [(b_ // 2 + p_) % 4 for b_, p_ in zip(sites, pos)], one, block, stat, size)
                size += k
                text += f
                fns.append("f%d" % len(fns))
        nm = "deep%s%d_%d%d%d" % (cc, ver, [k[0] for k in kinds].index(block), stat, one)
        return prog([(nm + "/f.c", text)], (nm + "/m.c", P19M.replace("@EXT@", "".join("void %s(void);\n" % f for f in fns)).replace("@CALLS@", " ".join(f + "();" for f in fns))), cc, ver)
    t.each([("deep functions (%s, dwarf %d, block %r%s, several lines)" % (cc, ver, bl, " static" if st else ""), cc, ver, bl, st, 0, (8, 15, 16, 17, 33)) for cc, ver in (("gcc", 5), ("gcc", 4), ("clang", 5)) for bl, st in kinds if not (st and cc == "clang")], deep)
    t.each([("functions %d.. (%s, dwarf %d, block %r%s, %s)" % (p[5], p[0], p[1], p[2], " static" if p[3] else "", "one line" if p[4] else "several lines"),) + p for p in progs], fprog)

    # files: every subset of file names
    fnames = ["a.c", "a/b.c", "a b.c", "a-b.c", "A.c", "a.c.c", "\u00e4.c"][:7 if thorough else 6]
    hdr = 'static void %s(void) { S(l0, char v0[%d]) CHK(l0, v0, "%s") NUL(l0, v1, "%s") }\n'

    def files(sub, order):
        d = "fs%x_%d" % (sum(1 << k for k in sub), order)
        fs, calls = [], ""
        for k in (sub if not order else sub[::-1]):
            text = '#include "p19.h"\n#include "h%d.h"\n' % k
            text += 'void f%d(void) { h%d(); S(l0, char v0[%d]) CHK(l0, v0, "file %s") NUL(l0, nosuch, "file %s")\n{ S(l0, char v1[%d]) CHK(l0, v1, "file %s") NUL(l0, v0, "file %s")\n } }\n' % (
                k, k, 2 * k + 1, fnames[k], fnames[k], 2 * k + 2, fnames[k], fnames[k])
            t.write(os.path.join(d, os.path.dirname(fnames[k]), "h%d.h" % k), hdr % ("h%d" % k, 100 + k, "header of " + fnames[k], "header of " + fnames[k]))
            fs.append((os.path.join(d, fnames[k]), text))
            calls += "f%d(); " % k
        return prog(fs, (d + "/m.c", P19M.replace("@EXT@", "".join("void f%d(void);\n" % k for k in sub)).replace("@CALLS@", calls)), "gcc", 5)
    subs = [s for n in range(1, len(fnames) + 1) for s in itertools.combinations(range(len(fnames)), n)]
    t.each([("files %s%s" % (", ".join(fnames[k] for k in s), " (linked in reverse)" if o else ""), s, o) for s in subs for o in ((0, 1) if thorough else (0,))], files)

    # symbols, global declarations, the database, modules
    def symbols(cc, ver, mod, where):
        d = "g%s%d%s%d" % (cc, ver, mod, where)
        other = "long x1[8]; int g1(int nm) { return 0; } struct D2 { char q[3]; } d2w; int dbg(int zz) { return 0; }\n"
        text = '#include "p19.h"\n' + ("METAC_MODULE(METAC_MODULE_NAME);\n" if mod else "") + GSYM + DECLS + DBEXTRA + "METAC_DB_LINK();\n"
        links = "".join("METAC_GSYM_LINK(%s);\n" % n for n in GNAMES)
        body = "#ifndef _METAC_OFF_\n"
        for n in GNAMES:
            body += 'p19_chk(METAC_GSYM_LINK_ENTRY(%s), "%s", sizeof(%s), "symbol", "link"); if (METAC_GSYM_LINK_NAME(%s).p_data != (void *)&%s) p19_nul((void *)1, "%s", "address of symbol", "link");\n' % ((n,) * 6)
        for g, n in DFOUND:
            body += 'CHK(%s, %s, "global declaration")\n' % (g, n)
        for g, n in itertools.product(["g%d" % i for i in range(1, 12)], ["dl%d" % i for i in range(1, 18)] + ["nosuch"]):
            if (g, n) not in DFOUND:
                body += 'NUL(%s, %s, "global declaration")\n' % (g, n)
        body += 'struct metac_db *db = METAC_DB_LINK_PTR(); if (!db || db->version != 0) p19_chk(0, "the database", 0, "database", "-"); else {\n'
        for k, ns in DBTYPES.items():
            knd = {"structs": "METAC_KND_struct_type", "unions": "METAC_KND_union_type", "enums": "METAC_KND_enumeration_type", "typedefs": "METAC_KND_typedef", "base_types": "METAC_KND_base_type", "variables": "METAC_KND_variable", "subprograms": "METAC_KND_subprogram"}[k]
            for n in ns + ["nosuch"]:
                body += 'dbq(&db->db_v0.%s, "%s", %s, %d);\n' % (k, n, knd, 0 if n == "nosuch" else 2 if n == "D2" else 1)
        body += "}\n#endif\n"
        dbq = r"""
static void dbq(struct name_to_entries *t, const char *n, int kind, int want) { int c = 0; ++p19_n;
    for (int i = 0; i < t->items_count; ++i) if (t->items[i].name && !strcmp(t->items[i].name, n)) for (int k = 0; k < t->items[i].entries_count; ++k) { metac_entry_t *e = t->items[i].entries[k]; ++c;
        if (!e || metac_entry_kind(e) != kind || !metac_entry_name(e) || strcmp(metac_entry_name(e), n)) p19_nul((void *)1, n, "database", "an entry of another kind or name"); }
    if (want ? c < want : c) { if (want) p19_chk(0, n, 0, "database", "the names"); else p19_nul((void *)1, n, "database", "the names"); } }
"""
        text += links + dbq + "void go(void) {\n" + body + "}\n"
        main = (d + "/m.c", P19M.replace("@EXT@", "void go(void);\n").replace("@CALLS@", "go();"))
        fs = [(d + "/s.c", text), (d + "/o.c", other)]
        return prog(fs if not where else fs[::-1], main, cc, ver, ("-DMETAC_MODULE_NAME=" + mod,) if mod else ())
    t.each([("symbols, declarations and database (%s, dwarf %d, module %s%s)" % (cc, ver, mod or "default", ", other file first" if w else ""), cc, ver, mod, w)
            for cc in ("gcc", "clang") for ver in (5, 4, 3) for mod in ("", "m", "m_x", "dflt2", "gsym") for w in (0, 1)], symbols)
    t.runs += nlook[0]
    t.finish("every function body of at most 3 sites and %d blocks with every choice of equal or different names x one or several lines; every subset of %d files; %d symbols, %d global declarations and the names database for gcc and clang, DWARF 3..5, 5 module names" % (3 if thorough else 2, len(fnames), len(GNAMES), len(DFOUND)))
