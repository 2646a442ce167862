"""every enumeration with enumerators {a, b, alias of a} over boundary constants, plain and packed"""
CONST = [-2**63, -2**31 - 1, -2**31, -32769, -32768, -129, -128, -2, -1, 0, 1, 2, 127, 128, 200, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1]


def lit(v):
    return "(-9223372036854775807LL-1)" if v == -2**63 else "%dLL" % v if not -2**31 < v < 2**31 else "%d" % v


def width(a, b):
    """bits a bit-field needs to hold both"""
    neg = a < 0 or b < 0
    n = 1
    while not all((-(1 << (n - 1)) <= v < (1 << (n - 1))) if neg else (0 <= v < (1 << n)) for v in (a, b)):
        n += 1
    return n


def source(thorough):
    out = ['#include "enums_rt.h"']
    rows = []
    k = 0
    pairs = [(a, b) for i, a in enumerate(CONST) for b in CONST[i:]]
    if not thorough:
        pairs = [(a, b) for a, b in pairs if a in (-2**63, -2**31, -128, -1, 0, 1, b) and (b in (0, 1, 127, 128, 200, 255, 256, 32767, 32768, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1) or a == b)]
    for a, b in pairs:
        for packed in (0, 1):
            n = "E%d" % k
            k += 1
            out.append("enum %s { %s_a = %s, %s_b = %s, %s_dup = %s }%s;" % (n, n, lit(a), n, lit(b), n, lit(a), " __attribute__((packed))" if packed else ""))
            w = width(a, b)
            out.append("typedef enum %s t_%s; struct S_%s { unsigned char lead; enum %s f; t_%s arr[2]; unsigned char pad:3; enum %s bf:%d; unsigned char end; }; static struct S_%s v_%s; METAC_GSYM_LINK(v_%s);" % (n, n, n, n, n, n, w, n, n, n))
            out.append("ACC(%s)" % n)
            rows.append('ROW(%s, "{%d, %d}%s", %d)' % (n, a, b, " packed" if packed else "", w))
    # long enumerations: orders of constants x storage x length of names
    big = []
    orders = {"ascending": lambda i, n: i, "descending": lambda i, n: n - 1 - i, "scrambled": lambda i, n: (i * 101) % n,
              "signed": lambda i, n: (i * 101) % n - n // 2, "wide": lambda i, n: ((i * 101) % n - n // 2) * 2**40 + i, "unsigned": lambda i, n: 2**32 - 1 - (i * 101) % n,
              "duplicates": lambda i, n: (i * 101) % n // 2, "mirrored": lambda i, n: (-1) ** i * (i * 4096)}
    for cnt in ((2, 7, 127, 128, 129, 257, 300) if not thorough else (2, 3, 5, 7, 16, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000, 4000)):
        for on, of in orders.items():
            if cnt % 101 == 0:
                continue
            n = "B%d_%s" % (cnt, on)
            names = ["%s_%s%d" % (n, "x" * ((i * 13) % (200 if cnt < 1000 else 20)), i) for i in range(cnt)]
            out.append("enum %s { %s };" % (n, ", ".join("%s = %s" % (m, lit(of(i, cnt))) for i, m in enumerate(names))))
            out.append("static enum %s v_%s; METAC_GSYM_LINK(v_%s);" % (n, n, n))
            out.append("static struct bc bc_%s[] = {%s};" % (n, ", ".join('{"%s", (long long)%s}' % (m, m) for m in names)))
            out.append("static void bset_%s(long long v) { v_%s = (enum %s)v; } static long long bget_%s(void) { return (long long)v_%s; }" % (n, n, n, n, n))
            big.append('{"%d constants, %s", &METAC_GSYM_LINK_NAME(v_%s), bc_%s, %d, bset_%s, bget_%s}' % (cnt, on, n, n, cnt, n, n))
    out.append("static struct brow brows[] = {")
    out += ["    " + r + "," for r in big]
    out.append("};")
    out.append("static struct row rows[] = {")
    out += ["    " + r + "," for r in rows]
    out.append("};")
    out.append('#include "enums_rt.c"')
    return "\n".join(out) + "\n"
