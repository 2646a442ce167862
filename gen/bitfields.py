"""C source of the bit-field exploration: for every integer type, (preceding bits, width) combinations laid out one
after another in few structures (plain: aligned units, packed: straddling units), with the compiler's accessors."""
TYPES = [("uc", "unsigned char", 8, 0, "uchar"), ("ch", "char", 8, 1, "char"), ("us", "unsigned short", 16, 0, "ushort"),
         ("ss", "short", 16, 1, "short"), ("ui", "unsigned int", 32, 0, "uint"), ("si", "int", 32, 1, "int"), ("ul", "unsigned long", 64, 0, "ulong"),
         ("sl", "long", 64, 1, "long"), ("uq", "unsigned long long", 64, 0, "ullong"), ("sq", "long long", 64, 1, "llong"), ("bo", "_Bool", 1, 0, "bool")]


def combos(bits, thorough):
    """(preceding bits, width)"""
    if bits == 1:
        return [(o, 1) for o in range(0, 8)]
    r = []
    for o in range(bits):
        for w in range(1, bits - o + 1):
            if bits <= 8:
                r.append((o, w))
            elif bits == 16:
                if thorough or o in (0, 1, 7, 8, 9, 15) or w in (1, 8) and o % 3 == 0 or o + w == 16:
                    r.append((o, w))
            elif bits == 32:
                if o in (0, 1, 8, 31) and (w in (1, 2, 7, 8, 9, 15, 16, 17, 23, 24, 25, 30, 31, 32)) or o + w == 32 and o % 5 in (0, 2) or thorough and (o % 3 == 0 or w % 5 in (0, 1)):
                    r.append((o, w))
            else:
                if o in (0, 1, 31, 33, 63) and w in (1, 2, 8, 16, 30, 31, 32, 33, 34, 47, 48, 62, 63, 64) or o + w == 64 and o % 7 in (0, 3) or thorough and (o % 7 == 0 or w % 15 in (0, 1, 2)):
                    r.append((o, w))
    return r


def source(thorough, split=40):
    out = ['#include "bitfields_rt.h"', ""]
    rows = []
    for tag, ct, bits, sg, acc in TYPES:
        for packed in (0, 1):
            cs = combos(bits, thorough)
            for s0 in range(0, len(cs), split):
                nm = "%s%d_%d" % (tag, packed, s0 // split)
                out.append("struct B_%s { unsigned char lead;%s" % (nm, " unsigned char q:3;" if packed else ""))
                acs = []
                k = 0

                def fld(w, check, o=None):
                    nonlocal k
                    out.append("  %s m%d:%d;" % (ct, k, w))
                    if check:
                        acs.append("ACC(%s, m%d, %s)" % (nm, k, ct))
                        rows.append('ROW(%s, m%d, "%s width %d, %s bits before%s", %s, %d, %d)' % (nm, k, ct, w, o, ", packed" if packed else "", acc, w, sg))
                    k += 1
                for o, w in cs[s0:s0 + split]:
                    if bits == 1:
                        if o:
                            out.append("  unsigned char :%d;" % o)
                        fld(1, True, o)
                        out.append("  unsigned char :0;")
                        continue
                    if o:
                        fld(o, thorough, 0)
                    fld(w, True, o)
                    if bits - o - w:
                        fld(bits - o - w, False)
                    if not packed:
                        out.append("  %s :0;" % ct)
                out.append("  unsigned char end; }%s;" % (" __attribute__((packed))" if packed else ""))
                out.append("static struct B_%s v_%s; METAC_GSYM_LINK(v_%s);" % (nm, nm, nm))
                out += acs
    for far in (300, 8190, 70000, 40000000):   # the same behind a large member; the window of interest starts near the end of it
        for packed in (0, 1):
            nm = "far%d_%d" % (packed, far)
            out.append("struct B_%s { unsigned char lead[%d];%s" % (nm, far, " unsigned char q:3;" if packed else ""))
            acs = []
            for k, (ti, w) in enumerate([(0, 5), (5, 17), (4, 32), (7, 40), (6, 64), (3, 9), (10, 1), (9, 63), (1, 7), (2, 16)]):
                tag, ct, bits, sg, acc = TYPES[ti]
                out.append("  %s m%d:%d;" % (ct, k, w))
                acs.append("ACC(%s, m%d, %s)" % (nm, k, ct))
                rows.append('ROWAT(%s, m%d, "%s width %d, behind %d bytes%s", %s, %d, %d, %d)' % (nm, k, ct, w, far, ", packed" if packed else "", acc, w, sg, far - 16))
            out.append("  unsigned char end; }%s;" % (" __attribute__((packed))" if packed else ""))
            out.append("static struct B_%s v_%s; METAC_GSYM_LINK(v_%s);" % (nm, nm, nm))
            out += acs
    out.append("static struct row rows[] = {")
    out += ["    " + r + "," for r in rows]
    out.append("};")
    out.append('#include "bitfields_rt.c"')
    return "\n".join(out) + "\n"


if __name__ == "__main__":
    import sys
    print(source(len(sys.argv) > 1))
