"""A bounded grammar of C types. Every derivation becomes a variable (or a function) of the explored program; next to it an
expected description is emitted whose numbers (sizes, offsets) are computed by the C compiler itself."""

BASE = [("char", "char", "METAC_ENC_signed_char"), ("unsigned char", "unsigned char", "METAC_ENC_unsigned_char"), ("signed char", "signed char", "METAC_ENC_signed_char"),
        ("short", "short int", "METAC_ENC_signed"), ("unsigned short", "short unsigned int", "METAC_ENC_unsigned"), ("int", "int", "METAC_ENC_signed"),
        ("unsigned int", "unsigned int", "METAC_ENC_unsigned"), ("long", "long int", "METAC_ENC_signed"), ("unsigned long", "long unsigned int", "METAC_ENC_unsigned"),
        ("long long", "long long int", "METAC_ENC_signed"), ("unsigned long long", "long long unsigned int", "METAC_ENC_unsigned"), ("_Bool", "_Bool", "METAC_ENC_boolean"),
        ("float", "float", "METAC_ENC_float"), ("double", "double", "METAC_ENC_float"), ("long double", "long double", "METAC_ENC_float"),
        ("float _Complex", "complex float", "METAC_ENC_complex_float"), ("double _Complex", "complex double", "METAC_ENC_complex_float"), ("long double _Complex", "complex long double", "METAC_ENC_complex_float")]


class Ctx:
    def __init__(self):
        self.pre = []      # C definitions
        self.xt = []       # expected trees
        self.n = 0
        self.memo = {}

    def name(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)


class T:
    """kind, plus: base(c,name,enc) enum(tag) ptr(sub or None) arr(sub,n) struct/union(tag,members,anon) td(tag,sub) q(sub, 'const'|'volatile') fn(ret,[params],va)"""

    def __init__(self, kind, **k):
        self.kind = kind
        self.__dict__.update(k)

    def decl(self, d):
        k = self.kind
        if k == "base":
            return self.c + (" " + d if d else "")
        if k in ("struct", "union", "enum"):
            return k + " " + self.tag + (" " + d if d else "")
        if k == "decl":
            return "struct " + self.tag + (" " + d if d else "")
        if k == "td":
            return self.tag + (" " + d if d else "")
        if k == "ptr":
            in_ = "*" + d
            s = self.sub
            if s is None:
                return "void " + in_
            if s.kind in ("arr", "fn"):
                in_ = "(" + in_ + ")"
            return s.decl(in_)
        if k == "q":
            if self.sub is None:
                return self.q + " void" + (" " + d if d else "")
            if self.sub.kind == "ptr":
                return self.sub.decl(self.q + (" " + d if d else ""))
            return self.q + " " + self.sub.decl(d)
        if k == "arr":
            return self.sub.decl("%s[%s]" % (d, "" if self.n < 0 else self.n))
        if k == "fn":
            ps = [t.decl(n) for n, t in self.params] + (["..."] if self.va else [])
            return (self.ret.decl if self.ret else (lambda x: "void " + x))("%s(%s)" % (d, ", ".join(ps) or ("void" if getattr(self, "proto", 1) else "")))
        raise Exception(k)

    def key(self):
        return self.decl("")


def strip(t):
    """(final type, quals)"""
    q = set()
    while t is not None and t.kind in ("td", "q"):
        if t.kind == "q":
            q.update(t.q.split())
        t = t.sub
    return t, q


def expect(c, t, offs=None):
    """emits the expected tree of t, returns the C name of it"""
    key = t.key()
    if key in c.memo:
        return c.memo[key]
    f, q = strip(t)
    me = c.name("xt_")
    c.memo[key] = me
    c.xt.append("extern struct xt %s;" % me)
    quals = "|".join(["Q_" + x for x in sorted(q)]) or "0"
    if f is None:   # qualified void
        c.xt.append("struct xt %s = {.kind = 0, .quals = %s};" % (me, quals))
        return me
    size = "0"
    complete = f.kind not in ("fn", "decl") and not (f.kind == "arr" and f.n <= 0)
    if complete:
        size = "sizeof(%s)" % f.decl("")
    K = {"base": "METAC_KND_base_type", "enum": "METAC_KND_enumeration_type", "ptr": "METAC_KND_pointer_type", "arr": "METAC_KND_array_type",
         "struct": "METAC_KND_struct_type", "union": "METAC_KND_union_type", "fn": "METAC_KND_subroutine_type", "decl": "METAC_KND_struct_type"}[f.kind]
    body = [".kind = %s" % K, ".quals = %s" % quals, ".size = %s" % size]
    if f.kind == "base":
        body += ['.name = "%s"' % f.name, ".enc = %s" % f.enc]
    elif f.kind == "enum":
        body += ['.name = "%s"' % f.tag, ".count = %d" % len(f.vals), ".en = (struct xe[]){%s}" % ", ".join('{"%s", %s}' % (n, n) for n in f.vals)]
    elif f.kind == "ptr":
        if f.sub is not None:
            body += [".sub = &%s" % expect(c, f.sub)]
            s, _ = strip(f.sub)
            if s is None:
                pass
            elif s.kind == "decl":
                body += [".declp = 1"]
    elif f.kind == "arr":
        body += [".count = %d" % f.n, ".sub = &%s" % expect(c, f.sub)]
    elif f.kind == "decl":
        body += ['.name = "%s"' % f.tag, ".decl = 1"]
    elif f.kind in ("struct", "union"):
        ms = []
        for n, mt, inline in f.members:
            if inline:   # anonymous member: offset of its first named leaf
                def first(x):
                    n0, t0, in0 = x.members[0]
                    return first(strip(t0)[0]) if in0 else n0
                m0 = strip(mt)[0]
                off = "__builtin_offsetof(%s, %s)" % (f.decl(""), first(m0))
                ms.append('{NULL, %s, &%s}' % (off, expect_inline(c, m0, f.decl(""))))
            else:
                w = getattr(f, "bits", {}).get(n)
                if w:
                    pf = c.name("probe")
                    c.xt.append("static void %s(void *p) { ((%s)p)->%s = -1; }" % (pf, T("ptr", sub=f).decl(""), n))
                    ms.append('{"%s", 0, &%s, %d, %s}' % (n, expect(c, mt), w, pf))
                else:
                    ms.append('{"%s", __builtin_offsetof(%s, %s), &%s}' % (n, f.decl(""), n, expect(c, mt)))
        body += ['.name = "%s"' % f.tag, ".count = %d" % len(ms), ".m = (struct xm[]){%s}" % ", ".join(ms)]
    elif f.kind == "fn":
        ps = ['{%s, 0, &%s}' % ("NULL", expect(c, t)) for n, t in f.params]
        if f.va or not getattr(f, "proto", 1):
            ps.append("{NULL, 0, NULL}")
        body += [".count = %d" % len(ps), ".m = (struct xm[]){%s}" % (", ".join(ps) or "{0}")]
        if f.ret:   # a qualifier of the result type is not part of the function type
            body += [".sub = &%s" % expect(c, f.ret.sub if f.ret.kind == "q" else f.ret)]
    c.xt.append("struct xt %s = {%s};" % (me, ", ".join(body)))
    return me


def expect_inline(c, t, outer):
    me = c.name("xt_")
    ms = []

    def first(x):
        n0, t0, in0 = x.members[0]
        return first(strip(t0)[0]) if in0 else n0
    base = "__builtin_offsetof(%s, %s)" % (outer, first(t))
    for n, mt, inline in t.members:
        if inline:
            m0 = strip(mt)[0]
            ms.append("{NULL, __builtin_offsetof(%s, %s) - %s, &%s}" % (outer, first(m0), base, expect_inline(c, m0, outer)))
        else:
            ms.append('{"%s", __builtin_offsetof(%s, %s) - %s, &%s}' % (n, outer, n, base, expect(c, mt)))
    c.xt.append("struct xt %s = {.kind = %s, .anon = 1, .count = %d, .m = (struct xm[]){%s}};" % (me, "METAC_KND_struct_type" if t.kind == "struct" else "METAC_KND_union_type", len(ms), ", ".join(ms)))
    return me


def define_aggr(c, t, attr=""):
    def body(t):
        s = ""
        for n, mt, inline in t.members:
            if inline:
                m0 = strip(mt)[0]
                s += " %s {%s };" % (m0.kind, body(m0))
            elif n in getattr(t, "bits", {}):
                s += " %s%s : %d;" % ("" if n[0] != "z" else "int : 0; ", mt.decl(n), t.bits[n])
            else:
                s += " %s;" % mt.decl(n)
        return s
    c.pre.append("%s %s {%s }%s;" % (t.kind, t.tag, body(t), attr))


def universe(thorough, part):
    c = Ctx()
    base = {b[0]: T("base", c=b[0], name=b[1], enc=b[2]) for b in BASE}
    I, Ch = base["int"], base["char"]

    def aggr(kind, members, attr=""):
        t = T(kind, tag=c.name("S" if kind == "struct" else "U"), members=members)
        define_aggr(c, t, attr)
        return t

    def td(sub):
        t = T("td", tag=c.name("td"), sub=sub)
        c.pre.append("typedef %s;" % sub.decl(t.tag))
        return t
    en = T("enum", tag=c.name("E"), vals=[])
    en.vals = [en.tag + "_x", en.tag + "_y", en.tag + "_z"]
    c.pre.append("enum %s { %s = -5, %s = 0, %s = 100000 };" % (en.tag, *en.vals))
    dc = T("decl", tag=c.name("Opaque"))
    c.pre.append("struct %s;" % dc.tag)
    s1 = aggr("struct", [("a", Ch, 0), ("b", base["long"], 0), ("c", base["short"], 0)])
    # self-referencing structure
    sr = T("struct", tag=c.name("S"), members=None)
    sr.members = [("v", I, 0), ("next", T("ptr", sub=sr), 0), ("kids", T("arr", sub=T("ptr", sub=sr), n=2), 0)]
    define_aggr(c, sr)
    leaves0 = list(base.values())
    leaves = [I, Ch, s1, en] + ([base["double"], base["unsigned long long"], sr] if thorough else [])
    fp = T("ptr", sub=T("fn", ret=I, params=[("x", I), ("y", T("ptr", sub=Ch))], va=0))

    def ctors(t):
        f, _ = strip(t)
        if f is None:
            return []
        r = [("ptr", lambda: T("ptr", sub=t))]
        flex = f.kind == "arr" and f.n <= 0
        if f.kind not in ("fn", "decl") and not flex:
            r += [("arr3", lambda: T("arr", sub=t, n=3)), ("arr1", lambda: T("arr", sub=t, n=1))]
            r += [("struct", lambda: aggr("struct", [("p", Ch, 0), ("m", t, 0), ("q", Ch, 0)]))]
            r += [("union", lambda: aggr("union", [("p", Ch, 0), ("m", t, 0)]))]
            r += [("flex", lambda: aggr("struct", [("n", I, 0), ("m", T("arr", sub=t, n=-1), 0)]))]
            if t.kind != "q" and t.kind != "arr":
                r += [("const", lambda: T("q", q="const", sub=t)), ("volatile", lambda: T("q", q="volatile", sub=t))]
            r += [("packed", lambda: aggr("struct", [("p", Ch, 0), ("m", t, 0), ("q", Ch, 0)], " __attribute__((packed))"))]
        if f.kind not in ("arr", "fn", "decl"):
            r += [("fnptr", lambda: T("ptr", sub=T("fn", ret=t, params=[("a", t)], va=1)))]
        r += [("typedef", lambda: td(t))]
        return r
    vars_ = []

    def add(t, why):
        f, _ = strip(t)
        if f is None or f.kind in ("fn", "decl") or (f.kind == "arr" and f.n <= 0):
            return
        vars_.append((t, why))
    for t in leaves0 + [en, s1, sr, fp]:
        add(t, "leaf")
    for t in [T("ptr", sub=None), T("ptr", sub=T("q", q="const", sub=None)), T("ptr", sub=dc), T("ptr", sub=T("q", q="const", sub=dc)), T("ptr", sub=td(dc)), T("ptr", sub=T("ptr", sub=None)), T("arr", sub=T("ptr", sub=None), n=2), T("arr", sub=T("arr", sub=T("arr", sub=I, n=4), n=3), n=2)]:
        add(t, "special")
    anon = T("struct", tag="?", members=[("i1", I, 0), ("i2", Ch, 0)])
    anonu = T("union", tag="?", members=[("u1", base["long"], 0), ("u2", T("arr", sub=Ch, n=9), 0)])
    nest = T("struct", tag="?", members=[("n0", Ch, 0), ("", T("union", tag="?", members=[("n1", base["double"], 0), ("n2", s1, 0)]), 1)])
    add(aggr("struct", [("h", Ch, 0), ("", anon, 1), ("mid", base["short"], 0), ("", anonu, 1), ("", nest, 1), ("t", Ch, 0)]), "anonymous members")
    add(aggr("union", [("h", Ch, 0), ("", anon, 1), ("", nest, 1)]), "anonymous members of a union")
    add(aggr("struct", [("f%d" % i, b, 0) for i, b in enumerate(leaves0)]), "all base types")
    add(aggr("struct", [("f%d" % i, b, 0) for i, b in enumerate(reversed(leaves0))], " __attribute__((packed))"), "all base types packed")
    add(aggr("struct", [("p%d" % i, T("ptr", sub=b), 0) for i, b in enumerate(leaves0)] + [("q", T("ptr", sub=sr), 0)]), "all pointers")
    add(aggr("struct", [("z", I, 0), ("arr0", T("arr", sub=I, n=0), 0)]), "zero-length array")
    # scale: many members, constants, parameters, dimensions, levels; long names; far offsets
    L = "n" * 250
    ben = T("enum", tag=c.name("E" + L), vals=[])
    ben.vals = ["%s_%s%d" % (ben.tag[:3] + ben.tag[-3:], "k" * (i % 130), i) for i in range(300)]
    c.pre.append("enum %s { %s };" % (ben.tag, ", ".join("%s = %d" % (n, (i * 7919) % 100003 - 50000) for i, n in enumerate(ben.vals))))
    add(ben, "enumeration of 300")
    for why, k, val in (("enumeration of 2000", 2000, lambda i: i * 3 - 2500), ("wide enumeration", 12, lambda i: (0x123456789abc, -2**40, 2**62 + 1, 2**32, 2**31, -2**31 - 1, 2**40 + 5, 5, -1, 2**63 - 1, -2**63 + 1, 2**33 + 5)[i]),
                        ("unsigned wide enumeration", 4, lambda i: (2**63 + 1, 5, 2**32 + 5, 2**33)[i])):
        x = T("enum", tag=c.name("EW"), vals=[])
        x.vals = ["%s_w%d" % (x.tag, i) for i in range(k)]
        c.pre.append("enum %s { %s };" % (x.tag, ", ".join("%s = %d%s" % (n, val(i), "" if k > 100 else "ULL" if val(i) >= 2**63 else "LL") for i, n in enumerate(x.vals))))
        add(x, why)
        add(aggr("struct", [("b", Ch, 0), ("e", x, 0), ("z", Ch, 0)]), why)
    add(aggr("struct", [("%s%d" % ("m" * (i % 120 + 1), i), leaves0[i % len(leaves0)], 0) for i in range(300)]), "300 members")
    add(aggr("union", [("u%d" % i, leaves0[i % len(leaves0)], 0) for i in range(260)]), "260 members")
    far = aggr("struct", [("pad", T("arr", sub=Ch, n=70001), 0), ("x", I, 0), ("s", s1, 0), ("a", T("arr", sub=base["short"], n=300), 0), ("e", ben, 0)])
    add(far, "far members")
    add(T("arr", sub=far, n=3), "array of far members")
    add(T("arr", sub=Ch, n=70000), "array of 70000")
    t = I
    for n in (2, 1, 3, 1, 2, 2, 1):
        t = T("arr", sub=t, n=n)
    add(t, "7 dimensions")
    add(aggr("struct", [("a", t, 0), ("b", T("arr", sub=T("arr", sub=T("arr", sub=s1, n=2), n=3), n=2), 0)]), "dimensions inside a structure")
    t = I
    for n in range(20):
        t = td(t)
        t = T("q", q=("const", "volatile")[n % 2], sub=t) if n in (3, 10) else t
    add(t, "20 typedefs")
    t = s1
    for n in range(12):
        t = T("ptr", sub=t)
    add(t, "12 pointers")
    t = s1
    for n in range(20):
        t = aggr("struct" if n % 3 else "union", [("b", Ch, 0), ("m", t, 0), ("z" + L, base["long"], 0)])
    add(t, "20 levels")
    add(T("ptr", sub=T("fn", ret=I, params=[("a%d" % i, leaves0[i % len(leaves0)]) for i in range(40)], va=1)), "pointer to a function of 40")
    add(T("ptr", sub=T("fn", ret=s1, params=[("a%d" % i, (leaves0 + [s1, T("ptr", sub=s1)])[i % (len(leaves0) + 2)]) for i in range(300)], va=0)), "pointer to a function of 300")
    hc = T("arr", sub=Ch, n=2000000000)
    huge = aggr("struct", [("a", hc, 0), ("b", hc, 0), ("c", hc, 0), ("x", I, 0), ("s", s1, 0), ("arr", T("arr", sub=T("arr", sub=base["long"], n=100000), n=10000), 0), ("y", I, 0)])
    add(T("ptr", sub=huge), "huge")
    # functions without prototype, restrict
    np = T("ptr", sub=T("fn", ret=I, params=[], va=0, proto=0))
    for t in [np, T("ptr", sub=np), T("arr", sub=np, n=2), T("ptr", sub=T("fn", ret=np, params=[("a", np)], va=1)), T("ptr", sub=T("fn", ret=None, params=[], va=0, proto=0)), T("ptr", sub=T("fn", ret=None, params=[], va=0)), aggr("struct", [("f", np, 0), ("g", td(np), 0)])]:
        add(t, "function without prototype")
    rp = T("q", q="restrict", sub=T("ptr", sub=I))
    for t in [rp, T("q", q="restrict", sub=T("ptr", sub=T("q", q="const", sub=T("ptr", sub=Ch)))), T("ptr", sub=rp), aggr("struct", [("p", rp, 0), ("q", T("ptr", sub=I), 0)]), T("q", q="restrict", sub=T("ptr", sub=None)), T("ptr", sub=T("fn", ret=I, params=[("a", T("ptr", sub=rp)), ("b", T("ptr", sub=s1))], va=0))]:
        add(t, "restrict")
    # names that differ far behind or only in their spelling, many types without a name
    for n in ["_%s" % x for x in "abc"] + ["", "_"]:
        x = T("struct", tag="S" + L + n, members=[("a" + n, T("arr", sub=Ch, n=len(vars_) + 1), 0)])
        define_aggr(c, x)
        add(x, "long name")
        y = T("td", tag="T" + L + n, sub=T("arr", sub=I, n=len(vars_) + 1))
        c.pre.append("typedef %s;" % y.sub.decl(y.tag))
        add(y, "long name")
        e = T("enum", tag="E" + L + "q" + n, vals=["Q" + L + n + "x"])
        c.pre.append("enum %s { %s = %d };" % (e.tag, e.vals[0], len(vars_)))
        add(e, "long name")
    for n in ("fooBar", "foo_bar", "FooBar", "FOO_BAR", "foo__bar", "_foo_bar", "Foo_Bar", "foobar"):
        x = T("struct", tag=n, members=[(n, T("arr", sub=Ch, n=len(vars_) + 1), 0)])
        define_aggr(c, x)
        add(x, "spelling")
        y = T("td", tag="t" + n, sub=T("ptr", sub=T("arr", sub=x, n=len(vars_) + 1)))
        c.pre.append("typedef %s;" % y.sub.decl(y.tag))
        add(y, "spelling")
    if part == "many":   # in a program of its own: the generator searches all types for every variable
        t = aggr("struct", [("m%d" % i, T("ptr", sub=T("arr", sub=Ch, n=i + 1)), 0) for i in range(10300 if thorough else 1100)])
        return c, [(t, "many types"), (T("ptr", sub=t), "many types")], []
    # bit-fields
    if part == "types":
        for kind in ("struct", "union"):
            for attr in ("", " __attribute__((packed))"):
                for bt in ("int", "unsigned int", "char", "long", "unsigned short", "_Bool"):
                    w = [1] if bt == "_Bool" else [1, 2, 7, 8] + ([15] if bt != "char" else []) + ([31, 32] if bt in ("int", "unsigned int", "long") else []) + ([33, 64] if bt == "long" else [])
                    for lead in ("", "char", "int"):
                        x = T(kind, tag=c.name("B"), members=([("h", base[lead], 0)] if lead else []) + [("%s%d" % ("z" if i % 3 == 2 and kind == "struct" else "b", i), base[bt], 0) for i in range(len(w))] + [("t", Ch, 0)])
                        x.bits = {m[0]: w[i] for i, m in enumerate(m for m in x.members if m[0] not in "ht")}
                        define_aggr(c, x, attr)
                        add(x, "bit-fields")
    frontier = [(t, "leaf") for t in leaves]
    roots = leaves
    depth = 2 if part == "types" else 1
    for d in range(depth):
        nxt = []
        frontier_l = [(t, w, r) for (t, w), r in zip(frontier, roots)]
        if d == 1 and not thorough:   # the second level over int only, in the quick tier
            frontier = [(t, w) for t, w, l in frontier_l if l is I]
        nroots = []
        for (t, w), r in zip(frontier, [r for _, _, r in frontier_l] if len(frontier_l) == len(frontier) else [I] * len(frontier)):
            for n, mk in ctors(t):
                x = mk()
                add(x, n + " of " + w)
                nxt.append((x, n + " of " + w))
                nroots.append(r)
        frontier, roots = nxt, nroots
    # declarator grammar: every nesting of pointer, array, qualifier and function over int
    def dctors(t):
        f, _ = strip(t)
        r = [("ptr", lambda: T("ptr", sub=t))]
        if f.kind != "fn":
            r += [("arr", lambda: T("arr", sub=t, n=2))]
        if t.kind not in ("q", "arr", "fn"):
            r += [("const", lambda: T("q", q="const", sub=t)), ("cv", lambda: T("q", q="const volatile", sub=t))]
            if t.kind == "ptr" and t.sub.kind != "fn":
                r += [("restrict", lambda: T("q", q="restrict", sub=t))]
        if t.kind != "q" and f.kind not in ("arr", "fn"):
            r += [("fn", lambda: T("fn", ret=t, params=[("a", t)], va=0))]
        return r
    seen = {t.key() for t, _ in vars_}
    frontier = [(I, "int")]
    for d in range(0 if part == "types" else 5 if thorough else 4):
        nxt = []
        for t, w in frontier:
            for n, mk in dctors(t):
                x = mk()
                nxt.append((x, n + " of " + w))
                if x.key() not in seen:
                    seen.add(x.key())
                    add(x, n + " of " + w)
        frontier = nxt
    # functions
    fns = []
    for t in [I, Ch, s1, en, base["double"], T("ptr", sub=s1), td(T("ptr", sub=Ch)), base["long double"], base["double _Complex"]]:
        fns.append(T("fn", ret=t, params=[("a", t), ("b", I)], va=0))
        fns.append(T("fn", ret=None, params=[("p", T("ptr", sub=t)), ("c", T("q", q="const", sub=t)), ("arr", T("ptr", sub=t))], va=1))
    fns.append(T("fn", ret=I, params=[("%s%d" % ("p" * (i % 70 + 1), i), leaves0[i % len(leaves0)]) for i in range(60)], va=1))
    fns.append(T("fn", ret=None, params=[], va=0))
    fns.append(T("fn", ret=T("ptr", sub=T("arr", sub=I, n=3)), params=[("a", T("ptr", sub=T("arr", sub=I, n=3)))], va=0))
    fns.append(T("fn", ret=fp, params=[("a", fp)], va=0))
    fns.append(T("fn", ret=I, params=[("cb", fp), ("n", T("ptr", sub=None))], va=0))
    return c, vars_, fns


ANON = [  # anonymous aggregates: body, leaf expressions, enumerators
    ("struct { char p; %s; long q; }", ["p", "m", "q"], {}),
    ("union { char p; %s; long q; }", ["p", "m", "q"], {}),
    ("struct { struct { char p; %s; } s; union { int u1; char u2[7]; }; struct { short z; } arr[2]; }", ["s.p", "s.m", "u1", "u2", "arr[1].z"], {}),
    ("struct { unsigned int b1:3; int b2:7; long long b3:33; %s; }", ["m"], {}),
]
ENUMS = [(-3, 7, 2147483647), (0,), (-2147483648, 2147483647), (2147483648, 5), (4294967295, 0), (-2147483649, 1), (4294967296, 4294967299, 3), (1 << 40, -(1 << 40), 0), (2 ** 63 - 1, 1), (-2 ** 63, 0), tuple(range(-130, 130))]


def anon(c):
    """variables of anonymous types: (declaration, leaves, enumerators)"""
    out = []
    mem = [T("base", c="int"), T("ptr", sub=T("base", c="char")), T("arr", sub=T("arr", sub=T("base", c="short"), n=3), n=2), T("ptr", sub=T("arr", sub=T("base", c="int"), n=4)),
           T("ptr", sub=T("fn", ret=T("base", c="int"), params=[("a", T("base", c="char"))], va=1)), T("q", q="const", sub=T("ptr", sub=T("base", c="double"))), T("base", c="long double")]
    for body, leaves, _ in ANON:
        for m in mem:
            for dcl in ("%s", "%s[3]", "*%s"):
                out.append((body % m.decl("m"), dcl, leaves, {}))
    for vals in ENUMS:
        for dcl in ("%s", "%s[3]", "*%s"):
            ns = ["AE%d_%d" % (len(out), k) for k in range(len(vals))]
            out.append(("enum { %s }" % ", ".join("%s = %s" % (n, "(-9223372036854775807 - 1)" if v == -2 ** 63 else v) for n, v in zip(ns, vals)), dcl, [], dict(zip(ns, vals))))
    return out


def source(thorough, part="types"):
    c, vars_, fns = universe(thorough, part)
    if part == "anon":
        vars_, fns = [], []
    out = []
    rows = []
    for i, (t, why) in enumerate(vars_):
        x = expect(c, t)
        out.append("%s; METAC_GSYM_LINK(v%d);" % (t.decl("v%d" % i), i))
        rows.append('{"%s (%s)", &METAC_GSYM_LINK_NAME(v%d), (void *)&v%d, &%s, "v%d", %d}' % (t.decl("v%d" % i), why, i, i, x, i, 2 if why == "huge" else 3 if why == "bit-fields" else 0))
    for i, t in enumerate(fns):
        ps = ['{"%s", 0, &%s}' % (n, expect(c, p)) for n, p in t.params] + (["{NULL, 0, NULL}"] if t.va else [])
        me = "xf_%d" % i
        c.xt.append("struct xt %s = {.kind = METAC_KND_subprogram, .count = %d, .m = (struct xm[]){%s}, .sub = %s};" % (me, len(ps), ", ".join(ps) or "{0}", "&" + expect(c, t.ret) if t.ret else "NULL"))
        out.append("%s { %s } METAC_GSYM_LINK(f%d);" % (t.decl("f%d" % i), "static %s; return r;" % t.ret.decl("r") if t.ret else "", i))
        rows.append('{"%s", &METAC_GSYM_LINK_NAME(f%d), NULL, &%s, "f%d", 1}' % (t.decl("f%d" % i), i, me, i))
    checks = []
    for i, (body, dcl, leaves, enums) in enumerate(anon(c) if part == "anon" else []):
        n = "an%d" % i
        out.append("%s %s; METAC_GSYM_LINK(%s);" % (body, dcl % n, n))
        rows.append('{"%s %s", &METAC_GSYM_LINK_NAME(%s), (void *)&%s, NULL, "%s", 0}' % (body, dcl % n, n, n, n))
        el = {"%s": "%s", "%s[3]": "%s[0]", "*%s": "(*%s)"}[dcl]
        bits = [b for b in ("b1", "b2", "b3") if b + ":" in body]
        checks.append((n, el, leaves, bits, enums))
    global last_checks
    last_checks = checks
    return "\n".join(['#include "types_rt.h"'] + ["/*PRE*/"] + c.pre + ["/*VARS*/"] + out + ["/*END*/"] + c.xt + ["static struct row rows[] = {"] + ["    %s," % r for r in rows] + ["};", '#include "types_rt.c"']) + "\n"


last_checks = []
if __name__ == "__main__":
    import sys
    print(source(len(sys.argv) > 2, sys.argv[1]))
