"""What each check runs: harness runs with their parameters, stated bounds,
assumptions, and the reachability witnesses that guard against vacuity."""
import re
import meta

ASSUMPTIONS = [
    "the code is executed as LLVM IR of the release profile (wrapping integer arithmetic, no debug assertions), compiled by the installed stable rustc with loop and SLP vectorisation off",
    "an allocation of less than 64 GB never fails",
    "Debug renderings of byte strings (they occur in error-message text only) are replaced by the empty string",
]


def _v0(s):
    """a partial demangler for v0 symbols: enough to name a function"""
    pos = 0
    if not s.startswith("_R"):
        return s
    s = s[2:].split(".llvm.")[0]

    class E(Exception):
        pass

    def b62(p):
        if s[p] == "_":
            return 0, p + 1
        v = 0
        while s[p] != "_":
            v = v * 62 + "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ".index(s[p])
            p += 1
        return v + 1, p + 1

    def ident(p):
        d = 0
        if s[p] == "s":
            d, p = b62(p + 1)
            d += 1
        u = False
        if s[p] == "u":
            p += 1
            u = True
        m = re.match(r"\d+", s[p:])
        if not m:
            raise E()
        n = int(m.group()) if m.group()[0] != "0" else 0
        p += len(m.group()) if n else 1
        if s[p:p + 1] == "_":
            p += 1
        return s[p:p + n], p + n, d

    def path(p):
        c = s[p]
        if c == "C":
            n, p, _ = ident(p + 1)
            return n, p
        if c == "N":
            ns = s[p + 1]
            a, p = path(p + 2)
            n, p, d = ident(p)
            if ns == "C":
                n = "{closure#%d}" % d
            elif ns.isupper():
                n = "{%s:%s#%d}" % (ns, n, d)
            return a + ("::" + n if n else ""), p
        if c == "M":
            p += 1
            if s[p] == "s":
                _, p = b62(p + 1)
            _, p = path(p)
            t, p = typ(p)
            return "<%s>" % t, p
        if c == "X":
            p += 1
            if s[p] == "s":
                _, p = b62(p + 1)
            _, p = path(p)
            t, p = typ(p)
            u, p = path(p)
            return "<%s as %s>" % (t, u), p
        if c == "Y":
            t, p = typ(p + 1)
            u, p = path(p)
            return "<%s as %s>" % (t, u), p
        if c == "I":
            a, p = path(p + 1)
            g = []
            while s[p] != "E":
                if s[p] == "L":
                    _, p = b62(p + 1)
                    g.append("'_")
                elif s[p] == "K":
                    k, p = const(p + 1)
                    g.append(k)
                else:
                    t, p = typ(p)
                    g.append(t)
            return "%s<%s>" % (a, ", ".join(x for x in g if x != "'_")), p + 1
        if c == "B":
            t, q = b62(p + 1)
            a, _ = path(t)
            return a, q
        raise E()

    def const(p):
        if s[p] == "B":
            t, q = b62(p + 1)
            return const(t)[0], q
        if s[p] == "p":
            return "_", p + 1
        m = re.match(r"[a-z](n?[0-9a-f]*)_", s[p:])
        if not m:
            raise E()
        return m.group(1), p + len(m.group())

    B = dict(a="i8", b="bool", c="char", d="f64", e="str", f="f32", h="u8", i="isize", j="usize", l="i32", m="u32", n="i128", o="u128",
             s="i16", t="u16", u="()", v="...", x="i64", y="u64", z="!", p="_")

    def typ(p):
        c = s[p]
        if c in B:
            return B[c], p + 1
        if c == "B":
            t, q = b62(p + 1)
            return typ(t)[0], q
        if c in "RQ":
            p += 1
            if s[p] == "L":
                _, p = b62(p + 1)
            t, p = typ(p)
            return ("&" if c == "R" else "&mut ") + t, p
        if c in "PO":
            t, p = typ(p + 1)
            return "*" + t, p
        if c == "S":
            t, p = typ(p + 1)
            return "[%s]" % t, p
        if c == "A":
            t, p = typ(p + 1)
            k, p = const(p)
            return "[%s; %s]" % (t, k), p
        if c == "T":
            g = []
            p += 1
            while s[p] != "E":
                t, p = typ(p)
                g.append(t)
            return "(%s)" % ", ".join(g), p + 1
        if c == "D":
            p += 1
            if s[p] == "G":
                _, p = b62(p + 1)
            g = []
            while s[p] != "E":
                t, p = path(p)
                while s[p] == "p":
                    _, p, _ = ident(p + 1)
                    _, p = typ(p)
                g.append(t)
            p += 1
            if s[p] == "L":
                _, p = b62(p + 1)
            return "dyn " + " + ".join(g), p
        if c == "F":
            p += 1
            if s[p] == "G":
                _, p = b62(p + 1)
            if s[p] == "U":
                p += 1
            if s[p] == "K":
                p += 1
                if s[p] == "C":
                    p += 1
                else:
                    _, p, _ = ident(p)
            g = []
            while s[p] != "E":
                t, p = typ(p)
                g.append(t)
            t, p = typ(p + 1)
            return "fn(%s)" % ", ".join(g), p
        return path(p)

    try:
        return path(0)[0]
    except (E, IndexError, ValueError, RecursionError):
        return "::".join(x for x in re.findall(r"(?<=\d)[A-Za-z_]{3,}", s))


def demangle(n):
    if "pica_record" not in n and "pcli" not in n:
        return ""
    return _v0(n)[:200]


PROPS = {}
WITNESS = {}
CODES = {}


def prop(pid, crate, quick, thorough=(), codes=None, witness=None, **kw):
    PROPS[pid] = dict(crate=crate, quick=[(j[0], tuple(j[1:])) for j in quick], thorough=[(j[0], tuple(j[1:])) for j in thorough], bounds=meta.BOUNDS[pid], assumptions=meta.STAND[pid], **kw)
    for h, d in (codes or {}).items():
        for c, t in d.items():
            CODES[(h, c)] = t
    for h, m in (witness or {}).items():
        WITNESS[h] = sum(1 << i for i in m)


import lib_props, cli_props  # noqa
