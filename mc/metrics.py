"""Reference models of the four function metrics and the program spaces they are compared on."""
import cgen, common, itertools
from cgen import Gen, rq

INTMAX = 2147483647


# ------------------------------------------------------------------ models (by the published definitions)
def ccn_e(e):
    if e is None:
        return 0
    k = e[0]
    own = 1 if k in ("&&", "||", "?:") else 0
    return own + sum(ccn_e(x) for x in e[1:] if isinstance(x, tuple))


def ccn_q(q):
    return sum(ccn_s(s) for s in q)


def ccn_s(s):
    k = s[0]
    if k in (";", "brk", "cont", "goto"):
        return 0
    if k in (";e", "ret", "decl"):
        return ccn_e(s[1])
    if k == "blk":
        return ccn_q(s[1])
    if k == "if":
        return 1 + ccn_e(s[1]) + ccn_s(s[2]) + (ccn_s(s[3]) if s[3] else 0)
    if k in ("while", "do"):
        return 1 + ccn_e(s[1]) + ccn_s(s[2])
    if k == "for":
        return 1 + ccn_e(s[1]) + ccn_e(s[2]) + ccn_e(s[3]) + ccn_s(s[4])
    if k in ("range", "forin"):
        return 1 + ccn_s(s[1])
    if k == "label":
        return ccn_s(s[1])
    if k in ("pool", "sync"):
        return ccn_q(s[1])
    if k == "try":
        return ccn_q(s[1]) + sum(1 + ccn_q(q) for q in s[2])
    if k == "atry":
        return ccn_q(s[1]) + sum(1 + ccn_q(q) for q in s[2]) + (ccn_q(s[3]) if s[3] is not None else 0)
    if k == "sw":
        return ccn_e(s[1]) + sum(len(l) - l.count("d") + ccn_q(q) for l, q in s[2])
    raise ValueError(s)


def np_e(e):
    if e is None:
        return 0
    k = e[0]
    if k in ("&&", "||"):
        return 1 + np_e(e[1]) + np_e(e[2])
    if k == "?:":
        return 2 + np_e(e[1]) + np_e(e[2]) + np_e(e[3])
    if k == "()":
        return np_e(e[1])
    return 0


def np_q(q):
    r = 1
    for s in q:
        r *= np_s(s)
    return r


def np_s(s):
    k = s[0]
    if k == "blk":
        return np_q(s[1])
    if k == "if":
        return np_e(s[1]) + np_s(s[2]) + (np_s(s[3]) if s[3] else 1)
    if k in ("while", "do"):
        return np_e(s[1]) + np_s(s[2]) + 1
    if k == "for":
        return 1 + np_e(s[2]) + np_e(s[3]) + np_s(s[4]) + 1
    if k in ("range", "forin"):
        return np_s(s[1]) + 2
    if k == "sw":
        return np_e(s[1]) + sum(np_q(q) for l, q in s[2])
    return 1


def nc_q(q):
    return sum(nc_s(s) for s in q)


def nc_s(s):
    k = s[0]
    if k == ";":
        return 0
    if k == "blk":
        return nc_q(s[1])
    if k == "if":
        return 1 + nc_s(s[2]) + (1 + nc_s(s[3]) if s[3] else 0)
    if k == "while":
        return 1 + nc_s(s[2])
    if k == "do":
        return 2 + nc_s(s[2])
    if k == "for":
        return 1 + nc_s(s[4])
    if k in ("range", "forin"):
        return 1 + nc_s(s[1])
    if k in ("pool", "sync"):
        return 1 + nc_q(s[1])
    if k == "try":
        return 1 + nc_q(s[1]) + sum(1 + nc_q(q) for q in s[2])
    if k == "atry":
        return 1 + nc_q(s[1]) + sum(1 + nc_q(q) for q in s[2]) + (1 + nc_q(s[3]) if s[3] is not None else 0)
    if k == "sw":
        return 1 + sum(len(l) + nc_q(q) for l, q in s[2])
    return 1


def depth_all(s, out):
    """Depth of s; appends the depth of every brace block in s to out."""
    k = s[0]

    def block(q):
        d = 1 + max([depth_all(x, out) for x in q], default=0)
        out.append(d)
        return d

    if k == "blk":
        return block(s[1])
    if k == "if":
        return max(depth_all(s[2], out), depth_all(s[3], out) if s[3] else 0)
    if k in ("while", "do"):
        return depth_all(s[2], out)
    if k == "for":
        return depth_all(s[4], out)
    if k in ("range", "forin"):
        return depth_all(s[1], out)
    if k in ("pool", "sync"):
        return block(s[1])
    if k == "try":
        return max([block(q) for q in (s[1], *s[2])])
    if k == "atry":
        return max([block(q) for q in (s[1], *s[2])] + ([block(s[3])] if s[3] is not None else []))
    if k == "sw" and len(s) > 3:
        return max([depth_all(x, out) for l, q in s[2] for x in q], default=0)
    if k == "sw":
        return block([x for l, q in s[2] for x in q])
    return 0


def depths(q):
    out = []
    depth_all(("blk", q), out)
    return out


METRICS = {
    "C07": dict(rule="CyclomaticComplexity", name="high cyclomatic complexity", key="CYCLOMATIC_COMPLEXITY", default=10,
                value=lambda q: [1 + ccn_q(q)], msg=lambda v, t: f"Cyclomatic Complexity Number {v} exceeds limit of {t}"),
    "C08": dict(rule="NPathComplexity", name="high npath complexity", key="NPATH_COMPLEXITY", default=200,
                value=lambda q: [min(np_q(q), INTMAX)], msg=lambda v, t: f"NPath Complexity Number {v} exceeds limit of {t}"),
    "C09": dict(rule="NcssMethodCount", name="high ncss method", key="NCSS_METHOD", default=30,
                value=lambda q: [1 + nc_q(q)], msg=lambda v, t: f"Method of {v} non-commenting source statements exceeds limit of {t}"),
    "C10": dict(rule="NestedBlockDepth", name="deep nested block", key="NESTED_BLOCK_DEPTH", default=5,
                value=depths, msg=lambda v, t: f"Block depth of {v} exceeds limit of {t}"),
}

PRO = {
    "c": "int g(void);",
    "cpp": "int g(); struct Arr { int *begin(); int *end(); }; extern Arr arr; int a;",
    "m": "int g(void); int a;\n__attribute__((objc_root_class)) @interface K @end\n__attribute__((objc_root_class)) @interface M @end\nextern id col;",
}
CLANG = {"c": ("-std=gnu99",), "cpp": ("-std=c++17", "-fcxx-exceptions", "-fexceptions"),
         "m": ("-fobjc-exceptions", "-fexceptions", "-fblocks")}

CONT_CXX = ["static int f{N}(int a) { $ return 0; }", "namespace n{N} { int f(int a) { $ return 0; } }",
            'extern "C" { int f{N}(int a) { $ return 0; } }', "struct S{N} { int f(int a) { $ return 0; } };",
            "class S{N} { int f(int a) const; }; int S{N}::f(int a) const { $ return 0; }",
            "template <class T> int f{N}(T a) { $ return 0; }", "struct S{N} { S{N}(int a) { $ } };",
            "struct S{N} { ~S{N}() { $ } };", "struct S{N} { int operator()(int a) { $ return 0; } };",
            "template <class T> struct S{N} { struct I { static int f(int a) { $ return 0; } }; };",
            "namespace { inline namespace m{N} { struct Q { virtual int f(int a) { $ return 0; } }; } }"]
CONT_M = ["@interface K (X{N}) @end @implementation K (X{N}) - (int)f{N}:(int)a { $ return 0; } @end",
          "@interface K (X{N}) @end @implementation K (X{N}) + (int)f{N}:(int)a { $ return 0; } @end",
          "@interface C{N} : K @end @implementation C{N} - (int)f { $ return 0; } @end",
          "static int f{N}(int a) { $ return 0; }"]
RET_EXTRA = ("ret", ("0",))


class MSpace(common.Space):
    pairs = True

    def __init__(self, pid, name, ext, limit, seqs, conts=None, lim_opt=True):
        self.pid, self.name, self.ext, self.limit = pid, f"{name}/{ext}/limit={limit}", ext, limit
        self.seqs = seqs            # picklable source description
        self.conts = conts
        m = METRICS[pid]
        self.rules = (m["rule"],)
        self.opts = (f"-rc={m['key']}={limit}",) if lim_opt else ()
        self.prologue = PRO[ext]
        self.clang = CLANG[ext]

    def __getstate__(self):
        d = dict(self.__dict__)
        d["seqs"] = None            # items travel as data; the generator stays in the parent
        return d

    def items(self):
        n = len(self.conts) if self.conts else 1
        for q in self.seqs():
            for c in range(n):
                yield (c, q)

    def render(self, it):
        c, q = it
        if self.conts:
            return self.conts[c].replace("$", rq(q))
        return ("void f{N}(int a) { " if not self.has_ret(q) else "int f{N}(int a) { ") + rq(q) + "}"

    @staticmethod
    def has_ret(q):
        return "'ret'" in repr(q)

    def expect(self, it):
        c, q = it
        m = METRICS[self.pid]
        if self.conts and " return 0; }" in self.conts[c]:
            q = (*q, RET_EXTRA)
        lim = self.limit
        return [(0, m["name"], m["msg"](v, lim)) for v in m["value"](q) if v > lim]

    def steps(self, it):
        return cgen.nodes(it[1])


def no_dangle(g_seqs):
    return g_seqs


def spaces(pid, thorough):
    V = ("v",)
    ctl = Gen(("v", "&&", "||", "?:"), ("ret", ";e", "blk", "if", "ife", "while", "do", "for", "sw"))
    ctl2 = Gen(("v",), (";", ";e", "blk", "if", "ife", "while", "do", "for", "sw"))
    cxx = Gen(("v", "&&"), (";e", "blk", "if", "range", "try"))
    objc = Gen(("v", "||"), (";e", "blk", "if", "forin", "atry", "sync", "pool"))
    small = Gen(("v", "&&", "?:"), (";e", "blk", "if", "while", "for", "do"))
    ex = Gen(("v", "&&", "||", "?:", "()"), ())

    def ok(q):
        # an empty switch has no path by the project's own definition (its unit tests pin 0): outside the property
        return pid != "C08" or "'sw'" not in repr(q) or not any_empty_switch(q)

    def seqs(g, lo, hi):
        return lambda: (q for n in range(lo, hi + 1) for q in g.Q(n) if dangle_free(q) and ok(q))

    t = thorough
    # The statement sw body in the NPath model treats statements before the first label as unreachable; not generated.
    out = [
        MSpace(pid, "control", "c", 0, seqs(ctl, 0, 7 if t else 6)),
        MSpace(pid, "nesting", "c", 0, seqs(ctl2, 0, 6 if t else 5)),
        MSpace(pid, "cxx", "cpp", 0, seqs(cxx, 0, 8 if t else 6)),
        MSpace(pid, "objc", "m", 0, seqs(objc, 0, 6 if t else 4)),
        MSpace(pid, "expr", "c", 0, lambda: ((("if", e, (";e", V), None),) for n in range(1, 11 if t else 9) for e in ex.E(n))),
        MSpace(pid, "expr-loop", "c", 0, lambda: ((s,) for n in range(1, 7) for e in ex.E(n) for s in
                                                 (("while", e, (";e", V)), ("do", e, (";e", V)), ("for", None, e, None, (";e", V)),
                                                  ("for", V, V, e, (";e", V)), ("sw", e, (("c", ((";e", V),)),)),
                                                  ("if", V, (";e", e), ("if", e, (";e", V), None)), ("ret", e), (";e", e)))),
        MSpace(pid, "containers", "cpp", 1, seqs(small, 0, 4 if t else 3), CONT_CXX),
        MSpace(pid, "containers", "m", 1, seqs(small, 0, 4 if t else 3), CONT_M),
    ]
    # labels of every kind stacked on one another, a range of values, a body without braces
    e, i, b = (";e", V), ("if", V, (";e", V), None), ("blk", (("if", ("&&", V, V), (";e", V), (";e", V)),))
    words = ["".join(w) for n in range(1, 4 if t else 3) for w in itertools.product("cdr", repeat=n)]

    def labels():
        for n in range(1, 4 if t else 3):
            for ls in itertools.product(words, repeat=n):
                if "".join(ls).count("d") < 2:
                    for qs in itertools.product([(e,), (i, e), (b,)][:3 if n < 3 else 2], repeat=n):
                        yield (("sw", V, tuple(zip(ls, qs))),)
        for w in words:
            if w.count("d") < 2:
                for x in (e, i, b, (";",), ("while", V, i), ("sw", V, (("c", (i,)), ("d", (e,))))):
                    yield (("sw", V, ((w, (x,)),), "bare"),)
                    yield (("sw", V, ((w, (("sw", V, ((w, (x,)),), "bare"),)),), "bare"), i)
    out.append(MSpace(pid, "labels", "c", 0, labels))
    # limits: every limit 0..14 against the whole small space, and the default limit around its boundary
    for lim in range(0, 41 if t else 15):
        out.append(MSpace(pid, "limit", "c", lim, chains(lim)))
    d = METRICS[pid]["default"]
    out.append(MSpace(pid, "default-limit", "c", d, chains(d), lim_opt=False))
    if pid == "C08":
        # sequential decisions multiply: every length up to past the width of any machine integer
        i = ("if", V, (";e", V), None)
        three = ("if", ("&&", V, V), (";e", V), None)
        out.append(MSpace(pid, "products", "c", 200, lambda: ((i,) * n + (three,) * k for n in range(0, 70) for k in range(0, 45))))
        out.append(MSpace(pid, "nested-products", "c", 200,
                          lambda: ((("if", V, ("blk", (i,) * n), ("blk", (i,) * k)), *((i,) * r)) for n in range(0, 36) for k in range(28, 36) for r in range(0, 3))))
    return out


def chains(lim):
    """Programs whose metric runs through lim-2 .. lim+2 for every metric."""
    V = ("v",)
    i = ("if", V, (";e", V), None)
    e = (";e", V)

    def gen():
        seen = set()
        for n in range(max(0, lim - 3), lim + 3):
            b = e
            for _ in range(n):
                b = ("blk", (b,))
            expr = V
            for _ in range(n):
                expr = ("&&", expr, V)
            labs = tuple(("c", (e,)) for _ in range(n))
            for q in ((i,) * n, (e,) * n, (b,), (("if", expr, e, None),), (("while", expr, ("blk", (b,))),),
                      (("sw", V, labs + (("d", (e,)),)),), (i, *((e,) * n)), (("if", V, b, b),)):
                if q not in seen:
                    seen.add(q)
                    yield q
        # products around the limit for NPath
        import math
        for a in range(1, 12):
            for c in range(1, 12):
                for k in range(0, 5):
                    if abs((a + 1) * (c + 1) * 2 ** k - lim) <= 3:
                        ea = V
                        for _ in range(a - 1):
                            ea = ("||", ea, V)
                        ec = V
                        for _ in range(c - 1):
                            ec = ("&&", ec, V)
                        yield (("if", ea, e, None), ("if", ec, e, None), *((i,) * k))
    return gen


def any_empty_switch(t):
    if isinstance(t, tuple):
        if t and t[0] == "sw" and not t[2]:
            return True
        return any(any_empty_switch(x) for x in t)
    return False


def dangle_free(t):
    """No then-branch that would capture the else: that tree is enumerated with an explicit block instead."""
    if not isinstance(t, tuple):
        return True
    if t and t[0] == "if" and t[3] is not None and cgen.dangling(t[2]):
        return False
    return all(dangle_free(x) for x in t)


def check(pid):
    import build as B
    m = METRICS[pid]
    chk = common.Check(pid, explanation="Every program of the bounded grammars is linted by the real executable with the real rule plugin; "
                       "the reported value, limit, line and count are compared with a reference model of the metric. states = distinct programs "
                       "(function bodies in a container, under one limit), transitions = grammar nodes expanded to derive them, traces = runs of the executable.",
                       assumptions=["clang 20 parses the generated programs as the grammar intends"])
    tree = B.build(True, [m["rule"]], (), [B.MCRAW])
    chk.bounds = {"statement tree size": "see parts", "limits": "0..14 (40 thorough) and the default"}
    common.explore_spaces(chk, tree, spaces(pid, chk.thorough))
    return chk.finish()
