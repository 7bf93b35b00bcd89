"""Statement/expression trees with marks: the reference model of each rule marks the node it expects to be reported,
the renderer turns the tree into source text and the marks into positions.

Trees come from cgen-style tuples (see Gen below); mk() turns them into N nodes that match what a compiler sees
(parentheses that the renderer needs become explicit nodes, empty label groups become null statements)."""
import functools, itertools, re
import cgen
from cgen import splits
import common

UN = {"!": "!", "~": "~", "neg": "-", "pos": "+", "&x": "&", "*x": "*", "++x": "++"}
BIN = ("&&", "||", "+", "-", "*", "%", "&", "|", "^", "==", "!=", "<", "=", "&=", "|=", ",", "<<")
LEAF = {"v": "a", "w": "b", "call": "g()", "1": "1", "0": "0", "2": "2", "T": "true", "F": "false", "S": '"x"', "S2": '"y"',
        "'": "'c'", "1.5": "1.5", "2.5": "2.5", "sz": "sizeof(int)", "K": "KK", "Y": "__objc_yes", "NO": "__objc_no",
        "Yc": "(BOOL)1", "Nc": "(BOOL)0", "null": "0", "p": "p", "q": "q", "t": "t", "u": "u", "p->": "p->x", "q->": "q->x", "NULL": "NULL"}


class N:
    __slots__ = ("k", "f", "marks")

    def __init__(self, k, f=()):
        self.k, self.f, self.marks = k, list(f), []

    def mark(self, rule, msg=""):
        self.marks.append((rule, msg))

    def kids(self):
        for x in self.f:
            if isinstance(x, N):
                yield x
            elif isinstance(x, list):
                for y in x:
                    if isinstance(y, N):
                        yield y
                    elif isinstance(y, tuple):
                        for z in y[1]:
                            yield z

    def walk(self):
        yield self
        for c in self.kids():
            yield from c.walk()


def is_expr(k):
    return k in LEAF or k in UN or k in BIN or k in ("?:", "()", "x++", "thr", "raw")


ATOM = set(LEAF) | {"()", "x++", "raw"}


def mke(t, ctx=None):
    """ctx: None = no parentheses needed; otherwise operand position of an operator"""
    if t is None:
        return None
    k = t[0]
    if k == "raw":
        n = N(k, t[1:])
    else:
        inner = k if k != "()" else None
        n = N(k, [mke(x, inner) for x in t[1:]])
    if ctx is not None and k not in ATOM and not (k in UN and ctx in UN):
        if k in UN:
            return n
        return N("()", [n])
    if k == "," and ctx is not None:
        return N("()", [n])
    return n


def mkq(q):
    return [mk(s) for s in q]


def mk(s):
    if s is None:
        return None
    k = s[0]
    if k in (";", "brk", "cont", "goto", "ret0", "rethrow"):
        return N(k)
    if k in (";e", "ret", "decl", "thr", "athr"):
        return N(k, [mke(s[1])])
    if k == "raws":
        return N(k, s[1:])
    if k in ("blk", "pool", "sync"):
        return N(k, [mkq(s[1])])
    if k == "if":
        return N(k, [mke(s[1]), mk(s[2]), mk(s[3])])
    if k in ("while", "do"):
        return N(k, [mke(s[1]), mk(s[2])])
    if k == "for":
        return N(k, [mke(s[1]), mke(s[2]), mke(s[3]), mk(s[4])])
    if k in ("range", "forin", "label"):
        return N(k, [mk(s[1])])
    if k == "try":
        return N(k, [blk(s[1]), [blk(q) for q in s[2]]])
    if k == "atry":
        return N(k, [blk(s[1]), [blk(q) for q in s[2]], blk(s[3]) if s[3] is not None else None])
    if k == "sw":
        return N(k, [mke(s[1]), [(lab, mkq(q) if q else [N(";")]) for lab, q in s[2]], N("swbody")])
    raise ValueError(k)


def blk(q):
    return N("blk", [mkq(q)])


# ------------------------------------------------------------------ rendering with marks
def M(rule, text, msg=""):
    """text, marked as the place of a violation"""
    return f"\x01{rule}\x02{msg}\x03{text}"


class Render:
    def __init__(self):
        self.lab = 0
        self.case = [0]

    def m(self, n, s):
        return "".join(M(r, "", msg) for r, msg in n.marks) + s

    def e(self, n):
        k = n.k
        if k in LEAF:
            s = LEAF[k]
        elif k == "raw":
            s = n.f[0]
        elif k == "()":
            s = "(" + self.e(n.f[0]) + ")"
        elif k == "x++":
            s = self.e(n.f[0]) + "++"
        elif k in UN:
            c = self.e(n.f[0])
            o = UN[k]
            s = o + (" " if n.f[0].k in UN and o in "+-&" else "") + c
        elif k == "?:":
            s = f"{self.e(n.f[0])} ? {self.e(n.f[1])} : {self.e(n.f[2])}"
        else:
            s = f"{self.e(n.f[0])} {k} {self.e(n.f[1])}"
        return self.m(n, s)

    def q(self, q):
        return "".join(self.s(x) + " " for x in q)

    def s(self, n):
        return self.m(n, self.s0(n))

    def s0(self, n):
        k, f = n.k, n.f
        if k == ";":
            return ";"
        if k == ";e":
            return self.e(f[0]) + ";"
        if k == "ret":
            return "return " + self.e(f[0]) + ";"
        if k == "ret0":
            return "return;"
        if k == "brk":
            return "break;"
        if k == "cont":
            return "continue;"
        if k == "goto":
            return "goto L;"
        if k == "thr":
            return "throw " + self.e(f[0]) + ";"
        if k == "rethrow":
            return "throw;"
        if k == "athr":
            return "@throw col;"
        if k == "raws":
            return f[0]
        if k == "decl":
            self.lab += 1
            return f"int l{self.lab}" + ("" if f[0] is None else " = " + self.e(f[0])) + ";"
        if k == "blk":
            return "{ " + self.q(f[0]) + "}"
        if k == "pool":
            return "@autoreleasepool { " + self.q(f[0]) + "}"
        if k == "sync":
            return "@synchronized(col) { " + self.q(f[0]) + "}"
        if k == "if":
            r = "if (" + self.e(f[0]) + ") " + self.s(f[1])
            return r + (" else " + self.s(f[2]) if f[2] is not None else "")
        if k == "while":
            return "while (" + self.e(f[0]) + ") " + self.s(f[1])
        if k == "do":
            # body before condition
            b = self.s(f[1])
            return "do " + b + " while (" + self.e(f[0]) + ");"
        if k == "for":
            o = lambda x: "" if x is None else self.e(x)
            return f"for ({o(f[0])}; {o(f[1])}; {o(f[2])}) " + self.s(f[3])
        if k == "range":
            return "for (int w : arr) " + self.s(f[0])
        if k == "forin":
            return "for (id w in col) " + self.s(f[0])
        if k == "label":
            self.lab += 1
            return f"L{self.lab}: " + self.s(f[0])
        if k == "try":
            ts = ("int", "...") if len(f[1]) > 1 else ("int",)
            return "try " + self.s(f[0]) + "".join(f" catch ({t}) " + self.s(b) for b, t in zip(f[1], ts))
        if k == "atry":
            return "@try " + self.s(f[0]) + "".join(f" @catch ({t} *x) " + self.s(b) for b, t in zip(f[1], ("K", "M"))) + \
                ("" if f[2] is None else " @finally " + self.s(f[2]))
        if k == "sw":
            r = ""
            n0 = 1
            for i, (lab, q) in enumerate(f[1]):
                mm = "".join(M(r_, "", msg) for r_, msg in f[2].marks if r_.startswith(f"{i}:"))
                mm = re.sub("\x01\\d+:", "\x01", mm)
                if lab == "d":
                    r += mm + "default: "
                else:
                    for _ in lab:
                        r += f"case {n0}: "
                        n0 += 1
                r += self.q(q)
            bm = "".join(M(r_, "", msg) for r_, msg in f[2].marks if not re.match(r"\d+:", r_))
            return "switch (" + self.e(f[0]) + ") " + bm + "{ " + r + "}"
        raise ValueError(k)


MARK = re.compile("\x01([^\x02]*)\x02([^\x03]*)\x03")


def strip(text):
    """-> plain text, [(line, col, rule, msg)] relative to the first line (0) and column 1"""
    out, marks, pos = [], [], 0
    line, col = 0, 1
    for part in MARK.finditer(text):
        t = text[pos:part.start()]
        out.append(t)
        nl = t.count("\n")
        if nl:
            line += nl
            col = len(t) - t.rfind("\n")
        else:
            col += len(t.encode())
        marks.append((line, col, part.group(1), part.group(2)))
        pos = part.end()
    out.append(text[pos:])
    return "".join(out), marks


# ------------------------------------------------------------------ generator
class Gen(cgen.Gen):
    """leaves, unary, binary operators; '?:' and '()' switched on by name in ops"""

    def __init__(self, leaves=("v",), un=(), bi=(), ops=(), stmts=()):
        self.lv, self.un, self.bi, self.ops = leaves, un, bi, ops
        super().__init__((), stmts)

    def __reduce__(self):
        return (Gen, (self.lv, self.un, self.bi, self.ops, self.sk))

    def _E(self, n):
        r = []
        if n == 1:
            r += [(x,) for x in self.lv]
        if n >= 2:
            if "()" in self.ops:
                r += [("()", e) for e in self.E(n - 1) if e[0] != "()"]
            for u in self.un:
                r += [(u, e) for e in self.E(n - 1)]
        if n >= 3:
            for b in self.bi:
                for x, y in splits(n - 1, 2):
                    r += [(b, l, m) for l in self.E(x) for m in self.E(y)]
        if n >= 4 and "?:" in self.ops:
            for a, b, c in splits(n - 1, 3):
                r += [("?:", x, y, z) for x in self.E(a) for y in self.E(b) for z in self.E(c)]
        return tuple(r)

    def _S(self, n):
        r = list(super()._S(n))
        if n == 1:
            r += [(x,) for x in ("brk", "cont", "ret0", "rethrow") if x in self.sk]
            if "thr" in self.sk:
                r.append(("thr", ("v",)))
            if "athr" in self.sk:
                r.append(("athr", None))
        return tuple(r)


class SGen:
    """Statements by the number of statement nodes; every condition is the variable.  leaves: statement kinds without parts;
    un: kinds with one body; ife, sw, try, atry, blk, pool, sync by name.  seq: longest statement sequence."""
    LEAF = {";e": (";e", ("v",)), "ret": ("ret", ("v",)), "thr": ("thr", ("v",)), "athr": ("athr", None), "decl": ("decl", None)}

    def __init__(self, stmts, seq=3, labels=("c", "d")):
        self.sk, self.seq, self.labels = stmts, seq, labels
        self.S = functools.lru_cache(None)(self._S)
        self.Q = functools.lru_cache(None)(self._Q)

    def __reduce__(self):
        return (SGen, (self.sk, self.seq, self.labels))

    def _Q(self, n, k):
        if n == 0:
            return ((),)
        if k == 0:
            return ()
        return tuple((s, *q) for a in range(1, n + 1) for s in self.S(a) for q in self.Q(n - a, k - 1))

    def _S(self, n):
        V, k, Q = ("v",), self.sk, lambda m: self.Q(m, self.seq)
        r = []
        if n == 1:
            r += [self.LEAF.get(x, (x,)) for x in k if x in self.LEAF or x in (";", "brk", "cont", "ret0", "goto", "rethrow")]
        for b in ("blk", "pool"):
            if b in k:
                r += [(b, q) for q in Q(n - 1)]
        if "sync" in k:
            r += [("sync", q) for q in Q(n - 1)]
        if n >= 2:
            for s in self.S(n - 1):
                if "if" in k:
                    r.append(("if", V, s, None))
                if "while" in k:
                    r.append(("while", V, s))
                if "do" in k:
                    r.append(("do", V, s))
                if "for" in k:
                    r.append(("for", None, V, V, s))
                r += [(u, s) for u in ("range", "forin", "label") if u in k]
        if n >= 3 and "ife" in k:
            r += [("if", V, s, t) for a, b in splits(n - 1, 2) for s in self.S(a) for t in self.S(b)]
        if "sw" in k and n >= 2:
            for g in (1, 2, 3):
                for parts in splits(n - 1, g) if g <= n - 1 else ():
                    for labs in itertools.product(self.labels, repeat=g):
                        if labs.count("d") <= 1:
                            r += [("sw", V, tuple(zip(labs, qs))) for qs in itertools.product(*(Q(p) for p in parts))]
        if "try" in k and n >= 2:
            for h in (1, 2):
                for parts in splits(n + h, h + 1):
                    r += [("try", qs[0], tuple(qs[1:])) for qs in itertools.product(*(Q(p - 1) for p in parts))]
        if "atry" in k and n >= 2:
            for h, f in ((0, 1), (1, 0), (1, 1), (2, 1)):
                for parts in splits(n + h + f - 1, h + f + 1):
                    r += [("atry", qs[0], tuple(qs[1:1 + h]), qs[1 + h] if f else None) for qs in itertools.product(*(Q(p - 1) for p in parts))]
        return tuple(r)

    def seqs(self, lo, hi):
        def it():
            for n in range(lo, hi + 1):
                for q in self.Q(n, self.seq):
                    if all(valid(s) for s in q):
                        yield q
        return it


def valid(s, loop=False, sw=False, top=True):
    """break/continue only where allowed; no dangling else"""
    k = s[0]
    if k == "brk":
        return loop or sw
    if k == "cont":
        return loop
    if k in ("blk", "pool", "sync"):
        return all(valid(x, loop, sw) for x in s[1])
    if k == "if":
        if s[3] is not None and cgen.dangling(s[2]):
            return False
        return valid(s[2], loop, sw) and (s[3] is None or valid(s[3], loop, sw))
    if k in ("while", "do"):
        return valid(s[2], True, sw)
    if k == "for":
        return valid(s[4], True, sw)
    if k in ("range", "forin"):
        return valid(s[1], True, sw)
    if k == "label":
        return s[1][0] != "decl" and valid(s[1], loop, sw)
    if k == "try":
        return all(valid(x, loop, sw) for x in s[1]) and all(valid(x, loop, sw) for q in s[2] for x in q)
    if k == "atry":
        return all(valid(x, loop, sw) for x in s[1]) and all(valid(x, loop, sw) for q in s[2] for x in q) and \
            (s[3] is None or all(valid(x, loop, sw) for x in s[3]))
    if k == "sw":
        return all(valid(x, loop, True) for l, q in s[2] for x in q)
    return True


# ------------------------------------------------------------------ the space
PRO = {
    "c": "#define NULL ((void*)0)\nenum { KK = 1 }; int g(void); struct P { int x; struct P *n; }; extern int a, b;",
    "cpp": "#define NULL 0\nenum { KK = 1 }; int g(); struct P { int x; P *n; int get(); }; struct Arr { int *begin(); int *end(); }; extern Arr arr; extern int a, b;",
    "m": "#define NULL ((void*)0)\nenum { KK = 1 }; int g(void); extern int a, b; typedef signed char BOOL;\n"
         "__attribute__((objc_root_class)) @interface K - (int)x; - (K *)n; @end\n__attribute__((objc_root_class)) @interface M @end\nextern id col;",
}
CLANG = {"c": ("-std=gnu99",), "cpp": ("-std=c++17", "-fcxx-exceptions", "-fexceptions"),
         "m": ("-fobjc-exceptions", "-fexceptions", "-fblocks"), "mm": ("-fobjc-exceptions", "-fcxx-exceptions", "-fexceptions", "-fblocks", "-std=c++17")}
CONT = {
    "c": ["int f{N}(int a, int b) { $ }"],
    "cpp": ["int f{N}(int a, int b) { $ }", "struct S{N} { int f(int a, int b) { $ } };",
            "class S{N} { int f(int a) const; }; int S{N}::f(int a) const { $ }",
            "template <class T> int f{N}(T p0, int a) { $ }", "namespace n{N} { namespace { int f(int a) { $ } } }",
            "auto f{N} = [](int a) -> int { $ };", "void f{N}(int a) { auto z = [&]() -> int { $ }; }",
            "struct S{N} { struct I { template <class T> static int f(int a) { $ } }; };", 'extern "C" { int f{N}(int a) { $ } }',
            "int f{N}(int a) try { $ } catch (int) { return 1; }"],
    "m": ["int f{N}(int a, int b) { $ }", "@interface C{N} : K @end @implementation C{N} - (int)f:(int)a { $ } @end",
          "@interface C{N} : K @end @implementation C{N} + (int)f:(int)a b:(int)b { $ } @end",
          "@interface K (X{N}) @end @implementation K (X{N}) - (int)f{N}:(int)a { $ } @end",
          "void f{N}(int a) { int (^z)(void) = ^int(void) { $ }; }"],
}
LONG_LINE_SAFE = 100000


class TSpace(common.Space):
    """Items are marked texts, or (container, tree) pairs turned into marked text by self.text."""
    cols = True
    pairs = True

    def __init__(self, name, ext, rules, src, opts=(), prologue=None, clang=None, batch=400):
        self.name, self.ext, self.rules, self.src, self.opts, self.batch = name, ext, tuple(rules), src, tuple(opts), batch
        self.prologue = PRO.get(ext, "") if prologue is None else prologue
        self.clang = CLANG.get(ext, ()) if clang is None else clang

    def __getstate__(self):
        d = dict(self.__dict__)
        d["src"] = None
        return d

    def items(self):
        return self.src()

    def text(self, item):
        return item

    def render(self, item):
        return strip(self.text(item))[0]

    def expect(self, item):
        return strip(self.text(item).replace("{N}", "0000"))[1]

    def steps(self, item):
        return item.count(" ") if isinstance(item, str) else cgen.nodes(item)

    def proj(self, v, line0):
        rule, cat, prio, path, sl, sc, el, ec, msg = v
        return (sl - line0, sc, rule, msg)


class TreeSpace(TSpace):
    """(container index, statement tuple sequence); models: names of module-level functions in rmodels"""

    def __init__(self, name, ext, rules, models, src, conts=None, **kw):
        super().__init__(name, ext, rules, src, **kw)
        self.models = models
        self.conts = conts or CONT[ext][:1]

    def items(self):
        for q in self.src():
            for c in range(len(self.conts)):
                yield (c, q)

    def text(self, it):
        c, q = it
        import rmodels
        body = blk(q)
        for m in self.models:
            getattr(rmodels, m)(body, self.ext)
        r = Render()
        t = r.s(body)
        marks = t[:t.index("{")]
        inner = t[t.index("{") + 1:-1]
        pre = ""
        if "goto L;" in inner:
            inner += "L: ; "
        cont = self.conts[c]
        if "return;" in inner and cont.startswith("int f"):
            cont = "void" + cont[3:]
        i = cont.index("{ $ }")
        return cont[:i] + marks + "{" + inner + "}" + cont[i + len("{ $ }"):]


# expressions with one hole; h, k3: functions, arr: int *, as: int, struct P { x }, wr, idt: C++ functions
HOLES = {"c": ["h(@)", "(a ? @ : 0)", "(a ? 1 : @)", "(@ ? 1 : 2)", "(@ ?: 2)", "a + @", "@ * 2", "-@", "~@", "(a, @)", "(@, a)", "(int)@", "(as = @)", "(as += @)", "arr[0 + @]", "@ == 2", "2 < @",
               "h(1) + h(@)", "*(arr + @)", "({ int t = @; t; })", "({ while (@) g(); 1; })", "(int){@}", "(struct P){.x = @}.x", "k3(1, 2, @)", "(double)(@) > 1.5", "(@)", "((@))"]}
HOLES["cpp"] = [x for x in HOLES["c"] if "{" not in x] + ["int(@)", "static_cast<int>(@)", "[&]() -> int { return @; }()", "[&](int z) -> int { if (z) return @; return 1; }(2)", "*new int(@)",
                                                          "P{{}, @}.x", "wr(@) + 1", "idt<int>(@)", "({ int t = @; t; })"]
HOLES["m"] = [x for x in HOLES["c"]] + ["[q y:@]", "[[q n] y:@]", "^int{ return @; }()", "((int (^)(int))0)(@)"]
HOLES["mm"] = HOLES["m"][:12] + ["[&]() -> int { return @; }()", "[q y:@]"]
INNER = ("h(@)", "(@)", "((@))", "(int){@}", "(as = @)", "(as += @)")
prim = lambda y: y[0] == "(" and y[-1] == ")" and "){" not in y and y[:5] != "(int)" or y.split("(")[0] in ("h", "k3", "int", "wr")


def holes(ext, depth):
    """all compositions of at most depth one-hole expressions"""
    hs = HOLES[ext]
    ws = ["@"] + hs
    if depth > 1:
        ws = ws + [x.replace("@", y if prim(y) or x in INNER else "(" + y + ")") for x in hs for y in hs]
    return ws
