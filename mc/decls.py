"""C11 size limits, C18 null checks, C22 unused variables and parameters, C23 names, C24 classes."""
import itertools
import build as B, common, rtree
from rtree import M, TSpace

EXPL = ("Every program of the bounded families is linted by the real executable with the real rule libraries; rule, line, column and message of "
        "every report are compared with a reference model that marks the constructs to report. states = distinct programs, "
        "transitions = tokens of the derivations, traces = runs of the executable.")
CPP = rtree.CLANG["cpp"]


# ------------------------------------------------------------------ C18
class NullSpace(TSpace):
    """items are expression trees: ("a", text) ("!", t) ("()", t) ("&&"|"||", l, r)"""

    def __init__(self, name, ext, trees, stmts=("if ({e}) g();",)):
        super().__init__(name, ext, NULLRULES, trees, prologue=NPRO[ext])
        self.stmts = stmts
        self.kind = "nil" if ext in ("m", "mm") else "null"

    def text(self, t):
        i, t = t
        s = self.stmts[i]
        e = show(t, self.kind)
        return NFUN[self.ext].replace("$", s.replace("{e}", e))

    def items(self):
        for t in self.src():
            for i in range(len(self.stmts)):
                yield (i, t)

    def steps(self, it):
        return size(it[1])


NULLRULES = ["BrokenNullCheck", "MisplacedNullCheck", "RedundantNilCheck"]
NPRO = {"c": "#define NULL ((void*)0)\nint g(void); int h(int); struct P { int x; struct P *n; int a[2]; int (*f)(void); };",
        "cpp": "#define NULL 0\nint g(); int h(int); struct B { int b; int bget(); }; struct P : B { int x; P *n; int get(); };",
        "m": "#define NULL ((void*)0)\n#define nil NULL\nint g(void); int h(int); struct P { int x; struct P *n; };\n"
             "__attribute__((objc_root_class)) @interface K { @public int x; } - (int)x; - (K *)n; - (int)y:(int)a; + (int)k; @end"}
NPRO["mm"] = NPRO["m"].replace("(void)", "()")
NFUN = {"c": "void f{N}(struct P *p, struct P *q, int a) { $ }", "cpp": "void f{N}(P *p, P *q, int a) { $ }",
        "m": "void f{N}(K *p, K *q, int a, struct P *r) { $ }", "mm": "void f{N}(K *p, K *q, int a, struct P *r) { $ }"}
# atom -> (checked non-null, checked null, dereferenced)
A = {"p": ("p", "", ""), "q": ("q", "", ""), "a": ("a", "", ""), "p != NULL": ("p", "", ""), "NULL != p": ("p", "", ""), "p != 0": ("p", "", ""),
     "p != nullptr": ("p", "", ""), "q != NULL": ("q", "", ""), "p == NULL": ("", "p", ""), "NULL == p": ("", "p", ""), "0 == p": ("", "p", ""),
     "nullptr == p": ("", "p", ""), "q == NULL": ("", "q", ""), "p == q": ("", "", ""), "p != q": ("", "", ""),
     "p->x": ("", "", "p"), "q->x": ("", "", "q"), "p->x == 1": ("", "", "p"), "p->n->x": ("", "", "p"), "h(p->x)": ("", "", "p"), "p->get()": ("", "", "p"),
     "(p)->x": ("", "", ""), "(*p).x": ("", "", ""), "p->x == q->x": ("", "", "pq"), "p->n": ("", "", "p"), "p->n == NULL": ("", "", "p"), "p->n != NULL": ("", "", "p"),
     "h(h(1 + q->x))": ("", "", "q"), "g()": ("", "", ""), "p->f()": ("", "", "p"), "p->b": ("", "", "p"), "p->bget()": ("", "", "p"), "NULL != q": ("q", "", ""),
     "p != (id)0": ("p", "", ""), "((id)0) != p": ("p", "", ""), "(id)0 == p": ("", "p", ""), "p == ((id)0)": ("", "p", ""), "p->a[1]": ("", "", "p"), "a ? p->x : 1": None,
     "[p x]": ("", "", "p"), "[q x]": ("", "", "q"), "[[p n] x]": ("", "", "p"), "[p n] == nil": ("", "", "p"), "h([p x])": ("", "", "p"), "[q y:[p x]]": ("", "", "pq"),
     "[q y:1]": ("", "", "q"), "[K k]": ("", "", ""), "p != nil": ("p", "", ""), "p == nil": ("", "p", ""), "nil != p": ("p", "", ""), "nil == p": ("", "p", ""),
     "q != nil": ("q", "", ""), "q == nil": ("", "q", ""), "r": ("r", "", ""), "r->x": ("", "", ""), "[p x] == 1": ("", "", "p"), "[p n]": ("", "", "p")}


def checks(t):
    """(variable checked to be non-null, variable checked to be null) by this very expression"""
    if t[0] == "a":
        return A[t[1]][:2]
    if t[0] == "!" and t[1][0] == "a" and t[1][1] in ("p", "q", "a", "r"):
        return ("", t[1][1])
    return ("", "")


def derefs(t):
    if t[0] == "a":
        return set(A[t[1]][2])
    return set().union(*(derefs(x) for x in t[1:]))


def show(t, kind, depth=0):
    if t[0] == "a":
        return t[1]
    if t[0] == "!":
        s = show(t[1], kind)
        return "!" + (s if t[1][0] != "a" or all(c not in t[1][1] for c in " ") or t[1][1][0] == "[" and t[1][1][-1] == "]" else "(" + s + ")")
    if t[0] == "()":
        return "(" + show(t[1], kind) + ")"
    op, l, r = t
    marks = ""
    (ln, lz), (rn, rz) = checks(l), checks(r)
    if op == "||" and ln and ln in derefs(r) or op == "&&" and lz and lz in derefs(r):
        marks += M(f"broken {kind} check", "")
    if op == "&&" and rn and rn in derefs(l) or op == "||" and rz and rz in derefs(l):
        marks += M(f"misplaced {kind} check", "")
    if kind == "nil" and op == "&&" and ln and ln in derefs(r) and r[0] != "!":
        marks += M("redundant nil check", "")
    return marks + show(l, kind) + f" {op} " + show(r, kind)


def size(t):
    return 1 if t[0] == "a" else 1 + sum(size(x) for x in t[1:])


def nulltrees(atoms, n, neg=True):
    """all trees of exactly n atoms; operands get parentheses where the grammar needs them and, for left operands, also where it does not"""
    memo = {}

    def T(k):
        if k in memo:
            return memo[k]
        r = []
        if k == 1:
            r = [("a", x) for x in atoms]
        else:
            for i in range(1, k):
                for op in ("&&", "||"):
                    for l in operand(T(i), op, True):
                        for x in operand(T(k - i), op, False):
                            r.append((op, l, x))
        if neg:
            r = r + [("!", t if t[0] in ("a",) else ("()", t)) for t in r if not (t[0] == "a" and " " in t[1] and t[1][0] not in "[" and "(" not in t[1])]
        memo[k] = r
        return r

    def operand(ts, op, left):
        for t in ts:
            if t[0] in ("&&", "||"):
                if left and (t[0] == op or t[0] == "&&"):
                    yield t
                elif not left and t[0] == "&&" and op == "||":
                    yield t
                yield ("()", t)
            else:
                yield t
    return T(n)


def c18(t):
    R = NULLRULES
    c2 = ["p", "q", "a", "p != NULL", "NULL != p", "p != 0", "q != NULL", "p == NULL", "NULL == p", "q == NULL", "0 == p", "p == q", "p != q", "p->x", "q->x",
          "p->x == 1", "p->n->x", "h(p->x)", "(*p).x", "p->x == q->x", "p->n", "p->n == NULL", "p->n != NULL", "h(h(1 + q->x))", "g()"]
    stm = ("if ({e}) g();", "while ({e}) g();", "a = {e};", "for (; {e}; ) g();", "h({e});", "do g(); while ({e});", "a = ({e}) ? 1 : 2;")
    if True:
        stm += ("{ { return (void)({e}); } }",)
    out = []
    sm = ["p", "q", "p->x", "q->x", "p == NULL", "p != NULL"]
    cx = [x for x in c2 if x not in ()] + ["p != nullptr", "nullptr == p", "p->get()", "p->b", "p->bget()"]
    m2 = ["p", "q", "a", "p != nil", "nil != p", "p == nil", "nil == p", "q != nil", "q == nil", "[p x]", "[q x]", "[[p n] x]", "[p n] == nil", "h([p x])",
          "[q y:[p x]]", "[q y:1]", "[K k]", "r", "r->x", "p != (id)0", "((id)0) != p", "(id)0 == p", "p == ((id)0)", "[p x] == 1", "[p n]", "g()"]
    ms = ["p", "[p x]", "[q x]", "p == nil", "p != nil"]
    tr = lambda atoms, n, neg=True: lambda: (x for x in nulltrees(atoms, n, neg))
    out.append(NullSpace("two", "c", tr(c2 + ["p->f()", "p->a[1]"], 2), stm[:-1]))
    out.append(NullSpace("two", "cpp", tr(cx, 2), stm))
    out.append(NullSpace("two", "m", tr(m2, 2, False), stm[:-1]))
    out.append(NullSpace("two", "mm", tr(m2, 2, False), stm[:1]))
    out.append(NullSpace("three", "c", tr(c2 if t else c2[:3] + sm, 3, False)))
    out.append(NullSpace("three", "cpp", tr(cx if t else sm + ["p->get()", "g()"], 3, False)))
    out.append(NullSpace("three", "m", tr(m2 if t else ms + ["q", "[q y:[p x]]"], 3, False)))
    out.append(NullSpace("three-negated", "c", tr(sm[:4], 3)))
    out.append(NullSpace("three-negated", "cpp", tr(sm[:4], 3)))
    out.append(NullSpace("four", "c", tr(sm if t else sm[:3], 4, False)))
    out.append(NullSpace("four", "m", tr(ms if t else ms[:2], 4, False)))
    # the access anywhere in the other operand: every composition of one-hole expression contexts
    acc = {"c": ["p->x", "p->n->x", "q->x", "pp->x", "(*p).x"], "cpp": ["p->x", "p->get()", "p->bget()", "q->x", "pp->get()"], "m": ["[p x]", "[[p n] x]", "[q x]", "[pp x]", "[q y:[p x]]"]}
    acc["mm"] = acc["m"]
    nn = {"c": ["p", "p != NULL", "0 != p"], "cpp": ["p", "p != nullptr", "NULL != p"], "m": ["p", "p != nil", "nil != p"], "mm": ["p"]}
    ez = {"c": ["!p", "p == NULL", "0 == p"], "cpp": ["!p", "p == nullptr", "NULL == p"], "m": ["!p", "p == nil", "nil == p"], "mm": ["!p", "p == nil"]}

    def holes(ext, depth):
        kind = "nil" if ext in ("m", "mm") else "null"
        fun = NFUN[ext].replace("int a", {"c": "int a, struct P *pp, int *arr", "cpp": "int a, P *pp, int *arr"}.get(ext, "int a, K *pp, int *arr"))

        def it():
            hs = rtree.HOLES[ext]
            for w in rtree.holes(ext, depth):
                for ac in acc[ext] if len(w) < 30 or w in hs else acc[ext][:1]:
                    e = w.replace("@", ac)
                    hit = ac not in ("q->x", "[q x]", "pp->x", "pp->get()", "[pp x]", "(*p).x")
                    B, MI, RN = (M(f"broken {kind} check", ""), M(f"misplaced {kind} check", ""), M("redundant nil check", "")) if hit else ("", "", "")
                    if kind == "null":
                        RN = ""
                    for c in nn[ext]:
                        yield fun.replace("$", f"if ({RN}{c} && {e}) g();")
                        yield fun.replace("$", f"if ({B}{c} || {e}) g();")
                        yield fun.replace("$", f"if ({MI}{e} && {c}) g();")
                        yield fun.replace("$", f"if ({e} || {c}) g();")
                    for c in ez[ext]:
                        yield fun.replace("$", f"if ({c} || {e}) g();")
                        yield fun.replace("$", f"if ({B}{c} && {e}) g();")
                        yield fun.replace("$", f"if ({MI}{e} || {c}) g();")
                        yield fun.replace("$", f"if ({e} && {c}) g();")
        return it
    hp = " int k3(int, int, int);"
    for ext, d in (("c", 2), ("cpp", 2), ("m", 2), ("mm", 1)):
        out.append(TSpace("positions", ext, R, holes(ext, d), prologue=NPRO[ext] + " int as;" + hp + (" int wr(int); template <class T> int idt(T);" if ext == "cpp" else "")))
    # redundant nil check leaves negated messages alone
    def negm():
        K = lambda r, s: M(r, s)
        for c in ("p", "p != nil", "nil != p", "p != (id)0", "p != ((id)0)"):
            yield f"int f{{N}}(K *p, K *q) {{ return {c} && ![p x]; }}"
            yield f"int f{{N}}(K *p, K *q) {{ return {c} && ![q y:[p x]]; }}"
            yield f"int f{{N}}(K *p, K *q) {{ return {M('redundant nil check', c)} && -[p x]; }}"
            yield f"int f{{N}}(K *p, K *q) {{ return {M('redundant nil check', c)} && [p x] && ![q x]; }}"
            for cc in ("@interface C{N} : K @end @implementation C{N} - (int)m:(K *)p { $ } @end", "@interface C{N} : K @end @implementation C{N} + (int)m:(K *)p { $ } @end",
                       "@interface K (X{N}) @end @implementation K (X{N}) - (int)m{N}:(K *)p { $ } @end", "void f{N}(K *p) { int (^z)(void) = ^int(void) { $ }; }"):
                yield cc.replace("$", f"return {M('redundant nil check', c)} && [p x];")
                yield cc.replace("$", f"return {M('broken nil check', c)} || [p x];")
                yield cc.replace("$", f"return {M('misplaced nil check', '[p x]')} && {c};")
        yield "@interface C{N} : K @end @implementation C{N} - (int)m { return " + M("redundant nil check", "self") + " && [self x]; } @end"
        yield "@interface C{N} : K @end @implementation C{N} - (int)m { return " + M("broken nil check", "self") + " || [self x]; } @end"
    out.append(TSpace("objc-forms", "m", R, negm, prologue=NPRO["m"]))

    def cxxc():
        for cc in rtree.CONT["cpp"]:
            for s, r in (("p || p->x", "broken null check"), ("!p && p->x", "broken null check"), ("p->x && p", "misplaced null check"), ("p->x || !p", "misplaced null check"),
                         ("p && p->x", ""), ("!p || p->x", "")):
                yield cc.replace("$", "P *p; return " + (M(r, s) if r else s) + ";")
    out.append(TSpace("containers", "cpp", R, cxxc, prologue=NPRO["cpp"] + " struct Arr { int *begin(); int *end(); };"))
    return R, out


# ------------------------------------------------------------------ C22
UL, UP = "unused local variable", "unused method parameter"


def lvar(n, text=None):
    return M(UL, "", f"The local variable '{n}' is unused.")


def pvar(n):
    return M(UP, "", f"The parameter '{n}' is unused.")


class ScopeSpace(TSpace):
    """Items: (container, parameter names, tokens).  Tokens declare, use and nest; the model resolves every use to its declaration."""

    def __init__(self, name, ext, conts, tokens, maxlen, params=((),), names=("xx", "yy")):
        self.conts, self.tokens, self.maxlen, self.params = conts, tokens, maxlen, params
        super().__init__(name, ext, ["UnusedLocalVariable", "UnusedMethodParameter"], None,
                         prologue=UPRO[ext], clang=rtree.CLANG.get(ext, ()))

    def items(self):
        for c in range(len(self.conts)):
            for ps in self.params:
                for n in range(self.maxlen + 1):
                    for q in itertools.product(self.tokens, repeat=n):
                        if self.ok(q, ps):
                            yield (c, ps, q)

    @staticmethod
    def ok(q, ps):
        scopes = [set(ps)]
        for t in q:
            k, *ns = t.split()
            if k == "}":
                if len(scopes) == 1:
                    return False
                scopes.pop()
            elif k == "{":
                scopes.append(set())
            elif k in ("D", "DI", "ST", "D="):
                if ns[0] in scopes[-1]:
                    return False
                scopes[-1].add(ns[0])
                if k == "D=" and ns[0] == ns[1]:
                    return False
            elif k == "C":
                if not any(ns[0] in x for x in scopes):
                    return False
            elif k in OPEN:
                # the variable of the header and the block of the body cannot declare the same name again
                scopes.append(set(ns))
        return len(scopes) == 1

    def text(self, it):
        c, ps, q = it
        pre, params, local = self.conts[c]
        decls = []          # per scope: name -> index
        out = []
        used = set()
        info = []           # (kind, name, position in out)

        def declare(kind, n, text):
            out.append(None)
            info.append((kind, n, len(out) - 1))
            decls[-1][n] = len(info) - 1
            out.append(text)

        def use(n):
            for d in reversed(decls):
                if n in d:
                    used.add(d[n])
                    return
        decls.append({})
        pinfo = {}
        for n in ps:
            info.append(("p", n, None))
            pinfo[n] = decls[0][n] = len(info) - 1
        for t in q:
            k, *ns = t.split()
            n = ns[0] if ns else None
            if k == "{":
                decls.append({})
                out.append("{ ")
            elif k == "}":
                decls.pop()
                out.append("} ")
            elif k == "D":
                declare("l", n, f"int {n}; ")
            elif k == "DI":
                declare("l", n, f"int {n} = 1; ")
            elif k == "ST":
                declare("l", n, f"static int {n}; ")
            elif k == "D=":
                use(ns[1])
                declare("l", n, f"int {n} = {ns[1]}; ")
            elif k in USES:
                use(n)
                out.append(USES[k].format(n=n) + " ")
            else:
                decls.append({})
                kind, head, tail = OPEN[k]
                out.append(head)
                if k == "if":
                    used.add(len(info))     # the condition is the variable
                declare(kind, n, tail.format(n=n))
        for i, (kind, n, pos) in enumerate(info):
            if pos is not None:
                out[pos] = (lvar(n) if local else "") if kind == "l" and i not in used else ""
        body = "".join(out)
        t = pre.replace("$", body)
        for j, n in enumerate(("xx", "yy")):
            ph = f"@{j}"
            if n in ps:
                t = t.replace(ph, (pvar(n) if params and pinfo[n] not in used else "") + f"int {n}")
            else:
                t = t.replace(ph, f"int z{j}").replace(f"int z{j}", (pvar(f"z{j}") if params else "") + f"int z{j}")
        return t

    def steps(self, it):
        return len(it[2]) + 1


USES = {"U": "g({n});", "W": "{n} = 2;", "&": "h(&{n});", "V": "(void){n};", "N": "{{ {{ {n}++; }} }}", "L": "[&] {{ g({n}); }}();", "C": "[{n}] {{ return {n}; }};", "Y": "{{ int i{n} = {n}; g(i{n}); }}",
        "Bk": "^{{ g({n}); }}();"}
OPEN = {"for": ("l", "for (", "int {n} = 0; ; ) {{ "), "if": ("l", "if (", "int {n} = g(1)) {{ "), "catch": ("l", "try {{ g(1); }} catch (".format(), "int {n}) {{ "),
        "range": ("l", "for (", "int {n} : arr) {{ "), "forin": ("l", "for (", "id {n} in col) {{ "), "ifi": ("l", "if (", "int {n} = g(1); g(2)) {{ ")}
UPRO = {"c": "int g(int); void h(int *); int xx, yy;", "cpp": "int g(int); void h(int *); int xx, yy; struct Arr { int *begin(); int *end(); }; extern Arr arr;",
        "m": "int g(int); void h(int *); int xx, yy; extern id col; typedef void IBAction_t;\n"
             "__attribute__((objc_root_class)) @interface K - (void)sup:(int)a b:(int)b; + (void)csup:(int)a b:(int)b; @end @protocol P - (void)pro:(int)a b:(int)b; + (void)cpro:(int)a b:(int)b; @optional - (void)opt:(int)a b:(int)b; @end\n"
             "@protocol Q <P> @end @interface L : K @end"}
UPRO["mm"] = UPRO["m"]
# (program, are parameters reported?, are local variables reported?)
UCONT = {
    "c": [("void f{N}(@0, @1) { $ }", 1, 1), ("static void f{N}(@0, @1) { $ } void u{N}(void) { f{N}(1, 2); }", 1, 1),
          ("void f{N}(int xx, int yy); void f{N}(@0, @1) { $ }", 1, 1), ("inline void f{N}(@0, @1) { $ }", 1, 1)],
    "cpp": [("void f{N}(@0, @1) { $ }", 1, 1), ("struct S{N} { void f(@0, @1) { $ } };", 0, 1), ("struct S{N} { void f(int xx, int yy); }; void S{N}::f(@0, @1) { $ }", 1, 1),
            ("struct S{N} { virtual void f(int, int); }; void S{N}::f(@0, @1) { $ }", 0, 1), ("struct S{N} { S{N}(int, int); }; S{N}::S{N}(@0, @1) { $ }", 1, 1),
            ("struct A{N} { virtual void f(int, int); }; struct S{N} : A{N} { void f(int, int); }; void S{N}::f(@0, @1) { $ }", 0, 1),
            ("struct S{N} { static void f(int, int); }; void S{N}::f(@0, @1) { $ }", 1, 1), ("template <class T> void f{N}(@0, @1) { $ }", 0, 0),
            ("namespace n{N} { namespace { void f(@0, @1) { $ } } }", 1, 1), ("auto f{N} = [](@0, @1) { $ };", 0, 1), ("struct S{N} { struct I { void f(@0, @1) { $ } }; };", 0, 1),
            ("extern \"C\" void f{N}(@0, @1) { $ }", 1, 1), ("void f{N}() { struct I { void f(@0, @1) { $ } }; }", 0, 1),
            ("struct S{N} { template <class T> void f(@0, @1) { $ } };", 0, 0), ("void f{N}(@0, @1) try { $ } catch (...) { }", 1, 1),
            ("struct S{N} { friend void f{N}(@0, @1) { $ } };", 0, 1), ("struct S{N} { int m; S{N} &operator()(int, int); }; S{N} &S{N}::operator()(@0, @1) { $ return *this; }", 1, 1)],
    "m": [("void f{N}(@0, @1) { $ }", 1, 1), ("@interface C{N} : K @end @implementation C{N} - (void)f:(@0q b:(@1q { $ } @end", 1, 1),
          ("@interface C{N} : K @end @implementation C{N} + (void)f:(@0q b:(@1q { $ } @end", 1, 1), ("@interface C{N} : K - (void)f:(int)a b:(int)b; @end @implementation C{N} - (void)f:(@0q b:(@1q { $ } @end", 1, 1),
          ("@interface C{N} : K @end @implementation C{N} - (void)sup:(@0q b:(@1q { $ } @end", 0, 1), ("@interface C{N} : L @end @implementation C{N} - (void)sup:(@0q b:(@1q { $ } @end", 0, 1),
          ("@interface C{N} : K <P> @end @implementation C{N} - (void)pro:(@0q b:(@1q { $ } @end", 0, 1), ("@interface C{N} : K <Q> @end @implementation C{N} - (void)opt:(@0q b:(@1q { $ } @end", 0, 1),
          ("@interface C{N} : K @end @implementation C{N} - (void)pro:(@0q b:(@1q { $ } @end", 1, 1), ("@interface C{N} : K @end @implementation C{N} - (void)sup:(@0q c:(@1q { $ } @end", 1, 1),
          ("@interface K (X{N}) @end @implementation K (X{N}) - (void)f{N}:(@0q b:(@1q { $ } @end", 1, 1),
          ("@interface C{N} : K @end @implementation C{N} - (void)__attribute__((ibaction))f:(@0q b:(@1q { $ } @end", 0, 1),
          ("void f{N}(void) { void (^z)(int, int) = ^(@0, @1) { $ }; z(1, 2); }", 0, 1),
          ("@interface C{N} : K <P> @end @implementation C{N} + (void)cpro:(@0q b:(@1q { $ } @end", 0, 1),
          ("@interface C{N} : K <P> @end @implementation C{N} + (void)pro:(@0q b:(@1q { $ } @end", 1, 1), ("@interface C{N} : K @end @implementation C{N} + (void)sup:(@0q b:(@1q { $ } @end", 1, 1),
          ("@interface C{N} : K @end @implementation C{N} - (void)csup:(@0q b:(@1q { $ } @end", 1, 1),
          ("@interface C{N} : K @end @implementation C{N} + (void)csup:(@0q b:(@1q { $ } @end", 0, 1)],
}


class ObjCScope(ScopeSpace):
    """(@0q becomes (int)xx: Objective-C parameters"""

    def text(self, it):
        t = super().text(it)
        import re
        return re.sub("\\((\x01[^\x03]*\x03)?int (\\w+)q", lambda m: "(" + (m.group(1) or "") + "int)" + m.group(2), t)


def c22(t):
    R = ["UnusedLocalVariable", "UnusedMethodParameter"]
    out = []
    base = ["D xx", "U xx", "D yy", "U yy", "{", "}"]
    one = ["D xx", "D= xx yy", "DI yy", "W xx", "& xx", "V xx", "N yy", "Y xx", "ST xx"]
    PS = ((), ("xx",), ("xx", "yy"))
    out.append(ScopeSpace("scopes", "c", UCONT["c"][:1], base + ["for xx"], 7 if t else 6, PS[:2]))
    out.append(ScopeSpace("uses", "c", UCONT["c"], one + ["{", "}"], 4 if t else 3, PS))
    out.append(ScopeSpace("scopes", "cpp", UCONT["cpp"][:1], ["D xx", "U xx", "L xx", "C xx", "{", "}", "for xx", "if xx", "catch xx", "range xx", "ifi xx"], 6 if t else 5, PS[:2]))
    out.append(ScopeSpace("containers", "cpp", UCONT["cpp"], ["D xx", "U xx", "U yy", "W xx", "{", "}", "L yy", "range yy"], 4 if t else 3, PS))
    out.append(ScopeSpace("uses", "cpp", UCONT["cpp"][:3], one + ["{", "}"], 4 if t else 3, PS))
    out.append(ObjCScope("containers", "m", UCONT["m"], ["D xx", "V xx", "U yy", "{", "}", "Bk yy", "forin xx"], 4 if t else 3, PS))

    def kinds():
        P = pvar
        for ty, use in (("int {}", "g({});"), ("int *{}", "h({});"), ("const int {} = 1", "g({});"), ("X {}", "{}.m();"), ("int {}[3]", "h({});"), ("X &{} = gx", "{}.m();"),
                        ("auto {} = g(1)", "g({});"), ("static int {}", "g({});"), ("int (*{})(int)", "{}(1);"), ("unsigned long {} = 3ul", "g({});"), ("X {}(1)", "{}.m();"), ("X {}{{1}}", "{}.m();")):
            for n in ("vv", "unused", "_", "i"):
                d = ty.format(n)
                yield "void f{N}() { " + lvar(n) + d + "; }"
                yield "void f{N}() { " + d + "; " + use.format(n) + " }"
                yield "void f{N}() { " + d + "; (void)" + n + "; }"
                yield "void f{N}() { int a = 1, b; g(a); }".replace("int a = 1, b", lvar("b") + "int a = 1, b") if False else "int z{N};"
                yield "void f{N}() { __attribute__((unused)) " + d + "; (void)" + n + "; }"
            base = ty.split("=")[0].split("{}[")[0].rstrip()
        for ty in ("int {}", "int *{}", "X {}", "const X &{}", "int {}[]", "int (*{})(int)", "auto (*{})(int) -> int"):
            for n in ("vv", "_", "unused"):
                d = ty.format(n)
                yield "void f{N}(" + P(n) + d + ") { }"
                yield "void f{N}(" + d + ") { (void)" + n + "; }"
                yield "void f{N}(" + d + ");"
                yield "void f{N}(" + ty.format("") + ") { }"
                yield "void f{N}(__attribute__((unused)) " + d + ") { }"
                yield "void f{N}([[maybe_unused]] " + d + ") { }"
                yield "void f{N}(" + d + ") = delete;"
                yield "typedef void f{N}(" + d + ");"
                yield "void (*f{N})(" + d + ");"
                yield "void f{N}(void (*cb)(" + d + ")) { cb(0); }"
                yield "void f{N}(" + P("cb") + "void (*cb)(" + d + ")) { }"
                yield "void f{N}() { void (*cb)(" + d + "); (void)cb; }"
                yield "void f{N}() { extern void e{N}(" + d + "); }"
                yield "void (*f{N}())(" + d + ") { return 0; }"
                yield "void f{N}() { typedef void T(" + d + "); T *t; (void)t; }"
                yield "void f{N}(" + d + ", " + P("w") + "int w) { (void)" + n + "; }"
                yield "struct S{N} { int m; S{N}(X *, " + ty.format("") + "); }; S{N}::S{N}(X *" + "p0, " + d + ") : m(g(1)) { (void)p0; (void)" + n + "; }"
    out.append(TSpace("kinds", "cpp", R, kinds, prologue=UPRO["cpp"] + " struct X { X(int = 0); ~X(); void m() const; }; extern X gx;"))

    # one variable or parameter is used in any position of any expression, another one is not
    KD = [("int vv = 1;", "int ww;"), ("static int vv;", "static int ww = 2;"), ("const int vv = 1;", "const int ww = 2;"), ("register int vv = g(1);", "volatile int ww = 1;"), ("P", "P")]
    STS = ["$;", "if ($) g(1);", "{ while ($) { } }", "switch ($) { default: ; }", "for (; $; ) { }", "int zz = $; g(zz);", "do { } while ($);", "g($);", "return (void)($);", "if (g(1)) { } else if ($) { }"]

    def exprs(ext, depth):
        def it():
            for w in rtree.holes(ext, depth):
                flat = w == "@" or w in rtree.HOLES[ext]
                for k, (d, u) in enumerate(KD if flat else KD[:1] + KD[4:]):
                    if k == 2 and "({ while (@)" in w:
                        continue
                    for st in STS if flat else STS[:2]:
                        if k == 3 and ext == "cpp":
                            d = "int vv = g(1);"
                        x = st.replace("$", w.replace("@", "vv") if w[:4] != "int(" else "+" + w.replace("@", "vv"))
                        if d == "P":
                            yield "void f{N}(int vv, " + pvar("ww") + "int ww) { " + x + " }"
                            yield "void f{N}(" + pvar("ww") + "int ww, int vv) { int zy = 3; " + x + " { " + lvar("ww") + "int ww; } g(zy); }"
                        else:
                            yield "void f{N}(" + pvar("pp") + "int pp) { " + d + " " + lvar("ww") + u + " " + x + " }"
                            if ext in ("m", "mm"):
                                yield "@interface C{N} : K @end @implementation C{N} - (void)m { " + d + " " + lvar("ww") + u + " " + x + " } @end"
                            if ext == "cpp":
                                yield "struct S{N} { void m() { " + d + " " + lvar("ww") + u + " " + x + " } };"
        return it
    EPRO = {"c": " int h1(int); int k3(int, int, int); extern int *arr; struct P { int x; }; int as, a;".replace("h1", "h")}
    EPRO["cpp"] = " int h(int); int k3(int, int, int); int wr(int); template <class T> T idt(T); extern int *arr; struct Q { }; struct P { Q q; int x; }; int as, a;"
    EPRO["m"] = EPRO["c"] + "\n__attribute__((objc_root_class)) @interface K - (int)y:(int)a; - (K *)n; @end extern K *q;"
    for ext, d in (("c", 2), ("cpp", 2), ("m", 2)):
        out.append(TSpace("expressions", ext, R, exprs(ext, d), prologue=("int g(int = 0);" if ext == "cpp" else "int g();") + EPRO[ext], clang=rtree.CLANG.get(ext, ())))

    CU = {"c": ["switch (g(1)) { case $: ; }", "int z2[$]; g(z2[0]);", "_Static_assert($ == 1, \"\");", "enum { E{N} = $ }; g(E{N});", "g(sizeof($));", "g(_Alignof(int[$]));", "typeof($) zz = 2; g(zz);",
                "struct L { int b : $; } zz = {1}; g(zz.b);", "g(_Generic($, int: 1, default: 2));", "g(__builtin_constant_p($));", "g(__builtin_choose_expr($, 1, 2));", "static int zz = $; g(zz);",
                "asm volatile (\"\" : : \"r\"($));", "int *zz = (int[$]){}; g(*zz);", "int zz[3] = {[$] = 2}; g(zz[0]);", "g(sizeof(int[$]));", "int (*zz)[$] = 0; g((*zz)[0]);", "switch (g(1)) { case 0 ... $: ; }",
                "_Alignas($ * 4) int zz = 1; g(zz);", "typedef int T{N}[$]; T{N} zz; g(zz[0]);", "void fz(int (*)[$]); fz(0);", "g(__builtin_types_compatible_p(typeof($), int));", "if (0) g($);", "g(0 && $);", "g(1 ? 2 : $);"]}
    CU["cpp"] = [x.replace("_Static_assert", "static_assert").replace("_Alignas", "alignas").replace("_Alignof", "alignof").replace("typeof", "__typeof__") for x in CU["c"]
                 if "_Generic" not in x and "choose_expr" not in x and "[$] =" not in x and "types_compat" not in x] + \
        ["decltype($) zz = 1; g(zz);", "Tp<$> zz; g(zz.m);", "g(Tp<$>::s);", "void (*fz)() noexcept($ == 1) = 0; fz();", "g(noexcept($));", "auto zz = [$] { }; zz();", "auto zz = [&$] { }; zz();", "auto zz = [=] { return $; }; zz();",
         "auto zz = [&] { return $; }; zz();", "auto zz = [zy = $] { return zy; }; zz();", "int *zz = new int[$]; g(*zz);", "if constexpr ($) g(1);", "constexpr int zz = $; g(zz);", "tf<$>();", "throw $;", "const int &zz = $; g(zz);",
         "using T = Tp<$>; T zz; g(zz.m);", "struct L { static int m() { return $; } }; g(L::m());", "struct L { enum { e = $ }; }; g(L::e);", "struct L { int m[$]; } zz; g(zz.m[0]);", "struct L : Tp<$> { } zz; g(zz.m);",
         "auto zz = []() -> Tp<$> { return {}; }; zz();", "auto zz = [](int zy = $) { g(zy); }; zz();", "alignas($ * 4) int zz = 1; g(zz);", "g(int{$});", "auto zz = [](auto zy) { g(zy + $); }; zz(1);", "auto zz = [] { return $; }; g(zz());"]

    def consts(ext):
        def it():
            ds = {"c": ["enum { vv = 1 };", "const int vv = 1;", "static const int vv = 1;"], "cpp": ["const int vv = 1;", "static const int vv = 1;", "constexpr int vv = 1;", "static constexpr int vv{1};"]}[ext]
            ws = {"c": ["const int ww = 1;", "static const int ww = 1;"], "cpp": ["const int ww = 1;", "static const int ww = 1;", "constexpr int ww = 1;"]}[ext]
            for c in CU[ext]:
                for d in ds:
                    if "static" in d and any(x in c for x in ("[$]", "[&$]")) and "auto" in c:
                        continue
                    if ext == "c" and d[0] != "e" and any(x in c for x in ("_Static_assert", "struct L", "static int", "choose_expr", "_Alignas", "[$] =", "enum {", "){}")):
                        continue
                    for w in ws:
                        yield "void f{N}(void) { " + d + " " + lvar("ww") + w + " " + c.replace("$", "vv") + " }"
                        yield "void f{N}(void) { " + lvar("ww") + w + " { " + d + " { " + c.replace("$", "vv") + " } " + lvar("ww") + w + " } }"
                        if ext == "cpp":
                            yield "struct S{N} { void m() { " + d + " " + lvar("ww") + w + " " + c.replace("$", "vv") + " } };"
        return it
    for ext in ("c", "cpp"):
        out.append(TSpace("constants", ext, R, consts(ext), prologue="int g(int);" + (" template <int N> struct Tp { int m; enum { s }; }; template <int N> void tf();" if ext == "cpp" else "")))

    # classes that only exist for their constructor and destructor
    names = ["Aa", "n::Bb", "Tt"]
    vars_ = [("Aa {}", "Aa"), ("n::Bb {}", "n::Bb"), ("Tt<int> {}", "Tt"), ("const Aa {}", "Aa"), ("struct Aa {}", "Aa"), ("Al {}", "Aa"), ("Aa *{}", None), ("n::Cc {}", "n::Cc"),
             ("Bb {}", "Bb"), ("std::lock_guard<int> {}", "std::lock_guard"), ("std::unique_lock<int> {}", "std::unique_lock"), ("const std::lock_guard<n::Bb> {}", "std::lock_guard"), ("int {}", None)]
    seps = [",", ", ", ";", " ", "\t", ",,", " ; ", ""]

    def lists():
        toks = ["Aa", "n::Bb", "Tt"]
        cfgs = [("", [])]
        for k in (1, 2, 3):
            for ns in itertools.permutations(toks, k):
                for sp in itertools.product(seps[:6] if not t else seps[:7], repeat=k - 1):
                    s = ns[0] + "".join(a + b for a, b in zip(sp, ns[1:]))
                    cfgs.append((s, list(ns)))
        cfgs += [(a + s + b, ns) for s, ns in cfgs[1:4] for a, b in itertools.product(seps, repeat=2)]
        cfgs += [("A", []), ("AaX", []), ("aa", []), ("Bb", ["Bb"]), ("Aan::Bb", [])]
        return cfgs
    for s, ns in lists():
        for deflt in (("std::lock_guard", "std::unique_lock"), None):
            if deflt is None and len(ns) != 1:
                continue
            key = "RAII_CUSTOM_CLASSES" if deflt else "RAII_DEFAULT_CLASSES"
            skip = set(ns) | set(deflt or ())

            def gen(skip=skip):
                for d, cls in vars_:
                    d = d.format("vv")
                    yield "void f{N}() { " + ("" if cls in skip else lvar("vv")) + d + "; }"
                    yield "struct S{N} { void f() { { " + ("" if cls in skip else lvar("vv")) + d + "; } } };"
            out.append(TSpace("raii", "cpp", R[:1], gen, opts=(f"-rc={key}={s}",),
                              prologue="struct Aa { Aa(); ~Aa(); }; namespace n { struct Bb { Bb(); ~Bb(); }; struct Cc { ~Cc(); }; } struct Bb { ~Bb(); }; template <class T> struct Tt { Tt(); ~Tt(); };"
                                       "namespace std { template <class T> struct lock_guard { lock_guard(); ~lock_guard(); }; template <class T> struct unique_lock { unique_lock(); ~unique_lock(); }; } using Al = Aa;"))
    return R, out


# ------------------------------------------------------------------ C23
SV, LV = "short variable name", "long variable name"
# @ = where the variable is declared, X = its name, * before @ = a loop or catch variable
NKINDS = {
    "c": ["void f{N}(void) { @int X; }", "void f{N}(void) { static int *zzz; @int X = 1; }", "void f{N}(void) { @static int X; }", "void f{N}(@int X) { }", "void f{N}(int zzz, @int *X);", "@static int X;",
          "@extern int X;", "void f{N}(void) { for (*@int X = 0; ; ) g(1); }", "void f{N}(void) { for (@int X = 0; ; ) for (; ; ) g(1); }".replace("@", "*@"), "void f{N}(void) { for (; ; ) { @int X; } }",
          "void f{N}(void) { int bbb; for (bbb = 0; ; ) { @int X; for (*@int X = 0; ; ) { @int X; } } }", "void f{N}(void) { for (*@int X = 0, zzz; ; ) g(1); }",
          "void f{N}(void) { { { @struct P X; } } }", "struct S{N} { int X; };", "enum E{N} { E{N}1 }; void f{N}(void) { enum E{N} zzz; X: g(1); goto X; }", "struct S{N} { void (*X)(void); };",
          "void f{N}(void) { typedef int X; }", "void f{N}(void) { switch (g(1)) { default: ; @int X; } }", "void f{N}(void) { while (g(1)) { @int X = 2; } }", "void f{N}(void) { @void (*X)(void) = 0; }",
          "void f{N}(void) { @extern int X; }", "int (*f{N}(@int X))(void) { return 0; }",
          "void f{N}(@int X); void f{N}(@int X) { }", "void f{N}(@int X) { } void f{N}(@int X);", "void f{N}(@int X); void f{N}(int); void f{N}(@int X);", "void f{N}(void) { void h{N}(@int X); }",
          "void h{N}(void (*zzz)(@int X));", "void f{N}(void) { void (*zzz)(@int X) = 0; }", "typedef void T{N}(@int X);"],
    "cpp": ["namespace n{N} { @int X; }", "namespace n{N} { @const int X = 1; }", "struct S{N} { @static int X; };", "struct S{N} { static int X; }; @int S{N}::X;".replace("{ static", "{ @static"),
            "struct S{N} { int X; void f(@int X) { } };", "struct S{N} { S{N}(@int X) { } };", "struct S{N} { void f() { @int X; } };", "template <class T> void f{N}(@T X) { @T X##; }".replace(" @T X##;", ""),
            "template <int X> void f{N}() { }", "template <class X> void f{N}() { }", "void f{N}() { for (*@int X : arr) g(1); }", "void f{N}() { for (*@auto &X : arr) { { @int X; } } }",
            "void f{N}() { try { g(1); } catch (*@int X) { } }", "void f{N}() { try { g(1); } catch (*@int &X) { @int X##; } }".replace(" @int X##;", ""), "void f{N}() { if (@int X = g(1)) g(2); }",
            "void f{N}() { while (@int X = g(1)) g(2); }", "void f{N}() { auto zzz = [](@int X) { }; }", "void f{N}() { auto zzz = [] { @int X; }; }", "void f{N}() { auto [X, zzz] = pr; }",
            "void f{N}() { for (*@int X = 0; ; ) { auto zzz = [] { @int X; }; } }", "void f{N}() { switch (@int X = g(1)) { } }", "void f{N}() { for (int zzz = 0; @int X = g(1); ) g(2); }".replace("int zzz", "int zzz"),
            "struct S{N} { friend void f{N}(@int X) { } };", "void f{N}(@int X = 1) { }", "struct S{N} { virtual void f(@int X) = 0; };", "template <class T> struct S{N} { void f() { for (*@T X : arr) { } } };",
            "void f{N}() { if (@int X = g(1); g(2)) g(3); }", "namespace n{N} { template <class T> @T X = 1; }", "extern \"C\" { namespace n{N} { @static int X; } }", "auto f{N} = [zzz = 1](@int X) { };",
            "void f{N}(@int X); void f{N}(@int X) { }", "struct S{N} { void f(@int X); }; void S{N}::f(@int X) { }", "template <class T> void f{N}(@T X); template <class T> void f{N}(@T X) { }",
            "struct S{N} { S{N}(@int X); ~S{N}(); }; S{N}::S{N}(@int X) { }", "namespace n{N} { void f(@int X); } void n{N}::f(@int X) { }", "using T{N} = void (*)(@int X);", "struct S{N} { template <class T> void f(@T X); }; template <class T> void S{N}::f(@T X) { }"],
    "m": ["void f{N}(void) { @int X; }", "@interface C{N} : K { int X; } @end", "@interface C{N} : K @end @implementation C{N} - (void)f:(#int)X { } @end", "@interface C{N} : K - (void)f:(#int)X; @end",
          "@interface C{N} : K @end @implementation C{N} - (void)f { @int X; } @end", "void f{N}(void) { for (*@id X in col) g(1); }", "void f{N}(void) { for (*@int X = 0; ; ) { @id X; } }",
          "void f{N}(void) { ^(@int X) { g(1); }(1); }", "void f{N}(void) { for (*@id X in col) { @id X##; } }".replace(" @id X##;", " { @id X; }"),
          "@interface K (X{N}) @end @implementation K (X{N}) + (void)f{N}:(#int)X { } @end", "@interface C{N} : K @property int X; @end",
          "@interface C{N} : K - (void)f:(#int)X; @end @implementation C{N} - (void)f:(#int)X { } @end", "@protocol P{N} - (void)f:(#int)X; @end @interface C{N} : K <P{N}> - (void)f:(#int)X; @end @implementation C{N} - (void)f:(#int)X { } @end",
          "@interface C{N} : K @end @interface C{N} () - (void)f:(#int)X; @end @implementation C{N} - (void)f:(#int)X { } @end", "void f{N}(void (^zzz)(@int X)) { }"],
}
NPRO23 = {"c": "int g(int); struct P { int ppp; };", "cpp": "int g(int); struct Arr { int *begin(); int *end(); }; extern Arr arr; struct Pr { int aaa, bbb; }; extern Pr pr;",
          "m": "int g(int); extern id col; __attribute__((objc_root_class)) @interface K @end"}


def name_of(n):
    return ("abcdefghijklmnopqrstuvwxyz" * (n // 26 + 1))[:n - 1] + "Q"


def nmark(text, name, short, long_):
    """replaces the places of a declaration template by marks"""
    n = len(name)
    ms = ml = ""
    if n < short:
        ms = M(SV, "", f"Length of variable name `{name}` is {n}, which is shorter than the threshold of {short}")
    if n > long_:
        shown = name[:long_ + 3] + "..." + name[-3:] if n > long_ + 10 else name
        ml = M(LV, "", f"Length of variable name `{shown}` is {n}, which is longer than the threshold of {long_}")
    import re
    text = re.sub(r"(?<![A-Za-z])X(?![A-Za-z{])", name, text)
    out = re.sub(r"@(?=interface|implementation|end|property|protocol)", "%", text)
    out = out.replace("*@", ml).replace("@", ms + ml).replace("#", ms + ml)
    return out.replace("%", "@")


def c23(t):
    R = ["ShortVariableName", "LongVariableName"]
    out = []

    def space(ext, s, l, lens):
        def it():
            for k in NKINDS[ext]:
                if ("zzz" in k or "bbb" in k) and (s is not None and s > 3 or l is not None and l < 3):
                    continue
                if "auto f" in k and (s is not None and s > 5 or l is not None and l < 5):
                    continue
                for n in lens:
                    nm = name_of(n)
                    yield nmark(k, nm, 3 if s is None else s, 20 if l is None else l)
        o = () if s is None else (f"-rc=SHORT_VARIABLE_NAME={s}",)
        o += () if l is None else (f"-rc=LONG_VARIABLE_NAME={l}",)
        return TSpace(f"names/{ext}", ext, R, it, prologue=NPRO23[ext], opts=o)
    for ext in ("c", "cpp", "m"):
        out.append(space(ext, None, None, [*range(1, 80 if not t else 200), 255, 256, 257, 1000, 4096]))
        for s in range(0, 9 if not t else 15):
            out.append(space(ext, s, None, range(1, s + 4)))
        for l in (1, 2, 5, 9, 10, 11, 19, 30) if not t else range(1, 41):
            out.append(space(ext, None, l, [*range(max(1, l - 2), l + 20), *range(2 * l + 10, 2 * l + 25, 3), 5 * l + 30]))
        for s, l in ((5, 4), (10, 3), (7, 6), (6, 7)):
            out.append(space(ext, s, l, range(1, 20)))

    # the same name as loop variable and as ordinary variable, in every order
    K = {"c": ["void f{N}@k(void) { @int X; }", "void f{N}@k(void) { for (*@int X = 0; ; ) g(1); }", "void f{N}@k(@int X) { }", "static int aaa;"],
         "cpp": ["void f{N}@k() { @int X; }", "void f{N}@k() { for (*@int X : arr) g(1); }", "void f{N}@k(@int X) { for (*@int X = 0; ; ) g(1); }", "void f{N}@k() { try { g(1); } catch (*@int X) { } }",
                 "namespace n{N}@k { @int X; }"],
         "m": ["void f{N}@k(void) { @id X; }", "void f{N}@k(void) { for (*@id X in col) g(1); }", "void f{N}@k(@id X) { }"]}
    for ext in K:
        def seqs(ext=ext):
            for n in range(1, 5 if t else 4):
                for q in itertools.product(K[ext], repeat=n):
                    for names in itertools.product(("i", "ab") if n < 4 else ("i",), repeat=n):
                        yield " ".join(nmark(k.replace("@k", f"_{j}"), nm, 3, 20) for j, (k, nm) in enumerate(zip(q, names)))
        out.append(TSpace(f"sequences/{ext}", ext, R, seqs, prologue=NPRO23[ext]))
    return R, out


# ------------------------------------------------------------------ C11
# ⟦k: start of declaration k; ⟨k and ⟩k: start and end of what is measured; $: filled with lines
def sized(text, msgs):
    """msgs: digit -> (rule, prefix, threshold); puts the marks of the declarations that have too many lines"""
    import re
    for k, (rule, prefix, T) in msgs.items():
        i, j = text.find("⟨" + k), text.find("⟩" + k)
        if i < 0:
            text = text.replace("⟦" + k, "")
            continue
        n = text[i:j].count("\n") + 1
        text = text.replace("⟦" + k, M(rule, "", f"{prefix} with {n} lines exceeds limit of {T}") if n > T else "")
    return re.sub("[⟨⟩⟦]\\d", "", text)


LMCONT = {
    "c": ["⟦1void f{N}(void) ⟨1{ $ ⟩1}", "⟦1static int\nf{N}(void)\n⟨1{ $ return 1;\n⟩1}", "void f{N}(void); ⟦1void f{N}(void) ⟨1{ $ ⟩1} void f{N}(void);", "⟦1void f{N}(a) int a; ⟨1{ $ ⟩1}",
          "⟦1void f{N}(void) ⟨1{ ⟩1} ⟦2void g{N}(void) ⟨2{ $ ⟩2}", "struct S{N} { int x; $ };", "int v{N}[] = { $ 1 };", "enum E{N} { $ E{N}x };", "/* $ */ ⟦1void f{N}(void) ⟨1{ ⟩1}",
          "⟦1void f{N}(void) ⟨1{ { $ } ⟩1}", "⟦1void f{N}(\nint a,\nint b\n) ⟨1{ $ ⟩1}",
          "⟦1void f{N}(void) ⟨1BEG $ ⟩1END", "⟦1void f{N}(void) ⟨1{ $ ⟩1END", "⟦1void\nf{N}(void) ⟨1BEG $ ⟩1}", "⟦1VOID f{N}(VOID)\n⟨1{ $ ⟩1}"],
    "cpp": ["⟦1void f{N}() ⟨1{ $ ⟩1}", "struct S{N} { ⟦1void m() ⟨1{ $ ⟩1} };", "struct S{N} { void m(); }; ⟦1void S{N}::m() ⟨1{ $ ⟩1}", "struct S{N} { ⟦1S{N}() ⟨1{ $ ⟩1} ⟦2~S{N}() ⟨2{ $ $ ⟩2} };",
            "struct S{N} { int x; int y; ⟦1S{N}()\n: x(1)\n, y(2) ⟨1{ $ ⟩1} };", "namespace n{N} { $ ⟦1template <class T> void f() ⟨1{ $ ⟩1} }".replace("⟦1template <class T> void", "template <class T> ⟦1void"),
            "⟦1void f{N}() ⟨1{ struct L { ⟦2void m() ⟨2{ $ ⟩2} }; $ ⟩1}", "⟦1void f{N}() ⟨1{ auto l = [] { $ }; ⟩1}", "⟦1auto f{N}() -> int ⟨1{ $ return 1; ⟩1}", "⟦1void f{N}() ⟨1try { $ } catch (...) { $ ⟩1}",
            "struct S{N} { S{N}() = default; $ void m() = delete; $ ⟦1operator int() ⟨1{ $ return 1; ⟩1} };", "template <class T> struct S{N} { ⟦1void m() ⟨1{ $ ⟩1} }; template struct S{N}<int>;",
            "struct S{N} { ⟦1friend void f{N}() ⟨1{ $ ⟩1} };", "extern \"C\" { ⟦1void f{N}() ⟨1{ $ ⟩1} }", "struct S{N} { ⟦1[[nodiscard]] int m() ⟨1{ $ return 1; ⟩1} };".replace("[[nodiscard]] ", ""),
            "auto l{N} = [] { $ };", "class S{N} { ⟦1static inline void m() ⟨1{ $ ⟩1} };", "⟦1template <> int tt<{N}>() ⟨1{ $ return 2; ⟩1}".replace("<{N}>", "<1{N}>"),
            "struct S{N} BEG ⟦1void m() ⟨1BEG $ ⟩1END END;"],
    "m": ["@interface C{N} : K $ @end @implementation C{N} $ ⟦1- (void)f ⟨1{ $ ⟩1} $ @end", "@interface C{N} : K\n- (void)f;\n@end @implementation C{N} ⟦1+ (int)f:(int)a ⟨1{ $ return 1; ⟩1} ⟦2- (void)g ⟨2{ ^{ $ }(); ⟩2} @end",
          "⟦1void f{N}(void) ⟨1{ ^{ $ }(); ⟩1}", "@interface K (X{N}) @end @implementation K (X{N}) ⟦1- (void)f{N} ⟨1{ $ ⟩1} @end", "@interface C{N} : K @end @implementation C{N} ⟦1void f{N}(void) ⟨1{ $ ⟩1} @end", "@interface C{N} : K $ @end @implementation C{N} ⟦1- (VOID)f ⟨1BEG $ ⟩1END @end"],
}
LCCONT = {
    "c": ["⟦1struct S{N} ⟨1{ int a; $ ⟩1};".replace("⟦1struct S{N} ⟨1", "struct S{N} "), "void f{N}(void) { $ }"],
    "cpp": ["⟦1⟨1struct S{N} { $ ⟩1};", "⟦1⟨1class S{N}\n{ $ ⟩1};", "⟦1⟨1union S{N} { $ ⟩1};", "struct S{N}; ⟦1⟨1struct S{N} { $ ⟩1}; $ struct S{N};", "⟦1⟨1struct S{N} { $ ⟦2⟨2struct In { $ ⟩2}; ⟩1};",
            "template <class T> ⟦1⟨1struct S{N} { $ ⟩1};", "namespace n{N} { $ ⟦1⟨1struct S { $ ⟩1}; }", "⟦1⟨1struct S{N} { void m(); $ ⟩1}; void S{N}::m() { $ }", "void f{N}() { $ ⟦1⟨1struct L { $ ⟩1}; $ }",
            "⟦1⟨1struct S{N}\n: B\n{ $ ⟩1};", "enum class E{N} { $ a };", "template <class T>\n⟦1⟨1struct S{N} { $ void m() { $ } ⟩1}; template struct S{N}<int>;", "typedef ⟦1⟨1struct { $ ⟩1} T{N};", "⟦1⟨1struct S{N} { $ ⟩1} v{N};",
            "template <class T> ⟦1⟨1struct S{N} { $ ⟩1}; template <> ⟦2⟨2struct S{N}<int> { $ $ ⟩2};".replace("template <> ⟦2⟨2struct", "⟦2⟨2template <> struct"), "auto l{N} = [] { $ };", "⟦1⟨1struct S{N} BEG $ ⟩1END;", "⟦1⟨1struct S{N} { $ ⟩1END;", "⟦1⟨1STRUCT S{N} BEG $ ⟩1};"],
    "m": ["⟦1⟨1@interface C{N} : K $ ⟩1@end ⟦2⟨2@implementation C{N} $ $ ⟩2@end", "⟦1⟨1@interface K (X{N}) $ ⟩1@end ⟦2⟨2@implementation K (X{N}) $ $ ⟩2@end", "⟦1⟨1@protocol P{N} $ ⟩1@end", "@protocol P{N}; $ @class D{N};",
          "⟦1⟨1@interface C{N} : K { $ int a; $ } $ ⟩1@end", "⟦1⟨1@interface C{N} : K @end\n⟦2⟨2@interface C{N} () $ ⟩2@end ⟦3⟨3@implementation C{N} - (void)f { $ } ⟩3@end".replace("K @end", "K ⟩1@end")],
}
MAC11 = "\n#define BEG {\n#define END }\n#define VOID void\n#define STRUCT struct\n"
PRO11 = {"c": "int g(int);" + MAC11, "cpp": MAC11 + "int g(int); struct B { }; template <int> int tt() { return 1; }", "m": MAC11 + "int g(int); __attribute__((objc_root_class)) @interface K @end"}
FILL = ["\n", "\n// c", "\n/* c */", "\n/* c\n */", "\n;", " ", "\n#if 0\nz\n#endif\n", "\n \n", "\n#define Q{N} 1\n", "/**/"]


def c11(t):
    R1, R2, R3 = ["LongMethod"], ["LongClass"], ["LongLine"]
    out = []
    for ext in ("c", "cpp", "m"):
        for T in (None, 0, 1, 2, 3, 4, 5, 9) if not t else (None, *range(0, 30)):
            TT = 50 if T is None else T
            o = () if T is None else (f"-rc=LONG_METHOD={T}",)
            msgs = {str(k): ("long method", "Method", TT) for k in (1, 2, 3)}

            def lm(ext=ext, msgs=msgs, T=TT):
                for c in LMCONT[ext]:
                    for n in range(max(0, T - 5) // (2 if c.count("$") > 1 else 1), T + 4):
                        yield sized(c.replace("$", "\n" * n), msgs)
            out.append(TSpace(f"method lengths/{ext}", ext, R1, lm, opts=o, prologue=PRO11[ext]))
            if T in (3, 5):
                def lf(ext=ext, msgs=msgs):
                    for c in LMCONT[ext][:4] if not t else LMCONT[ext]:
                        for n in range(1, 5 if t else 4):
                            for q in itertools.product(FILL, repeat=n):
                                s = "".join(q)
                                if c.startswith(("/*", "enum", "int v")) or c.count("$") > 1 and "#define" in s or ";" in s and "@interface C{N} : K $" in c or "/*" in c:
                                    continue
                                yield sized(c.replace("$", s + "\n"), msgs)
                out.append(TSpace(f"method lines/{ext}", ext, R1, lf, opts=o, prologue=PRO11[ext]))
            o = () if T is None else (f"-rc=LONG_CLASS={T}",)
            TT = 1000 if T is None else T

            def lc(ext=ext, T=TT):
                for c in LCCONT[ext]:
                    if T == 0 and any(x in c for x in ("struct S{N};", "template struct", "@class", "@protocol P{N};")):
                        continue        # a limit of 0 lines for what has no body
                    msgs = {}
                    for k in "123":
                        m = c.find("⟨" + k)
                        w = c[m + 2:].split()[0] if m >= 0 else ""
                        msgs[k] = ("long class", "C++ class" if w[:1] != "@" else "Objective-C " + ("category" if w == "@interface" and "(" in c[m:m + 20] else w[1:]), T)
                    for n in (range(0, T + 4) if T < 1000 else (0, 498, 499, 500, 501, 997, 998, 999, 1000, 1001)):
                        yield sized(c.replace("$", "\n" * n), msgs)
            out.append(TSpace(f"class lengths/{ext}", ext, R2, lc, opts=o, prologue=PRO11[ext], batch=400 if T is not None else 20))

    # lines
    kinds = [lambda n: "/" * n if n > 1 else " " * n, lambda n: " " * n, lambda n: "\t" * n, lambda n: ("/*" + "x" * (n - 4) + "*/") if n > 3 else " " * n, lambda n: ";" * n,
             lambda n: "//" + "é" * ((n - 2) // 2) + "x" * (n % 2) if n > 2 else ";" * n, lambda n: " " * (n - 1) + ";" if n else "", lambda n: "#" + " " * (n - 1) if n else "",
             lambda n: '"' + "s" * (n - 3) + '";' if n > 3 and False else ";" * n]

    def lines(seq, T):
        res = []
        for n, k in seq:
            s = kinds[k](n)
            b = len(s.encode())
            res.append((M("long line", "", f"Line with {b} characters exceeds limit of {T}") if b > T else "") + s)
        return "\n".join(res)
    for T in (None, 0, 1, 2, 5, 12, 99, 101) if not t else (None, *range(0, 40), 99, 101, 255, 256, 1000):
        TT = 100 if T is None else T
        o = () if T is None else (f"-rc=LONG_LINE={T}",)
        lens = sorted({max(0, TT - 1), TT, TT + 1, 0, TT + 7})

        def ll(TT=TT, lens=lens, T=T):
            for n in range(0, TT + 6 if TT < 200 else 12):
                for k in range(len(kinds) - 1):
                    yield lines([(n if TT < 200 else TT - 6 + n, k)], TT)
            if T in (None, 0, 1, 5, 12):
                for n in (2, 3) if T != 5 or not t else (2, 3, 4):
                    for q in itertools.product([(l, k) for l in lens for k in ((0, 1, 4, 7) if n > 2 else range(len(kinds) - 1))], repeat=n):
                        yield lines(q, TT)
        out.append(TSpace("line lengths", "c", R3, ll, opts=o, prologue="", batch=400))
        if T in (None, 0, 5):
            def le(TT=TT, lens=lens):
                for n in (1, 2):
                    for q in itertools.product([(l, k) for l in lens for k in (0, 1, 4)], repeat=n):
                        yield lines(q, TT)
            for tail in ("", "\n", "\n\n"):
                sp = TSpace("last lines", "c", R3, le, opts=o, prologue="", batch=1)
                sp.tail = tail
                out.append(sp)
    return R1 + R2 + R3, out + c11b(t)


def counted(seq, T, what, head, tail, rule, tok):
    n = sum(tok[k][0] for k in seq)
    mark = M(rule, "", f"{what} with {n} {'fields' if 'field' in rule else 'methods'} exceeds limit of {T}") if n > T else ""
    return head.replace("@@", mark) + " ".join(tok[k][1].replace("#", str(i)).replace("~T", str(T)) for i, k in enumerate(seq)) + tail


def c11b(t):
    out = []
    # fields
    def nested(n, kind="C++ class"):
        return lambda T: M("too many fields", "", f"{kind} with {n} fields exceeds limit of {T}") if n > T else ""
    F = {"i": (1, lambda T: "int a#;"), "2": (2, lambda T: "int b#, *c#;"), "s": (0, lambda T: "static int s#;"), "b": (1, lambda T: "int t#:3;"), "m": (0, lambda T: "void m#();"),
         "n": (0, lambda T: nested(1)(T) + "struct N# { int x; };"), "N": (1, lambda T: nested(2)(T) + "struct M# { int x, y; } z#;"), "t": (0, lambda T: "typedef int T#;"), "e": (0, lambda T: "enum E# { x# };"),
         "p": (1, lambda T: "private: const char *p#[2];"), "f": (1, lambda T: "int (*f#)(int);"), "w": (0, lambda T: "struct W#;"), "a": (1, lambda T: nested(2)(T) + "struct { int v#, w#; };")}
    heads = [("@@struct S{N} { ", " };"), ("@@class S{N} : B { ", " };"), ("template <class T> @@struct S{N} { ", " };"), ("struct S{N}; @@struct S{N} { ", " }; struct S{N}; S{N} *v{N};"), ("void f{N}() { @@struct L { ", " }; }"),
             ("@@union S{N} { ", " };"), ("namespace n{N} { @@struct S { ", " }; }")]
    for T in (None, 0, 1, 2, 3, 4) if not t else (None, *range(0, 26)):
        TT = 20 if T is None else T
        o = () if T is None else (f"-rc=TOO_MANY_FIELDS={T}",)

        def fields(T=T, TT=TT):
            tok = {k: (n, f(TT)) for k, (n, f) in F.items()}
            for h, tl in heads:
                ks = [k for k in F if not ("union" in h and k in "s" or "void f" in h and k in "s" or "explicit" in h)]
                if T is not None and T <= 4:
                    for n in range(0, (3 if h == heads[0][0] else 2) if not t else 4 if h == heads[0][0] else 3):
                        for q in itertools.product(ks, repeat=n):
                            yield counted(q, TT, "C++ class", h, tl, "too many fields", tok)
                for n in range(0, TT + 3):
                    for x in ("", "m", "s", "2"):
                        if x in ks or not x:
                            yield counted("i" * n + x, TT, "C++ class", h, tl, "too many fields", tok)
        out.append(TSpace("fields", "cpp", ["TooManyFields"], fields, opts=o, prologue="struct B { };"))

        def ivars(TT=TT):
            tok = {"i": (1, "int a#;"), "2": (2, "id b#, c#;"), "p": (1, "@private int p#;"), "b": (1, "int t#:2;"), "P": (1, "@public struct P *q#;")}
            for h, tl in (("@@@interface C{N} : K { ", " } @end"), ("@@@interface C{N} : K { ", " } - (void)m; - (int)n; @end @implementation C{N} - (void)m { } - (int)n { return 1; } @end"), ("@class C{N}; @@@interface C{N} : C { ", "} @end @class C{N};"),
                          ("@@@interface C{N} { ", " } @end")):
                for n in range(0, TT + 4):
                    yield counted("i" * n, TT, "Objective-C interface", h, tl, "too many fields", tok)
                if TT < 5:
                    for n in range(1, 4):
                        for q in itertools.product(tok, repeat=n):
                            yield counted(q, TT, "Objective-C interface", h, tl, "too many fields", tok)
        if T is None or T >= 3:
            out.append(TSpace("ivars", "m", ["TooManyFields"], ivars, opts=o, prologue="struct P; __attribute__((objc_root_class)) @interface K @end @interface C : K { int ib1, ib2, ib3; } @end"))

    # methods
    Mt = {"m": (1, "void m#();"), "s": (1, "static void s#();"), "v": (1, "virtual void v#() = 0;"), "c": (1, "S(int (*)[#+1]);"), "d": (1, "void d#() { }"), "x": (1, "void x#() = delete;"), "o": (1, "int operator+(int (*)[#+1]);"),
          "f": (0, "int f#;"), "F": (0, "friend void ff#();"), "t": (0, "typedef int T#;"), "n": (0, "struct N# { };"), "p": (0, "int (*p#)(int);"), "k": (1, "operator A<#>();"), "D": (1, "S() = default;"), "~": (1, "~S();"), "=": (1, "S &operator=(const S &);"),
          "C": (1, "S(const S &) = delete;"), "2": (2, "void q#(int), q#(char);"), "a": (0, "enum { z# };"), "l": (0, "int l# = [] { return 1; }();")}
    mheads = [("namespace n{N} { @@struct S { ", " }; }"), ("namespace n{N} { @@class S : B { public: ", " }; }"), ("namespace n{N} { template <class T> @@struct S { ", " }; }"), ("namespace n{N} { struct S; @@struct S { ", " }; struct S; }"),
              ("namespace n{N} { void f() { @@struct S { ", " }; } }"), ("namespace n{N} { @@struct S { ", " }; void h(S *a, const S *b) { a = (S *)b; } }")]
    for T in (None, 0, 1, 2, 3, 5) if not t else (None, *range(0, 36)):
        TT = 30 if T is None else T
        o = () if T is None else (f"-rc=TOO_MANY_METHODS={T}",)

        def methods(T=T, TT=TT):
            for h, tl in mheads:
                ks = [k for k in Mt if not ("void f()" in h and k in "F")]
                if T is not None and T <= 5:
                    for n in range(0, (3 if h != mheads[0][0] else 4) if not t or T > 2 else 4):
                        for q in itertools.product(ks, repeat=n):
                            if all(q.count(k) < 2 for k in "D~=C") and not (n == 3 and h == mheads[0][0] and not t and len(set(q)) < 3):
                                yield counted(q, TT, "C++ class", h, tl, "too many methods", Mt)
                for n in range(0, TT + 4):
                    yield counted("m" * n, TT, "C++ class", h, tl, "too many methods", Mt)
                    yield counted(("mF" if "void f()" not in h else "mf") * (n // 2) + "f" + "D" * (n % 2), TT, "C++ class", h, tl, "too many methods", Mt)
        out.append(TSpace("methods", "cpp", ["TooManyMethods"], methods, opts=o, prologue="struct B { void b1(); void b2(); void b3(); void b4(); virtual ~B(); }; template <int> struct A { };"))

        def objcm(T=T, TT=TT):
            tok = {"m": (1, "- (void)m# { }"), "c": (1, "+ (int)m# { return 1; }"), "a": (1, "- (int)m#:(int)a b:(int)b { return a; }"), "f": (0, "void f{N}_#(void) { }"), "v": (0, "static int v{N}_#;")}
            for h, tl in (("@interface C{N} : K @end @@@implementation C{N} ", " @end"), ("@interface K (X{N}) - (void)y; - (void)z{N}; @end @@@implementation K (X{N}) ", " @end"), ("@interface C{N} : K - (void)m0; - (void)m1; @end @@@implementation C{N} ", " @end"),
                          ("@interface C{N} : K @end @interface C{N} () - (void)m0; @end @@@implementation C{N} ", " @end"), ("@protocol P{N} - (void)m0; - (void)m1; - (void)m2; - (void)m3; @end @interface C{N} : K <P{N}> @end @@@implementation C{N} ", " @end")):
                for n in range(0, TT + 4):
                    yield counted("m" * n, TT, "Objective-C implementation", h, tl, "too many methods", tok)
                if TT < 6:
                    for n in range(1, 5):
                        for q in itertools.product(tok, repeat=n):
                            yield counted(q, TT, "Objective-C implementation", h, tl, "too many methods", tok)
        out.append(TSpace("methods", "m", ["TooManyMethods"], objcm, opts=o, prologue="__attribute__((objc_root_class)) @interface K @end"))

    # parameters
    PC = {"c": ["@@void f{N}(#) { }", "void f{N}(#); @@void f{N}(#) { } void f{N}(#);", "void f{N}(#);", "void (*f{N})(#);", "typedef void f{N}(#);", "@@static int f{N}(#) { return 1; }", "extern void f{N}(#); @@void g{N}(void) { f{N}; }".replace("@@", "@0"),
                "@@void f{N}(#) { extern void h{N}(#); }"],
          "cpp": ["@@void f{N}(#) { }", "struct S{N} { void m(#); S{N}(#); };", "struct S{N} { @@void m(#) { } };", "struct S{N} { void m(#); }; @@void S{N}::m(#) { }", "struct S{N} { @@S{N}(int (*)[3]*)  { } };".replace("(int (*)[3]*)", "(#)") if True else "",
                  "struct S{N} { static void m(#); }; @@void S{N}::m(#) { }", "template <class T> @@void f{N}(#) { }", "auto l{N} = [](#) { };", "struct S{N} { virtual void m(#) = 0; };", "void f{N}(#) = delete;", "namespace n{N} { @@auto f(#) -> int { return 1; } }",
                  "template <class T> struct S{N} { @@void m(#) { } }; template struct S{N}<int>;", "struct S{N} { @@friend void f{N}(#) { } };", "extern \"C\" { @@void f{N}(#) { } }", "template <class A, class B, class C, class D> @@void f{N}(#) { }", "@@void f{N}(#) { struct L { @@void m(#) { } }; }",
                  "@@void f{N}(#) try { } catch (...) { }"],
          "m": ["@interface C{N} : K - (void)m%; @end @implementation C{N} @@- (void)m% { } @end", "@interface K (X{N}) @end @implementation K (X{N}) @@+ (int)m{N}% { return 1; } @end", "@protocol P{N} - (void)m%; @end", "@interface C{N} : K @end @implementation C{N} @@void f{N}(#) { } @end",
                "void f{N}(void) { (void)^(#) { }; }"]}
    for ext in PC:
        for T in (None, 0, 1, 2, 3, 7) if not t else (None, *range(0, 24)):
            TT = 10 if T is None else T
            o = () if T is None else (f"-rc=TOO_MANY_PARAMETERS={T}",)

            def par(ext=ext, TT=TT):
                for c in PC[ext]:
                    for n in range(0, TT + 4):
                        for ty in ("int a{}", "int", "char *c{}", "int (*f{})(int x, int y, int z)", "const struct Q *", "..."):
                            ps = [ty.format(i) for i in range(n)]
                            k = n
                            if ty == "...":
                                ps = [f"int a{i}" for i in range(n)] + ["..."]
                                if not n and ext != "cpp":
                                    continue
                            if "%" in c and ty not in ("int a{}", "char *c{}"):
                                continue
                            if ext != "cpp" and " { " in c and ty in ("int", "const struct Q *"):
                                continue
                            if "= 0" in c or "S{N}(#)" in c and n == 1 and "Q" in ty:
                                pass
                            oc = "".join(f" p{i}:({ty.split(' ')[0] if 'int' in ty else 'char *'})a{i}" for i in range(n)).replace(" p0", "P", 1) if n else ""
                            m = M("too many parameters", "", f"Method with {k} parameters exceeds limit of {TT}") if k > TT else ""
                            yield c.replace("@0", "").replace("@@", m).replace("#", ", ".join(ps) or ("void" if ext != "cpp" else "")).replace("%", oc)
            out.append(TSpace(f"parameters/{ext}", ext, ["TooManyParameters"], par, opts=o, prologue="struct Q { int x; }; " + ("__attribute__((objc_root_class)) @interface K @end" if ext == "m" else "")))
    return out


# ------------------------------------------------------------------ C24
RD, RB, RA, RP = ("destructor of virtual class", "base class destructor should be virtual or protected", "avoid default arguments on virtual methods", "avoid private static members")
MEM = {"m": "virtual void m();", "o": "void m();", "w": "virtual void m() = 0;", "n": "void n();", "f": "int x;", "d": "~#();", "D": "virtual ~#();", "p": "protected: ~#(); public:", "P": "protected: virtual ~#(); public:",
       "r": "private: ~#(); public:", "e": "~#() = default;", "E": "virtual ~#() = default;", "s": "static void s();", "M": "private: virtual void m(); public:", "c": "#();", "v": "virtual void v() const;"}
ACC = {"public": 0, "protected": 1, "private": 2, "": None}


class Hier(TSpace):
    """items: (wrapper, classes); a class is (keyword, bases, members), a base (index, access, is virtual)"""

    def __init__(self, name, src):
        super().__init__(name, "cpp", ["DestructorOfVirtualClass", "BaseClassDestructorShouldBeVirtualOrProtected"], src, prologue="struct Z { };")

    def items(self):
        return (x for x in self.src() if self.ok(x))

    @staticmethod
    def ok(x):
        cl = x[1]
        ms = "".join(c[2] for c in cl)
        return not ("r" in ms and ("D" in ms or "P" in ms or "E" in ms))

    def steps(self, x):
        return sum(1 + len(c[1]) + len(c[2]) for c in x[1])

    def text(self, x):
        w, cl = x
        n = len(cl)
        vm, vd, poly, good = [False] * n, [False] * n, [False] * n, [False] * n
        for i, (kw, bs, ms) in enumerate(cl):
            bi = [b for b, _, _ in bs]
            vm[i] = any(k in ms for k in "mwM") or any(vm[b] for b in bi)
            vd[i] = any(k in ms for k in "DPE") or any(vd[b] for b in bi)
            poly[i] = vm[i] or vd[i] or "v" in ms or any(poly[b] for b in bi)
            good[i] = vd[i] or "p" in ms

        marks = [set() for _ in cl]
        NAMES = "ABCDEFGH"

        def public(kw, acc):
            return acc == "public" or acc == "" and kw.endswith("struct")

        def chk(child, i):
            kw, bs, _ = cl[i]
            for b, acc, _ in bs:
                if public(kw, acc):
                    if not good[b]:
                        marks[b].add((RB, f"~{NAMES[b]}() should be protected or virtual according to class {NAMES[child]}"))
                    if not poly[b]:
                        chk(child, b)
        for i in range(n):
            if poly[i]:
                chk(i, i)
                if not vd[i]:
                    marks[i].add((RD, f"class {NAMES[i]} should have a virtual destructor ~{NAMES[i]}()"))
        out = []
        for i, (kw, bs, ms) in enumerate(cl):
            mk = "".join(M(r, "", m) for r, m in sorted(marks[i]))
            tmpl, kw = ("template <class Q> ", kw.split()[-1]) if "template" in kw else ("", kw)
            mk = tmpl + mk
            head = f"{kw} {NAMES[i]}" + (" : " + ", ".join(("virtual " if v else "") + acc + " " + NAMES[b] for b, acc, v in bs) if bs else "")
            body = " ".join(MEM[m].replace("#", NAMES[i]) for m in ms)
            out.append(WRAP[w][1].replace("$", mk + head + (" { public: " if kw == "class" else " { ") + body + " };").replace("#", NAMES[i]).replace("@@", kw))
        return WRAP[w][0].replace("$", " ".join(out))


WRAP = [("namespace n{N} { $ }", "$"), ("struct O{N} { $ };", "$"), ("namespace n{N} { $ }", "@@ #; $ @@ #; void f(#, #*);"), ("namespace n{N} { $ }", "template <class Q> struct T#; $ template <class Q> struct T# { # *p; };"),
        ("void f{N}() { $ }", "$"), ("template <class T> struct O{N} { $ };", "$"), ("extern \"C++\" { namespace { namespace n{N} { $ } } }", "$")]


def c24(t):
    out = []
    mem = list("mnfdDpPreEM") if not t else list(MEM)
    body1 = [""] + mem + [a + b for a in "mon" for b in "dDpPre"]

    def one():
        for w in range(len(WRAP)):
            for kw in ("struct", "class"):
                for n in range(0, 4 if t else 3):
                    for q in itertools.permutations(MEM, n):
                        if sum(k in "dDpPreE" for k in q) < 2 and sum(k in "mowM" for k in q) < 2:
                            yield (w, ((kw, (), "".join(q)),))
    out.append(Hier("one class", one))

    def two():
        for w in range(len(WRAP)):
            for a in body1:
                for b in body1:
                    for acc in ACC:
                        for kw in ("struct", "class"):
                            for v in (False, True) if w == 0 or t else (False,):
                                if w != 5 or any(k in b for k in "mwMvDPE"):      # (the bases of members of templates are not known)
                                    yield (w, (("struct", (), a), (kw, ((0, acc, v),), b)))
                                if w == 0:
                                    yield (w, (("struct", (), a), ("template <class Q> " + kw, ((0, acc, v),), b)))
    out.append(Hier("two classes", two))
    small = ["", "m", "d", "D", "p", "mp"] if not t else ["", "m", "o", "d", "D", "p", "P", "mp", "md", "e"]

    def three():
        for a, b, c in itertools.product(small, repeat=3):
            for a1, a2 in itertools.product(("public", "private", "protected") if t else ("public", "private"), repeat=2):
                yield (0, (("struct", (), a), ("struct", ((0, a1, False),), b), ("class", ((1, a2, False),), c)))
                yield (0, (("struct", (), a), ("struct", (), b.replace("m", "v")), ("struct", ((0, a1, False), (1, a2, False)), c)))
                yield (0, (("struct", (), a), ("struct", (), b.replace("m", "v")), ("class", ((1, a2, False), (0, a1, False)), c)))
                yield (0, (("struct", (), a), ("class", ((0, a1, True),), b), ("class", ((0, a2, False),), c)))
    out.append(Hier("three classes", three))

    def four():
        s4 = ["", "m", "D", "p"] if not t else ["", "m", "D", "p", "d"]
        for a, b, c, d in itertools.product(s4, repeat=4):
            b, c = b.replace("m", "v"), c.replace("m", "f")
            for a1, a2, a3 in itertools.product(("public", "private"), repeat=3):
                for v in (False, True):
                    yield (0, (("struct", (), a), ("struct", ((0, a1, v),), b), ("struct", ((0, a2, v),), c), ("struct", ((1, "public", False), (2, a3, False)), d)))
                yield (0, (("struct", (), a), ("struct", ((0, a1, False),), b), ("struct", ((1, a2, False),), c), ("struct", ((2, a3, False),), d)))
    out.append(Hier("four classes", four))

    # default arguments on virtual methods
    def dargs():
        PS = ["", "int a", "int a = 1", "int a, int b", "int a, int b = 2", "int a = 1, int b = 2", "int = 3", "int *p = 0, ...", "int (*f)(int x) = 0", "const char *s = \"x\", int b = 1"]
        for p in PS:
            D = M(RA, "") if "=" in p else ""
            q = __import__("re").sub(" ?= ?[^,]*", "", p)      # without the default arguments
            for pre, post in (("", ""), ("const ", ""), ("", " const"), ("", " = 0")):
                for w in ("struct", "class"):
                    yield f"{w} S{{N}} {{ {D}virtual {pre}int m({p}){post}; }};"
                    yield f"template <class T> {w} S{{N}} {{ {D}virtual {pre}int m({p}){post}; }};"
                yield f"struct S{{N}} {{ {pre}int m({p}){'' if '0' in post else post}; }};"
                yield f"struct S{{N}} {{ virtual {pre}int m({q}){post}; }}; struct U{{N}} : S{{N}} {{ {D}{pre}int m({p}){'' if '0' in post else post}; }};"
                yield f"struct S{{N}} {{ {D}virtual {pre}int m({p}){post}; }}; struct U{{N}} : S{{N}} {{ {pre}int m({q}){'' if '0' in post else post}; }};"
                yield f"struct S{{N}} {{ {D}virtual {pre}int m({p}){post}; }}; struct U{{N}} : S{{N}} {{ {pre}int n({p}){'' if '0' in post else post}; }};"
            yield f"struct S{{N}} {{ {D}virtual int m({p}) {{ return 1; }} {D}virtual int operator()({p}); static int s({p}); S{{N}}({p}); friend int fr{{N}}({q}); }};"
            yield f"struct S{{N}} {{ {D}virtual int m({p}); }}; {D}int S{{N}}::m({q}) {{ return 1; }}"
            yield f"struct S{{N}} {{ int m({p}); }}; int S{{N}}::m({q}) {{ return 1; }}"
            yield f"struct S{{N}} {{ virtual int m({q}); }}; {D}int S{{N}}::m({p}) {{ return 1; }}"
            yield f"int f{{N}}({p}); int f{{N}}({q}) {{ return 1; }}"
            yield f"struct S{{N}} {{ {D}virtual int m({p}); {D}virtual int m2({p}); int k({p}); virtual int m3({q}); }};"
            yield f"auto l{{N}} = []({p}) {{ }};"
            yield f"void f{{N}}() {{ struct L {{ {D}virtual int m({p}) {{ return 1; }} }}; }}"
    out.append(TSpace("default arguments", "cpp", ["AvoidDefaultArgumentsOnVirtualMethods"], dargs, prologue=""))

    # private static members
    def priv():
        S = {"v": "static int v#;", "c": "static const int c# = 1;", "i": "static inline int i# = 1;", "k": "static constexpr int k# = 1;", "f": "static void f#();", "d": "static void d#(int a) { }", "t": "thread_local static int t#;",
             "m": "int m#;", "n": "void n#();", "p": "int *(*p#)(int);", "l": "void l#() { static int s; s = 1; }", "T": "typedef int T#;", "a": "static int a#[3];"}
        secs = ["private:", "public:", "protected:"]
        for kw in ("class", "struct", "union"):
            for wrap in ("namespace n{N} { $ }", "struct O{N} { $ };", "template <class X> struct O{N} { $ };", "class O{N} { $ };") if True else ():
                for n in (1, 2, 3):
                    if n == 3 and (not t or "namespace" not in wrap):
                        continue
                    for q in itertools.product(S, repeat=n):
                        for ac in itertools.product(("", *secs), repeat=n):
                            if n == 3 and "" not in ac:
                                continue
                            acc = "private:" if kw == "class" else "public:"
                            body = ""
                            for i, (k, a) in enumerate(zip(q, ac)):
                                acc = a or acc
                                body += a + " " + (M(RP, "") if S[k].count("static ") and k != "l" and acc == "private:" else "") + S[k].replace("#", str(i)) + " "
                            yield wrap.replace("$", f"{kw} S {{ {body}}};")
        for kw, a in (("class", ""), ("struct", "private:"), ("class", "public:"), ("struct", "protected:"), ("struct", "")):
            P = M(RP, "") if a == "private:" or kw == "class" and not a else ""
            yield f"{kw} S{{N}} {{ {a} {P}static int v; {P}static void f(); int x; void n(); {P}static const int c = 1; public: S{{N}}(); }}; {P}int S{{N}}::v = 1; {P}void S{{N}}::f() {{ }} void S{{N}}::n() {{ }} {P}const int S{{N}}::c; static int z{{N}}; static void y{{N}}() {{ }}"
            yield f"template <class T> {kw} S{{N}} {{ {a} {P}static int v; {P}static void f(); }}; " + (f"template <class T> {P}int S{{N}}<T>::v = 1;" if not P else "")
            yield f"{kw} S{{N}} {{ {a} static_assert(1, \"\"); {P}static void f(int a = 1); friend void g(int); }}; {P}void S{{N}}::f(int a) {{ }}"
    out.append(TSpace("private static members", "cpp", ["AvoidPrivateStaticMembers"], priv, prologue=""))
    return [], out


PARTS = {"C24": c24, "C11": c11, "C18": c18, "C22": c22, "C23": c23}


def check(pid):
    chk = common.Check(pid, explanation=EXPL, assumptions=["clang parses the generated programs as intended"])
    R, spaces = PARTS[pid](chk.thorough)
    rules = sorted({r for s in spaces for r in s.rules} | set(R))
    tree = B.build(True, rules, (), [B.MCRAW])
    chk.bounds = {"spaces": "see parts"}
    common.explore_spaces(chk, tree, spaces)
    return chk.finish()
