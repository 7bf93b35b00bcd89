"""C16 dead code, C17 empty statements, C19 redundant constructs, C20 switches, C21 conditions and operators, C32 loops and parameters."""
import itertools
import build as B, common, rtree
from rtree import CONT, Gen, M, SGen, TreeSpace, TSpace, valid

V, W = ("v",), ("w",)
E = (";e", ("v",))
EXPL = ("Every program of the bounded grammars is linted by the real executable with the real rule libraries; rule, line and column of "
        "every report are compared with a reference model that marks the constructs to report. states = distinct programs, "
        "transitions = grammar nodes expanded to derive them, traces = runs of the executable.")


def seqs(g, lo, hi, keep=valid):
    def it():
        for n in range(lo, hi + 1):
            for q in g.Q(n):
                if all(keep(s) for s in q):
                    yield q
    return it


def used(models):
    return models


# ------------------------------------------------------------------ C16
def c16(t):
    R, m = ["DeadCode"], ["dead_code"]
    st = ("ret0", ";e", "blk", "if", "ife")
    full = Gen(stmts=("ret0", ";e", "brk", "cont", "goto", "label", "blk", "if", "ife", "while", "sw"))
    out = [
        TreeSpace("blocks", "c", R, m, seqs(Gen(stmts=st), 0, 8 if t else 7)),
        TreeSpace("jumps", "c", R, m, seqs(full, 0, 6 if t else 5)),
        TreeSpace("labels", "c", R, m, seqs(Gen(stmts=("ret0", ";e", "goto", "label", "blk", "ife")), 0, 7 if t else 6)),
        TreeSpace("loops", "c", R, m, seqs(Gen(stmts=(";e", "brk", "cont", "blk", "ife", "while", "do", "for")), 0, 6 if t else 5)),
        TreeSpace("switch", "c", R, m, seqs(Gen(stmts=(";e", "brk", "blk", "sw", "label")), 0, 6 if t else 5)),
        TreeSpace("throw", "cpp", R, m, seqs(Gen(stmts=(";e", "thr", "blk", "if", "ife", "try", "range", "brk")), 0, 6 if t else 5)),
        TreeSpace("deep", "c", R, m, SGen(("ret0", ";e", "brk", "cont", "goto", "label", "blk", "ife", "while", "sw")).seqs(1, 5 if t else 4)),
        TreeSpace("deep-branches", "c", R, m, SGen(("ret0", ";e", "cont", "brk", "blk", "if", "ife", "while")).seqs(1, 7 if t else 6)),
        TreeSpace("deep-blocks", "c", R, m, SGen((";e", "ret0", "blk", "if", "ife")).seqs(1, 7 if t else 6)),
        TreeSpace("deep", "cpp", R, m, SGen((";e", "thr", "blk", "ife", "try", "range", "brk"), 3 if t else 2).seqs(1, 5)),
        TreeSpace("deep", "m", R, m, SGen((";e", "athr", "ret0", "blk", "ife", "atry", "sync", "forin"), 3).seqs(1, 5 if t else 4)),
        TreeSpace("objc", "m", R, m, seqs(Gen(stmts=(";e", "athr", "blk", "ife", "atry", "sync", "pool", "forin", "cont")), 0, 5 if t else 4)),
        TreeSpace("containers", "cpp", R, m, seqs(Gen(stmts=("ret", ";e", "blk", "ife")), 0, 5 if t else 4), CONT["cpp"]),
        TreeSpace("containers", "m", R, m, seqs(Gen(stmts=("ret", ";e", "blk", "ife")), 0, 5 if t else 4), CONT["m"]),
    ]
    D = lambda s: M("dead code", s)
    exits = ["return 0;", "return f(a);", "throw X(1);", "throw X(1) ;", "goto E;", "{ throw X(1); }", "if (a) return 1; else throw X(2);",
             "{ { return 0; } }", "L1: return 0;", "L2: { throw X(a); }", "if (a) { return 0; } else { goto E; }", "throw a;", "throw \"s\";",
             "if (int z = f(a)) return z; else return 2;", "if (a) return 1; else if (f(a)) return 2; else return 3;"]
    stays = ["f(a);", ";", "if (a) return 0;", "while (a) return 0;", "for (;;) { break; }", "do { return 0; } while (a);", "switch (a) { default: return 0; }",
             "try { return 0; } catch (int) { f(a); }", "if (a) return 1; else f(a);", "auto z = [] { return 0; };", "{ return 0; L3: ; }",
             "struct Q { int g() { return 1; } };", "if (a) { return 0; L4: f(a); } else return 1;",
             "if (a) { L6: return 0; L4: ; } else { f(a); return 1; }"]
    after = ["f(a);", "struct Q { int q; };", ";", "{ f(a); }", "while (a) f(a);", "return 2;", "if (a) f(a);", "throw X(3);"]
    jump = ["M1: f(a);", "{ M2: f(a); }", "while (a) { f(a); M3: f(a); }", "if (a) M4: f(a); else f(a);", "{ { M5: ; } }"]
    notj = ["switch (a) { case 1: f(a); }", "{ switch (a) { default: ; } }"]

    def texts():
        for e in exits:
            for x in after + notj:
                yield "int f{N}(int a) { " + e + " " + D(x) + " E: return 1; }"
                yield "int f{N}(int a) { f(a); " + e + " " + D(x) + " f(a); E: return 1; }"
                yield "int f{N}(int a) { while (a) { " + e + " " + D(x) + " } E: return 1; }"
            for x in jump:
                yield "int f{N}(int a) { " + e + " " + x + " f(a); E: return 1; }"
                yield "int f{N}(int a) { { " + e + " " + x + " } f(a); E: return 1; }"
            for x in ("case 2: f(a);", "{ case 2: f(a); }", "default: ;", "if (a) { case 7: f(a); }"):
                yield "int f{N}(int a) { switch (a) { case 1: " + e + " " + x + " } E: return 1; }"
        for s in stays:
            for x in after + jump:
                if "int q" not in x:
                    yield "int f{N}(int a) { " + s + " " + x + " " + (D("return 1;") if x.split()[0] in ("return", "throw") else "return 1;") + " }"
    out.append(TSpace("exits", "cpp", R, texts, prologue="int f(int); struct X { X(int); ~X(); };"))
    return R, out


# ------------------------------------------------------------------ C17
def c17(t):
    R = ["EmptyCatchStatement", "EmptyDoWhileStatement", "EmptyElseBlock", "EmptyFinallyStatement", "EmptyForStatement", "EmptyIfStatement",
         "EmptySwitchStatement", "EmptyTryStatement", "EmptyWhileStatement"]
    m = ["empty"]
    out = [
        TreeSpace("control", "c", R, m, seqs(Gen(stmts=(";", ";e", "blk", "if", "ife", "while", "do", "for", "sw")), 0, 6 if t else 5)),
        TreeSpace("cxx", "cpp", R, m, seqs(Gen(stmts=(";", ";e", "blk", "ife", "range", "try")), 0, 7 if t else 5)),
        TreeSpace("objc", "m", R, m, seqs(Gen(stmts=(";", ";e", "blk", "ife", "forin", "atry", "sync", "pool")), 0, 6 if t else 4)),
        TreeSpace("deep", "c", R, m, SGen((";", "blk", ";e", "if", "ife", "while", "do", "for", "sw"), 2).seqs(1, 5)),
        TreeSpace("deep", "cpp", R, m, SGen((";", "blk", "ife", "range", "try", ";e"), 2).seqs(1, 5 if t else 4)),
        TreeSpace("deep", "m", R, m, SGen((";", "blk", ";e", "forin", "atry", "sync", "pool"), 2).seqs(1, 5 if t else 4)),
        TreeSpace("containers", "cpp", R, m, seqs(Gen(stmts=(";", "blk", "ife", "while")), 1, 5 if t else 4), CONT["cpp"][:-1]),
        TreeSpace("containers", "m", R, m, seqs(Gen(stmts=(";", "blk", "ife", "do")), 1, 5 if t else 4), CONT["m"]),
    ]
    bodies = [("{}", True), ("{ }", True), (";", True), ("{ ; }", False), ("{ {} }", False), ("a++;", False), ("{ int y; }", False),
              ("{ /* why */ }", True), ("{\n}", True), ("{ struct Z; }", False)]

    def texts():
        for b, e in bodies:
            k = lambda r: M(r, b) if e else b
            yield "void f{N}(int a) { if (a) " + k("empty if statement") + " }"
            yield "void f{N}(int a) { if (int z = a) " + k("empty if statement") + " else a++; }"
            yield "void f{N}(int a) { if (a) a++; else " + k("empty else block") + " }"
            yield "void f{N}(int a) { if (a) a++; else if (a + 1) " + k("empty if statement") + " }"
            yield "void f{N}(int a) { if (a) a++; else if (a + 1) a++; else " + k("empty else block") + " }"
            yield "void f{N}(int a) { while (a--) " + k("empty while statement") + " }"
            yield "void f{N}(int a) { while (int z = a--) " + k("empty while statement") + " }"
            yield "void f{N}(int a) { do " + k("empty do/while statement") + " while (a--); }"
            yield "void f{N}(int a) { for (;;) " + k("empty for statement") + " }"
            yield "void f{N}(int a) { for (int i = 0; i < a; i++) " + k("empty for statement") + " }"
            yield "void f{N}(int a) { for (int i : arr) " + k("empty for statement") + " }"
            yield "template <class T> void f{N}(T a) { for (auto i : a) " + k("empty for statement") + " }"
            yield "template <class T> void f{N}(T a) { while (a) " + k("empty while statement") + " }"
            yield "template <class T> void f{N}(T a) { if (a) " + k("empty if statement") + " }"
            if b[0] == "{":
                yield "void f{N}(int a) { try " + k("empty try statement") + " catch (int) { a++; } }"
                yield "void f{N}(int a) { try { a++; } catch (int) " + k("empty catch statement") + " catch (...) { a++; } }"
                yield "void f{N}(int a) { try { a++; } catch (int) { a++; } catch (...) " + k("empty catch statement") + " }"
                yield "void f{N}(int a) { try { a++; } catch (int z) " + k("empty catch statement") + " }"
            if "++" not in b and "struct" not in b:
                yield "void f{N}(int a) { switch (a) " + k("empty switch statement") + " }"
                yield "void f{N}(int a) { switch (int z = a) " + k("empty switch statement") + " }"
            yield "void f{N}(int a) { switch (a) { case 1: " + b + " } }"
            yield "void f{N}(int a) { " + b + " a++; }"
            yield "void f{N}(int a) { L: " + b + " goto L; }"
        yield "void f{N}(int a) { switch (a) case 1: ; }"
        yield "void f{N}(int a) { switch (a) default: {} }"
        yield "void f{N}() { }"
        yield "void f{N}() { auto z = [] {}; }"
        yield "struct S{N} { S{N}() {} ~S{N}() {} };"
        yield "namespace n{N} { }"
    out.append(TSpace("forms", "cpp", R, texts))
    # bodies that owe their emptiness, or lack of it, to the preprocessor
    pre = [lambda r: "NADA " + M(r, ";"), lambda r: "NOP(a)" + M(r, ";"), lambda r: "NOP() NADA " + M(r, ";"), lambda r: M(r, "EB"), lambda r: M(r, "SEMI"), lambda r: M(r, "{ NADA }"), lambda r: M(r, "{ NOP(a) NADA }"),
           lambda r: "ID(" + M(r, "{}") + ")", lambda r: "ID(" + M(r, ";") + ")", lambda r: "ID(NADA) " + M(r, ";"), lambda r: M(r, "{\n#if 0\na++;\n#endif\n}"), lambda r: "NADA " + M(r, "{ }"), lambda r: "NADA NADA " + M(r, "EB"),
           lambda r: "\n#if 1\n" + M(r, ";") + "\n#else\na++;\n#endif\n", lambda r: M(r, "{ SKIP NADA }"),
           lambda r: "{ NADA ; }", lambda r: "{ NOP(a); }", lambda r: "{ SEMI }", lambda r: "{ EB }", lambda r: "INC(a);", lambda r: "{ INC(a); }", lambda r: "ID(INC(a);)", lambda r: "ID({ a++; })", lambda r: "{\n#if 1\na++;\n#endif\n}", lambda r: "{ NADA INC(a); }"]

    def ptexts(ext):
        def it():
            h = "void f{N}(int a) { "
            for b in pre:
                block = "{" in b("") or "EB" in b("")
                semi = not block
                yield h + "if (a) " + b("empty if statement") + " }"
                yield h + "if (a) " + b("empty if statement") + " else a++; }"
                yield h + "if (a) a++; else " + b("empty else block") + " }"
                yield h + "if (a) a++; else if (a + 1) " + b("empty if statement") + " else " + b("empty else block") + " }"
                yield h + "while (a--) " + b("empty while statement") + " }"
                yield h + "do " + b("empty do/while statement") + " while (a--); }"
                yield h + "for (;;) " + b("empty for statement") + " }"
                if "++" not in b("") and "INC" not in b(""):
                    yield h + "switch (a) " + b("empty switch statement") + " }"
                if ext == "cpp":
                    yield h + "for (int i : arr) " + b("empty for statement") + " }"
                    if b("").startswith(("\x01", "{")) and block:
                        yield h + "try " + b("empty try statement") + " catch (int) " + b("empty catch statement") + " catch (...) " + b("empty catch statement") + " }"
                if ext == "m":
                    yield h + "for (id i in (id)0) " + b("empty for statement") + " }"
                    if b("").startswith(("\x01", "{")) and block:
                        yield h + "@try " + b("empty try statement") + " @catch (id e) " + b("empty catch statement") + " @finally " + b("empty finally statement") + " }"
                yield h + b("") .replace("\x01\x02\x03", "") + " }"
                yield h + "switch (a) { case 1: " + b("").replace("\x01\x02\x03", "") + " } }"
        return it
    for ext in ("c", "cpp", "m"):
        out.append(TSpace("preprocessor", ext, R, ptexts(ext), prologue=rtree.PRO[ext] + "\n#define NADA\n#define SKIP /* nothing */\n#define NOP(...)\n#define EB {}\n#define SEMI ;\n#define ID(x) x\n#define INC(x) x++"))
    return R, out


# ------------------------------------------------------------------ C19
def c19(t):
    R = ["RedundantConditionalOperator", "RedundantIfStatement", "RedundantLocalVariable", "UnnecessaryElseStatement", "UselessParentheses",
         "UnnecessaryNullCheckForCXXDealloc"]
    import cgen
    conds = lambda lv: lambda: ((("ret", ("?:", c, x, y)),) for c in (V, ("<", V, W)) for x in lv for y in lv)
    consts_c = [(x,) for x in ("1", "0", "2", "v", "w")]
    out = []
    RC, mc_ = ["RedundantConditionalOperator"], ["redundant_cond"]

    def rcond(lv):
        base = [(x,) for x in lv]

        def it():
            for x, y in itertools.product(base, repeat=2):
                yield ((";e", ("?:", V, x, y)),)
                yield ((";e", ("?:", V, ("()", x), y)),) if x != y else ((";e", ("?:", V, y, x)),)
            for x, y, z in itertools.product(base, repeat=3):
                yield ((";e", ("?:", ("?:", V, x, y), y, z)),)
                yield ((";e", ("?:", V, ("?:", W, x, y), z)),)
                yield ((";e", ("?:", V, z, ("?:", W, x, y))),)
                yield (("if", V, (";e", ("?:", V, x, y)), (";e", ("?:", V, y, z))),)
        return it
    pro = "extern int a, b; extern bool t, u; struct Arr { int *begin(); int *end(); }; extern Arr arr;"
    nums = ("1", "0", "2", "1.5", "2.5", "v", "w", "'")
    out.append(TreeSpace("conditional", "c", RC, mc_, rcond(nums)))
    out.append(TreeSpace("conditional-strings", "c", RC, mc_, rcond(("S", "S2"))))
    out.append(TreeSpace("conditional", "cpp", RC, mc_, rcond(nums + ("T", "F", "t", "u")), prologue=pro))
    out.append(TreeSpace("conditional-strings", "cpp", RC, mc_, rcond(("S", "S2"))))
    out.append(TreeSpace("conditional", "m", RC, mc_, rcond(("1", "0", "2", "1.5", "v"))))

    I = lambda ty, v, *ts: [(x, ty, v) for x in ts]
    consts = {}
    ints = (I("i", 1, "1", "0x1", "01", "0b1") + I("i", 10, "10", "0xA", "012") + I("i", 0, "0", "00", "0x0") + I("i", 2147483647, "2147483647", "0x7fffffff")
            + I("u", 1, "1u", "0x1U") + I("u", 2147483647, "2147483647u") + I("u", 4294967295, "4294967295u", "0xffffffff") + I("l", 1, "1L", "0x1l")
            + I("l", 4294967295, "4294967295") + I("l", 4294967296, "4294967296") + I("l", 4294967297, "4294967297", "0x100000001")
            + I("ul", 1, "1UL", "1lu") + I("ul", 2 ** 64 - 1, "0xffffffffffffffff") + I("ll", 1, "1LL") + I("ll", 4294967297, "4294967297LL"))
    floats = (I("d", 1, "1.0", "1.", "10e-1", "0x1p0", "0.01e2") + I("d", 1.1, "1.1") + I("d", 1.00000000001, "1.00000000001") + I("d", 0, "0.0", "0e9")
              + I("d", 1 + 2 ** -52, "0x1.0000000000001p0") + I("d", 1e300, "1e300") + I("d", 2e300, "2e300") + I("d", 1e-300, "1e-300")
              + I("d", 1e-310, "1e-310") + I("f", 1, "1.0f", "1.F", "1e0f") + I("f", 1 + 2 ** -23, "0x1.000002p0f") + I("f", 1e-40, "1e-40f") + I("f", 0, "0.f")
              + I("ld", 1, "1.0L", "0x1p0L") + I("ld", "1+e", "0x1.0000000000000002p0L") + I("ld", "1-e", "0x0.ffffffffffffffffp0L"))
    chars = (I("c", 65, "'A'", "'\\x41'", "'\\101'") + I("c", 66, "'B'") + I("c", 0, "'\\0'") + I("w", 65, "L'A'", "L'\\x41'") + I("w", 0x141, "L'\\x141'")
             + I("w", 0x10041, "L'\\x10041'") + I("w", 0x42, "L'B'") + I("U", 65, "U'A'") + I("U", 0x141, "U'\\x141'") + I("U", 0x10041, "U'\\x10041'"))
    multi = I("i", 0x4142, "'AB'") + I("i", 0x4143, "'AC'") + I("i", 0x014142, "'\\1AB'")
    consts["cpp"] = ints + floats + chars + I("c16", 65, "u'A'") + I("c16", 0x141, "u'\\x141'") + multi
    # in C every character constant without prefix and every L'' is an int
    consts["c"] = [x for x in ints if "0b" not in x[0]] + floats + I("ic", 65, "'A'", "'\\x41'", "L'A'") + I("ic", 66, "'B'", "L'B'") + \
        I("ic", 0x141, "L'\\x141'") + I("ic", 0x10041, "L'\\x10041'") + multi
    esc = ["", "a", "ab", "abc", "b", "a\\0b", "a\\0", "a\\0c", "\\0", "\\x61", "a\" \"b", "A"]
    strs = lambda pre, w: I(w, 0, pre + '""') + [x for e in esc[1:] for x in I(w, e.replace("\\x61", "a").replace('" "', ""), pre + '"' + e + '"')]
    wides = lambda pre, w: strs(pre, w) + I(w, "x141", pre + '"\\x141"') + I(w, "ax141", pre + '"a\\x141"') + I(w, "x141a", pre + '"\\x141" "a"')

    def ctexts(lst, mixed):
        def it():
            for (x, tx, vx), (y, ty, vy) in itertools.product(lst, repeat=2):
                if not mixed and tx != ty:
                    continue
                k = f"a ? {x} : {y}"
                if tx == ty and vx == vy:
                    k = M("redundant conditional operator", k)
                yield "void f{N}(int a) { (void)(" + k + "); }"
        return it
    for lang in ("c", "cpp"):
        out.append(TSpace("constants", lang, RC, ctexts(consts[lang], True)))
        out.append(TSpace("string-constants", lang, RC, ctexts(strs("", "s") + wides("L", "L") + wides("U", "U") + wides("u", "u") + strs("u8", "8"), False), clang=("-std=gnu11",) if lang == "c" else None))

    RI, mi = ["RedundantIfStatement", "UnnecessaryElseStatement"], ["redundant_if", "unnecessary_else"]
    as_ = lambda l, r: (";e", ("=", (l,), (r,)))
    base = [("ret", ("T",)), ("ret", ("F",)), as_("t", "T"), as_("t", "F"), as_("u", "T"), as_("u", "F"), as_("t", "u"), ("ret", ("t",)), (";",)]

    def wrap(s):
        yield s
        yield ("blk", (s,))
        yield ("blk", (("blk", (s,)),))
        yield ("blk", (s, E))
        yield ("blk", (E, s))

    def rifs():
        for x, y in itertools.product(base, repeat=2):
            for a in wrap(x):
                for b in wrap(y):
                    yield (("if", V, a, b),)
        for x, y, z in itertools.product(base, repeat=3):
            yield (("if", V, x, ("if", W, y, z)),)
            yield (("if", V, ("blk", (("if", W, x, y),)), z),)
            yield (("if", V, x, ("blk", (("if", W, y, z),))),)
        for x in base:
            yield (("if", V, x, None),)
            yield (("while", V, ("if", V, x, base[1])),)
    bconts = [c.replace("int f", "bool f").replace("int S{N}", "bool S{N}").replace("-> int", "-> bool") for c in CONT["cpp"]]
    out.append(TreeSpace("if", "cpp", RI, mi, rifs, bconts[:1], prologue=pro))
    out.append(TreeSpace("if-containers", "cpp", RI, mi, lambda: ((("if", V, x, y),) for x in base[:4] for y in base[:4]), bconts, prologue=pro))
    UE, mu = ["UnnecessaryElseStatement"], ["unnecessary_else"]
    out.append(TreeSpace("else", "c", UE, mu, seqs(Gen(stmts=("ret0", ";e", "blk", "if", "ife")), 1, 9 if t else 8)))
    out.append(TreeSpace("else-nested", "c", UE, mu, seqs(Gen(stmts=("ret0", "ife", "while", "brk", "blk")), 1, 9 if t else 8)))
    out.append(TreeSpace("else-deep", "c", UE, mu, SGen(("ret0", ";e", "blk", "if", "ife", "while"), 2).seqs(1, 7 if t else 6)))
    out.append(TreeSpace("else-chains", "c", UE, mu, SGen(("ret0", ";e", "ife", "blk"), 1).seqs(1, 10 if t else 9)))
    out.append(TreeSpace("else-containers", "cpp", UE, mu, seqs(Gen(stmts=("ret", ";e", "ife", "blk")), 1, 6 if t else 5), CONT["cpp"]))
    out.append(TreeSpace("else-containers", "m", UE, mu, seqs(Gen(stmts=("ret", ";e", "ife", "blk")), 1, 6 if t else 5), CONT["m"]))

    UP, mp = ["UselessParentheses"], ["useless_parens"]

    def parens(inner, stm):
        def it():
            for e in inner:
                for x in (e, ("()", e), ("()", ("()", e)), ("+", ("()", e), ("1",)), ("!", ("()", e))):
                    for s in stm:
                        if s == "if":
                            if x[0] in ("+",) and "T" in stm:
                                continue
                            yield (("if", x, E, None),)
                            yield (("if", x, E, E),)
                            yield (("if", V, E, ("if", x, E, None)),)
                        elif s == "ret":
                            yield (("ret", x),)
                        elif s == "decl":
                            yield (("decl", x),)
                        elif s == "other":
                            yield (("while", x, E),)
                            yield (("do", x, E),)
                            yield (("for", x, x, x, E),)
                            yield ((";e", x),)
                            yield ((";e", ("=", V, x)),)
                            yield (("sw", x, (("c", (E,)),)),)
        return it
    ints = [("+", V, W), ("1",), ("call",), ("*", V, ("2",)), ("neg", V), ("~", V), ("&", V, W), ("?:", V, ("1",), ("2",)), ("K",)]
    cmps = [("==", V, W), ("<", V, ("1",)), ("&&", V, W), ("||", V, W), ("!", V), ("!=", V, ("0",))]
    out.append(TreeSpace("parentheses", "c", UP, mp, parens(ints[:-1] + cmps, ("if", "ret", "decl", "other"))))
    out.append(TreeSpace("parentheses", "m", UP, mp, parens(ints[:-1] + cmps, ("if", "ret", "decl", "other"))))
    out.append(TreeSpace("parentheses-int", "cpp", UP, mp, lambda: (q for q in parens(ints[:-1], ("ret", "decl", "other"))()
                                                                    if "'!'" not in repr(q))))
    out.append(TreeSpace("parentheses-bool", "cpp", UP, mp, lambda: (q for q in parens(cmps, ("if", "other", "T"))() if "'+'" not in repr(q))))
    out.append(TreeSpace("parentheses-containers", "cpp", UP, mp, lambda: ((("ret", x),) for e in ints[:2] for x in (e, ("()", e))), CONT["cpp"]))

    P = lambda s: M("useless parentheses", s)

    def ptexts():
        for e in ("1 + a", "g()", "a == 1", "(int)sizeof(int)", "-a", "(a + 1)"):
            yield "int v{N} = " + P(f"({e})") + ";" if e == "(int)sizeof(int)" else "int v{N}(int a) { return " + P(f"({e})") + "; }"
            yield "void f{N}(int a) { static int k = 1; int z = " + P(f"({e})") + ", y = 2, x = " + P(f"({e})") + "; }"
            yield "void f{N}(int a) { for (int i = " + P(f"({e})") + "; ; ) a++; }"
            yield "int f{N}(int a) { if (" + P(f"({e})") + ") return " + P(f"({e})") + "; else return a; }"
            yield "int f{N}(int a) { h((" + e + ")); a = (" + e + "); return (" + e + ") + a; }"
            yield "int f{N}(int a) { if (a && (" + e + ")) return 1; return a; }"
    out.append(TSpace("parentheses-forms", "c", UP, ptexts, prologue="int g(void); int h(int);"))

    RL = ["RedundantLocalVariable"]

    def locs(ext):
        decl = ["int l;", "int l = g();", "int m = 1;", "int l = 1, m = 2;", "l = 2;", "g();", "{ g(); }", "int l2 = l;", ";"]
        rets = ["return l;", "return m;", "return l + 1;", "return (l);", "return g();", "return 1;", "m = l;"]
        K = lambda s: M("redundant local variable", s)

        def it():
            for n in (0, 1, 2):
                for pre in itertools.product(decl, repeat=n):
                    for d in decl:
                        for r in rets:
                            seq = [*pre, d]
                            names = [x for s in seq if s.startswith("int ") for x in
                                     ({"int l = 1, m = 2;": ["l", "m"]}.get(s) or [s.split()[1].strip(";")])]
                            if len(set(names)) != len(names):
                                continue
                            hit = d in ("int l;", "int l = g();") and r == "return l;" or d == "int m = 1;" and r == "return m;"
                            body = " ".join([*pre, K(d) if hit else d, r])
                            yield "int f{N}(void) { " + body + " }"
                            if n < 2:
                                yield "int f{N}(int z) { if (z) { " + body + " } return 1; }"
                                yield "int f{N}(int z) { while (z) { { " + body + " } g(); } return z; }"
                                if ext == "cpp":
                                    yield "struct S{N} { int f() { " + body + " } };"
                                    yield "auto f{N} = []() -> int { " + body + " };"
                                    yield "template <class T> int f{N}(T) { " + body + " }"
                                if hit:
                                    yield "int f{N}(int z) { " + body.replace("\x01redundant local variable\x02\x03", "") + " g(); }"
        return it
    pl = {"c": "int g(void); extern int l, m, b;", "cpp": "int g(); extern int l, m, b;"}
    for ext in ("c", "cpp"):
        out.append(TSpace("local-variable", ext, RL, locs(ext), prologue=pl[ext]))

    RD = ["UnnecessaryNullCheckForCXXDealloc"]

    def dele():
        ptrs = ["p", "q", "s.p", "this->p", "r->p", "arr[1]", "arr[2]"]
        K = lambda s: M("unnecessary null check for dealloc", s)
        for x in ptrs:
            for y in ptrs:
                same = x == y
                if "this" in (x + y) and "p" in (x, y) and x != y:
                    continue        # p and this->p are the same member or not, by scope
                fun = "struct S{N} : Base { void f(S *q, S s, S *r, int *arr[4], int *p" + ("0" if "this" in x + y else "") + ") { $ } };"
                if "this" not in x + y:
                    fun = "void f{N}(int *p, int *q, S s, S *r, int *arr[4]) { $ }"
                else:
                    fun = "struct S{N} : Base { void f(int *q, S s, S *r, int *arr[4]) { $ } };"
                for c, good in ((x, 1), (x + " != 0", 1), (x + " != nullptr", 1), ("0 != " + x, 1), ("nullptr != " + x, 1), (x + " == 0", 0),
                                ("!" + x, 0), (x + " && g()", 0)):
                    for d in ("delete", "delete[]"):
                        for body, ok in ((f"{d} {y};", 1), (f"{{ {d} {y}; }}", 1), (f"{{ {d} {y}; {y} = nullptr; }}", 1), (f"{{ {d} {y}; {y} = 0; }}", 1),
                                         (f"{{ {d} {y}; g(); }}", 0), (f"{{ g(); {d} {y}; }}", 0), (f"{{ {d} {y}; {y} = 0; g(); }}", 0), ("g();", 0), ("{ }", 0)):
                            hit = same and good and ok
                            s = f"if ({c}) {body}"
                            yield fun.replace("$", K(s) if hit else s)
                            if d == "delete" and same:
                                yield fun.replace("$", s + " else g();")
                                if hit:
                                    yield fun.replace("$", "while (g()) " + K(s))
                                    yield fun.replace("$", "if (g()) " + K(s) + " else g();")
                if same:
                    for body in (f"{{ delete {y}; q = nullptr; }}", f"{{ delete {y}; {y} = q; }}"):
                        if y != "q":
                            yield fun.replace("$", f"if ({x}) {body}")

    def dele_ok():
        for s in dele():
            # 'if (g()) if (x) ... else' binds the else to the inner if: the inner check is then not unnecessary
            if "if (g()) " in s:
                s = s.replace("if (g()) ", "if (g()) { ").replace(" else g();", " } else g();")
            yield s
    out.append(TSpace("delete", "cpp", RD, dele_ok, prologue="int g(); struct S { int *p; }; struct Base { int *p; };"))
    return R, out


# ------------------------------------------------------------------ C20
def c20(t):
    R = ["MissingBreakInSwitchStatement", "MissingDefaultStatement", "MisplacedDefaultLabel", "NonCaseLabelInSwitchStatement",
         "TooFewBranchesInSwitchStatement", "UnnecessaryDefaultStatement"]
    R = [x for x in R]
    m = ["switches"]
    qs = [(E,), (("brk",),), (E, ("brk",)), (("blk", (E, ("brk",))),), (("blk", (E,)),), (("ret0",),), (("blk", (E,)), ("brk",)), (E, E), (("label", E), ("brk",))]
    small = qs[:4]
    out = []

    def sws(qs, k, wrap=lambda s: (s,)):
        def it():
            for n in range(1, k + 1):
                for labs in itertools.product(("c", "d", "cc"), repeat=n):
                    if labs.count("d") > 1:
                        continue
                    for bodies in itertools.product(qs, repeat=n):
                        yield wrap(("sw", V, tuple(zip(labs, bodies))))
        return it
    C20R = ["MissingBreakInSwitchStatement", "SwitchStatementsShouldHaveDefault", "DefaultLabelNotLastInSwitchStatement", "NonCaseLabelInSwitchStatement",
            "TooFewBranchesInSwitchStatement", "CoveredSwitchStatementsDontNeedDefault"]
    out.append(TreeSpace("bodies", "c", C20R, m, sws(qs, 3 if t else 2)))
    out.append(TreeSpace("sequences", "c", C20R, m, sws(small[1:3] + [(E,)], 4 if t else 3)))
    out.append(TreeSpace("labels", "c", C20R, m, sws([(("brk",),)], 7 if t else 6)))
    # where in its group the statement that ends it stands, and which it is
    def ends(x):
        return qs[:2] + [(x,), (E, x), (("blk", (x,)),), (E, ("blk", (x,))), (("blk", (E, x)),), (E, ("blk", (E, x))), (E, E, x), (("blk", (E,)), ("blk", (x,))),
                         (E, x, E), (("blk", (("blk", (x,)),)),), (E, ("blk", (("blk", (x,)),)))]
    loop = lambda s: (("while", V, ("blk", (s,))),)
    for nm, ext, x, wrap in (("break", "c", ("brk",), None), ("return", "c", ("ret0",), None), ("continue", "c", ("cont",), loop), ("throw", "cpp", ("thr", V), None),
                             ("throw-object", "cpp", ("thr", ("raw", "S(a)")), None), ("throw", "m", ("athr", None), loop)):
        sp = TreeSpace(nm, ext, C20R, m, sws(ends(x) if t else ends(x)[:9], 3 if t else 2, *([wrap] if wrap else [])))
        if nm == "throw-object":
            sp.prologue += " struct S { S(int); ~S(); int *p; };"
        out.append(sp)
    out.append(TreeSpace("containers", "cpp", C20R, m, sws(qs[:2] + [(("ret", V),)], 2, lambda s: (s, ("ret", V))), CONT["cpp"]))
    out.append(TreeSpace("containers", "m", C20R, m, sws(qs[:2] + [(("ret", V),)], 2, lambda s: (s, ("ret", V))), CONT["m"]))
    # nesting: the inner switch ends with break so that the outer group's own break decides
    brk = (("brk",),)

    def nested():
        for il in itertools.chain.from_iterable(itertools.product(("c", "d"), repeat=n) for n in (1, 2, 3)):
            if il.count("d") > 1:
                continue
            inner = ("sw", W, tuple((l, brk) for l in il))
            for ol in itertools.chain.from_iterable(itertools.product(("c", "d", "cc"), repeat=n) for n in (1, 2, 3)):
                if ol.count("d") > 1:
                    continue
                for at in range(len(ol)):
                    yield (("sw", V, tuple((l, ((inner, ("brk",)) if i == at else brk)) for i, l in enumerate(ol))),)
    out.append(TreeSpace("nested", "c", [x for x in C20R if x != "MissingBreakInSwitchStatement"], ["switches_nobreak"], nested))

    # enumerations: covered or not, default or not
    def enums():
        names = ["A", "B", "C"]
        K = {"d": "unnecessary default statement in covered switch statement", "m": "missing default in switch statements"}
        for ext in ("",):
            for n in (1, 2, 3):
                en = "enum E{N} { " + ", ".join(f"{x}{{N}}" for x in names[:n]) + " };"
                for sub in itertools.product((0, 1), repeat=n):
                    for order in set(itertools.permutations([x for x, s in zip(names, sub) if s])):
                        for dpos in (None, *range(len(order) + 1)):
                            labs = [f"case {x}{{N}}: break;" for x in order]
                            if dpos is not None:
                                labs.insert(dpos, M("ill-placed default label in switch statement", "default: break;") if dpos < len(order) else "default: break;")
                            if not labs:
                                continue
                            cov = all(sub)
                            marks = ""
                            if cov and dpos is not None:
                                marks += M(K["d"], "")
                            if not cov and dpos is None:
                                marks += M(K["m"], "")
                            if len(order) < 3:
                                marks += M("too few branches in switch statement", "")
                            yield en + " void f{N}(enum E{N} e) { " + marks + "switch (e) { " + " ".join(labs) + " } }"
                            if dpos == len(order) or dpos is None:
                                # stacked cases
                                st = [x.replace(" break;", "") for x in labs[:-1]] + labs[-1:]
                                yield en + " void f{N}(enum E{N} e) { " + marks + "switch (e) { " + " ".join(st) + " } }"
    for ext in ("c", "cpp", "m"):
        out.append(TSpace("enums", ext, C20R, enums))

    def limits():
        for n in range(0, 7):
            for d in (0, 1):
                yield n, d
    for lim in range(0, 6):
        def gen(lim=lim):
            for n, d in limits():
                if n + d == 0:
                    continue
                labs = " ".join(f"case {i}: break;" for i in range(n)) + (" default: break;" if d else "")
                s = f"switch (a) {{ {labs} }}"
                yield "void f{N}(int a) { " + (M("too few branches in switch statement", s) if n < lim else s) + " }"
        out.append(TSpace(f"limit={lim}", "c", ["TooFewBranchesInSwitchStatement"], gen, opts=(f"-rc=MINIMUM_CASES_IN_SWITCH={lim}",)))
    return C20R, out


# ------------------------------------------------------------------ C21
def c21(t):
    import rmodels
    R = ["BitwiseOperatorInConditional", "ConstantIfExpression", "ConstantConditionalOperator", "DoubleNegative", "MultipleUnaryOperator",
         "CollapsibleIfStatements", "InvertedLogic", "GotoStatement", "ForLoopShouldBeWhileLoop", "JumbledIncrementer", "BrokenOddnessCheck"]
    S = TreeSpace
    out = []
    un = Gen(("v", "1"), ("!", "~", "neg", "pos"), (), ("()",))
    U, mu = ["DoubleNegative", "MultipleUnaryOperator"], ["unaries"]
    es = lambda g, lo, hi: [e for n in range(lo, hi + 1) for e in g.E(n)]
    for ext in ("c", "cpp", "m"):
        out.append(S("unary", ext, U, mu, lambda: (((";e", e),) for e in es(un, 1, 7 if t else 6))))
        out.append(S("unary-mixed", ext, U, mu, lambda: (((";e", e),) for e in es(Gen(("v",), ("!", "~", "neg"), ("+", "&&"), ("()", "?:")), 1, 7 if t else 6))))
    out.append(S("unary-places", "cpp", U, mu, lambda: (q for e in es(un, 1, 4) for q in ((("ret", e),), (("decl", e),), (("if", e, E, E),), (("while", e, E),),
                                                        (("sw", e, (("c", (E,)),)),), (("for", e, e, e, E),)))))
    out.append(S("unary-containers", "cpp", U, mu, lambda: ((("ret", e),) for e in es(un, 1, 4)), CONT["cpp"]))
    out.append(S("unary-containers", "m", U, mu, lambda: ((("ret", e),) for e in es(un, 1, 4)), CONT["m"]))

    # conditions
    Bw, mb = ["BitwiseOperatorInConditional"], ["bitwise"]
    bw = Gen(("v", "w"), ("!",), ("&", "|", "^", "&&", "==", "+"), ("()",))
    bwt = Gen(("v",), ("!",), ("&", "|", "&&"), ("()", "?:"))
    slots = lambda e: ((("if", e, E, None),), (("if", e, E, E),), (("while", e, E),), (("do", e, E),), (("for", None, e, None, E),),
                       ((";e", ("?:", e, V, W)),), ((";e", e),), (("ret", e),), (("sw", e, (("c", (E,)),)),))
    out.append(S("bitwise", "c", Bw, mb, lambda: (q for e in es(bw, 1, 5 if t else 4) for q in slots(e))))
    out.append(S("bitwise-ternary", "cpp", Bw, mb, lambda: (q for e in es(bwt, 1, 6 if t else 5) for q in slots(e))))
    out.append(S("bitwise", "m", Bw, mb, lambda: (q for e in es(bw, 1, 3) for q in slots(e))))
    out.append(S("bitwise-containers", "cpp", Bw, mb, lambda: (q for e in es(bw, 3, 3) for q in slots(e)[:6]), CONT["cpp"][:4]))

    Cn, mcn = ["ConstantIfExpression", "ConstantConditionalOperator"], ["constants"]
    cn = Gen(("v", "0", "1"), ("!",), ("&&", "||", "==", "+"), ("()",))
    cnt = Gen(("v", "0", "1"), ("!", "neg"), ("<", "&&"), ("?:",))
    for ext in ("c", "cpp", "m"):
        out.append(S("constant", ext, Cn, mcn, lambda: (q for e in es(cn, 1, 4) for q in ((("if", e, E, None),), ((";e", ("?:", e, V, W)),), (("while", e, E),), ((";e", e),)))))
        out.append(S("constant-ternary", ext, Cn, mcn, lambda: (q for e in es(cnt, 1, 5 if t else 4) for q in ((("if", e, E, E),), ((";e", ("?:", e, V, W)),)))))
    lits = Gen(("v", "2", "K", "sz", "1.5"), ("!",), ("<",), ("()",))
    out.append(S("constant-literals", "c", Cn, mcn, lambda: (q for e in es(lits, 1, 4) for q in ((("if", e, E, None),), (("ret", ("?:", e, V, W)),)))))
    out.append(S("constant-bool", "cpp", Cn, mcn, lambda: (q for e in es(Gen(("v", "T", "F"), ("!",), ("&&", "||"), ("()",)), 1, 5 if t else 4)
                                                          for q in ((("if", e, E, None),), (("ret", ("?:", e, V, W)),)))))
    if t:
        out.append(S("constant-deep", "c", Cn, mcn, lambda: (q for e in es(cn, 5, 5) for q in ((("if", e, E, None),), ((";e", ("?:", e, V, W)),)))))

    Il, mil = ["InvertedLogic", "CollapsibleIfStatements"], ["inverted", "collapsible"]
    il = Gen(("v", "1"), ("!", "neg"), ("!=", "==", "&&"), ("()",))
    for ext in ("c", "cpp", "m"):
        out.append(S("inverted", ext, Il, mil, lambda: (q for e in es(il, 1, 4) for q in (
            (("if", e, E, None),), (("if", e, E, E),), (("if", V, E, ("if", e, E, E)),), (("if", V, E, ("if", e, E, None)),), ((";e", ("?:", e, V, W)),),
            (("ret", ("?:", V, ("?:", e, V, W), W)),), (("while", e, E),), (("if", e, ("if", e, E, None), None),)))))
    out.append(S("collapsible", "c", Il, mil, seqs(Gen(("v",), ("!",), (), (), (";", ";e", "blk", "if", "ife")), 1, 8 if t else 7)))
    out.append(S("collapsible-deep", "c", Il, mil, SGen((";e", "blk", "if", "ife"), 2).seqs(1, 9 if t else 8)))
    out.append(S("collapsible-deep", "cpp", Il, mil, SGen((";e", ";", "blk", "if", "ife", "while", "label", "range"), 2).seqs(1, 6 if t else 5)))
    out.append(S("collapsible-loops", "cpp", Il, mil, seqs(Gen(("v",), (), (), (), (";e", "blk", "if", "while", "range", "label")), 1, 8 if t else 7)))
    out.append(S("collapsible-containers", "cpp", Il, mil, seqs(Gen(("v",), (), (), (), (";e", "blk", "if", "ife")), 1, 6 if t else 5), CONT["cpp"]))
    out.append(S("collapsible-containers", "m", Il, mil, seqs(Gen(("v",), (), (), (), (";e", "blk", "if", "ife")), 1, 6 if t else 5), CONT["m"]))

    Go, mg = ["GotoStatement", "ForLoopShouldBeWhileLoop"], ["gotos", "for_while"]
    out.append(S("goto", "c", Go, mg, seqs(Gen(stmts=("goto", ";e", "blk", "if", "ife", "label", "while", "for", "sw")), 1, 6 if t else 5)))
    out.append(S("goto-deep", "c", Go, mg, SGen(("goto", ";e", "blk", "ife", "label", "while", "for", "sw", "do"), 2).seqs(1, 5 if t else 4)))
    out.append(S("goto-containers", "cpp", Go, mg, seqs(Gen(stmts=("goto", "blk", "if", "for")), 1, 4), CONT["cpp"][:5]))

    def fors():
        for i in (None, V, ("=", V, ("0",))):
            for c in (None, V, ("<", V, W)):
                for n in (None, V, ("x++", V)):
                    for b in ((";",), E, ("blk", (E, ("brk",)))):
                        yield (("for", i, c, n, b),)
                        yield (("for", i, c, n, ("for", n, c, i, b)),)
    for ext in ("c", "cpp", "m"):
        out.append(S("for", ext, Go, mg, fors))

    def ftexts():
        K = lambda s: M("for loop should be while loop", s)
        for i in ("", "int i = 0", "a = 0", "int i, j"):
            for c in ("", "a", "a < 3"):
                for n in ("", "a++", "a += 2, b++"):
                    s = f"for ({i}; {c}; {n}) " + "{ g(); }"
                    yield "void f{N}(int a, int b) { " + (K(s) if not i and not n and c else s) + " }"
        yield "void f{N}(int a) { " + K("for (; int z = g(); ) g();") + " }"
    out.append(TSpace("for-forms", "cpp", Go, ftexts))

    J = ["JumbledIncrementer"]

    def jumbled():
        K = lambda s: M("jumbled incrementer", s)
        inits = ["int i = 0", "int i", "i = 0", "", "int i = 0, z = 1"]
        incs = ["i++", "++i", "i--", "--i", "j++", "++j", "i += 1", "", "i++, j++", "(i)++", "k++"]
        for oi in inits:
            for ii in ["int j = 0", "int i = 0", "j = 0", ""]:
                for inc in incs:
                    for o, c in (("", ""), ("{ ", " }"), ("{ g(); ", " }"), ("{ ", " g(); }"), ("if (a) ", ""), ("while (a) ", ""), ("{ { ", " } }")):
                        # the inner increment steps the variable the outer loop declares
                        hit = oi in ("int i = 0", "int i") and ii != "int i = 0" and inc in ("i++", "++i", "i--", "--i") and o in ("", "{ ") and c in ("", " }")
                        inner = f"for ({ii}; a; " + (K(inc) if hit else inc) + ") g();"
                        yield "void f{N}(int a, int i, int j, int k) { " + f"for ({oi}; a; k++) {o}{inner}{c} " + "}"
    for ext in ("c", "cpp"):
        out.append(TSpace("jumbled", ext, J, jumbled))

    O = ["BrokenOddnessCheck"]

    def odd():
        K = lambda s: M("broken oddness check", s)
        for l in ("a", "(a + b)", "g()", "a * b", "*&a"):
            for op in ("%", "/", "&", "*"):
                for two in ("2", "3", "1", "b", "0x2"):
                    for cmp in ("==", "!=", "<", "<="):
                        for one in ("1", "0", "2", "b"):
                            for flip in (0, 1):
                                rem = f"{l} {op} {two}"
                                if op == "&":
                                    continue
                                e = f"{one} {cmp} {rem}" if flip else f"{rem} {cmp} {one}"
                                hit = op == "%" and two in ("2", "0x2") and cmp == "==" and one == "1"
                                yield "int f{N}(int a, int b) { if (" + (K(e) if hit else e) + ") return 1; return 0; }"
                                if l == "a" and op == "%":
                                    yield "int f{N}(int a, int b) { return b && " + (K(e) if hit else e) + " ? 1 : 2; }"
                                    yield "int f{N}(int a, int b) { while (!(" + (K(e) if hit else e) + ")) b++; return 1; }"
    for ext in ("c", "cpp"):
        out.append(TSpace("oddness", ext, O, odd))
    return R, out


# ------------------------------------------------------------------ C32
def c32(t):
    R = ["AvoidBranchingStatementAsLastInLoop", "PreferEarlyExit", "ParameterReassignment"]
    A, ma = R[:1], ["last_in_loop"]
    out = [
        TreeSpace("last-in-loop", "c", A, ma, seqs(Gen(stmts=(";e", "brk", "cont", "ret0", "blk", "if", "while", "do", "for")), 1, 6 if t else 5)),
        TreeSpace("last-in-loop-deep", "c", A, ma, SGen((";e", "brk", "cont", "ret0", "blk", "if", "while", "for", "do"), 2).seqs(1, 6 if t else 5)),
        TreeSpace("last-in-loop-deep-switch", "c", A, ma, SGen(("brk", ";e", "blk", "ife", "while", "sw", "cont"), 2).seqs(1, 6 if t else 5)),
        TreeSpace("last-in-loop-deep", "cpp", A, ma, SGen(("brk", ";e", "ret0", "blk", "ife", "range", "try"), 2).seqs(1, 5 if t else 4)),
        TreeSpace("last-in-loop-deep", "m", A, ma, SGen(("cont", ";e", "ret0", "blk", "ife", "forin", "atry", "sync"), 2).seqs(1, 5 if t else 4)),
        TreeSpace("last-in-loop-switch", "c", A, ma, seqs(Gen(stmts=("brk", ";e", "blk", "ife", "while", "sw")), 1, 7 if t else 6)),
        TreeSpace("last-in-loop", "cpp", A, ma, seqs(Gen(stmts=(";e", "brk", "cont", "blk", "ife", "range", "try")), 1, 7 if t else 6)),
        TreeSpace("last-in-loop", "m", A, ma, seqs(Gen(stmts=(";e", "brk", "cont", "blk", "ife", "forin", "pool")), 1, 7 if t else 6)),
        TreeSpace("last-in-loop-containers", "cpp", A, ma, seqs(Gen(stmts=("ret", "cont", "blk", "while")), 1, 5 if t else 4), CONT["cpp"]),
        TreeSpace("last-in-loop-containers", "m", A, ma, seqs(Gen(stmts=("ret", "cont", "blk", "while")), 1, 5 if t else 4), CONT["m"]),
    ]
    # early exit: lines of an if statement that ends a loop body or precedes the closing jump of a block
    MSG = "Use early exit/continue to simplify code and reduce indentation"
    NAME = "prefer early exits and continue"

    def early(ext, limits):
        def it():
            loops = ["while (a)", "for (;;)", "for (int i = 0; i < a; i++)", "DO"]
            loops += {"cpp": ["for (int w : arr)"], "m": ["for (id w in col)"]}.get(ext, [])
            ends = ["break;", "continue;", "return 0;", "goto E;", "", "g();", ";"]
            for lines in limits:
                for els in ("", " else g();"):
                    def iff(hit):
                        s = "if (a) {" + "\n" * (lines - 1) + "}" + els
                        return M(NAME, s, MSG) if hit else s
                    long_ = lines > LIM[0] and not els
                    for lp in loops:
                        for body, hit in ((lambda h: iff(h), long_), (lambda h: "{ " + iff(h) + " }", long_), (lambda h: "{ g(); " + iff(h) + " }", long_),
                                          (lambda h: "{ " + iff(h) + " g(); }", False), (lambda h: "{ { " + iff(h) + " } }", False),
                                          (lambda h: "{ " + iff(h) + " continue; }", long_), (lambda h: "{ g(); " + iff(h) + " break; }", long_)):
                            b = body(hit)
                            yield "int f{N}(int a) { " + (f"do {b} while (a);" if lp == "DO" else f"{lp} {b}") + " return 1; }"
                    for end in ends:
                        for pre in ("", "g(); "):
                            hit = long_ and end in ("return 0;", "goto E;")
                            if end in ("break;", "continue;"):
                                yield "int f{N}(int a) { switch (a) { default: g(); } while (a) { { " + pre + iff(long_) + " " + end + " } g(); } return 1; }"
                            else:
                                tail = "" if end != "goto E;" else " E: return 1;"
                                if tail:
                                    yield "int f{N}(int a) { { " + pre + iff(hit) + " " + end + " }" + tail + " }"
                                elif end:
                                    yield "int f{N}(int a) { " + pre + iff(hit) + " " + end + " }"
                                    yield "int f{N}(int a) { if (a) { " + pre + iff(hit) + " " + end + " } g(); }"
                                else:
                                    yield "int f{N}(int a) { " + pre + iff(False) + " }"
                    yield "int f{N}(int a) { " + iff(False) + " g(); return 0; }"
                    yield "int f{N}(int a) { { " + iff(False) + " } return 0; }"
        LIM = [15]
        return it, LIM
    for ext in ("c", "cpp", "m"):
        it, lim = early(ext, (2, 14, 15, 16, 30))
        out.append(TSpace("early-exit/limit=15", ext, ["PreferEarlyExit"], it))
        for L in (1, 2, 3) if not t else (0, 1, 2, 3, 4, 5, 20):
            it, lim = early(ext, (1, 2, 3, 4, 5, 20, 21))
            lim[0] = L
            out.append(TSpace(f"early-exit/limit={L}", ext, ["PreferEarlyExit"], it, opts=(f"-rc=MAXIMUM_IF_LENGTH={L}",)))

    # parameter reassignment
    P = ["ParameterReassignment"]
    K = lambda s: M("parameter reassignment", s)

    def params(ext):
        def it():
            lhs = [("a", 1), ("b", 1), ("c", 0), ("g1", 0), ("*p", 0), ("p", 1), ("s.x", 0), ("arr[0]", 0)]
            forms = [("{l} = {r};", 1), ("{l} == {r};", 0), ("{l} += {r};", 0), ("if (c) {{ {m}{l} = {r}; }}", 1), ("while ({m}{l} = {r}) g();", 1),
                     ("for ({m}{l} = {r}; c; ) g();", 1), ("c = ({m}{l} = {r});", 1), ("{{ {{ {m}{l} = {r}; }} }}", 1), ("g(); {m}{l} = {r}; {m}{l} = {r};", 2),
                     ("switch (c) {{ case 1: {m}{l} = {r}; }}", 1), ("c = {l};", 0), ("(void){l};", 0), ("do {m}{l} = {r}; while (c);", 1)]
            hides = ["{ int a = 1; a = 2; }", "for (int a = 0; a; ) a = 3;", "{ int b; b = a; }", ""]
            for (l, isp) in lhs:
                for form, hit in forms:
                    r = {"p": "&c", "a": "b"}.get(l, "1")
                    if l == "p" and ("+=" in form or "c =" in form or "==" in form):
                        continue
                    fm = form if "{m}" in form or not hit else "{m}" + form
                    s = fm.format(l=l, r=r, m="\x01parameter reassignment\x02\x03" if isp and hit else "")
                    for h in hides:
                        for order in (s + " " + h, h + " " + s):
                            if h or order == s + " ":
                                yield "int f{N}(int a, int b, int *p, struct X s) { int c = 0; int arr[2]; " + order + " return 0; }"
                        if h == hides[0] and ext == "cpp":
                            yield "struct S{N} { int c; int arr[2]; int f(int a, int b, int *p, X s) { " + s + " " + h + " return 0; } };"
                            yield "template <class T> int f{N}(T c, int a, int b, int *p, X s) { int arr[2]; " + (s if l != "c" else "g();") + " return 0; }" \
                                if "c = " not in s else "int z{N};"
                            yield "namespace n{N} { int f(int, int, int *, X); int f(int a, int b, int *p, X s) { int c; int arr[2]; " + s + " return 0; } }"
                        if h == hides[0] and ext == "m":
                            yield "@interface C{N} : K @end @implementation C{N} - (int)m:(int)a b:(int)b p:(int *)p s:(struct X)s { int c = 0; int arr[2]; " + s + " " + h + " return 0; } @end"
                            yield "@interface C{N} : K @end @implementation C{N} + (int)m:(int)a b:(int)b p:(int *)p s:(struct X)s { int c = 0; int arr[2]; " + s + " return 0; } @end"
            yield "int f{N}(int a); int f{N}(int b) { int a; a = 1; return a; }"
            yield "int f{N}(int a); int f{N}(int b) { int a; " + K("b = 1; ") + "return a; }"
            yield "int f{N}(int) { int a; a = 1; return a; }" if ext == "cpp" else "int f{N}(void) { int a; a = 1; return a; }"
        return it
    pro = {"c": "int g(void); struct X { int x; }; int g1;", "cpp": "int g(); struct X { int x; }; int g1;",
           "m": "int g(void); struct X { int x; }; int g1; __attribute__((objc_root_class)) @interface K @end"}
    for ext in ("c", "cpp", "m"):
        out.append(TSpace("parameters", ext, P, params(ext), prologue=pro[ext]))

    # an assignment at any position of any expression, with any right side
    RHS = ["1", "y", "x + 1", "y + 1", "(y)", "-y", "!x", "~y", "h(x)", "x ? 1 : 2", "(int)1.5", "(h(1), y)", "y < 2", "y && x", "*p", "p[0]", "s.x", "sizeof(int)", "y++", "--y", "y == 1 || x", "'c'", "y * x - 1",
           "(v = 1)", "v = 2", "v += 3", "({ int q = 1; q; })", "k3(1, y, 2)", "x", "&x == p", "y << 1", "y & 3", "(x)"]
    RHS2 = ["{K}y = 1", "({K}y = 2)", "{K}y = {K}z = 1", "1 + ({K}y = 3)", "h({K}y = 4)", "p[{K}y = 0]", "x ? {K}y = 1 : 2".replace("{K}y = 1", "({K}y = 1)"), "v = {K}y = 1"]
    STS = ["$;", "if ($) g();", "while ($) g();", "int w = $;", "for ($; ; ) g();", "for (; $; ) g();", "for (; ; $) g();", "do g(); while ($);", "switch ($) { default: ; }", "return (void)($);", "if (g()) ; else $;", "L: $;",
           "{ { $; } }", "switch (g()) { case 1: $; }"]

    def assigns(ext, depth):
        k = "\x01parameter reassignment\x02\x03"

        def funs(body):
            yield "void f{N}(int x, int y, int *p, struct X s, int z) { int v; " + body + " }"
            if ext == "cpp":
                yield "struct S{N} { void f(int x, int y, int *p, struct X s, int z) { int v; " + body + " } };"
            if ext == "m":
                yield "@interface C{N} : K @end @implementation C{N} - (void)m:(int)x y:(int)y p:(int *)p s:(struct X)s z:(int)z { int v; " + body + " } @end"

        def it():
            for r in RHS + [x.replace("{K}", k) for x in RHS2]:
                for l, kk in (("x", k), ("v", ""), ("*p", ""), ("s.x", "")):
                    for st in STS:
                        yield from funs(st.replace("$", f"{kk}{l} = {r}"))
            for w in rtree.holes(ext, depth):
                if "^int{" in w:
                    continue
                flat = w == "@" or w in rtree.HOLES[ext]
                for r in RHS[:4] + [RHS2[0].replace("{K}", k), "v = 2"] if flat else RHS[2:3]:
                    e = w.replace("@", f"({k}x = {r})") if "{@" not in w and "= @" not in w and "return @" not in w else w.replace("@", f"{k}x = {r}")
                    if e.startswith("int("):
                        e = "+" + e
                    for st in STS if flat else STS[:2]:
                        yield from funs(st.replace("$", e))
        return it
    apro = {"c": "int g(); int h(int); int k3(int, int, int); extern int *arr; struct X { int x; }; struct P { int x; }; int as, a;"}
    apro["cpp"] = "int g(); int h(int); int k3(int, int, int); int wr(int); template <class T> T idt(T); extern int *arr; struct Q { }; struct X { int x; }; struct P { Q q; int x; }; int as, a;"
    apro["m"] = apro["c"] + " __attribute__((objc_root_class)) @interface K - (int)y:(int)a; - (K *)n; @end extern K *q;"
    for ext, d in (("c", 2), ("cpp", 2 if t else 1), ("m", 2 if t else 1)):
        out.append(TSpace("assignments", ext, P, assigns(ext, d), prologue=apro[ext], clang=rtree.CLANG.get(ext, ())))
    return R, out


PARTS = {"C16": c16, "C17": c17, "C19": c19, "C20": c20, "C21": c21, "C32": c32}


def check(pid):
    chk = common.Check(pid, explanation=EXPL, assumptions=["clang parses the generated programs as the grammar intends"])
    R, spaces = PARTS[pid](chk.thorough)
    rules = sorted({r for s in spaces for r in s.rules})
    tree = B.build(True, rules, (), [B.MCRAW])
    chk.bounds = {"spaces": "see parts: statement and expression trees up to the size in the space, all contexts listed there"}
    common.explore_spaces(chk, tree, spaces)
    return chk.finish()
