"""C12 suppression, C13 independence, C14 main file only, C15 locations: properties that hold for every rule."""
import itertools, json, os, re
import build as B, catalog, common, run as R

EXPL = ("The catalogue holds a minimal program for every rule and language with the construct to report. Every program is put through every variation of the bounded families "
        "(layouts, macros, files, suppressions, histories) and linted by the real executable with the real rule; rule, file, start and end of every report are compared with what "
        "follows from the variation. states = distinct programs or histories, transitions = tokens or files, traces = runs of the executable.")
TOK = re.compile(r'⟦|⟧|"[^"]*"|@?\w+|->|\+\+|--|&&|\|\||==|!=|<=|::|\.\.\.|\S|\n| ')


class Prog:
    """tokens: [(text, separator before)], marks: [(first token, last token)]"""

    def __init__(self, rule, lib, ext, text, opts):
        self.rule, self.lib, self.ext, self.opts, self.src = rule, lib, ext, opts, text
        text = text.replace("{N}", "\x04")
        toks, self.marks, st, sep = [], [], [], ""
        for m in re.finditer("\\w*\x04\\w*|" + TOK.pattern, text):
            s = m[0]
            if s == "⟦":
                st.append(len(toks))
            elif s == "⟧":
                self.marks.append((st.pop(), len(toks) - 1))
            elif s in " \n":
                sep += s
            else:
                toks.append((s.replace("\x04", "{N}"), sep))
                sep = ""
        self.toks = toks
        self.words = [t for t, _ in toks]
        self.seps = [s for _, s in toks]
        # the tokens that begin a declaration of the file
        self.tops, depth, objc, nxt = [], 0, False, True
        for i, w in enumerate(self.words):
            if w in (";",) and depth == 0 and not objc:
                nxt = True
                continue
            if nxt and not objc and depth == 0:
                self.tops.append(i)
                nxt = False
            if w in ("@interface", "@implementation", "@protocol"):
                objc = True
            depth += w == "{"
            depth -= w == "}"
            if w in ("@end", "end") and objc:
                objc, nxt = False, True
            elif w == "}" and depth == 0 and not objc and i + 1 < len(self.words) and self.words[i + 1] != ";":
                nxt = True

    def top(self, i):
        return max(t for t in self.tops if t <= i)


PROGS = [Prog(*e) for e in catalog.entries()]


def place(pieces, line=0, col=1):
    """pieces: texts in order; yields (line, col) of each"""
    for p in pieces:
        yield line, col
        n = p.replace("{N}", "0000").encode()
        k = n.count(b"\n")
        if k:
            line, col = line + k, len(n) - n.rindex(b"\n")
        else:
            col += len(n)


class PSpace(common.Space):
    """items are variants of one program; build(variant) -> (text, [(start line, column, end line, column)], {file: text})"""
    kind = "layouts"

    def __init__(self, prog, variants, kind=None):
        self.p, self.variants = prog, variants
        self.name = kind or self.kind
        self.ext, self.rules, self.opts = prog.ext, (prog.lib,), prog.opts
        self.prologue = catalog.PROLOGUE[prog.ext]
        self.clang = catalog.CLANG[prog.ext]
        self.batch = 600

    def __getstate__(self):
        d = dict(self.__dict__)
        d["variants"] = None
        return d

    def items(self):
        return self.variants(self.p)

    def render(self, it):
        return self.make(it)[0]

    def expect(self, it):
        return self.make(it)[1]

    def steps(self, it):
        return len(self.p.toks)

    def proj(self, v, line0):
        return (self.fname(v[3]), v[4] - line0, v[5], v[6] - line0, v[7], v[0])

    def fname(self, path):
        return "" if path == "t." + self.ext else re.sub(r"\d{4}", "", path)

    def result(self, pos, suppressed=()):
        """pos[i]: position of token i as (file, line, column) or None when its declaration is not analysed"""
        out = []
        for k, (a, b) in enumerate(self.p.marks):
            if pos[a] is not None and k not in suppressed:
                out.append((*pos[a], *pos[b][1:], self.p.rule))
        return sorted(set(out))     # (reports that agree in everything are one)


# ------------------------------------------------------------------ C15
class Layout(PSpace):
    """variant: tuple of (gap, separator)"""

    def make(self, it):
        seps = list(self.p.seps)
        for g, s in it:
            seps[g] = seps[g] + s
        pieces = [x for s, w in zip(seps, self.p.words) for x in (s, w)]
        pos = list(place(pieces))[1::2]
        return "".join(pieces), self.result([("", *x) for x in pos])


class ObjMacro(PSpace):
    """variant (i, j): tokens i..j come from an object-like macro"""
    kind = "macros"

    def make(self, it):
        i, j = it
        p = self.p
        body = "".join((s if k > i else "") + w for k, (w, s) in enumerate(p.toks[i:j + 1], i))
        head = f"#define M{{N}} {body}\n"
        pieces, owner = [head], []
        for k, (w, s) in enumerate(p.toks):
            if i < k <= j:
                owner.append(owner[-1])
                continue
            pieces += [(s or " ") if k == i else s, "M{N}" if k == i else w]
            owner.append(len(pieces) - 1)
            if k == i:
                pieces.append(" ")
        P = list(place(pieces))
        return "".join(pieces), self.result([("", *P[o]) for o in owner])


class ArgMacro(PSpace):
    """variant (a, b, i, j): tokens i..j are the argument of a macro whose body holds the tokens a..i-1 before and j+1..b after it"""
    kind = "macro arguments"

    def make(self, it):
        a, b, i, j = it
        p = self.p
        sep = lambda k: p.toks[k][1]
        before = "".join((sep(k) if k > a else "") + p.words[k] for k in range(a, i)) + (sep(i) if i > a else "")
        after = "".join(sep(k) + p.words[k] for k in range(j + 1, b + 1))
        head = f"#define M{{N}}(ZZ) {before} ZZ {after}\n"
        pieces, owner = [head], [None] * len(p.toks)
        for k in range(a):
            pieces += [sep(k) if k else "", p.words[k]]
            owner[k] = len(pieces) - 1
        pieces += [sep(a) or " ", "M{N}"]
        for k in (*range(a, i), *range(j + 1, b + 1)):
            owner[k] = len(pieces) - 1
        pieces.append("(")
        for k in range(i, j + 1):
            pieces += [sep(k) if k > i else "", p.words[k]]
            owner[k] = len(pieces) - 1
        pieces.append(") ")
        for k in range(b + 1, len(p.toks)):
            pieces += [sep(k), p.words[k]]
            owner[k] = len(pieces) - 1
        P = list(place(pieces))
        return "".join(pieces), self.result([("", *P[o]) for o in owner])


class Included(PSpace):
    """variant (i, j): tokens i..j stand in an included file"""
    kind = "included fragments"

    def make(self, it):
        i, j = it
        p = self.p
        pieces, owner = [], []
        inc = []
        for k, (w, s) in enumerate(p.toks):
            if k == i:
                pieces.append('\n#include "x{N}.inc"\n')
            if i <= k <= j:
                inc += [s, w]
                owner.append(None)
            else:
                pieces += [s, w]
                owner.append(len(pieces) - 1)
        P, Q = list(place(pieces)), list(place(inc, 1))
        pos = [("", *P[o]) if o is not None else ("x.inc", *Q[2 * (k - i) + 1]) for k, o in enumerate(owner)]
        return ("".join(pieces) + "\x05x{N}.inc\x06" + "".join(inc) + "\n",
                self.result([x if not i <= p.top(k) <= j else None for k, x in enumerate(pos)]))

    def result(self, pos):
        return sorted({(f, l, c, c2, r) for f, l, c, _, c2, r in super().result(pos)})

    def proj(self, v, line0):
        # (start and end may lie in different files: no end line)
        return (self.fname(v[3]), v[4] - line0, v[5], v[7], v[0])

    def case_of(self, path):
        m = re.fullmatch(r"\.?/?x(\d{4})\.inc", path)
        return int(m[1]) if m else None


def layouts(t):
    seps = ["\n", "  ", "\t", "/* c */", "// c\n", "\\\n ", "/*é*/", "\n\n \t", "\f", "/* a\n b */ "]

    def var(p):
        n = len(p.toks)
        yield ()
        for g in range(n):
            for s in seps:
                yield ((g, s),)
        pair = list(itertools.combinations(range(n), 2))
        for g, h in pair:
            yield ((g, "\n"), (h, "\n"))
            if t:
                for s, u in (("\n", "\t"), ("\\\n ", "\n"), ("/* a\n */", "é".join(("/*", "*/")))):
                    yield ((g, s), (h, u))
        for g in sorted({0, 1, n // 2, n - 1}):
            for k in (79, 80, 81, 127, 128, 255, 256, 257, 1023, 1024, 4095, 4096, 4097, 40000):
                yield ((g, " " * k),)
            for k in (255, 256, 257, 1000, 4096):
                yield ((g, "\n" * k),)
        for s in seps[:4]:
            yield tuple((g, s) for g in range(n))
        for g, h in pair:
            yield tuple((k, "\n") for k in range(g, h + 1))
    return var


def ranges(p):
    """token ranges that may be put into a macro (no line break inside)"""
    for i in range(len(p.toks)):
        for j in range(i, len(p.toks)):
            if j > i and "\n" in p.seps[j]:
                break
            yield i, j


def argument(p, i, j):
    d = 0
    for w in p.words[i:j + 1]:
        d += w == "("
        d -= w == ")"
        if d < 0 or d == 0 and w == ",":
            return False
    return d == 0


def macro_args(t):
    def var(p):
        for i, j in ranges(p):
            if argument(p, i, j):
                yield (i, j, i, j)
                for a, b in ((i - 1, j), (i, j + 1), (i - 1, j + 1), (i - 2, j + 2), (0, len(p.toks) - 1)) if t else ((i - 1, j + 1), (i - 2, j + 1)):
                    if a >= 0 and b < len(p.toks) and not any("\n" in s for s in p.seps[a + 1:b + 1]):
                        yield (a, b, i, j)
    return var


def included(p):
    if "\n" in p.src:
        return          # their number of lines counts
    for i in range(len(p.toks)):
        for j in range(i, len(p.toks)):
            yield i, j


def c15(t):
    sp = []
    for p in PROGS:
        sp += [Layout(p, layouts(t)), ObjMacro(p, ranges), ArgMacro(p, macro_args(t)), Included(p, included)]
    return sp


# ------------------------------------------------------------------ C14
class Files(PSpace):
    """variant: sequence of places of copies of the program"""
    kind = "files"

    def make(self, it):
        p = self.p
        pieces, files, pos = [], [], []
        for k, s in enumerate(it):
            words = [w.replace("{N}", "{N}%d" % k) for w in p.words]
            body = [x for a, w in zip(p.seps, words) for x in (a, w)]
            text = "".join(body)
            if s == "P":
                pos.append((len(pieces) + 1, 2))
                pieces += body + ["\n"]
            elif s == "H":
                pieces.append('#include "h{N}%d.h"\n' % k)
                files.append(("h{N}%d.h" % k, text))
            elif s == "S":
                pieces.append("#include <s{N}%d.h>\n" % k)
                files.append(("sys/s{N}%d.h" % k, text))
            elif s == "N":
                pieces.append('#include "sub/h{N}%d.h"\n' % k)
                files += [("sub/h{N}%d.h" % k, '#include "../h{N}%d.hpp"' % k), ("h{N}%d.hpp" % k, text)]
            elif s == "D":
                files.append(("h{N}%d.h" % k, "#define MM{N}%d %s" % (k, text.replace("\n", " "))))
                pieces += ['#include "h{N}%d.h"\n' % k, "MM{N}%d" % k, "\n"]
                pos.append((len(pieces) - 2, 0))
        P = list(place(pieces))
        out = set()
        for first, step in pos:
            for a, b in p.marks:
                out.add(("", *P[first + a * step], *P[first + b * step], p.rule))
        return "".join(pieces) + "".join("\x05%s\x06%s\n" % f for f in files), sorted(out)

    def case_of(self, path):
        m = re.search(r"[hs](\d{4})\d\.h", path)
        return int(m[1]) if m else None


def c14(t):
    def var(p):
        kinds = "PHSN" + ("D" if "\n" not in p.src else "")
        for n in range(1, 5 if t else 4):
            for q in itertools.product(kinds, repeat=n):
                yield q
    sp = [Files(p, var) for p in PROGS]
    for s in sp:
        s.clang = (*s.clang, "-isystem", "sys")
    return sp


# ------------------------------------------------------------------ C12
ATTRNAME = {"missing call to base method": "base method", "calling prohibited method": "prohibited method", "calling protected method": "protected method",
            "missing abstract method implementation": "abstract method"}


def annot(*names):
    return " ".join(f'__attribute__((annotate("{n}")))' for n in names)


def annotations(p):
    """(texts of the annotations, whether they suppress)"""
    a = ATTRNAME.get(p.rule, p.rule)
    other = "dead code" if p.rule != "dead code" else "short variable name"
    yes = ["oclint:suppress", f"oclint:suppress[{a}]", f"oclint:suppress[{a}][because]"]
    no = [f"oclint:suppress[{other}]", f"oclint:enforce[{a}]", f"oclint:suppress[{a[:-1]}]", f"oclint:suppress[{a}s]", f"oclint:suppress[{a[1:]}]", "oclint:suppressed", "oclint:", "suppress", "oclint:suppress[]",
          f"suppress[{a}]", "oclint", f"{a}", f"oclint:suppress[{p.lib}]"]
    if a != p.rule:
        no.append(f"oclint:suppress[{p.rule}]")
    if p.lib == "ObjCVerifyProhibitedCall":
        no = [x for x in no if "enforce" not in x]
    for y in yes:
        yield (y,), True
    for n in no:
        yield (n,), False
    yield (no[0], yes[0]), True
    yield (yes[1], no[0]), True
    yield (no[0], no[1] if p.lib != "ObjCVerifyProhibitedCall" else no[2]), False


def match(ws, i, o, c):
    d = 0
    for k in range(i, len(ws)):
        d += ws[k] == o
        d -= ws[k] == c
        if d == 0:
            return k


def decls(p):
    """(first token, last token, token before which the attribute goes) of every declaration that can be annotated"""
    ws = p.words
    out = []
    objc = False
    for i, w in enumerate(ws):
        objc = w == "@implementation" or objc and w not in ("@end", "end")
        nx = ws[i + 1] if i + 1 < len(ws) else ""
        n2 = ws[i + 2] if i + 2 < len(ws) else ""
        if w in ("void", "int", "id", "bool") and re.match(r"[a-z]", nx) and n2 == "(":
            e = match(ws, i + 2, "(", ")")
            if e + 1 < len(ws) and ws[e + 1] == "{":
                e = match(ws, e + 1, "{", "}")
            out.append((i - 1 if i and ws[i - 1] in ("virtual", "static") else i, e, i + 1))
        elif w in ("struct", "class") and n2 in ("{", ":"):
            out.append((i, match(ws, ws.index("{", i), "{", "}"), i + 1))
        elif w == "int" and re.match(r"[a-z]", nx) and n2 in (")", ",", ";", "=") and not (i and ws[i - 1] == "("and n2 == ")" and ws[i - 2] == "catch"):
            e = i + 1
            while ws[e + 1] not in (",", ")", ";"):
                e += 1
            out.append((i - 1 if i and ws[i - 1] in ("virtual", "static") else i, e, i + 1))
        elif objc and w == "-" and nx == "(" and n2 in ("void", "char"):
            b = ws.index("{", i)
            out.append((i, match(ws, b, "{", "}"), b))
        elif w == "@interface":
            e = next(k for k in range(i, len(ws)) if ws[k] in ("@end", "end"))
            out.append((i, e, i))
    return out


class Annotated(PSpace):
    """variant: (declaration, annotations, suppressed?, earlier): the declaration, or (earlier) a prototype before it, carries the annotations"""
    kind = "annotations"

    def make(self, it):
        d, names, sup, earlier = it
        p = self.p
        pieces, owner = [], []
        if earlier:
            a, b, at = d
            e = match(p.words, p.words.index("(", a), "(", ")")
            pieces.append("".join(p.seps[k] + (annot(*names) + " " if k == at else "") + p.words[k] for k in range(a, e + 1)) + ";\n")
        for k, (w, s) in enumerate(p.toks):
            pieces.append(s)
            if k == d[2] and not earlier:
                pieces += [annot(*names), " "]
            pieces.append(w)
            owner.append(len(pieces) - 1)
        P = list(place(pieces))
        return "".join(pieces), self.result([("", *P[o]) for o in owner],
                                            [k for k, (a, b) in enumerate(p.marks) if sup and d[0] <= a and b <= d[1]])


INCLASS = {"UnusedMethodParameter", "BaseClassDestructorShouldBeVirtualOrProtected", "DestructorOfVirtualClass"}
#         (text before, text after); @0 and @1 the attributes of the outer and inner container
WRAPS = [("struct @0 W{N} { ", " };"), ("struct @0 W{N} { struct @1 V { ", " }; };"), ("void @0 w{N}() { struct @1 V { ", " }; }"), ("namespace n{N} @0 { ", " }"), ("namespace n{N} @0 { class @1 V { ", " }; }"),
         ("template <class T> struct @0 W{N} { ", " };"), ("void @0 w{N}() { [] { struct @1 V { ", " }; }(); }"), ("extern \"C\" { namespace @0 { ", " } }"), ("struct W{N} { void @0 w() { struct @1 V { ", " }; } };"),
         ("struct @0 W{N} { int @1 q; ", " };"), ("struct @0 Z{N} { int z; }; struct W{N} { ", " };"), ("void @0 z{N}(int) { } namespace n{N} { ", " } void @0 y{N}(int) { }")]


FNSIZE = {"CyclomaticComplexity", "NPathComplexity", "NcssMethodCount", "LongMethod", "NestedBlockDepth"}


class Wrapped(PSpace):
    """variant: (wrapper, annotations of the outer and of the inner container, suppressed?)"""
    kind = "annotated containers"

    def make(self, it):
        w, o, i, sup = it
        a, b = WRAPS[w]
        head = a.replace("@0", annot(*o)).replace("@1", annot(*i))
        pieces = [head] + [x for s, t in zip(self.p.seps, self.p.words) for x in (s, t)] + [b.replace("@0", annot(*o))]
        P = list(place(pieces))
        return "".join(pieces), self.result([("", *x) for x in P[2:-1:2]], range(len(self.p.marks)) if sup else ())


def annotated(t):
    def var(p):
        for d in decls(p):
            # (a declaration inside the parentheses of a header, a duplicate definition: not annotated)
            for names, sup in annotations(p):
                yield (d, names, sup, False)
                if d[0] == 0 and p.words[d[1]] == "}" and p.words[2] == "(" and "VariableName" not in p.lib:
                    yield (d, names, sup, True)
    return var


def wrapped(t):
    def var(p):
        if p.ext != "cpp" or p.lib in INCLASS or "namespace" in p.src:
            return
        A = list(annotations(p))
        none = ((), False)
        for w in range(len(WRAPS)):
            real = w < 10
            if "template" in WRAPS[w][0] and p.lib in ("UnusedLocalVariable", "RedundantLocalVariable", "RedundantConditionalOperator", "UselessParentheses"):
                continue
            if p.lib in ("AvoidPrivateStaticMembers",) and "void" in WRAPS[w][0]:
                continue        # local classes have no static data members
            if p.lib in FNSIZE and w in (2, 6, 8) or p.lib == "LongClass" and re.search("struct|class", WRAPS[w][0]):
                continue        # (the container would itself exceed the limit)
            for o, s in A + [none]:
                if "@1" in WRAPS[w][0]:
                    for i, s2 in (A + [none] if t else [A[0], A[1], A[3], A[6], none]):
                        yield (w, o, i, real and (s or s2 and not " int @1" in WRAPS[w][0]))
                else:
                    yield (w, o, (), real and s)
    return var


# comments: (text, the lines relative to the token before it that hold a marker, does the next token follow on the comment's last line)
FORMS = [(" //!OCLINT\n", (0,)), (" /** //!OCLINT */\n", (0,)), (" /*! //!OCLINT */\n", (0,)), (" /// //!OCLINT\n", (0,)), ("//!OCLINT because\n", (0,)), (" //!< //!OCLINT\n", (0,)), (" /**< x //!OCLINT x */\n", (0,)),
         (" /**\n//!OCLINT\n*/\n", (1,)), (" /**\n//!OCLINT */ ", (1,)), (" /** //!OCLINT\n */ ", (0,)), ("\n/** //!OCLINT\n x\n//!OCLINT */ ", (1, 3)), ("\n/** //!OCLINT */ ", (1,)), (" //!OCLINT\n//!OCLINT\n", (0, 1)),
         (" //! x\n//! y\n//!OCLINT\n", (2,)), (" //!OCLINT\n//! y\n//! z\n", (0,)), (" /** a\n b\n c //!OCLINT\n d */ ", (2,)), ("\n//!OCLINT\n", (1,)), ("\n\n//! a\n\n\n//!OCLINT\n", (5,)),
         (" // OCLINT\n", ()), (" /* OCLINT */\n", ()), (" /** OCLINT */\n", ()), (" //!\n//OCLINT\n", ()), (" //!NOLINT\n", ()), (" /*!OCLINT*/\n", ()), (" //! \n", ()), ("\n#define OCLINT{N}_@\n", ()), ("\n" * 3000, ()), (" //!OCLINT" + "\n" * 300, (0,)), (" /** " + "\n" * 300 + "//!OCLINT\n*/\n", (300,)), (" //!OCLINT" + "x" * 5000 + "\n", (0,))]


class Commented(PSpace):
    """variant: tuple of (token, form): every token on a line of its own, comments after the given tokens (-1: before the first)"""
    kind = "comments"

    def make(self, it):
        flat, it = it
        p = self.p
        after = dict(it)
        pieces, owner, marked = [], [], []
        if -1 in after:
            pieces.append(FORMS[after[-1]][0].replace("@", "9"))
        for k, (w, s) in enumerate(p.toks):
            if flat and k and "\n" not in (pieces[-1] if pieces else ""):
                pieces.append(s or " ")
            elif "\n" in s:
                pieces.append(s)        # (the number of lines counts)
            pieces.append(w)
            owner.append(len(pieces) - 1)
            f = after.get(k)
            pieces.append(FORMS[f][0].replace("@", str(k)) if f is not None else "" if flat else "\n")
        P = list(place(pieces))
        lines = set()
        if -1 in after:
            lines |= {x for x in FORMS[after[-1]][1]}
        for k, f in it:
            if k >= 0:
                lines |= {P[owner[k]][0] + x for x in FORMS[f][1]}
        pos = [("", *P[o]) for o in owner]
        return "".join(pieces), self.result(pos, [k for k, (a, b) in enumerate(p.marks) if pos[a][1] in lines])


def commented(t):
    def var(p):
        n = len(p.toks)
        for k in range(-1, n):
            for f in range(len(FORMS)):
                yield (False, ((k, f),))
        for k in range(-1, n):
            for f in range(len(FORMS)):
                if "\n" not in p.src:
                    yield (True, ((k, f),))
        for k in range(n):
            for f in (0, 8, 10, 18):
                yield (False, ((-1, 26), (k, f)))
        for k, l in itertools.combinations(range(-1, n), 2):
            for f, g in ((0, 0), (0, 18), (20, 0), (9, 8)) if not t else itertools.product((0, 1, 8, 9, 10, 12, 18, 20), repeat=2):
                yield (False, ((k, f), (l, g)))
        for k, l in itertools.combinations(range(0, n), 2):
            yield (False, tuple((x, 0) for x in range(k, l + 1)))
            if t:
                yield (False, tuple((x, 20) for x in range(k, l + 1)))
        if t:
            for m in range(-1, n):
                yield (False, tuple((x, 0) for x in range(-1, n) if x != m))
    return var


PAD = "o" * 30
SUP, ONE, NOT = annot("oclint:suppress"), annot("oclint:suppress[long line]"), annot("oclint:suppress[long method]")
# kinds of lines: (text, the lines that are suppressed); @ is a fresh number
LINES = [("int s@;", ()), (f"int {PAD}@;", ()), (f"int {PAD}@; //!OCLINT", (0,)), (f"/** //!OCLINT */ int {PAD}@;", (0,)), (f"// {PAD} {PAD}", ()), (f"//!OCLINT {PAD}", (0,)), (f"/** {PAD}\n//!OCLINT {PAD}\n{PAD} */", (1,)),
         (f"{SUP} int s@;", (0,)), (f"{ONE} int s@;", (0,)), (f"{NOT} int s@;", ()),
         (f"struct {SUP} T@ {{\n int {PAD};\n}};", (0, 1, 2)), (f"struct {ONE} T@ {{\n int {PAD};\n}}; /* {PAD} */", (0, 1, 2)), (f"struct {NOT} T@ {{\n int {PAD};\n}};", ()),
         (f"struct T@ {{\n {ONE} int {PAD};\n int q{PAD};\n}};", (1,)), (f"{ONE} void f@(void);\n/* {PAD} */\nvoid f@(void) {{\n /* {PAD} */\n}}", (0, 2, 3, 4)),
         (f"void f@(void) {{\n {ONE} int s;\n /* {PAD} */\n}}", (1,)), (f"{SUP}\nint\ns@\n= 1 /* {PAD} */\n; /* {PAD} */", (0, 1, 2, 3)),
         (f"#define M@ {ONE} \nM@ int s@; /* {PAD} */", (1,)), (f"#define M@ {PAD}", ()), (f"void f@(int s,\n {SUP} int /* {PAD} */ x,\n int y /* {PAD} */);", (1,))]


class LineMarks(common.Space):
    """long lines: items are sequences of kinds of lines"""
    name = "long lines"
    rules, opts, batch = ("LongLine",), ("-rc=LONG_LINE=30",), 400

    def __init__(self, ext, n):
        self.ext, self.n = ext, n
        self.name = f"long lines {ext}"

    def items(self):
        for n in range(1, self.n + 1):
            yield from itertools.product(range(len(LINES)), repeat=n)

    def render(self, it):
        return "\n".join(LINES[k][0].replace("@", "{N}%d" % i) for i, k in enumerate(it))

    def expect(self, it):
        out, line = [], 0
        for i, k in enumerate(it):
            for j, x in enumerate(LINES[k][0].replace("@", "00000").split("\n")):
                if len(x) > 30 and j not in LINES[k][1]:
                    out.append((line, 1, line, "long line", len(x)))
                line += 1
        return out

    def steps(self, it):
        return len(it)

    def proj(self, v, line0):
        return (v[4] - line0, v[5], v[6] - line0, v[0], v[7])


class Subsets(common.Space):
    """several rules on one line; every declaration suppresses its own subset of them"""
    name = "subsets of rules"
    rules = ("UnusedLocalVariable", "ShortVariableName", "DoubleNegative")
    NAMES = ("unused local variable", "short variable name", "double negative", None)
    batch = 600

    def __init__(self, ext):
        self.ext = ext
        self.clang = catalog.CLANG[ext]
        self.name = "subsets of rules " + ext

    def items(self):
        sets = [tuple(x) for n in range(5) for x in itertools.combinations(range(4), n)]
        for q in itertools.product(sets, repeat=3):
            for c in (False, True) if len(q[0]) + len(q[1]) < 3 else (False,):
                yield (*q, c)

    def attr(self, s):
        return annot(*(f"oclint:suppress[{self.NAMES[x]}]" if x < 3 else "oclint:suppress" for x in s))

    def render(self, it):
        f, a, i, c = it
        return f"void {self.attr(f)} f{{N}}(int {self.attr(a)} a) {{\n int {self.attr(i)} i = !!a;{' //!OCLINT' if c else ''}\n}}"

    def expect(self, it):
        f, a, i, c = it
        hid = lambda r, *ds: any(3 in d or r in d for d in ds)
        out = []
        if not hid(1, f, a):
            out.append((0, self.NAMES[1]))
        if not c:
            out += [(1, self.NAMES[r]) for r in range(3) if not hid(r, f, i)]
        return out

    def proj(self, v, line0):
        return (v[4] - line0, v[0])


def _marked(p, how):
    """one file of the program with its suppression; returns (text, header text or None, suppressed marks)"""
    body = p.src.replace("⟦", "").replace("⟧", "").replace("{N}", "1")
    if how == "comment":
        lines = {body[:p_].count("\n") for p_ in starts(p)}
        return "\n\n" + "\n".join(l + (" //!OCLINT" if k in lines else "") for k, l in enumerate(body.split("\n"))), None, True
    if how == "header":
        return '#include "h.h"\n\n' + body, "//!OCLINT\n" * 9, False
    return "\n\n" + body, None, False


def starts(p):
    out, n = [], 0
    for c in p.src:
        if c == "⟦":
            out.append(n)
        elif c != "⟧":
            n += 1
    return out


def file_marks(job):
    """one run over several files of one program, each with its own suppression"""
    k, hows = job
    p = PROGS[k]
    inst = common.winst((p.lib,), lambda t: R.Inst(t, rules=(p.lib,)))
    files, exp = {}, []
    for i, h in enumerate(hows):
        text, head, sup = _marked(p, h)
        d = f"d{i}/t.{p.ext}"
        files[d] = catalog.PROLOGUE[p.ext] + "\n" + text
        if head:
            files[f"d{i}/h.h"] = head
        exp.append([] if sup else [p.rule] * len(p.marks))
    rep = inst.lint(files, p.opts, catalog.CLANG[p.ext], order=[f for f in files if f.endswith("t." + p.ext)])
    if rep["e"]:
        raise R.RunError(f"generated program does not compile: {rep['e'][:2]} {files}")
    obs = [[] for _ in hows]
    stray = []
    for v in rep["v"]:
        m = re.match(r"d(\d)/t", v[3])
        if not m:
            stray.append(v)
        elif v[4] > 1:
            obs[int(m[1])].append(v[0])
    return {"ok": obs == exp and not stray, "files": files, "expected": exp, "observed": obs + stray, "hows": hows, "rule": p.rule, "opts": p.opts}


def file_jobs(t):
    for k, p in enumerate(PROGS):
        hows = ["plain", "comment", "header"]
        n = 3 if t else 2
        for q in itertools.product(hows, repeat=n):
            yield k, q


def extra12(chk, tree):
    for r in common.pmap(chk, tree, file_marks, file_jobs(chk.thorough)):
        chk.states += 1
        chk.traces += 1
        chk.transitions += len(r["hows"])
        if not r["ok"]:
            chk.violation(f"{r['rule']}: files suppressed by {r['hows']} give {r['observed']}, expected {r['expected']}", {**r, "item": r["hows"], "program": json.dumps(r["files"])})
    chk.section("files", histories="all sequences of files of one program with their own suppressions")


def c12(t):
    sp = []
    for p in PROGS:
        sp += [Commented(p, commented(t)), Annotated(p, annotated(t)), Wrapped(p, wrapped(t))]
    return sp + [LineMarks(e, 4 if t and e == "cpp" else 3) for e in ("c", "cpp")] + [Subsets(e) for e in catalog.ALL]


# ------------------------------------------------------------------ C13
ALLOPTS = tuple(sorted({o for p in PROGS for o in p.opts}))
DUP = ("-allow-duplicated-violations",)
ALLCLANG = ("-fobjc-exceptions", "-fexceptions", "-fcxx-exceptions")
LIBS = sorted({p.lib for p in PROGS})


def source(k):
    p = PROGS[k]
    return catalog.PROLOGUE[p.ext] + "\n" + p.src.replace("⟦", "").replace("⟧", "").replace("{N}", f"{k:04}") + "\n"


def run_files(job):
    """(files by number and copy, rules or None for all, further options): {(number, copy): sorted reports}"""
    seq, libs, opts = job
    inst = common.winst(libs, lambda t: R.Inst(t, rules=libs))
    names = [f"c{c}/f{k:04}.{PROGS[k].ext}" for k, c in seq]
    rep = inst.lint({n: source(k) for n, (k, c) in zip(names, seq)}, (*ALLOPTS, *opts), ALLCLANG, order=names, timeout=300)
    if rep["e"]:
        raise R.RunError(f"generated program does not compile: {rep['e'][:2]}")
    out = {n: [] for n in names}
    for v in rep["v"]:
        out[v[3]].append([v[0], *v[4:]])
    return job, [sorted(out[n]) for n in names]


def chains(n, ks):
    """closed walks over 0..n-1 so that every file stands right after every other one (for all distances ks)"""
    for k in ks:
        seen = set()
        for s in range(n):
            if s in seen:
                continue
            c, x = [], s
            while x not in seen:
                seen.add(x)
                c.append(x)
                x = (x + k) % n
            yield c + [s]


def c13(chk, tree):
    n = len(PROGS)
    t = chk.thorough
    base, base_dup = {}, {}
    for (seq, _, opts), out in common.pmap(chk, tree, run_files, [(((k, 0),), None, o) for k in range(n) for o in ((), DUP)]):
        chk.states += 1
        chk.traces += 1
        (base_dup if opts else base)[seq[0][0]] = out[0]
        chk.outcomes.update([str(out[0])[:120]])
    if chk.nviol:
        return
    for k, p in enumerate(PROGS):
        own = [v for v in base[k] if v[0] == p.rule and v[1] > 1]
        if len(own) < len(p.marks):
            chk.violation(f"{p.lib}: with all rules, {p.src} is reported as {base[k]}", {"item": p.src, "program": source(k), "expected": [p.rule] * len(p.marks), "observed": base[k]})
    if chk.nviol:
        return
    jobs = []
    # one rule over all files; one file with one rule
    for l in LIBS:
        seq = tuple((k, 0) for k in range(n))
        jobs.append((seq, (l,), DUP))
        jobs.append((seq[::-1], (l,), ("-enable-global-analysis",)))
    if t:
        jobs += [(((k, 0),), (l,), ()) for k in range(n) for l in LIBS]
    # all rules, every file after every other, in both modes
    ks = range(n) if t else range(0, n, 3)
    for c in chains(n, ks):
        used, seq = {}, []
        for k in c:
            seq.append((k, used.setdefault(k, 0)))
            used[k] += 1
        jobs.append((tuple(seq), None, DUP if len(jobs) % 2 else ()))
        if t or len(c) < 80 or len(jobs) % 8 == 0:
            jobs.append((tuple(seq), None, ("-enable-global-analysis",)))
    # sets of two rules
    libs2 = list(itertools.combinations(LIBS, 2))
    allseq = tuple((k, 0) for k in range(n))
    for i, q in enumerate(libs2):
        if t or i % 29 == 0:
            jobs.append((allseq, q, ()))
    pairs = 0
    for (seq, libs, opts), out in common.pmap(chk, tree, run_files, jobs):
        chk.traces += 1
        chk.states += len(seq)
        chk.transitions += len(seq)
        for (k, c), o in zip(seq, out):
            alone = (base_dup if DUP[0] in opts else base)[k]
            want = alone if libs is None else [v for v in alone if any(v[0] in RULES[l] for l in libs)]
            if o != want:
                chk.violation(f"{PROGS[k].src} ({PROGS[k].ext}) linted with {libs or 'all rules'} {opts} in a run over {len(seq)} files: {[x for x in o if x not in want]} more, {[x for x in want if x not in o]} less than alone with all rules",
                              {"item": [PROGS[i].src for i, _ in seq][:20], "program": source(k), "expected": want, "observed": o, "files": [i for i, _ in seq], "rules": libs, "options": opts})
    chk.section("runs", files=n, rules=len(LIBS), runs=len(jobs))
    if not chk.nviol:
        # files so alike that what a rule remembers of one by its address would be taken for a part of the next
        import decls, metrics, objc, stmts
        spaces = []
        for m in (stmts, decls, objc):
            for pid in sorted(m.PARTS):
                ss = m.PARTS[pid](False)
                spaces += common.spread([sp for sp in (ss[1] if isinstance(ss, tuple) else ss) if sp.pairs], 30 if t else 6)
        for pid in sorted(metrics.METRICS):
            spaces += common.spread([sp for sp in metrics.spaces(pid, False) if sp.pairs], 12 if t else 4)
        common.files_in_a_row(chk, tree, spaces, 32 if t else 14, 6000 if t else 1500)
    chk.bounds = {"files": n, "rules": len(LIBS), "distances": len(ks), "modes": "per file and global analysis"}


RULES = {}
for _p in PROGS:
    RULES.setdefault(_p.lib, set()).add(_p.rule)


EXTRA = {"C12": extra12}
PARTS = {"C12": c12, "C14": c14, "C15": c15}


def check(pid):
    chk = common.Check(pid, explanation=EXPL, assumptions=["clang parses the generated programs as intended"])
    if pid == "C13":
        c13(chk, B.build(True, "all", (), [B.MCRAW]))
        return chk.finish()
    spaces = PARTS[pid](chk.thorough)
    tree = B.build(True, "all", (), [B.MCRAW])
    chk.bounds = {"rules": len({p.lib for p in PROGS}), "programs": len(PROGS), "spaces": "see parts"}
    common.explore_spaces(chk, tree, spaces)
    if chk.pid in EXTRA and not chk.nviol:
        EXTRA[chk.pid](chk, tree)
    return chk.finish()
