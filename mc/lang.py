"""C26: every rule runs on the languages, and the CUDA function kinds, it is for."""
import itertools, json, re, shutil
import build as B, catalog, common, rtree, run as R
from rtree import M, TSpace

EXPL = ("Every catalogue program is linted in every language and language standard in which it is valid, and every CUDA program of the bounded families in host compilation; probe rules "
        "for every set of languages and function kinds are loaded as a plugin into the real executable. Rule, line and column of every report are compared with the language table. "
        "states = distinct program and language pairs, transitions = tokens, traces = runs of the executable.")
PROBE = dict(name="MCProbeRule", src="MCProbeRule.cpp", kind="so", with_=("ruleslib", "metrics", "core"), inc="rules")
C_STD = ["c89", "gnu89", "c99", "gnu99", "c11", "gnu11", "c17", "gnu17", "c2x"]
X_STD = ["c++98", "gnu++98", "c++11", "gnu++11", "c++14", "c++17", "gnu++17", "c++20", "c++2b"]
STD = {"c": C_STD, "cpp": X_STD, "m": C_STD, "mm": X_STD}
XLANG = {"c": "c", "cpp": "c++", "m": "objective-c", "mm": "objective-c++"}
EXTS = {"c": ["c"], "cpp": ["cpp", "cc", "cxx", "c++", "C", "cp", "CPP"], "m": ["m"], "mm": ["mm", "M"]}
MARK = re.compile("⟦|⟧")
# programs for the languages that a rule is not for, although they are valid there
CXX_ONLY = {"BaseClassDestructorShouldBeVirtualOrProtected", "DestructorOfVirtualClass", "AvoidDefaultArgumentsOnVirtualMethods", "UnnecessaryNullCheckForCXXDealloc"}
NULLS = {"broken null check", "misplaced null check"}


def marked(rule, text):
    return text.replace("⟦", M(rule, "")).replace("⟧", "")


class LSpace(TSpace):
    """one file name extension; programs of one rule"""
    def proj(self, v, line0):
        return super().proj(v, line0)[:3] + ("",)


def languages():
    """(library, options, language, program with marks, [(file, compiler arguments)])"""
    for rule, lib, exts, text, opts in catalog.R:
        for lang in ("c", "cpp", "m", "mm"):
            if lang in exts:
                prog = marked(rule, text)
            elif lang == "mm" and exts == ("cpp",):
                prog = MARK.sub("", text) if lib in CXX_ONLY else marked(rule, text)
            elif lang in ("m", "mm") and rule in NULLS:
                prog = MARK.sub("", text)
            else:
                continue
            flags = tuple(f for f in catalog.CLANG[lang] if not f.startswith("-std"))
            ex = EXTS[lang]
            variants = [(ex[0], flags + (f"-std={s}",)) for s in STD[lang]]
            variants += [(e, flags) for e in ex]
            variants += [(e, flags + ("-x", XLANG[lang])) for e in ("c", "cpp", "m", "mm", "h", "inc")]
            variants += [(e, flags + (f"-std={s}", "-x", XLANG[lang])) for e in ("c", "m") for s in STD[lang][::3]]
            yield lib, opts, lang, prog, [(f"v{i:02}.{e}", a) for i, (e, a) in enumerate(variants)]


def _lang(job):
    lib, opts, lang, prog, variants = job
    inst = common.winst(("lang", lib), lambda tree: R.Inst(tree, rules=(lib,)))
    d = inst.workdir()
    try:
        text, marks = rtree.strip(prog.replace("{N}", "0000"))
        src = catalog.PROLOGUE[lang] + "\n" + text + "\n"
        cmds = []
        for f, a in variants:
            with open(f"{d}/{f}", "w") as h:
                h.write(src)
            cmds.append({"directory": d, "file": f"{d}/{f}", "arguments": ["clang", *a, "-w", "-fsyntax-only", f"{d}/{f}"]})
        json.dump(cmds, open(d + "/compile_commands.json", "w"))
        p = inst.exec(["-report-type", "mcraw", "-max-priority-1=9999", "-max-priority-2=9999", "-max-priority-3=9999", "-p", d, *opts, *(f"{d}/{f}" for f, _ in variants)], d)
        if p.returncode != 0:
            raise R.RunError(f"oclint exit {p.returncode} for {lang} {text!r} {p.stderr[-1500:]!r} {p.stdout[-800:]!r}")
        rep = json.loads(p.stdout)
        bad = []
        exp = sorted((l, c, r, "") for l, c, r, _ in marks)
        for f, a in variants:
            got = sorted((v[4] - 2, v[5], v[0], "") for v in rep["v"] if v[3] == f"{d}/{f}" and v[4] > 1)
            if got != exp:
                bad.append({"program": src, "file": f, "arguments": a, "expected": exp, "observed": got, "language": lang, "library": lib})
        if rep["files"] != len(variants):
            bad.append({"program": src, "expected": len(variants), "observed": rep["files"]})
        return {"n": len(variants), "out": f"{lang}: {exp}", "bad": bad[:3], "sample": {"program": text, "language": lang, "variants": len(variants), "predicted": exp}}
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------------ probe rules
def probe_marks(kind, lang):
    """marks of the rules that report a function of the kind (host, global) in the language"""
    bit = {"c": 1, "cpp": 2, "m": 4, "mm": 4, "cu": 2}[lang]
    m = ""
    for l in range(8):
        if not l & bit:
            continue
        for c in range(1, 4):
            if lang == "cu" and c & (2 if kind == "global" else 1) or lang != "cu" and c & 1:
                m += M(f"v{l}{c}", "")
        if lang != "cu" or kind != "global":
            m += M(f"m{l}1", "")
    return m


def probes(t):
    def gen(lang):
        def g():
            F = probe_marks("host", lang)
            yield F + "void f{N}(void) { }"
            yield "void f{N}(void);"
            yield "void f{N}(void); " + F + "void f{N}(void) { } " + F + "int g{N}(void) { return 1; }"
            yield F + "static int f{N}(int a) { return a; }"
            if lang in ("cpp", "mm"):
                for w in ("namespace n{N} { # }", "namespace { namespace n{N} { # } }", "extern \"C\" { # }", "struct S{N} { # };", "struct S{N} { struct T { # }; };", "template <class T> struct S{N} { # };"):
                    yield w.replace("#", F + "void f{N}() { }")
                    yield w.replace("#", F + "void f{N}() { } " + F + "void g{N}() { }")
                yield "template <class T> " + F + "void f{N}(T) { }"
                yield "template <class T> " + F + "void f{N}(T) { } template void f{N}(int);"
                yield "struct S{N} { void m(); " + F + "S{N}() { } " + F + "~S{N}() { } friend " + "void k{N}(); }; " + F + "void S{N}::m() { }"
            if lang in ("m", "mm"):
                yield "@interface K{N} : J @end @implementation K{N} - (void)m { } " + F + "void f{N}(void) { } @end " + F + "void g{N}(void) { }"
        return g
    return [TSpace(f"probe rules/{l}", l, ["MCProbeRule"], gen(l), prologue=catalog.PROLOGUE[l] if l in ("m", "mm") else "", clang=catalog.CLANG[l]) for l in ("c", "cpp", "m", "mm")]


# ------------------------------------------------------------------ CUDA
CU = ("-nocudainc", "-nocudalib", "--cuda-host-only", "--no-cuda-version-check", "-std=c++17")
PCU = ("#define __global__ __attribute__((global))\n#define __device__ __attribute__((device))\n#define __host__ __attribute__((host))\n"
       "__host__ __device__ int g(int = 1, int = 2); struct P { int x; };")
# (attributes, kind)
KINDS = [("", "host"), ("__global__ ", "global"), ("__device__ ", "host"), ("__host__ __device__ ", "host"), ("static ", "host"), ("static __global__ ", "global"), ("inline __global__ ", "global"), ("__attribute__((global)) ", "global")]
NEST = ["#", "namespace n{N} { # }", "namespace { namespace n{N} { # } }", "extern \"C\" { # }", "inline namespace n{N} { # }", "namespace n{N} { extern \"C++\" { # } }", "namespace n{N} { int x; # int y; }"]
IN_CLASS = ["struct S{N} { # };", "namespace n{N} { struct S{N} { class T { # }; }; }", "template <class T> struct S{N} { # };", "template <class T> struct S{N} { struct U { # }; };"]


def functions(t):
    """(text with $n for the n-th function: marks and body, kinds of the functions)"""
    for n in (1, 2, 3) if t else (1, 2):
        for ks in itertools.product(range(len(KINDS)), repeat=n):
            if n == 3 and not all(k in (0, 1, 2) for k in ks):
                continue
            fs = " ".join(f"${i}{KINDS[k][0]}void f{{N}}_{i}(int a) %{i}" for i, k in enumerate(ks))
            kinds = [KINDS[k][1] for k in ks]
            for w in NEST:
                yield w.replace("#", fs), kinds
            for w in NEST[1:3]:                     # split over two places
                if n == 2:
                    a, b = fs.split(" $1")
                    yield w.replace("#", a) + " $1" + b, kinds
            if n < 3:
                fs = " ".join(f"template <class T> ${i}{KINDS[k][0]}void f{{N}}_{i}(int a) %{i}" for i, k in enumerate(ks))
                yield fs, kinds
                yield "namespace n{N} { " + fs + " }", kinds
    for k, (a, kd) in enumerate(KINDS):
        # declared first
        yield f"{a}void f{{N}}(int a); $0{a}void f{{N}}(int a) %0", [kd]
        yield f"namespace n{{N}} {{ {a}void f{{N}}(int a); }} $0{a}void n{{N}}::f{{N}}(int a) %0" if "static" not in a else f"$0{a}void f{{N}}(int a) %0", [kd]
        for w in IN_CLASS:
            if kd == "host":
                yield w.replace("#", f"$0{a}void f{{N}}(int a) %0"), [kd]
                yield w.replace("#", f"$0{a}void f{{N}}(int a) %0 $1void h{{N}}(int a) %1"), [kd, "host"]
                yield w.replace("#", f"$0{a}void f{{N}}(int a) %0") + " $1__global__ void h{N}(int a) %1", [kd, "global"]
        # in a function: local classes and lambdas belong to it
        if kd == "host":
            yield f"$0{a}void f{{N}}(int a) {{ struct L {{ $1void h(int a) %1 }}; }}", [kd, "host"]


def cuda(t):
    BD, CC = "branch divergence", "high cyclomatic complexity"

    def div(kind, n):
        """statements of n nodes with the marks of the rule"""
        mk = M(BD, "") if kind == "global" else ""
        if n == 1:
            yield "g();"
            return
        for x in div(kind, n - 1):
            yield "if (a) " + x
            yield "while (a) { " + x + " }"
            yield "{ " + x + " }"
            yield "switch (a) { case 1: " + x + " }"
        for i in range(1, n - 1):
            for x in div(kind, i):
                if x.startswith("if") or re.match("\x01[^\x03]*\x03if", x):
                    x = "{ " + x + " }"
                for y in div(kind, n - 1 - i):
                    yield mk + "if (a) " + x + " else " + y
                    if i == 1:
                        yield "{ " + x + " " + y + " }"

    def fill(text, kinds, body, marks):
        for i, k in enumerate(kinds):
            text = text.replace(f"${i}", marks(k), 1).replace(f"%{i}", body(k), 1)
        return text

    def probe():
        for text, kinds in functions(t):
            yield fill(text, kinds, lambda k: "{ }", lambda k: probe_marks(k, "cu"))

    def diverge():
        for n in range(1, 8 if t else 6):
            for kind, a in (("global", "__global__ "), ("host", "")):
                for b in div(kind, n):
                    yield f"{a}void f{{N}}(int a) {{ {b} }}"
        for text, kinds in functions(t):
            yield fill(text, kinds, lambda k: "{ if (a) g(); " + (M(BD, "") if k == "global" else "") + "if (a) { g(); } else { g(); } }", lambda k: "")
            yield fill(text, kinds, lambda k: "{ " + (M(BD, "") if k == "global" else "") + "if (a) g(); else " + (M(BD, "") if k == "global" else "") + "if (a) g(); else g(); }", lambda k: "")

    def cyclo():
        for text, kinds in functions(t):
            yield fill(text, kinds, lambda k: "{ if (a) g(); if (a) g(); }", lambda k: M(CC, ""))
            yield fill(text, kinds, lambda k: "{ if (a) g(); }", lambda k: "")

    def emptyif():
        for text, kinds in functions(t):
            yield fill(text, kinds, lambda k: "{ if (a) " + (M("empty if statement", "") if k == "host" else "") + "{ } }", lambda k: "")

    def nodiv():
        for b in ("if (a) g(); else g();", "if (a) { if (a) g(); else g(); } else g();"):
            yield f"void f{{N}}(int a) {{ {b} }}"
            yield f"__attribute__((annotate(\"global\"))) void f{{N}}(int a) {{ {b} }}"
    out = [TSpace("probe rules/cu", "cu", ["MCProbeRule"], probe, prologue=PCU, clang=CU),
           LSpace("branch divergence/cu", "cu", ["CudaBranchDivergence"], diverge, prologue=PCU, clang=CU),
           LSpace("cyclomatic complexity/cu", "cu", ["CyclomaticComplexity"], cyclo, ["-rc=CYCLOMATIC_COMPLEXITY=2"], prologue=PCU, clang=CU),
           LSpace("empty if/cu", "cu", ["EmptyIfStatement"], emptyif, prologue=PCU, clang=CU)]
    for e in ("c", "cpp", "m", "mm"):
        out.append(LSpace("branch divergence/elsewhere", e, ["CudaBranchDivergence"], nodiv, prologue="int g();" if e in "cm" else "int g(...);", clang=catalog.CLANG[e]))
    # the rules for host code on the catalogue
    for rule, lib, exts, text, opts in catalog.R:
        if "cpp" not in exts:
            continue
        pro = PCU + " " + catalog.PROLOGUE["cpp"].replace("int g();", "").replace("struct P { int x; };", "").replace("void never();", "__host__ __device__ void never();")
        host = marked(rule, text)
        progs = [host, "namespace n{N} { " + host + " }"]
        if "struct" not in text and "class" not in text and "namespace" not in text:
            progs += ["struct S{N} { " + host + " };"] if lib not in ("ParameterReassignment_", "TooManyMethods", "UnusedMethodParameter") and host.rstrip()[-1] == "}" and "{ g(" not in "" else []
            m = re.match("⟦?void f\\{N\\}", text)
            if m and "catch" not in text and text.rstrip("⟧")[-1] == "}":
                k = "__global__ " + MARK.sub("", text) if lib != "CyclomaticComplexity" else M(rule, "") + "__global__ " + MARK.sub("", text)
                progs += [k, "namespace n{N} { " + k + " }", "template <int n> " + k]
        out.append(LSpace("catalogue/cu", "cu", [lib], lambda progs=progs: progs, opts=opts, prologue=pro, clang=CU))
    return out


def c26(t):
    return probes(t) + cuda(t)


PARTS = {"C26": c26}


def check(pid):
    chk = common.Check(pid, explanation=EXPL, assumptions=["clang parses the generated programs as intended", "CUDA: host compilation without the CUDA headers"])
    spaces = PARTS[pid](chk.thorough)
    rules = sorted({r for s in spaces for r in s.rules} - {"MCProbeRule"} | {x[1] for x in catalog.R})
    tree = B.build(True, rules, (), [B.MCRAW, PROBE])
    chk.bounds = {"spaces": "see parts", "standards": STD, "function kinds": [k for k, _ in KINDS]}
    jobs = list(languages())
    for r in common.pmap(chk, tree, _lang, jobs):
        chk.states += r["n"]
        chk.transitions += r["n"]
        chk.traces += 1
        chk.outcomes[r["out"]] += r["n"]
        if chk.traces % 30 == 1:
            chk.sample(r["sample"])
        for b in r["bad"]:
            chk.violation(f"model predicts {b['expected']} but oclint reports {b['observed']} in {b.get('file')} with {b.get('arguments')}", b)
    chk.section("languages and standards", runs=len(jobs), files=sum(len(j[4]) for j in jobs))
    common.explore_spaces(chk, tree, spaces)
    return chk.finish()
