"""C38 scaffolding: every sequence of scaffold commands on a scratch copy of the tree."""
import collections, itertools, os, re, shutil, subprocess, sys, tempfile
import build as B, common, run as R

EXPL = ("Every combination of the arguments of scaffoldRule and scaffoldReporter, and every sequence of commands up to the bound, is run on a scratch copy of the tree; the files that exist afterwards, their contents and "
        "what CMake would build (the lists are interpreted by cmake itself with the commands recorded) are compared with a model of the tree. The generated sources are compiled and loaded, and say what they are. "
        "states = trees reached, transitions = commands, traces = runs of the scripts and programs.")

DRIVER = r"""
function(ADD_SUBDIRECTORY d)
    set(CMAKE_CURRENT_SOURCE_DIR "${CMAKE_CURRENT_SOURCE_DIR}/${d}")
    include("${CMAKE_CURRENT_SOURCE_DIR}/CMakeLists.txt")
endfunction()
macro(ADD_LIBRARY)
    message("LIB ${CMAKE_CURRENT_SOURCE_DIR} ${ARGV}")
endmacro()
macro(ADD_EXECUTABLE)
    message("EXE ${CMAKE_CURRENT_SOURCE_DIR} ${ARGV}")
endmacro()
macro(SET_TARGET_PROPERTIES)
endmacro()
macro(TARGET_LINK_LIBRARIES)
endmacro()
macro(ADD_TEST)
endmacro()
set(CMAKE_SYSTEM_NAME Linux)
foreach(d oclint-rules/rules oclint-rules/test oclint-reporters/reporters oclint-reporters/test)
    set(CMAKE_CURRENT_SOURCE_DIR "${ROOT}/${d}")
    include("${ROOT}/${d}/CMakeLists.txt")
endforeach()
"""
TYPES = ("Generic", "SourceCodeReader", "ASTVisitor", "ASTMatcher")


def base_tree(root):
    """a copy of what the scripts touch"""
    for d, ds, fs in os.walk(B.REPO):
        rel = os.path.relpath(d, B.REPO)
        if rel == ".":
            ds[:] = [x for x in ds if x in ("oclint-rules", "oclint-reporters", "oclint-scripts")]
        for f in fs:
            p = os.path.join(rel, f)
            if "__pycache__" in p:
                continue
            if f == "CMakeLists.txt" or "/template" in rel or rel.startswith("oclint-scripts") or rel in ("oclint-rules/rules/basic", "oclint-rules/test/basic", "oclint-reporters/reporters") or p.endswith("test/TextReporterTest.cpp"):
                os.makedirs(os.path.join(root, rel), exist_ok=True)
                shutil.copy2(os.path.join(d, f), os.path.join(root, p))


def snapshot(root):
    out = {}
    for d, ds, fs in os.walk(root):
        ds[:] = [x for x in ds if x != "__pycache__"]
        for f in fs:
            out[os.path.relpath(os.path.join(d, f), root)] = open(os.path.join(d, f), "rb").read()
        if not fs and not ds:
            out[os.path.relpath(d, root) + "/"] = b""
    return out


def targets(root):
    """what cmake would build: (kind, directory, target, sources)"""
    p = subprocess.run(["cmake", "-DROOT=" + root, "-P", os.path.join(os.path.dirname(root), "driver.cmake")], capture_output=True, text=True, timeout=60)
    if p.returncode:
        return "cmake fails: " + p.stderr[-400:]
    out = collections.Counter()
    for l in p.stderr.splitlines():
        k, d, a = l.split(" ", 2)
        out[k, os.path.relpath(d, root), *[x for x in a.split(";") if x != "SHARED"]] += 1
    return out


# a command: ("rule", class, type, category, name, priority, tests) or ("reporter", class, name, tests); None = not given
def argv(c):
    if c[0] == "rule":
        _, cls, ty, cat, name, prio, tests = c
        return ["scaffoldRule", cls, *(["-t", ty] if ty else []), *(["-c", cat] if cat else []), *(["-n", name] if name else []), *(["-p", str(prio)] if prio else []), *([tests] if tests else [])]
    _, cls, name, tests = c
    return ["scaffoldReporter", cls, *(["-n", name] if name else []), *([tests] if tests else [])]


def words(cls):
    return " ".join(w.lower() for w in re.findall("[A-Z][^A-Z]*", cls))


def has_test(c):
    return c[-1] not in ("--no-test", "--no-tests")


def where(c):
    """source, test, build targets"""
    if c[0] == "rule":
        cat, n = c[3] or "custom", c[1] + "Rule"
        return f"oclint-rules/rules/{cat}/{n}.cpp", f"oclint-rules/test/{cat}/{n}Test.cpp", ("LIB", f"oclint-rules/rules/{cat}", n, n + ".cpp"), ("EXE", f"oclint-rules/test/{cat}", n + "Test", n + "Test.cpp")
    n = c[1] + "Reporter"
    return f"oclint-reporters/reporters/{n}.cpp", f"oclint-reporters/test/{n}Test.cpp", ("LIB", "oclint-reporters/reporters", n, n + ".cpp"), ("EXE", "oclint-reporters/test", n + "Test", n + "Test.cpp")


def _sequence(job):
    """-> (problems, contents written per command, number of commands)"""
    cmds, want = job
    top = tempfile.mkdtemp(prefix="sc", dir=R._scratch)
    try:
        root = top + "/tree"
        base_tree(root)
        open(top + "/driver.cmake", "w").write(DRIVER)
        before, built = snapshot(root), targets(root)
        if isinstance(built, str):
            return [built], [], 0
        bad, wrote = [], []
        for n, c in enumerate(cmds):
            p = subprocess.run([sys.executable, "-B", root + "/oclint-scripts/" + argv(c)[0], *argv(c)[1:]], cwd=top, capture_output=True, text=True, timeout=60, env={"PATH": "/usr/bin:/bin", "HOME": top, "LANG": "C.UTF-8"})
            after = snapshot(root)
            now = targets(root)
            src, test, lib, exe = where(c)
            ctx = f"{' '.join(argv(x)[0] + ' ' + ' '.join(argv(x)[1:]) for x in cmds[:n + 1])}: "
            wrote.append(None)
            if src in before or has_test(c) and test in before:
                if after != before:
                    bad.append(ctx + "refused, but changed " + str(sorted(k for k in set(after) | set(before) if after.get(k) != before.get(k))))
                if "rror" not in p.stdout + p.stderr:
                    bad.append(ctx + "nothing says that it exists already: " + p.stdout + p.stderr)
                if "Traceback" in p.stderr:
                    bad.append(ctx + p.stderr[-300:])
                continue
            if p.returncode or p.stderr:
                bad.append(ctx + f"ends with {p.returncode}: {p.stderr[-300:]}")
            new = {src, test} if has_test(c) else {src}
            for k in set(after) | set(before):
                if k in new:
                    if k not in after:
                        bad.append(ctx + "does not create " + k)
                    elif want is not None and after[k] != want[n].get(k):
                        bad.append(ctx + f"{k} differs from what the command alone creates")
                elif os.path.basename(k) == "CMakeLists.txt":
                    if not after.get(k, b"").startswith(before.get(k, b"")):
                        bad.append(ctx + f"rewrites {k}")
                elif k.endswith("/"):
                    pass
                elif after.get(k) != before.get(k):
                    bad.append(ctx + f"changes {k}")
            exp = (built if isinstance(built, collections.Counter) else collections.Counter()) + collections.Counter([lib] + ([exe] if has_test(c) else []))
            if now != exp:
                bad.append(ctx + f"the build gains {dict(now - built) if not isinstance(now, str) else now}, expected {lib}" + (f" and {exe}" if has_test(c) else "") + (f"; loses {dict(built - now)}" if not isinstance(now, str) and built - now else ""))
            wrote[-1] = {k: after.get(k) for k in new}
            before, built = after, now
            if bad:
                break
        return bad, wrote, len(cmds)
    finally:
        shutil.rmtree(top, ignore_errors=True)


def singles():
    for cls, ty, cat, name, prio, tests in itertools.product(("Fresh", "URLCheck", "Version2Check", "GotoStatement"), (None, *TYPES), (None, "basic", "size", "brandnew"), (None, "any name"), (None, 1, 2, 3), (None, "--no-test")):
        yield ("rule", cls, ty, cat, name, prio, tests)
    for cls, name, tests in itertools.product(("Fresh", "TwoWords", "Text", "CSV"), (None, "any name", "x-y"), (None, "--tests", "--no-tests")):
        yield ("reporter", cls, name, tests)


def alphabet():
    out = []
    for cls, cat, tests in itertools.product(("Fresh", "FreshRule", "GotoStatement"), (None, "basic", "brandnew"), (None, "--no-test")):
        out.append(("rule", cls, TYPES[len(out) % 4], cat, None, None, tests))
    out.append(("rule", "Fresh", "ASTVisitor", "size", "other name", 1, None))
    for cls, tests in itertools.product(("Fresh", "Text"), (None, "--no-tests")):
        out.append(("reporter", cls, None, tests))
    return out


def same_target(q):
    """one class in two categories would be two targets of one name"""
    at = {}
    for c in q:
        if c[0] == "rule" and at.setdefault(c[1], c[3]) != c[3]:
            return True
    return False


CXX_TYPES = [("rule", "FreshThing", t, cat, name, prio, None) for t in TYPES for cat, name, prio in ((None, None, None), ("size", "any name", 1))] + \
    [("rule", "Prio2", "Generic", "brandnew", None, 2, None), ("reporter", "Fresh", None, None), ("reporter", "TwoWords", "any-name", None)]


def _compiled(job):
    """compiles and loads what a command generates"""
    c, info, = job
    top = tempfile.mkdtemp(prefix="sc", dir=R._scratch)
    try:
        root = top + "/tree"
        base_tree(root)
        subprocess.run([sys.executable, "-B", root + "/oclint-scripts/" + argv(c)[0], *argv(c)[1:]], cwd=top, capture_output=True, timeout=60, env={"PATH": "/usr/bin:/bin", "HOME": top}, check=True)
        src, test, _, _ = where(c)
        rule = c[0] == "rule"
        incs = B.inc_rules() if rule else B.inc_core()
        bad = []
        so = f"{top}/{os.path.basename(src)[:-4]}.so"
        lib = f"{top}/lib{os.path.basename(src)[:-4]}.so"
        for extra, out in (((), lib), (("-DDOCGEN",), None)) if rule else (((), lib),):
            o = f"{top}/o{len(extra)}.o"
            p = subprocess.run([B.CXX, *B.FLAGS, *extra, *(f"-I{i}" for i in incs), *B.inc(), "-c", f"{root}/{src}", "-o", o], capture_output=True, text=True, timeout=600)
            if p.returncode:
                return [f"{' '.join(argv(c))}: the generated source does not compile{' for the documentation' if extra else ''}: {p.stderr[:600]}"]
            if out:
                p = subprocess.run([B.CXX, "-fuse-ld=lld", "-shared", "-fno-rtti", o, *info["archives"], "-o", out], capture_output=True, text=True)
                if p.returncode:
                    return [f"{' '.join(argv(c))}: does not link: {p.stderr[:400]}"]
        inst = common.winst("c38", lambda t: R.Inst(t, rules=("GotoStatement",), reporters=("MCRawReporter",)))
        d = inst.workdir()
        open(d + "/a.c", "w").write("int f(void) { goto x; x: return 1; }\n")
        if rule:
            name, prio, cat = c[4] or words(c[1]), c[5] or 3, c[3] or "custom"
            p = subprocess.run([info["exe"], lib], capture_output=True, text=True, timeout=60)
            ident = "".join(w[0].upper() + w[1:] for w in re.findall("[A-Za-z]+", name))
            rows = [tuple(l.split("\t")[1:5]) for l in p.stdout.splitlines()]
            if rows != [(name, str(prio), cat, ident)]:
                bad.append(f"{' '.join(argv(c))}: the rule says it is {rows} {p.stderr[-200:]}, expected name {name!r}, priority {prio}, category {cat!r}")
            os.makedirs(d + "/r")
            shutil.copy(lib, d + "/r")
            for extra, listed, vs in (([], [ident], 0), (["-R", inst.rules_dir], ["GotoStatement", ident], 1), (["-R", inst.rules_dir, "-rule=" + ident], [ident], 0)):
                p = inst.exec(["-R", d + "/r", *extra, "-report-type", "mcraw", "-list-enabled-rules", "a.c", "--", "-w"], d, inst.env())
                got = sorted(l[2:] for l in p.stdout.decode().splitlines() if l.startswith("- "))
                nv = p.stdout.decode().count('"goto statement"')
                if got != sorted(listed) or nv != vs or p.returncode:
                    bad.append(f"{' '.join(argv(c))}: with {extra} oclint lists {got} and ends with {p.returncode}: {p.stdout[-500:]} {p.stderr[-200:]}")
        else:
            name = c[2] or words(c[1])
            shutil.copy(lib, inst.reporters_dir)
            try:
                p = inst.exec(["-report-type", name, "a.c", "--", "-w"], d, inst.env())
            finally:
                os.unlink(f"{inst.reporters_dir}/{os.path.basename(lib)}")
            if p.returncode or p.stdout:
                bad.append(f"{' '.join(argv(c))}: -report-type {name!r} ends with {p.returncode}: {p.stdout[-300:]} {p.stderr[-300:]}")
        # the generated test: its first test passes, the second asks to be written
        exe = top + "/test"
        if rule:
            cmd = [B.CXX, *B.FLAGS, "-DGTEST_HAS_RTTI=0", *(f"-I{i}" for i in incs), f"-I{B.REPO}/oclint-rules/test/headers", f"-I{root}/oclint-rules", *B.inc(), f"{root}/{test}", *info["archives"], *info["ruleset"], "-fuse-ld=lld", "-lgtest", "-lgmock", "-lgtest_main", *B.CLANGLIBS, "-ldl", "-lpthread", "-o", exe]
        else:
            cmd = [B.CXX, *B.FLAGS, "-DGTEST_HAS_RTTI=0", *(f"-I{i}" for i in incs), f"-I{root}/oclint-reporters/reporters", *B.inc(), f"{root}/{test}", *info["archives"], "-fuse-ld=lld", "-lgtest", "-lgmock", *B.CLANGLIBS, "-ldl", "-lpthread", "-o", exe]
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=600)
        if p.returncode:
            return bad + [f"{' '.join(argv(c))}: the generated test does not compile: {p.stderr[:600]}"]
        p = subprocess.run([exe], capture_output=True, text=True, timeout=60, cwd=top)
        got = re.findall(r"^\[\s*(OK|FAILED)\s*\] (\w+)\.(\w+) \(", p.stdout, re.M)
        n = os.path.basename(test)[:-4]
        if got != [("OK", n, "PropertyTest"), ("FAILED", n, "FirstFailingTest")]:
            bad.append(f"{' '.join(argv(c))}: the generated test gives {got} {p.stdout[-300:]}")
        return bad
    finally:
        shutil.rmtree(top, ignore_errors=True)


def _tagged(a):
    return a[1], a[0](a[1])


def check(pid):
    chk = common.Check("C38", explanation=EXPL)
    tree = B.build(True, ["GotoStatement"], [], [B.MCRAW, dict(name="RuleInfo", src="RuleInfo.cpp", kind="exe", inc="core", with_=("core", "ruleset"))])
    S = B.sources()
    obj = lambda g, incs, pch: [B.compile_obj(s, incs, (), pch) for s in S[g]]
    with B.Lock():
        B.pch()
        arch = {g: B.archive(g, obj(g, incs, p)) for g, incs, p in (("core", B.inc_core(), False), ("metrics", B.inc_rules(), True), ("ruleslib", B.inc_rules(), True))}
        ruleset = obj("ruleset", B.inc_core(), False)
    info = dict(exe=tree.extra["RuleInfo"], archives=[arch["ruleslib"], arch["metrics"], arch["ruleslib"], arch["core"]], ruleset=ruleset)
    sing = list(singles())
    alone = {}
    for (cmds, _), (bad, wrote, n) in common.pmap(chk, tree, _tagged, [(_sequence, ((c,), None)) for c in sing + alphabet()]):
        chk.states += 1
        chk.transitions += n
        chk.traces += 1
        chk.outcomes["refused" if wrote[:1] == [None] else "created"] += 1
        alone[cmds[0]] = wrote[0] if wrote else None
        for b in bad:
            chk.violation(b, {"commands": [argv(c) for c in cmds], "what": b})
        if chk.traces % 97 == 1:
            chk.sample({"commands": [argv(c) for c in cmds], "created": sorted(wrote[0] or ()) if wrote else None})
    chk.section("single commands", commands=len(sing))
    if not chk.nviol:
        A = alphabet()
        depth = 3 if chk.thorough else 2
        seqs = [q for n in range(2, depth + 1) for q in itertools.product(A, repeat=n) if not same_target(q)]
        for (cmds, _), (bad, wrote, n) in common.pmap(chk, tree, _tagged, [(_sequence, (q, [alone[c] or {} for c in q])) for q in seqs]):
            chk.states += n
            chk.transitions += n
            chk.traces += n
            for b in bad:
                chk.violation(b, {"commands": [argv(c) for c in cmds], "what": b})
        chk.section("sequences", sequences=len(seqs), depth=depth)
        for (c, _), bad in common.pmap(chk, tree, _tagged, [(_compiled, (c, info)) for c in CXX_TYPES]):
            chk.states += 1
            chk.transitions += 1
            chk.traces += 3
            for b in bad:
                chk.violation(b, {"commands": [argv(c)], "what": b})
        chk.section("compiled and loaded", commands=len(CXX_TYPES))
    chk.bounds = {"single commands": len(sing), "sequence length": 3 if chk.thorough else 2}
    return chk.finish()
