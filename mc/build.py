"""Builds the real oclint (executable, rule plugins, reporter plugins) and the harnesses
from /repo's current working tree into /verif/.build, keyed by content.

LLVM 20 is what the sandbox has; oclint-driver uses three LLVM 21 entry points.  Overlay copies of
two clang headers (generated here from the installed ones) add the three missing *overloads*;
no file of /repo is changed and nothing else of clang is."""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, subprocess, sys, threading

REPO = os.environ.get("OCLV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(VERIF, ".build")
LLVM = "/usr/lib/llvm-20"
CXX = "/usr/bin/clang++-18"
FLAGS = ["-std=c++17", "-fno-rtti", "-fPIC", "-O0", "-w"]
JOBS = os.cpu_count() or 4


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:32]


_fcache = {}


def filehash(path):
    try:
        st = os.stat(path)
    except OSError:
        return "absent"
    key = (path, st.st_mtime_ns, st.st_size, st.st_ino)
    if key not in _fcache:
        with open(path, "rb") as f:
            _fcache[key] = hashlib.sha256(f.read()).hexdigest()
    return _fcache[key]


def run(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        raise BuildError(f"{what} failed:\n{' '.join(cmd)}\n{p.stdout[-4000:]}")
    return p.stdout


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + f".{os.getpid()}"
    with open(tmp, "w") as f:
        f.write(text)
    os.replace(tmp, path)


def overlay():
    d = os.path.join(OUT, "overlay")
    base = LLVM + "/include/clang/Basic/"
    s = open(base + "Diagnostic.h").read()
    a = "  DiagnosticsEngine(const DiagnosticsEngine &) = delete;\n"
    assert s.count(a) == 1
    s = s.replace(a, """  DiagnosticsEngine(IntrusiveRefCntPtr<DiagnosticIDs> Diags, DiagnosticOptions &Opts,
                    DiagnosticConsumer *client = nullptr, bool ShouldOwnClient = true)
      : DiagnosticsEngine(Diags, IntrusiveRefCntPtr<DiagnosticOptions>(new DiagnosticOptions(Opts)),
                          client, ShouldOwnClient) {}
""" + a)
    write_if_changed(d + "/clang/Basic/Diagnostic.h", s)
    s = open(base + "TargetInfo.h").read()
    a = "                   const std::shared_ptr<TargetOptions> &Opts);\n"
    assert s.count(a) == 1
    s = s.replace(a, a + """  static TargetInfo *
  CreateTargetInfo(DiagnosticsEngine &Diags, TargetOptions &Opts) {
    return CreateTargetInfo(Diags, std::make_shared<TargetOptions>(Opts));
  }
""")
    a = "  virtual void adjust(DiagnosticsEngine &Diags, LangOptions &Opts);\n"
    assert s.count(a) == 1
    s = s.replace(a, a + "  void adjust(DiagnosticsEngine &Diags, LangOptions &Opts, TargetInfo *) { adjust(Diags, Opts); }\n")
    write_if_changed(d + "/clang/Basic/TargetInfo.h", s)
    return d


PCH_TEXT = """#include <clang/AST/AST.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/Attr.h>
#include <clang/AST/ParentMapContext.h>
#include <clang/ASTMatchers/ASTMatchFinder.h>
#include <clang/Basic/SourceManager.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Tooling/Tooling.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>
#include <iostream>
#include <regex>
"""

_pch_lock = threading.Lock()
_pch = []


def inc():
    return ["-isystem", os.path.join(OUT, "overlay"), "-isystem", LLVM + "/include"]


def pch():
    with _pch_lock:
        if _pch:
            return _pch[0]
        overlay()
        h = os.path.join(OUT, "pch", "pch.h")
        write_if_changed(h, PCH_TEXT)
        out = os.path.join(OUT, "pch", "pch-" + sha(PCH_TEXT, " ".join(FLAGS)) + ".pch")
        if not os.path.exists(out):
            tmp = out + ".tmp"
            run([CXX, *FLAGS, *inc(), "-Xclang", "-fpch-instantiate-templates", "-Xclang", "-fno-pch-timestamp",
                 "-x", "c++-header", h, "-o", tmp], "pch")
            os.replace(tmp, out)
        _pch.append(out)
        return out


def own(path):
    return path.startswith(REPO + "/") or (path.startswith(VERIF + "/") and not path.startswith(OUT))


def compile_obj(src, includes, extra=(), use_pch=True, cxx=None):
    """Object for src; cached on the contents of src and of every file of /repo and /verif it includes."""
    args = [cxx or CXX, *FLAGS, *extra, *(f"-I{i}" for i in includes)]
    ident = sha(src, " ".join(args), "pch" if use_pch else "")
    depfile = os.path.join(OUT, "dep", ident + ".json")
    os.makedirs(os.path.dirname(depfile), exist_ok=True)
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)

    def key(deps):
        return sha(ident, *(f"{d}:{filehash(d)}" for d in deps))

    known = []
    try:
        known = json.load(open(depfile))
    except (OSError, ValueError):
        pass
    for deps in known:
        obj = os.path.join(OUT, "obj", key(deps) + ".o")
        if os.path.exists(obj):
            return obj
    p = pch() if use_pch else overlay() and None
    tmp = os.path.join(OUT, "obj", f"tmp-{ident}-{os.getpid()}")
    cmd = [*args, *inc(), *(["-include-pch", p] if use_pch else []), "-MD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"]
    run(cmd, "compile " + src)
    text = open(tmp + ".d").read().replace("\\\n", " ")
    deps = sorted({os.path.realpath(d) for d in text.split(":", 1)[1].split() if own(os.path.realpath(d))} | {src})
    obj = os.path.join(OUT, "obj", key(deps) + ".o")
    os.replace(tmp + ".o", obj)
    os.unlink(tmp + ".d")
    if deps not in known:
        t = depfile + f".{os.getpid()}"
        json.dump([deps, *known][:20], open(t, "w"))
        os.replace(t, depfile)
    return obj


def inc_core():
    return [REPO + "/oclint-core/include"]


def inc_rules():
    return [REPO + "/oclint-core/include", REPO + "/oclint-metrics/include", REPO + "/oclint-rules/include", REPO + "/oclint-rules"]


def inc_driver():
    return [REPO + "/oclint-core/include", REPO + "/oclint-driver/include", REPO + "/oclint-driver"]


def G(pat):
    return sorted(glob.glob(REPO + "/" + pat, recursive=True))


RULESET = ("RuleSet.cpp", "RuleConfiguration.cpp")


def sources():
    rules = {os.path.basename(p)[:-8]: p for p in G("oclint-rules/rules/**/*Rule.cpp")}
    return {
        "core": [p for p in G("oclint-core/lib/**/*.cpp") if os.path.basename(p) not in RULESET],
        "ruleset": [p for p in G("oclint-core/lib/**/*.cpp") if os.path.basename(p) in RULESET],
        "driverlib": G("oclint-driver/lib/**/*.cpp"),
        "drivermain": [p for p in G("oclint-driver/*.cpp") if os.path.basename(p) != "main_docgen.cpp"],
        "metrics": G("oclint-metrics/lib/**/*.cpp"),
        "ruleslib": G("oclint-rules/lib/**/*.cpp"),
        "rules": rules,
        "reporters": {os.path.basename(p)[:-4]: p for p in G("oclint-reporters/reporters/**/*Reporter.cpp")},
    }


CLANGLIBS = ["-L" + LLVM + "/lib", "-Wl,-rpath," + LLVM + "/lib", "-l:libclang-cpp.so.20.1", "-l:libLLVM.so.20.1"]


def archive(name, objs):
    out = os.path.join(OUT, "ar", f"{name}-{sha(*objs)}.a")
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + f".{os.getpid()}"
        if os.path.exists(tmp):
            os.unlink(tmp)
        run(["ar", "rcs", tmp, *objs], "ar " + name)
        os.replace(tmp, out)
    return out


def link_so(name, objs, archives):
    out = os.path.join(OUT, "so", sha(name, *objs, *archives), name + ".so")
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + f".{os.getpid()}"
        run([CXX, "-fuse-ld=lld", "-shared", "-fno-rtti", "-Wl,-s", *objs, *archives, "-o", tmp], "link " + name)
        os.replace(tmp, out)
    return out


def link_exe(name, objs, archives, extra=()):
    out = os.path.join(OUT, "exe", sha(name, *objs, *archives, *extra), "bin", name)
    if not os.path.exists(out):
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + f".{os.getpid()}"
        run([CXX, "-fuse-ld=lld", "-rdynamic", *objs, *archives, *extra, *CLANGLIBS, "-ldl", "-o", tmp], "link " + name)
        os.replace(tmp, out)
    return out


class Lock:
    def __enter__(self):
        os.makedirs(OUT, exist_ok=True)
        self.f = open(os.path.join(OUT, "lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def _map(ex, fn, items):
    return [f.result() for f in [ex.submit(fn, i) for i in items]]


class Tree:
    """Paths of everything one check needs."""
    exe = None
    rules = {}
    reporters = {}
    extra = {}


def build(exe=True, rules=(), reporters=(), harness=()):
    """rules/reporters: names (RedundantIfStatement, XMLReporter), or "all".
    harness: list of dicts(name, src, kind='so'|'exe', with_=('core','ruleset','metrics','ruleslib','driverlib'), inc='core'|'rules'|'driver')."""
    with Lock(), cf.ThreadPoolExecutor(JOBS) as ex:
        S = sources()
        if rules == "all":
            rules = sorted(S["rules"])
        if reporters == "all":
            reporters = sorted(S["reporters"])
        missing = [r for r in rules if r not in S["rules"]] + [r for r in reporters if r not in S["reporters"]]
        if missing:
            raise BuildError("not in the tree: " + ", ".join(missing))
        jobs = {}

        def want(src, incs, use_pch=True, extra=()):
            k = (src, tuple(incs), use_pch, tuple(extra))
            if k not in jobs:
                jobs[k] = ex.submit(compile_obj, src, incs, extra, use_pch)
            return jobs[k]

        groups = {}

        def group(g):
            if g not in groups:
                if g in ("core", "ruleset"):
                    groups[g] = [want(s, inc_core(), False) for s in S[g]]
                elif g == "metrics":
                    groups[g] = [want(s, inc_rules()) for s in S[g]]
                elif g == "ruleslib":
                    groups[g] = [want(s, inc_rules()) for s in S[g]]
                else:
                    groups[g] = [want(s, inc_driver()) for s in S[g]]
            return groups[g]

        pch()
        T = Tree()
        need_rules = list(rules)
        if exe:
            for g in ("core", "ruleset", "driverlib", "drivermain"):
                group(g)
        if need_rules:
            for g in ("core", "metrics", "ruleslib"):
                group(g)
        if reporters:
            group("core")
        robj = {r: want(S["rules"][r], inc_rules()) for r in need_rules}
        pobj = {r: want(S["reporters"][r], inc_core(), False) for r in reporters}
        hobj = {}
        incs = {"core": inc_core(), "rules": inc_rules(), "driver": inc_driver()}
        for h in harness:
            use_pch = h.get("pch", h.get("inc", "core") != "core")
            hobj[h["name"]] = [want(os.path.join(VERIF, "harness", s), incs[h.get("inc", "core")], use_pch)
                               for s in (h["src"] if isinstance(h["src"], list) else [h["src"]])]
            for g in h.get("with_", ()):
                group(g)
        for f in list(jobs.values()):
            f.result()
        R = {g: [f.result() for f in fs] for g, fs in groups.items()}
        A = {g: archive(g, R[g]) for g in ("core", "metrics", "ruleslib") if g in R}
        links = {}
        if exe:
            links["exe"] = ex.submit(link_exe, "oclint", R["drivermain"] + R["driverlib"] + R["core"] + R["ruleset"], [])
        for r in need_rules:
            links["r", r] = ex.submit(link_so, r + "Rule", [robj[r].result()], [A["ruleslib"], A["metrics"], A["ruleslib"], A["core"]])
        for r in reporters:
            links["p", r] = ex.submit(link_so, r, [pobj[r].result()], [A["core"]])
        for h in harness:
            objs = [f.result() for f in hobj[h["name"]]]
            if h["kind"] == "so":
                ars = [A[g] for g in h.get("with_", ()) if g in A]
                links["h", h["name"]] = ex.submit(link_so, h["name"], objs, ars)
            else:
                for g in h.get("with_", ()):
                    objs = objs + R[g]
                links["h", h["name"]] = ex.submit(link_exe, h["name"], objs, [], tuple(h.get("ld", ())))
        L = {k: f.result() for k, f in links.items()}
        T.exe = L.get("exe")
        T.rules = {r: L["r", r] for r in need_rules}
        T.reporters = {r: L["p", r] for r in reporters}
        T.extra = {h["name"]: L["h", h["name"]] for h in harness}
        return T


def build_docgen(rules="all"):
    """oclint-docgen (everything compiled with -DDOCGEN), one library with the given rules, one with the scripted rules."""
    with Lock(), cf.ThreadPoolExecutor(JOBS) as ex:
        S = sources()
        names = sorted(S["rules"]) if rules == "all" else list(rules)
        D = ("-DDOCGEN", "-Xclang", "-fno-validate-pch")
        pch()
        obj = lambda src, incs, use_pch=True: ex.submit(compile_obj, src, incs, D, use_pch)
        driver = [obj(p, inc_driver()) for p in S["driverlib"] + G("oclint-driver/main_docgen.cpp") + G("oclint-driver/rules_dlfcn_port.cpp")]
        core = [obj(p, inc_core(), False) for p in S["core"]]
        ruleset = [obj(p, inc_core(), False) for p in S["ruleset"]]
        lib = [obj(p, inc_rules()) for p in S["metrics"] + S["ruleslib"]]
        robj = [obj(S["rules"][r], inc_rules()) for r in names]
        doc = obj(os.path.join(VERIF, "harness", "DocRule.cpp"), inc_core(), False)
        R = lambda fs: [f.result() for f in fs]
        exe = link_exe("oclint-docgen", R(driver) + R(core) + R(ruleset), [])
        real = link_so("docrules", R(robj) + R(lib), [archive("doccore", R(core))]) if names else None
        script = link_so("docrule", [doc.result()], [archive("doccore", R(core))])
        return exe, real, script


def c_so(name):
    """A plain C shared library of the harness (preload)."""
    src = os.path.join(VERIF, "harness", name + ".c")
    out = os.path.join(OUT, "so", sha(name, open(src).read()), name + ".so")
    with Lock():
        if not os.path.exists(out):
            os.makedirs(os.path.dirname(out), exist_ok=True)
            tmp = out + f".{os.getpid()}"
            run(["/usr/bin/clang-18", "-w", "-O1", "-fPIC", "-shared", src, "-o", tmp, "-ldl"], "preload")
            os.replace(tmp, out)
    return out


MCRAW = dict(name="MCRawReporter", src="MCRawReporter.cpp", kind="so", with_=("core",))

if __name__ == "__main__":
    import time
    t = time.time()
    try:
        build(True, "all", "all", [MCRAW])
    except BuildError as e:
        print(e)
        sys.exit(2)
    print(f"built in {time.time() - t:.1f} s")
