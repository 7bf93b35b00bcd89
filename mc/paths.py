"""C40 paths: however oclint is found and started, wherever, and however its files are spelled, it uses the same rules, configuration, sources and report file."""
import itertools, json, os, shutil, subprocess
import build as B
import run as R
from common import Check, winst
from driver import consume, snapshot

EXPL = ("oclint is installed in scratch directories and run over every combination of: how the executable is found (absolute, relative, through PATH with other entries before it), the working directory, how sources, "
        "compilation database, rule directories and report are spelled (absolute, relative, with dots, by default, in a configuration file), the directories the compile commands run in, per-file and global analysis, and the layers "
        "of configuration. Which rules ran, with which threshold, on which files, what the exit status is and which files are new is compared with a model. states = runs, transitions = path decisions in them.")
SRC = '#include "h.h"\nint f%s(int *p) { if (!p) return *p; goto a; a: return OK; }\n'
FILES = {"a": ("src/a.c", "build"), "b": ("lib/b.c", "lib"), "c": ("src/deep/c.c", "")}         # source, directory of its compile command


def _inst(tree):
    i = R.Inst(tree, rules=("ShortVariableName",), reporters=("MCRawReporter",))
    i.alt = {}
    for n in ("GotoStatement", "LongVariableName"):
        d = f"{i.root}/alt-{n}"
        os.makedirs(d)
        so = tree.rules[n]
        os.symlink(so, f"{d}/{os.path.basename(so)}")
        i.alt[n] = d
    return i


def spell(path, cwd, how):
    if how == "abs":
        return path
    r = os.path.relpath(path, cwd)
    if how == "dot":
        return "./" + r
    if how == "detour":
        h, t = os.path.split(path)
        return os.path.relpath(h, cwd) + "/../" + os.path.basename(h) + "/" + t
    return r


def project(d, cfg=(), auto=True):
    """d/proj with three sources, each with a compile command of its own"""
    w = d + "/proj"
    for s in ("src/deep", "lib", "build", "inc", "out"):
        os.makedirs(f"{w}/{s}")
    open(w + "/inc/h.h", "w").write("#define OK 1\n")
    db = []
    for k, (f, cd) in FILES.items():
        open(f"{w}/{f}", "w").write(SRC % k)
        cdir = os.path.normpath(f"{w}/{cd}")
        db.append(dict(directory=cdir, file=f"{w}/{f}" if k != "b" else "b.c", arguments=["cc", "-I" + os.path.relpath(w + "/inc", cdir), "-c", os.path.relpath(f"{w}/{f}", cdir)]))
    json.dump(db, open((w if auto else w + "/build") + "/compile_commands.json", "w"))
    for path, text in cfg:
        open(path, "w").write(text)
    return w


def observe(out, w):
    """{file key: set of (rule, extra)} of a report; paths may be relative to the compile directory"""
    r = json.loads(out)
    got = {}
    for sec in "vewb":
        for v in r[sec]:
            for k, (f, cd) in FILES.items():
                if os.path.realpath(os.path.join(w, cd, v[3])) == os.path.realpath(f"{w}/{f}"):
                    break
                if os.path.realpath(v[3]) == os.path.realpath(f"{w}/{f}"):
                    break
            else:
                k = "? " + v[3]
            if k not in "abc" and not k.startswith("?"):
                k = "?"
            tag = v[0] if sec == "v" else sec
            if tag == "short variable name":
                tag += " " + v[-1].split()[-1] if isinstance(v[-1], str) else ""
            got.setdefault(k, []).append((tag, v[4]))
    return {k: sorted(v) for k, v in got.items()}


def model(files, rules, thr, ana):
    e = []
    if "ShortVariableName" in rules and thr > 1:
        e.append((f"short variable name {thr}", 2))
    if "GotoStatement" in rules:
        e.append(("goto statement", 2))
    if ana:
        e.append(("b", 2))
    return {k: sorted(e) for k in sorted(set(files))} if e else {}


def judge(p, outfile, before, after, w, want, want_rc=0):
    """the common verdict; outfile None: standard output"""
    new = sorted(k for k in after if after[k] != before.get(k) and not os.path.isdir(k))
    gone = sorted(k for k in before if k not in after)
    if gone:
        return f"removed {gone}"
    if new != ([outfile] if outfile else []):
        return f"wrote {new}, expected {outfile or 'nothing'} (exit {p.returncode}: {p.stdout[-200:]!r} {p.stderr[-200:]!r})"
    try:
        got = observe(open(outfile, "rb").read() if outfile else p.stdout, w)
    except ValueError:
        return f"no report: exit {p.returncode}, {p.stdout[-300:]!r} {p.stderr[-300:]!r}"
    if got != want:
        return f"reports {got}, expected {want}"
    if p.returncode != want_rc:
        return f"exit {p.returncode}, expected {want_rc}"


# ------------------------------------------------------------------ how the executable is found
FORMS = ("abs", "rel", "dot", "detour", "double", "path abs", "path rel", "path dot")
BEFORE = ("", "missing", "directory", "not executable", "other")


def _start(job):
    form, before, cwdk, rules, cfg, pwd = job
    inst = winst("c40", _inst)
    d = inst.workdir()
    try:
        # an installation of its own, so that etc and lib can differ
        for n, rule, t in (("one", "ShortVariableName", 5), ("two", "GotoStatement", 7)):
            for s in ("bin", "lib/oclint", "etc"):
                os.makedirs(f"{d}/{n}/{s}")
            os.symlink(inst.tree.exe, f"{d}/{n}/bin/oclint")
            os.symlink(inst.rules_dir if n == "one" else inst.alt[rule], f"{d}/{n}/lib/oclint/rules")
            os.symlink(inst.reporters_dir, f"{d}/{n}/lib/oclint/reporters")
            if cfg:
                open(f"{d}/{n}/etc/oclint", "w").write(f"rule-configurations:\n  - key: SHORT_VARIABLE_NAME\n    value: {t}\n")
        os.makedirs(d + "/e1/oclint")
        os.makedirs(d + "/e2")
        open(d + "/e2/oclint", "w").write("#!/bin/sh\nexit 77\n")
        os.chmod(d + "/e2/oclint", 0o644)
        w = project(d)
        cwd = {"root": d, "bin": d + "/one/bin", "other bin": d + "/two/bin", "install": d + "/one", "project": w, "build": w + "/build"}[cwdk]
        os.symlink(cwd, d + "/link")
        exe = d + "/one/bin/oclint"
        path = ["/usr/bin", "/bin"]
        pre = {"": [], "missing": [d + "/nope"], "directory": [d + "/e1"], "not executable": [d + "/e2"], "other": [d + "/two/bin"]}[before]
        used = "one"
        if form.startswith("path"):
            e = spell(d + "/one/bin", cwd, {"path abs": "abs", "path rel": "rel", "path dot": "dot"}[form])
            path = pre + [e] + path
            argv0 = "oclint"
            if before == "other":
                used = "two"
        else:
            path = pre + path
            argv0 = exe.replace("/bin/", "//bin//") if form == "double" else spell(exe, cwd, form)
            if "/" not in argv0:
                argv0 = "./" + argv0
        opts = ["-R", inst.alt["GotoStatement"]] if rules else []
        snap = snapshot(d)
        env = inst.env(PATH=":".join(path), PWD={"unset": None, "same": cwd, "link": d + "/link", "stale": d + "/e1", "relative": "."}[pwd])
        p = subprocess.run([argv0, "-report-type", "mcraw", *opts, "-p", w, w + "/src/a.c"], cwd=d + "/link" if pwd == "link" else cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        rs = ("GotoStatement",) if rules or used == "two" else ("ShortVariableName",)
        bad = judge(p, None, snap, snapshot(d), w, model("a", rs, 5 if cfg else 3, False))
        return dict(bad=bad and f"started as {argv0!r} from {cwd} with PATH {path}, PWD {pwd}, -R {bool(rules)}, configuration {bool(cfg)}: {bad}".replace(d, "…"), steps=3, out=("start", form, before, p.returncode), sample=dict(argv0=argv0.replace(d, "…"), cwd=cwdk, before=before))
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------------ how the files are spelled
CWD = ("proj", "proj/src", "proj/build", "", "link")
SPELL = ("abs", "rel", "dot", "detour")
DB = ("auto", "-p abs", "-p rel", "--")
OUT = ("-", "abs", "name", "dot", "sub", "up", "config", "config sub", "config overridden", "existing")
RUL = ("", "abs", "rel", "two", "config", "config and -R", "dot")
SEQ = ("a", "b", "ab", "ba", "cab", "abc", "bb")


def _files(job):
    cwdk, sp, db, ok, rk, seq, glob, ana = job
    inst = winst("c40", _inst)
    d = inst.workdir()
    try:
        cwd = os.path.normpath(f"{d}/{cwdk}")
        w = d + "/proj"
        os.symlink(w, d + "/link")
        cfg = []
        args = ["-report-type", "mcraw"]
        rules = {"ShortVariableName"}
        A, L = inst.alt["GotoStatement"], inst.alt["LongVariableName"]
        if rk == "abs":
            args += ["-R", A]
        elif rk == "rel":
            args += ["-R", os.path.relpath(A, cwd)]
        elif rk == "dot":
            args += ["-R", "./" + os.path.relpath(A, cwd) + "/"]
        elif rk == "two":
            args += ["-R", os.path.relpath(A, cwd), "-R", inst.rules_dir]
        elif rk == "config":
            cfg.append(f"rule-paths:\n  - {os.path.relpath(A, cwd)}\n")
        elif rk == "config and -R":
            cfg.append(f"rule-paths:\n  - {os.path.relpath(A, cwd)}\n")
            args += ["-R", inst.rules_dir]
        if rk:
            rules = {"GotoStatement"} | ({"ShortVariableName"} if rk in ("two", "config and -R") else set())
        out = None
        if ok == "abs":
            out = d + "/r.out"
            args += ["-o", out]
        elif ok in ("name", "dot", "existing"):
            out = cwd + "/r.out"
            args += ["-o", "./r.out" if ok == "dot" else "r.out"]
        elif ok == "sub":
            out = w + "/out/r.out"
            args += ["-o", os.path.relpath(out, cwd)]
        elif ok == "up":
            if not cwdk:
                return dict(bad=None, out="skip")
            out = os.path.dirname(cwd) + "/r.out"
            args += ["-o", "../r.out"]
        elif ok == "config":
            out = cwd + "/r.out"
            cfg.append("output: r.out\n")
        elif ok == "config sub":
            out = w + "/out/r.out"
            cfg.append(f"output: {os.path.relpath(out, cwd)}\n")
        elif ok == "config overridden":
            out = d + "/r.out"
            cfg.append("output: s.out\n")
            args += ["-o", out]
        project(d, [(cwd + "/.oclint", "".join(cfg))] if cfg and cwdk == "" else (), auto=db == "auto")
        if cfg and cwdk != "":
            open(cwd + "/.oclint", "w").write("".join(cfg))
        if ok == "existing":
            open(out, "w").write("what was there before, which is longer than any report " * 200)
        if glob:
            args.append("-enable-global-analysis")
        if ana:
            args.append("-enable-clang-static-analyzer")
        tail = []
        if db.startswith("-p"):
            args += ["-p", spell(w + "/build", cwd, db[3:])]
        elif db == "--":
            tail = ["--", "-I" + os.path.relpath(w + "/inc", cwd), "-c"]
        args += [spell(f"{w}/{FILES[k][0]}", cwd, sp) for k in seq] + tail
        snap = snapshot(d)
        p = inst.exec(args, cwd, inst.env(PWD=cwd))
        bad = judge(p, out and os.path.realpath(os.path.dirname(out)) + "/" + os.path.basename(out), snap, snapshot(d), w, model(seq, rules, 3, ana))
        return dict(bad=bad and f"in {cwdk or 'the parent'}: {' '.join(args)}{' with .oclint ' + repr(''.join(cfg)) if cfg else ''}: {bad}".replace(d, "…"), steps=8, out=("files", db, bool(out), p.returncode), sample=dict(args=" ".join(args).replace(d, "…"), cwd=cwdk))
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------------ layers of configuration
def _layers(job):
    etc, home, wd, other, rc, homek, cwdk, order, out = job
    inst = winst("c40", _inst)
    d = inst.workdir()
    try:
        w = project(d)
        cwd = {"proj": w, "src": w + "/src"}[cwdk]
        for n in ("bin", "lib", "etc"):
            os.makedirs(f"{d}/i/{n}")
        os.symlink(inst.tree.exe, d + "/i/bin/oclint")
        os.symlink(inst.root + "/inst/lib/oclint", d + "/i/lib/oclint")
        os.makedirs(d + "/home")
        thr = 3
        outp = None

        def put(path, t):
            o = f"output: {t}.out\n" if out else ""
            open(path, "w").write(f"{o}rule-configurations:\n  - key: SHORT_VARIABLE_NAME\n    value: {t}\n")
        if other:
            put((w + "/src" if cwdk == "proj" else w) + "/.oclint", 9)          # of another directory, does not count
        if etc:
            put(d + "/i/etc/oclint", 4)
            thr = 4
        if home:
            put(d + "/home/.oclint", 5)
            if homek not in ("unset", "empty", "missing"):
                thr = 5
        if wd:
            put(cwd + "/.oclint", 6)
            thr = 6
        if out and thr > 3:
            outp = f"{cwd}/{thr}.out"
        args = ["-report-type", "mcraw"]
        for t in rc:
            args += [f"-rc=SHORT_VARIABLE_NAME={t}"]
            thr = t
        env = inst.env(HOME={"plain": d + "/home", "slash": d + "/home/", "relative": os.path.relpath(d + "/home", cwd), "unset": None, "empty": "", "missing": d + "/nobody"}[homek], PWD=(w + "/src" if cwdk == "proj" else w) if order else None)
        files = [w + "/src/a.c", w + "/lib/b.c"]
        rest = ["-p", w]
        args = args + rest + files if order else files + rest + args
        snap = snapshot(d)
        p = subprocess.run([d + "/i/bin/oclint", *args], cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        bad = judge(p, outp, snap, snapshot(d), w, model("ab", ("ShortVariableName",), thr, False))
        what = [n for n, x in (("etc", etc), ("home", home), ("working directory", wd), ("another directory", other)) if x]
        return dict(bad=bad and f"configuration in {what}, HOME {homek}, in {cwdk}, PWD {'of another directory' if order else 'unset'}, {' '.join(args)}: {bad}".replace(d, "…"), steps=5, out=("layers", thr, bool(outp), p.returncode), sample=dict(layers=what, rc=list(rc), home=homek))
    finally:
        shutil.rmtree(d)


def check(pid):
    chk = Check(pid, explanation=EXPL)
    tree = B.build(True, ["ShortVariableName", "GotoStatement", "LongVariableName"], [], [B.MCRAW])
    t = chk.thorough
    J = [(f, b, c, r, g, p) for f in FORMS for b in BEFORE for c in ("root", "bin", "other bin", "install", "project", "build") for r in (0, 1) for g in (0, 1)
         for p in ("unset", "same", "link", "stale", "relative") if t or p == "unset" or not b and g]
    consume(chk, tree, _start, J, "how it is started")
    J = [(*x, rc, hk, c, o, out) for x in itertools.product((0, 1), repeat=4) for rc in ((), (8,), (7, 2), (2, 7)) for hk in ("plain", "slash", "relative", "unset", "empty", "missing") if hk == "plain" or rc in ((), (8,))
         for c in ("proj", "src") for o in (0, 1) for out in (0, 1)]
    consume(chk, tree, _layers, J, "layers of configuration")
    J = [x for x in itertools.product(CWD, SPELL, DB, OUT, RUL, SEQ, (0, 1), (0, 1)) if t or keep(*x)]
    consume(chk, tree, _files, J, "how files are spelled")
    chk.bounds = {"invocations": len(FORMS) * len(BEFORE) * 6, "spellings": len(J), "files": 3}
    return chk.finish()


def keep(cwd, sp, db, ok, rk, seq, glob, ana):
    """quick: all pairs of the spelling dimensions with everything else, the others at two values"""
    odd = [sp != "abs", ok not in ("-", "name"), rk not in ("", "rel"), seq not in ("ab",), bool(ana)]
    return sum(odd) <= 2
