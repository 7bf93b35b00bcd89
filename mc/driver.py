"""C27-C30: write faults, loading, configuration files, compilation."""
import itertools, json, math, os, re, resource, shutil, signal, subprocess
import build as B
import run as R
import common as C
from common import Check, pmap, winst
from core import script, script_inst, SCRIPT

REPS = ("HTMLReporter", "JSONReporter", "PMDReporter", "TextReporter", "XMLReporter", "XcodeReporter")


def consume(chk, tree, fn, jobs, name):
    n = 0
    for r in pmap(chk, tree, fn, jobs):
        chk.states += r.get("states", 1)
        chk.traces += 1
        chk.transitions += r.get("steps", 1)
        n += r.get("states", 1)
        chk.outcomes[str(r.get("out"))[:80]] += 1
        if chk.traces % 50 == 1:
            chk.sample(r.get("sample"))
        if r["bad"]:
            chk.violation(r["bad"], r)
    chk.section(name, runs=n)


# ------------------------------------------------------------------ C27
def check_c27():
    chk = Check("C27", level="fault_enumeration", explanation="every byte position at which the disk can become full (file size limit) while a report is written to a file or to standard "
                "output, and every open/write/close call on the report failing with each errno, being interrupted or being short, for each reporter: either the whole report is "
                "there and the exit status is that of the analysis, or the exit status says the report failed")
    tree = B.build(True, [], "all", [SCRIPT])
    pre = B.c_so("mcpreload")
    jobs = []
    sizes = (0, 3, 400) if chk.thorough else (0, 3, 120)
    for rep in REPS:
        for n in sizes:
            for tgt in ("file", "stdout"):
                jobs.append(("full", rep, n, tgt, pre, chk.thorough))
            jobs.append(("calls", rep, n, "file", pre, chk.thorough))
    # split the byte positions
    J = []
    for j in jobs:
        parts = 16 if j[0] == "full" and j[2] > 0 else 1
        for k in range(parts):
            J.append((*j, k, parts))
    consume(chk, tree, _c27_run, J, "fault points")
    chk.bounds = {"violations in the report": list(sizes), "errno": ["ENOSPC", "EIO", "EDQUOT", "EACCES", "EINTR"]}
    return chk.finish()


def _c27_inst(tree):
    return script_inst(tree, REPS)


def normal(b):
    """drop the clock"""
    b = re.sub(rb"<datetime>[^<]*</datetime>", b"<datetime/>", b)
    b = re.sub(rb'"timestamp":\d+', b'"timestamp":0', b)
    return re.sub(rb"<p>[A-Z][a-z][a-z] [A-Z][a-z][a-z][^|]*\|", b"<p>|", b)


def _c27_run(job):
    mode, rep, nv, tgt, pre, deep, part, parts = job
    inst = winst("c27", _c27_inst)
    d = inst.workdir()
    typ = rep.replace("Reporter", "").lower()
    try:
        open(d + "/a.c", "w").write("int x;\n")
        open(d + "/s", "w").write(script([("r", "c", 3)], [(0, None, None, k + 1, 1, 1, 1, f"message number {k}") for k in range(nv)]))
        env = inst.env(MCSCRIPT=d + "/s")
        base = ["-report-type", typ, "-max-priority-3=9"]

        def run(extra_env=(), limit=None, target=tgt):
            for f in ("rep", "out"):
                if os.path.exists(f"{d}/{f}"):
                    os.unlink(f"{d}/{f}")

            def pre_exec():
                if limit is not None:
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))

            with open(d + "/out", "wb") as o:
                p = subprocess.run([inst.exe, *base, *(["-o", "rep"] if target == "file" else []), "a.c", "--", "-w"], cwd=d, env={**env, **dict(extra_env)}, stdin=subprocess.DEVNULL,
                                   stdout=o, stderr=subprocess.PIPE, preexec_fn=pre_exec, timeout=60)
            f = d + ("/rep" if target == "file" else "/out")
            return p.returncode, open(f, "rb").read() if os.path.exists(f) else None, p.stderr

        rc0, full, err0 = run()
        exp0 = 5 if nv > 9 else 0
        if rc0 != exp0:
            return dict(bad=f"fault-free {typ} run: exit {rc0}, expected {exp0}", out=rc0)
        n = 0
        bad = None
        outs = set()

        def judge(what, r, must_fail=None):
            nonlocal bad
            rc, data, err = r
            complete = data is not None and normal(data) == normal(full)
            outs.add((rc, complete))
            if rc in (0, 5) and not complete:
                bad = bad or f"{typ} report, {what}: exit status {rc} but only {len(data) if data is not None else 'no'} of {len(full)} bytes written"
            elif rc in (0, 5) and rc != exp0:
                bad = bad or f"{typ} report, {what}: exit {rc} instead of {exp0}"
            elif rc not in (0, 5, 4) and rc != 4:
                bad = bad or f"{typ} report, {what}: exit {rc}"
            if must_fail is True and rc != 4:
                bad = bad or f"{typ} report, {what}: exit {rc}, expected 4"
            if must_fail is True and b"oclint: error:" not in err:
                bad = bad or f"{typ} report, {what}: no error message"
            if must_fail is False and not (complete and rc == exp0):
                bad = bad or f"{typ} report, {what}: exit {rc}, {len(data or b'')} of {len(full)} bytes, expected success"

        if mode == "full":
            L = len(full)
            pts = list(range(0, L + 2)) if L < 700 else sorted(set(range(0, 64)) | set(range(max(0, L - 64), L + 2)) | set(range(0, L, 7 if deep else 53)) |
                                                               {k * 1024 + o for k in range(L // 1024 + 1) for o in (-1, 0, 1)} | {k * 8191 + o for k in range(L // 8191 + 1) for o in (-1, 0, 1)})
            pts = [p for p in pts if 0 <= p <= L + 1]
            for p in pts[part::parts]:
                n += 1
                judge(f"disk full after {p} bytes of the {tgt}", run(limit=p), must_fail=(p < L))
        else:
            import errno
            n += 1
            for op in ("open", "write", "close"):
                for k in range(1, 40):
                    kinds = [errno.ENOSPC, errno.EIO, errno.EDQUOT] + ([errno.EACCES, errno.EROFS, errno.EMFILE] if op == "open" else []) + ([errno.EINTR, "s0", "s1", "s100"] if op == "write" else [])
                    hit = False
                    for kind in kinds:
                        if kind == "s0":
                            continue
                        r = run({"LD_PRELOAD": pre, "MCFAULT": f"/rep:{op}:{k}:{kind}"})
                        n += 1
                        # beyond the last call nothing happens: found out with an error kind
                        if kind == errno.ENOSPC and r[0] == exp0 and normal(r[1] or b"") == normal(full):
                            break
                        hit = True
                        if op == "open":
                            judge(f"open fails with errno {kind}", r, True)
                        elif op == "write" and (kind == errno.EINTR or isinstance(kind, str)):
                            judge(f"write {k} {'interrupted' if kind == errno.EINTR else 'short'}", r, False)
                        elif op == "write":
                            judge(f"write {k} fails with errno {kind}", r, True)
                        else:
                            judge(f"close fails with errno {kind}", r, None)
                    if not hit:
                        break
        return dict(bad=bad, states=n, steps=n, out=f"{mode} {sorted(outs)}", sample=dict(reporter=typ, target=tgt, bytes=len(full), faults=n))
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------------ C28
def check_c28():
    chk = Check("C28", explanation="every order in which the operating system can enumerate the rule and reporter directories (readdir permutations), every order and subset of -R directories, for "
                "every report type: same rules, same reporter, same violations, same exit status; unloadable rule library, no rule, unknown reporter: exit 1, 1, 2 and no report")
    tree = B.build(True, [], "all", [B.MCRAW, SCRIPT])
    pre = B.c_so("mcpreload")
    jobs = []
    nr = math.factorial(6)
    for k in range(nr):
        jobs.append(("rules", k, pre))
    for k in range(nr if chk.thorough else 240):
        for t in ("text", "json", "xml", "mcraw"):
            jobs.append(("reporters", k * (1 if chk.thorough else 3), t, pre))
    types = {"nope", "", "html", "TEXT"}
    for t in ("text", "json", "xml", "mcraw"):
        types |= {t[i:j] for i in range(len(t)) for j in range(i + 1, len(t) + 1)} | {t + c for c in "x \t-"} | {c + t for c in "x ."} | {t.upper(), t.title(), t + t, t + ",json", "Text Reporter"}
    for t in sorted(types):
        jobs.append(("type", t))
    dirs = ("A", "B", "C", "empty", "missing", "broken")
    for n in range(1, 4):
        for seq in itertools.product(dirs, repeat=n):
            jobs.append(("dirs", seq))
    jobs.append(("none",))
    consume(chk, tree, _c28_run, jobs, "orders")
    chk.bounds = {"directory entries": 6, "-R options": 3}
    return chk.finish()


def _c28_inst(tree):
    i = R.Inst(tree, rules=(), reporters=("MCRawReporter",))
    os.makedirs(i.root + "/scripts")
    for n in ("A", "B", "C"):
        os.makedirs(f"{i.root}/d{n}")
        for m in "12":
            shutil.copy(tree.extra["MCScriptRule"], f"{i.root}/d{n}/{n}{m}.so")
            open(f"{i.root}/scripts/{n}{m}.so.script", "w").write(script([(f"rule {n}{m}", "c", 3)], [(0, None, None, 1, 1, 1, 1, n + m)]))
    os.makedirs(i.root + "/dempty")
    os.makedirs(i.root + "/dbroken")
    shutil.copy(tree.extra["MCScriptRule"], i.root + "/dbroken/A1.so")
    open(i.root + "/dbroken/x.so", "w").write("not a library")
    for n in ("1", "2", "3"):
        shutil.copy(tree.extra["MCScriptRule"], f"{i.rules_dir}/R{n}.so")
        open(f"{i.root}/scripts/R{n}.so.script", "w").write(script([(f"rule R{n}", "c", 3), (f"also R{n}", "c", 2)], [(0, None, None, 1, 1, 1, 1, "m"), (1, None, None, 2, 1, 1, 1, "m")]))
    for p in (i.rules_dir, i.reporters_dir):
        open(p + "/.hidden.so", "w").write("not a library")
    for n in ("TextReporter", "JSONReporter", "XMLReporter"):
        if n in tree.reporters:
            os.symlink(tree.reporters[n], f"{i.reporters_dir}/{n}.so")
    os.unlink(i.reporters_dir + "/.hidden.so")
    return i


def _c28_run(job):
    inst = winst("c28", _c28_inst)
    d = inst.workdir()
    try:
        open(d + "/a.c", "w").write("int x;\n")
        env = dict(MCSCRIPTDIR=inst.root + "/scripts")
        args = ["-report-type", "mcraw"]
        want_rules = sorted([f"rule R{n}" for n in "123"] + [f"also R{n}" for n in "123"])
        rc = 0
        kind = "mcraw"
        if job[0] == "rules":
            env.update(LD_PRELOAD=job[2], MCDIR_PERM=str(job[1]))
        elif job[0] == "reporters":
            env.update(LD_PRELOAD=job[3], MCDIR_PERM=str(job[1]))
            kind = job[2]
            args = ["-report-type", kind]
        elif job[0] == "type":
            kind = job[1]
            args = [f"-report-type={kind}"]
            if kind not in ("text", "json", "xml", "mcraw"):
                rc = 2
        elif job[0] == "dirs":
            args += [f"-R{inst.root}/d{n}" for n in job[1]]
            want_rules = sorted({f"rule {n}{m}" for n in job[1] if n in "ABC" for m in "12"})
            if "broken" in job[1] or not want_rules:
                rc = 1
        elif job[0] == "none":
            args += [f"-R{d}"]
            os.makedirs(d + "/x")
            args[-1] = f"-R{d}/x"
            rc = 1
        p = inst.exec([*args, "-list-enabled-rules", "a.c", "--", "-w"], d, inst.env(**env))
        bad = None
        out = p.stdout.decode()
        if p.returncode != rc:
            bad = f"exit {p.returncode}, expected {rc}: {p.stderr[-300:]!r}"
        elif rc:
            if out.strip() or b"oclint: error:" not in p.stderr:
                bad = f"exit {rc} but stdout {out[:100]!r} stderr {p.stderr[:100]!r}"
        else:
            head, _, rest = out.partition("\n\n")
            listed = sorted(re.findall(r"^- (.*)$", head, re.M))
            ids = sorted("".join(w.capitalize() if w.islower() else w for w in re.sub(r"\d", "", n).split()) for n in want_rules)
            if listed != ids:
                bad = f"enabled rules {listed}, expected {ids}"
            k = "json" if rest.startswith('{"version"') else "mcraw" if rest.startswith("{") else "xml" if rest.startswith("<?xml") else "text"
            if k != kind:
                bad = f"report written by {k}, asked for {kind}"
            elif k == "mcraw":
                got = sorted(v[0] for v in json.loads(rest)["v"])
                if got != want_rules:
                    bad = f"rules that reported {got}, expected {want_rules}"
            else:
                got = sorted(re.findall(r"(?:rule|also) [ABCR]\d", rest))
                if got != want_rules:
                    bad = f"violations of {got}, expected {want_rules}"
        return dict(bad=bad and f"{bad} for {job}", out=(rc, kind), sample=str(job))
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------------ C29
def sq(s):
    return "'" + s.replace("'", "''") + "'"


def dq(s):
    o = '"'
    for c in s:
        o += {"\\": "\\\\", '"': '\\"', "\n": "\\n", "\t": "\\t"}.get(c, c)
    return o + '"'


def dqx(s):
    return '"' + "".join(f"\\x{ord(c):02X}" if ord(c) < 256 else f"\\u{ord(c):04X}" for c in s) + '"'


def check_c29():
    chk = Check("C29", explanation="every text over a small alphabet as configuration value, in plain, single-quoted, double-quoted and escaped YAML form; every order of the top-level keys; block and "
                "flow sequences; comments, blank lines, CRLF, padding around the page and mapping boundaries; empty and white-space files: oclint must act on exactly the text written")
    tree = B.build(True, [], [], [B.MCRAW, SCRIPT])
    al = ["a", "B", " ", "'", '"', "\\", "#", ":", "-", "é", "/", ",", "]", "{", "%", "1", "="]
    vals = [""]
    n = 3 if chk.thorough else 2
    for k in range(1, n + 1):
        vals += ["".join(t) for t in itertools.product(al, repeat=k)]
    vals += ["true", "false", "null", "~", "0x10", "1.5", "a b c", "it's", "a: b", "a #b", "# a", "- a", "*x", "&x", "!x", "|", ">", "@x", "`x", "C:\\x\\y", "x" * 300]
    jobs = [("values", vals[i:i + 40], st) for i in range(0, len(vals), 40) for st in ("sq", "dq", "dqx", "plain")]
    keys = ("rules", "rc", "max", "dis", "dup")
    for perm in itertools.permutations(keys):
        for style in range(8):
            jobs.append(("layout", perm, style))
    pads = sorted({4096 * k + o for k in (1, 2, 3, 4, 5, 8, 16) for o in range(-3, 4)} | ({4096 * k + o for k in range(1, 20) for o in range(-8, 9)} if chk.thorough else set()) | {0, 100, 1000, 100000})
    for p in pads:
        for where in (0, 1, 2):
            jobs.append(("pad", p, where))
    for w in itertools.product(" \t\n\r\f\v", repeat=2):
        jobs.append(("blank", "".join(w)))
    jobs += [("blank", x) for x in ("", " ", "\n", "\n" * 5000)]
    for n in range(280, 330):
        jobs.append(("cwd", n))
    for n in (100, 250, 500, 1000, 3000):
        jobs.append(("cwd", n))
    consume(chk, tree, _c29_run, jobs, "configuration files")
    chk.bounds = {"value length": n if n < 10 else (3 if chk.thorough else 2), "alphabet": len(al)}
    return chk.finish()


def plain_ok(s):
    return bool(s) and re.fullmatch(r"[aBé1/][aBé1/ '\"\\=-]*[aBé1/'\"\\=-]|[aBé1/]", s) is not None and "  " not in s


def _c29_run(job):
    inst = winst("script", script_inst)
    d = inst.workdir()
    try:
        cwd = d
        env = {}
        steps = 1
        if job[0] == "values":
            f = dict(sq=sq, dq=dq, dqx=dqx, plain=lambda s: s)[job[2]]
            vals = [v for v in job[1] if job[2] != "plain" or plain_ok(v)]
            steps = len(vals)
            t = "rule-configurations:\n" + "".join(f"  - key: K{i}\n    value: {f(v)}\n" for i, v in enumerate(vals)) if vals else "\n"
            keyed = [v for v in vals if v and job[2] != "plain" and v not in ("~", "null")]
            t += "".join(f"  - key: {f('k' + v)}\n    value: V{i}\n" for i, v in enumerate(keyed))
            open(d + "/.oclint", "w").write(t)
            rows, cfg = [], [(0, f"K{i}") for i in range(len(vals))] + [(0, "k" + v) for v in keyed]
            exp = sorted([f"K{i}|{v}" for i, v in enumerate(vals)] + [f"k{v}|V{i}" for i, v in enumerate(keyed)])
        else:
            cfg = [(0, "KEY")]
            exp = None
        open(d + "/a.c", "w").write("int x;\n")
        rows = [(0, None, None, 1, 1, 1, 1, "m"), (1, None, None, 1, 1, 1, 1, "m"), (2, None, None, 1, 1, 1, 1, "m")] if job[0] != "values" else []
        open(d + "/s", "w").write(script([("first", "c", 2), ("second one", "c", 2), ("third", "c", 2)], rows + rows[-1:], cfg))
        rules = ["first", "second one", "third"]
        value, th, dup = None, 10, False
        if job[0] == "layout":
            perm, style = job[1], job[2]
            flow, crlf, noise = style & 1, style & 2, style & 4
            parts = {
                "rules": "rules: [First, Third, Fourth]\n" if flow else "rules:\n  - First\n  - Third\n  - Fourth\n",
                "rc": "rule-configurations: [{key: KEY, value: 'x y'}]\n" if flow else "rule-configurations:\n  - value: 'x y'\n    key: KEY\n",
                "max": "max-priority-2: 1\n", "dis": "disable-rules: ['Third']\n" if flow else "disable-rules:\n- \"Third\"\n",
                "dup": "allow-duplicated-violations: true\n"}
            t = ("\n# comment\n\n" if noise else "").join(parts[k] for k in perm)
            if noise:
                t = "---\n# head\n" + t.replace(": true", ": true   # why") + "...\n"
            if crlf:
                t = t.replace("\n", "\r\n")
            open(d + "/.oclint", "wb").write(t.encode())
            rules, value, th, dup = ["first"], "x y", 1, True
        elif job[0] == "pad":
            body = ["disable-rules:\n  - SecondOne\n", "rule-configurations:\n  - key: KEY\n    value: padded\n"]
            size = sum(map(len, body))
            fill = job[1] - size
            pad = ""
            while fill > 0:
                k = min(fill, 70)
                pad += "#" * (k - 1) + "\n"
                fill -= k
            body.insert(job[2], pad)
            open(d + "/.oclint", "w").write("".join(body))
            rules, value = ["first", "third"], "padded"
        elif job[0] == "blank":
            open(d + "/.oclint", "w").write(job[1])
        elif job[0] == "cwd":
            while len(cwd) < job[1]:
                k = min(100, job[1] - len(cwd) - 1)
                if k < 1:
                    break
                cwd += "/" + "d" * k
                os.mkdir(cwd)
            open(cwd + "/.oclint", "w").write("disable-rules:\n  - SecondOne\noutput: rep\nrule-configurations:\n  - key: KEY\n    value: deep\n")
            rules, value = ["first", "third"], "deep"
        p = inst.exec(["-report-type", "mcraw", *(["-o", cwd + "/rep2"] if False else []), d + "/a.c", "--", "-w"], cwd, inst.env(MCSCRIPT=d + "/s"))
        bad = None
        try:
            text = open(cwd + "/rep").read() if job[0] == "cwd" else p.stdout
            rep = json.loads(text)
        except (ValueError, OSError) as e:
            return dict(bad=f"no report ({e!r}), exit {p.returncode}, stderr {p.stderr[-300:]!r} for {str(job)[:300]}", out="none")
        if exp is not None:
            got = sorted(v[8].encode("latin-1").decode("utf-8", "replace").rsplit("|", 2)[0] for v in rep["v"])
            if got != exp:
                diff = [x for x in got if x not in exp][:3], [x for x in exp if x not in got][:3]
                bad = f"values read {diff[0]!r}, written {diff[1]!r} ({job[2]})"
        else:
            got = sorted(v[0] for v in rep["v"] if v[8] == "m" )
            want = sorted(rules + (["third"] if dup and "third" in rules else []))
            cfgmsg = [v[8] for v in rep["v"] if v[8].startswith("KEY")]
            if got != want:
                bad = f"rules that reported {got}, expected {want}"
            elif cfgmsg and cfgmsg[0].split("|")[1] != (value if value is not None else "<unset>"):
                bad = f"configuration value {cfgmsg}, expected {value}"
            elif ("P2=%d[%d]" % (len(want) + 1, th) in p.stderr.decode()) != (len(want) + 1 > th) or p.returncode != (5 if len(want) + 1 > th else 0):
                bad = f"threshold {th} not applied: exit {p.returncode} {p.stderr[-200:]!r} with {len(want) + 1} violations"
        return dict(bad=bad and f"{bad} for {str(job)[:300]}", steps=steps, states=steps, out=job[0], sample=str(job)[:200])
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------------ C30
KINDS = ("clean", "two", "error", "warn", "fatal", "both", "absent", "late")
BODY = {
    "clean": ("int clean{N};\n", [], []),
    "two": ("#ifndef __OCLINT__\n#error not oclint\n#endif\nint two{N};\n", [], []),
    "error": ("int x{N}\n;\nint y{N} = nope;\n", [("e", 3, "use of undeclared identifier 'nope'")], []),
    "warn": ("#warning careful {N}\nint w{N};\n", [], [("w", 1, "careful {N}")]),
    "fatal": ("int q{N};\n#include \"nope{N}.h\"\nint bad bad;\n", [("e", 2, "'nope{N}.h' file not found")], []),
    "both": ("#warning first {N}\nint x{N} = nope;\n", [("e", 2, "use of undeclared identifier 'nope'")], [("w", 1, "first {N}")]),
    "late": ("int f{N}(void) { goto a{N}; a{N}: return 0; }\n#error at the end {N}\n", [("e", 2, "at the end {N}")], []),
}


def check_c30():
    chk = Check("C30", explanation="every sequence of source files up to the bound over {clean, with violations, with a compile error early or late, with a warning, with both, with a missing include, "
                "absent}, with command-line flags or a compilation database (own directory and flags per file, two commands for one file), per file and with global analysis, with and without "
                "the static analyzer: exactly the compilable units are analysed, each diagnostic is reported once under the right kind, and the exit status is 6 iff there is an error")
    tree = B.build(True, ["GotoStatement"], [], [B.MCRAW, SCRIPT])
    jobs = []
    n = 4 if chk.thorough else 3
    for k in range(1, n + 1):
        for seq in itertools.product(KINDS, repeat=k):
            for glob in (0, 1):
                jobs.append((seq, glob, 0, 0))
                if k < n or chk.thorough and k < 4:
                    jobs.append((seq, glob, 1, 0))
            if k < 3:
                for glob in (0, 1):
                    for fl in (0, 1, 2):
                        jobs.append((seq, glob, fl, 1))
    for seq in itertools.product(("clean", "two", "error", "warn"), repeat=2):
        for glob in (0, 1):
            jobs.append((seq, glob, 3, 0))
    consume(chk, tree, _c30_run, jobs, "file sequences")
    jobs = []
    for n_ in (5, 7, 8, 9, 10, 11, 15, 16, 17, 20, 31, 32, 33, 64, 65, 100) + ((127, 128, 129, 200, 255, 256, 257, 500) if chk.thorough else ()):
        pats = {tuple("clean" if i != at else k for i in range(n_)) for k in KINDS for at in (0, n_ // 2, n_ - 1)} if n_ < 40 else {tuple("clean" if i != n_ - 1 else k for i in range(n_)) for k in KINDS}
        pats |= {tuple(KINDS[(i + j) % len(KINDS)] for i in range(n_)) for j in range(len(KINDS))} | {(k,) * n_ for k in KINDS}
        for seq in sorted(pats):
            for glob, db in itertools.product((0, 1), (0, 1)):
                jobs.append((seq, glob, db, 0))
    consume(chk, tree, _c30_run, jobs, "many files")
    jobs = []
    m = 4 if chk.thorough else 3
    for k in range(1, m + 1):
        for seq in itertools.product(range(len(FLAGS)), repeat=k):
            for form, split, glob, ana in itertools.product((0, 1), (0, 1), (0, 1), (0, 1) if k < 3 else (0,)):
                jobs.append((seq, form, split, glob, ana))
    consume(chk, tree, _c30_cmds, jobs, "command sequences")
    chk.bounds = {"files": n, "kinds": len(KINDS), "commands of one file": m, "flag sets": len(FLAGS)}
    return chk.finish()


def _c30_inst(tree):
    return R.Inst(tree, rules=("MCScriptRule", "GotoStatement"), reporters=("MCRawReporter",))


def _c30_run(job):
    seq, glob, db, ana = job
    inst = winst("c30", _c30_inst)
    d = inst.workdir()
    try:
        rows = []
        exp_v, exp_e, exp_w, exp_b = [], [], [], []
        names, cmds = [], []
        ok = 0
        for i, k in enumerate(seq):
            sub = f"dir {i}" if db == 1 else ""
            base = f"f{i}.c"
            rel = f"{sub}/{base}" if sub else base
            names.append(rel)
            flags = []
            if db == 1:
                os.makedirs(f"{d}/{sub}/inc{i}")
                open(f"{d}/{sub}/inc{i}/own{i}.h", "w").write(f"#define OWN{i} 1\n")
                flags = [f"-Iinc{i}", f"-DMINE={i}"]
            path = (base if db == 1 else f"{d}/{base}")
            text, errs, warns = BODY.get(k, ("", [], []))
            pre = f'#include "own{i}.h"\n#if MINE != {i} || !OWN{i}\n#error wrong flags\n#endif\n' if db == 1 else ""
            off = pre.count("\n")
            body = pre + text.replace("{N}", str(i))
            nullp = f"int z{i}(int *p) {{ if (!p) return *p; return 0; }}\n" if ana else ""
            if k != "absent":
                open(f"{d}/{rel}", "w").write(body + nullp)
            if k == "absent":
                exp_e.append(("", 0, f"error reading '{d}/{rel}': No such file or directory" if db != 1 else f"error reading '{base}': No such file or directory"))
            for _, l, m in errs:
                exp_e.append((path, l + off, m.replace("{N}", str(i))))
            for _, l, m in warns:
                exp_w.append((path, l + off, m.replace("{N}", str(i))))
            if k != "absent" and not errs:
                ok += 1
                exp_v.append(("always", path, 1, "unit"))
                if k == "two":
                    exp_v.append(("always", path, 2, "two"))
                    rows.append((0, base, None, 2, 1, 1, 1, "two"))
                if ana:
                    exp_b.append((path, body.count("\n") + 1))
            cmds.append(dict(directory=f"{d}/{sub}" if sub else d, file=base if db == 1 else rel, arguments=["cc", *flags, "-c", base if db == 1 else rel]))
            if db == 3 and k in ("clean", "two"):        # a second command for the same file, which fails
                pass
        rows.append((0, None, None, 1, 1, 1, 1, "unit"))
        open(d + "/s", "w").write(script([("always", "c", 3)], rows))
        args = ["-report-type", "mcraw", "-max-priority-3=99999", "-o", "the report", *(["-enable-global-analysis"] if glob else []), *(["-enable-clang-static-analyzer"] if ana else [])]
        if db == 1:
            json.dump(cmds, open(d + "/compile_commands.json", "w"))
            tail = ["-p", d, *names]
        elif db == 3:
            # two commands per file: with and without -DTWICE (an error under it)
            exp_v, exp_e, exp_w = [], [], []
            ok = 0
            c2 = []
            for i, k in enumerate(seq):
                text, errs, warns = BODY[k]
                open(f"{d}/f{i}.c", "w").write(text.replace("{N}", str(i)) + "#ifdef TWICE\n#error twice\n#endif\n")
                for fl in ([], ["-DTWICE"]):
                    c2.append(dict(directory=d, file=f"f{i}.c", arguments=["cc", *fl, "-c", f"f{i}.c"]))
                p_ = f"f{i}.c"
                exp_e += [(p_, l, m.replace("{N}", str(i))) for _, l, m in errs]
                exp_e.append((p_, text.count("\n") + 2, "twice"))
                exp_w += [(p_, l, m.replace("{N}", str(i))) for _, l, m in warns]
                if not errs:
                    ok += 1
                    exp_v.append(("always", p_, 1, "unit"))
                    if k == "two":
                        exp_v.append(("always", p_, 2, "two"))
            json.dump(c2, open(d + "/compile_commands.json", "w"))
            tail = ["-p", d, *names]
        else:
            tail = [*names, "--", *(["-fsyntax-only"] if db == 2 else [])]
        p = inst.exec([*args, *tail], d, inst.env(MCSCRIPT=d + "/s"))
        try:
            rep = json.load(open(d + "/the report"))
        except (OSError, ValueError) as e:
            return dict(bad=f"no report {e!r}: exit {p.returncode} {p.stderr[-300:]!r} {p.stdout[:100]!r} for {job}", out="none")
        gv = sorted((v[0], v[3], v[4], v[8]) for v in rep["v"])
        ge = sorted((v[3], v[4], v[8]) for v in rep["e"])
        gw = sorted((v[3], v[4], v[8]) for v in rep["w"])
        bad = None
        rc = 6 if exp_e else 0
        exp_e, exp_w, exp_v = sorted(set(exp_e)), sorted(set(exp_w)), sorted(exp_v)
        # a file with several errors: compare the set of (file, line) of errors with a superset allowed only for the unlisted cascade
        if gv != exp_v:
            bad = f"violations {gv}, expected {exp_v}"
        elif [x for x in exp_e if x not in ge] or len(ge) < len(exp_e) or [x for x in ge if x not in exp_e and not cascade(x, seq)]:
            bad = f"errors {ge}, expected {exp_e}"
        elif gw != exp_w:
            bad = f"warnings {gw}, expected {exp_w}"
        elif p.returncode != rc:
            bad = f"exit {p.returncode}, expected {rc}"
        elif rep["files"] != ok:
            bad = f"{rep['files']} files analysed, expected {ok}"
        elif not ana and rep["b"]:
            bad = f"checker bugs without the analyzer: {rep['b'][:2]}"
        elif ana:
            gb = sorted((v[3], v[4]) for v in rep["b"])
            if gb != sorted(exp_b):
                bad = f"checker bugs {gb}, expected {sorted(exp_b)}"
        return dict(bad=bad and f"{bad} for {job}", steps=len(seq), out=(rc, ok, len(exp_w)), sample=dict(files=seq, globally=glob, exit=p.returncode, violations=len(gv)))
    finally:
        shutil.rmtree(d)


# flags of a compile command, the lines with a goto under them, and the line of an error
FLAGS = (((), (12,), None), (("-DA",), (2, 12), None), (("-DB",), (4, 12), None), (("-D", "A"), (2, 12), None), (("-DE=1",), (), 6), (('-DS="a b"',), (8, 12), None), (("-DA", "-DB"), (2, 4, 12), None),
         (("-DA", "-UA"), (12,), None), (("-include", "pre fix.h"), (10, 12), None))
CMDS = """#ifdef A
void a(void) { goto x; x: ; }
#endif
#ifdef B
void b(void) { goto x; x: ; }
#endif
#ifdef E
#error wrong
#endif
#ifdef S
char c[] = S; void s(void) { goto x; x: ; } _Static_assert(sizeof(c) == 4, "lost a space");
#endif
#ifdef PREFIX
void p(void) { goto x; x: ; }
#endif
void all(void) { goto x; x: ; }
"""
CMDLINES = {2: 2, 4: 5, 6: 8, 8: 11, 10: 14, 12: 16}


def _c30_cmds(job):
    """one file with a sequence of compile commands (split: in another directory each), arguments or command form"""
    seq, form, split, glob, ana = job
    inst = winst("c30", _c30_inst)
    d = inst.workdir()
    try:
        open(d + "/a b.c", "w").write(CMDS)
        rows, exp, err = [], [], False
        for i, k in enumerate(seq):
            flags, lines, e = FLAGS[k]
            sub = f"{d}/sub{i}" if split else d
            os.makedirs(sub, exist_ok=True)
            open(sub + "/pre fix.h", "w").write("#define PREFIX 1\n")
            argv = ["cc", *flags, "-c", d + "/a b.c", "-o", f"x{i}.o"]
            row = dict(directory=sub, file=d + "/a b.c" if i % 2 else ("../a b.c" if split else "a b.c"))
            if form:
                row["command"] = " ".join(a if re.fullmatch(r"[-=\w./]+", a) else '"' + a.replace("\\", "\\\\").replace('"', '\\"') + '"' for a in argv)
            else:
                row["arguments"] = argv
            rows.append(row)
            exp += [CMDLINES[x] for x in lines]
            err |= e is not None
        json.dump(rows, open(d + "/compile_commands.json", "w"))
        args = ["-report-type", "mcraw", "-rule", "GotoStatement", "-allow-duplicated-violations", "-max-priority-3=99", *(["-enable-global-analysis"] if glob else []),
                *(["-enable-clang-static-analyzer"] if ana else []), "-p", d, d + "/a b.c"]
        p = inst.exec(args, d, inst.env())
        bad = None
        try:
            rep = json.loads(p.stdout)
        except ValueError:
            return dict(bad=f"no report: exit {p.returncode} {p.stderr[-300:]!r} {p.stdout[:100]!r} for {[FLAGS[k][0] for k in seq]}", out="none")
        got = sorted(v[4] for v in rep["v"])
        ge = sorted({v[4] for v in rep["e"]})
        n = sum(FLAGS[k][2] is None for k in seq)
        if got != sorted(exp):
            bad = f"violations on lines {got}, expected {sorted(exp)}"
        elif ge != ([8] if err else []) or p.returncode != (6 if err else 0):
            bad = f"errors on lines {ge}, exit {p.returncode}"
        elif rep["b"]:
            bad = f"checker bugs {rep['b'][:2]}"
        elif rep["files"] != n:
            bad = f"{rep['files']} units analysed, expected {n}"
        return dict(bad=bad and f"{bad} for commands {[FLAGS[k][0] for k in seq]} form={form} directories={split} global={glob} analyzer={ana}", steps=len(seq), out=(err, n),
                    sample=dict(commands=[FLAGS[k][0] for k in seq], exit=p.returncode, violations=len(got)))
    finally:
        shutil.rmtree(d)


def cascade(x, seq):
    return False


# ------------------------------------------------------------------ C37
# options of compile commands that make a compiler write, and the files they name
WRITES = [
    ("-o", "{B}.o"), ("-o", "out/deep/{B}.o"), ("-MD",), ("-MMD",), ("-MD", "-MF", "dep.d"), ("-MMD", "-MFjoined.d"), ("-MD", "-MP", "-MT", "x", "-MQ", "y"),
    ("-Wp,-MD,wp.d",), ("-Wp,-MMD,wp.d"), ("-Xclang", "-dependency-file", "-Xclang", "xc.d", "-Xclang", "-MT", "-Xclang", "q"), ("-Xclang", "-dependency-dot", "-Xclang", "dep.dot"),
    ("-Xclang", "-header-include-file", "-Xclang", "inc.txt", "-H"), ("-Xclang", "-diagnostic-log-file", "-Xclang", "log.plist"),
    ("--serialize-diagnostics", "diag.dia"), ("-save-temps",), ("-save-temps=obj",), ("-save-stats",), ("-ftime-trace",), ("-ftime-trace=tt.json",), ("-g", "-gsplit-dwarf"), ("--coverage",),
    ("-fprofile-arcs", "-ftest-coverage"), ("-S",), ("-emit-llvm",), ("-emit-ast",), ("-fsave-optimization-record",), ("-foptimization-record-file=o.yaml",), ("-fstack-usage",),
    ("-Wa,-adhln=x.lst",), ("-fmodules", "-fmodules-cache-path=mc"), ("-fdiagnostics-format=sarif",), ("-fdiagnostics-format=vi",), ("-pipe",), ("-Xclang", "-analyzer-output=html"),
    ("-Xclang", "-analyzer-output=plist-multi-file"), ("-frecord-command-line",), ("-MJ", "frag.json"), ("-MJfrag2.json",), ("-fdebug-compilation-dir=.",), ("-fcolor-diagnostics",),
]
WRITES = [w if isinstance(w, tuple) else (w,) for w in WRITES]
OUTFILES = ("{B}.o", "out/deep/{B}.o", "{B}.d", "dep.d", "joined.d", "wp.d", "xc.d", "dep.dot", "inc.txt", "log.plist", "diag.dia", "{B}.i", "{B}.bc", "{B}.s", "{B}.stats", "{B}.json", "tt.json", "{B}.dwo",
            "{B}.gcno", "{B}.gcda", "{B}.ll", "{B}.ast", "{B}.opt.yaml", "o.yaml", "{B}.su", "x.lst", "frag.json", "frag2.json", "{B}.plist", "{B}.html", "a.out", "{B}.pcm", "{B}.pch", "{B}.dia")


def check_c37():
    chk = Check("C37", explanation="every subset up to the bound of the compiler options that make a compile command write files, from a compilation database or the command line, with and without the static "
                "analyzer, per file and globally, for files that compile and that do not, in a build tree whose outputs exist already or do not: afterwards every file and directory has the name, content, "
                "mode and time it had before, the temporary and home directory are as before, and the report is the one for the same command without the options")
    tree = B.build(True, ["GotoStatement"], [], [B.MCRAW])
    n = 3 if chk.thorough else 2
    jobs = []
    for k in range(0, n + 1):
        for sub in itertools.combinations(range(len(WRITES)), k):
            if sum(WRITES[i][0] == "-o" for i in sub) > 1:
                continue
            if k < 2:
                for via, ana, glob, exist, kind, rep in itertools.product((0, 1), (0, 1), (0, 1), (0, 1), ("good", "bad", "null"), (0, 1)):
                    jobs.append((sub, via, ana, glob, exist, kind, rep))
            elif k == 2:
                for ana, exist in itertools.product((0, 1), (0, 1)):
                    jobs.append((sub, 1, ana, 0, exist, "null", 0))
            else:
                jobs.append((sub, 1, 1, 0, 1, "null", 0))
    consume(chk, tree, _c37_run, jobs, "compile commands")
    chk.bounds = {"output options": len(WRITES), "together": n}
    return chk.finish()


def _c37_inst(tree):
    return R.Inst(tree, rules=("GotoStatement",), reporters=("MCRawReporter",))


def snapshot(*roots):
    r = {}
    for root in roots:
        for d, ds, fs in os.walk(root):
            for n in ds + fs + [""]:
                p = os.path.join(d, n)
                st = os.lstat(p)
                r[p] = (st.st_mode, st.st_mtime_ns, st.st_size, open(p, "rb").read() if n in fs else None)
    return r


def _c37_run(job):
    sub, via, ana, glob, exist, kind, rep = job
    inst = winst("c37", _c37_inst)
    d = inst.workdir()
    try:
        w, tmp = d + "/w", d + "/tmp"
        os.makedirs(w + "/inc")
        os.makedirs(tmp)
        os.makedirs(d + "/report")
        open(w + "/inc/h.h", "w").write("#define X 1\n")
        body = '#include "h.h"\nint f(int *p) { goto a; a: return X; }\n'
        exp_v, exp_e, exp_b = [("goto statement", 2)], [], []
        if kind == "null":
            body = '#include "h.h"\nint f(int *p) { if (!p) return *p; goto a; a: return X; }\n'
            exp_b = [2] if ana else []
        if kind == "bad":
            body += "#error bad\n"
            exp_v, exp_e = [], [3]
        open(w + "/Base.c", "w").write(body)
        if exist:
            for f in OUTFILES:
                f = f"{w}/{f.replace('{B}', 'Base')}"
                os.makedirs(os.path.dirname(f), exist_ok=True)
                open(f, "w").write("kept " + f)
        opts = [a.replace("{B}", "Base") for i in sub for a in WRITES[i]]
        if not via and any(o.startswith("-MJ") for o in opts):
            return dict(bad=None, out="skip")            # clang's own reading of the command line writes it
        args = ["-report-type", "mcraw", *(["-enable-global-analysis"] if glob else []), *(["-enable-clang-static-analyzer"] if ana else []), *(["-o", d + "/report/r"] if rep else [])]
        if via:
            json.dump([dict(directory=w, file="Base.c", arguments=["cc", "-Iinc", *opts, "-c", "Base.c"])], open(w + "/compile_commands.json", "w"))
            tail = ["-p", w, w + "/Base.c"]
        else:
            tail = [w + "/Base.c", "--", "-Iinc", *opts, "-c"]
        before = snapshot(w, tmp, inst.home)
        p = inst.exec([*args, *tail], w, inst.env(TMPDIR=tmp))
        after = snapshot(w, tmp, inst.home)
        bad = None
        diff = sorted(k[len(d):] for k in before.keys() | after.keys() if before.get(k) != after.get(k))
        if diff:
            bad = f"changed: {diff}"
        else:
            try:
                got = json.loads(open(d + "/report/r", "rb").read() if rep else p.stdout)
                g = ([(v[0], v[4]) for v in got["v"]], [v[4] for v in got["e"]], [v[4] for v in got["b"]], p.returncode)
            except (OSError, ValueError) as e:
                g = f"{e!r} exit {p.returncode} {p.stderr[-200:]!r}"
            if g != (exp_v, exp_e, exp_b, 6 if exp_e else 0):
                bad = f"report {g}, expected {(exp_v, exp_e, exp_b)}"
            elif os.listdir(d + "/report") != (["r"] if rep else []):
                bad = f"files beside the report: {os.listdir(d + '/report')}"
        return dict(bad=bad and f"{bad} with {opts} {'database' if via else 'command line'} analyzer={ana} global={glob} outputs exist={exist} {kind}", steps=len(sub), out=(kind, ana, p.returncode), sample=dict(options=opts, exit=p.returncode))
    finally:
        shutil.rmtree(d)


def check(pid):
    return {"C27": check_c27, "C28": check_c28, "C29": check_c29, "C30": check_c30, "C37": check_c37}[pid]()
