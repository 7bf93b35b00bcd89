"""C01-C06, C27-C30: results, thresholds, options, rule selection, reporters, loading, faults, compilation."""
import itertools, json, os, re, shutil, subprocess
import build as B
import run as R
import common as C
from common import Check, pmap, winst

SCRIPT = dict(name="MCScriptRule", src="MCScriptRule.cpp", kind="so", with_=())


def hx(s):
    b = s if isinstance(s, bytes) else s.encode()
    return b.hex() or "."


def script(rules, rows=(), cfg=(), diag=()):
    """rules: [(name, category, priority)]; rows: (rule, mainfile|None, path|None, sl, sc, el, ec, msg);
    diag: (kind, path, line, col, msg); cfg: (rule, key)"""
    out = [f"rule {hx(n)} {hx(c)} {p}" for n, c, p in rules]
    for r, f, p, sl, sc, el, ec, m in rows:
        out.append(f"v {r} {hx(f) if f else '-'} {hx(p) if p is not None else '-'} {sl} {sc} {el} {ec} {hx(m)}")
    out += [f"c {r} {hx(k)}" for r, k in cfg]
    out += [f"{k} {hx(p)} {a} {b} {hx(m)}" for k, p, a, b, m in diag]
    return "\n".join(out) + "\n"


def script_inst(tree, reporters=("MCRawReporter",)):
    return R.Inst(tree, rules=("MCScriptRule",), reporters=reporters)


# ------------------------------------------------------------------ C01
def check_c01():
    chk = Check("C01", explanation="in-process explorer over the real result classes: every history of added violations (15 contents that differ in one field or collide in "
                "the implementation's hash, to the current file / a new file / a new file after an empty one), raw and unique view, every query order, each query twice; "
                "then scripted violations through the real executable with and without -allow-duplicated-violations")
    tree = B.build(True, [], [], [B.MCRAW, SCRIPT, dict(name="MCResults", src="MCResults.cpp", kind="exe", with_=("core",), inc="core")])
    L, D = (4, 4) if chk.thorough else (3, 3)
    chk.bounds = {"history": L, "diagnostics": D, "alphabet": 15}
    out = subprocess.run([tree.extra["MCResults"], str(L), str(D)], stdout=subprocess.PIPE, timeout=800)
    if out.returncode:
        chk.violation(f"result explorer crashed with {out.returncode}", {"stdout": out.stdout.decode(errors="replace")[-2000:]})
        return chk.finish()
    lines = out.stdout.decode().splitlines()
    for l in lines:
        if l.startswith("BAD"):
            chk.violation(l, {"history": l})
    m = re.match(r"STATES (\d+) STEPS (\d+) BAD (\d+)", lines[-1])
    chk.states += int(m[1])
    chk.transitions += int(m[2])
    chk.section("in-process", histories=int(m[1]), steps=int(m[2]))
    # end to end: contents x contents x same/other file
    alpha = [(0, None, 5, 6, 7, 8, "m"), (1, None, 5, 6, 7, 8, "m"), (0, "h", 5, 6, 7, 8, "m"), (0, None, 6, 6, 7, 8, "m"), (0, None, 5, 7, 7, 8, "m"),
             (0, None, 5, 6, 8, 8, "m"), (0, None, 5, 6, 7, 9, "m"), (0, None, 5, 6, 7, 8, "n")]
    jobs = []
    n = 4 if chk.thorough else 3
    for k in range(0, n + 1):
        for seq in itertools.product(range(len(alpha)), repeat=k):
            if seq and (0 not in seq):
                continue
            for dup in (0, 1):
                jobs.append((seq, dup, alpha))
    for r in pmap(chk, tree, _c01_run, jobs):
        chk.states += 1
        chk.traces += 1
        chk.transitions += r["steps"]
        chk.outcomes[str(r["got"])[:100]] += 1
        chk.sample(r["sample"])
        if r["bad"]:
            chk.violation(r["bad"], r)
    chk.section("end to end", runs=len(jobs))
    # many violations, numbers of every size, texts that differ in one place
    jobs = [("many", n, what, again, dup) for n in sweep(chk.thorough) for what in ("msg", "sl", "sc", "ec", "path") for again in ("first", "last", "all", "reversed") for dup in (0, 1)]
    nums = (0, 1, 2, 9, 10, 99, 100, 127, 128, 254, 255, 256, 257, 511, 512, 513, 1000, 32767, 32768, 65535, 65536, 65537, 1 << 20, (1 << 24) + 1, (1 << 24) + 2, (1 << 31) - 2, (1 << 31) - 1)
    jobs += [("numbers", f, nums, 0, dup) for f in range(4) for dup in (0, 1)]
    jobs += [("crossed", f, nums, 0, dup) for f in itertools.combinations(range(4), 2) for dup in (0, 1)]
    jobs += [("texts", w, n, 0, dup) for w in ("msg", "path") for n in ((1, 2, 3, 7, 8, 15, 16, 17, 31, 32, 63, 64, 100, 200) if not chk.thorough else range(1, 240)) for dup in (0, 1)]
    for r in pmap(chk, tree, _c01_big, jobs):
        chk.states += r["steps"]
        chk.traces += 1
        chk.transitions += r["steps"]
        chk.outcomes[str(r["got"])[:100]] += 1
        if r["bad"]:
            chk.violation(r["bad"], r)
    chk.section("sizes", runs=len(jobs))
    return chk.finish()


def sweep(thorough=False):
    """sizes around powers of two and of ten"""
    top = 14 if thorough else 12
    return sorted({max(0, x + d) for x in [1 << k for k in range(0, top + 1)] + [10, 20, 50, 100, 200, 500, 1000, 2000] for d in (-1, 0, 1)})


def _c01_big(job):
    kind, a, b, again, dup = job
    inst = winst("script", script_inst)
    d = inst.workdir()
    try:
        open(f"{d}/a.c", "w").write("int x;\n")
        base = dict(path="p", sl=5, sc=6, el=7, ec=8, msg="m")
        if kind == "many":
            its = [dict(base, **{b: i + 1 if b not in ("msg", "path") else f"{b}{i}"}) for i in range(a)]
            its = its + {"first": its[:1], "last": its[-1:], "all": its, "reversed": its[::-1]}[again]
        elif kind == "numbers":
            its = [dict(base, **{("sl", "sc", "el", "ec")[a]: n}) for n in b]
            its = its + its[::-1]
        elif kind == "crossed":
            f, g = (("sl", "sc", "el", "ec")[i] for i in a)
            its = [dict(base, **{f: x, g: y}) for x in b for y in b]
            its = its + its[::-1]
        else:
            t = ("abcdefghijklmnopqrstuvwxyz" * 10)[:b]
            its = [dict(base, **{a: x}) for x in dict.fromkeys([t] + [t[:i] + c + t[i + 1:] for i in range(b) for c in ("Z", t[i].upper(), " ")] + [t[:i] for i in range(1, b)] + [t + " ", " " + t, t + t, t + "a", t + "Z"])]
            its = its + its[::-1]
        rows = [(0, None, i["path"] if i["path"] != "p" else None, i["sl"], i["sc"], i["el"], i["ec"], i["msg"]) for i in its]
        open(d + "/s", "w").write(script([("r one", "c", 2)], rows))
        p = inst.exec(["-report-type", "mcraw", "-max-priority-2=99999", *(["-allow-duplicated-violations"] if dup else []), "a.c", "--", "-w"], d, inst.env(MCSCRIPT=d + "/s"))
        exp = [("a.c" if i["path"] == "p" else i["path"], i["sl"], i["sc"], i["el"], i["ec"], i["msg"]) for i in its]
        if not dup:
            exp = list(dict.fromkeys(exp))
        bad = None
        try:
            rep = json.loads(p.stdout)
            got = [(v[3].replace(d + "/", ""), *v[4:]) for v in rep["v"]]
            if got != exp:
                diff = [(x, y) for x, y in itertools.zip_longest(got, exp) if x != y][:1]
                bad = f"{len(got)} violations reported, {len(exp)} expected; first difference {diff}"
            elif rep["n"] != len(exp) or rep["p"] != [0, len(exp), 0]:
                bad = f"counts {rep['n']} {rep['p']} for {len(exp)} violations"
        except ValueError:
            bad = f"no report: exit {p.returncode} {p.stderr[-200:]!r}"
        return dict(bad=bad and f"{kind} {str(job[1:])[:100]}: {bad}", steps=len(its), got=(kind, dup))
    finally:
        shutil.rmtree(d)


def _c01_run(job):
    seq, dup, alpha = job
    inst = winst("script", script_inst)
    d = inst.workdir()
    try:
        for f in ("a.c", "b.c"):
            open(f"{d}/{f}", "w").write("int x;\n")
        hdr = d + "/h.h"
        rows = [(alpha[i][0], None, hdr if alpha[i][1] else None, *alpha[i][2:]) for i in seq]
        open(d + "/s", "w").write(script([("r one", "c", 1), ("r two", "c", 2)], rows))
        p = inst.exec(["-report-type", "mcraw", "-max-priority-1=99", "-max-priority-2=99", *(["-allow-duplicated-violations"] if dup else []),
                       "a.c", "b.c", "--", "-w"], d, inst.env(MCSCRIPT=d + "/s"))
        rep = json.loads(p.stdout)
        got = sorted((v[0], v[3].replace(d + "/", ""), *v[4:]) for v in rep["v"])
        exp = []
        # rules run one after the other on each file
        for f in ("a.c", "b.c"):
            for r in (0, 1):
                for i in seq:
                    if alpha[i][0] == r:
                        exp.append((("r one", "r two")[r], "h.h" if alpha[i][1] else f, *alpha[i][2:]))
        if not dup:
            exp = list(dict.fromkeys(exp))
        exp.sort()
        bad = None
        if got != exp:
            bad = f"violations {seq} with duplicates={dup}: expected {exp} got {got}"
        elif rep["n"] != len(exp) or rep["p"] != [sum(e[0] == "r one" for e in exp), sum(e[0] == "r two" for e in exp), 0] or rep["files"] != 2:
            bad = f"counts wrong for {seq} duplicates={dup}: {rep['n']} {rep['p']} files {rep['files']}"
        return dict(steps=len(seq) * 2, got=(len(exp), rep["p"]), bad=bad, sample=dict(seq=seq, dup=dup, violations=len(exp)))
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------------ C02
def check_c02():
    chk = Check("C02", explanation="every combination of violation counts per priority and thresholds around them (and around the default thresholds), with compile errors, "
                "duplicates and -allow-duplicated-violations, run through the real executable; exit status and the summary line on stderr compared with the rule "
                "'errors first, then any count above its threshold'")
    tree = B.build(True, [], ["TextReporter"], [B.MCRAW, SCRIPT])
    jobs = []
    N = 4 if chk.thorough else 3
    for cnt in itertools.product(range(N), repeat=3):
        for th in itertools.product(range(N), repeat=3):
            if not chk.thorough and sum(a != 0 for a in cnt) + sum(a != 0 for a in th) > 5:
                continue
            jobs.append((cnt, th, 0, 0, 0))
    for cnt in itertools.product((0, 1, 2), (0, 9, 10, 11, 20, 21), (0, 10, 11, 19, 20, 21, 22)):
        jobs.append((cnt, (None, None, None), 0, 0, 0))
    for cnt in itertools.product((0, 2), repeat=3):
        for th in itertools.product((0, 1, 2, -1, None), repeat=3):
            jobs.append((cnt, th, 0, 0, 0))
    for cnt in itertools.product((0, 2), repeat=3):
        for th in itertools.product((0, 2), repeat=3):
            for err, dup, allow in itertools.product((0, 1, 2), (0, 1), (0, 1)):
                jobs.append((cnt, th, err, dup, allow))
    for p in (0, 4, 5, -1):
        jobs.append((("p", p), (0, 0, 0), 0, 0, 0))
    for n in sweep(chk.thorough) + ([] if not chk.thorough else [32767, 32768, 65535, 65536, 65537]):
        for i in range(3):
            for t in (n - 1, n, n + 1, n & 255, n % 1000):
                jobs.append((tuple(n if k == i else 0 for k in range(3)), tuple(t if k == i else 0 for k in range(3)), 0, 0, 0))
    for i in range(3):
        for t in (255, 256, 32767, 32768, 65535, 65536, 2 ** 31 - 1):
            for c in (0, 1, 3):
                jobs.append((tuple(c if k == i else 0 for k in range(3)), tuple(t if k == i else 0 for k in range(3)), 0, 0, 0))
    for err in (3, 127, 128, 255, 256, 257, 512, 1000, 1024):
        for cnt in ((0, 0, 0), (2, 0, 0)):
            jobs.append((cnt, (0, 0, 0), err, 0, 0))
    jobs = list(dict.fromkeys(jobs))
    for r in pmap(chk, tree, _c02_run, jobs):
        chk.states += 1
        chk.traces += 1
        chk.transitions += r["steps"]
        chk.outcomes[str(r["exp"])] += 1
        chk.sample(r["sample"])
        if r["bad"]:
            chk.violation(r["bad"], r)
    chk.bounds = {"counts": f"0..{N-1} per priority, plus values around the defaults 0/10/20", "thresholds": f"-1..{N-1} and unset"}
    return chk.finish()


def _c02_run(job):
    cnt, th, err, dup, allow = job
    inst = winst("script", script_inst)
    d = inst.workdir()
    try:
        open(f"{d}/a.c", "w").write("int x;\n")
        rules = [("r one", "c", 1), ("r two", "c", 2), ("r three", "c", 3), ("r odd", "c", cnt[1] if cnt[0] == "p" else 7)]
        c = (0, 0, 0) if cnt[0] == "p" else cnt
        rows = [(i, None, None, k + 1, 1, 1, 1, "m") for i in range(3) for k in range(c[i])]
        if cnt[0] == "p":
            rows = [(3, None, None, 1, 1, 1, 1, "m")]
        if dup:
            rows = [x for r in rows for x in (r, r)]
        diag = [("e", "/x.c", 1, 1, f"boom{k}") for k in range(err)] + [("w", "/x.c", 1, 1, "careful"), ("b", "/x.c", 1, 1, "bug")] * (err > 1)
        open(d + "/s", "w").write(script(rules, rows, (), diag))
        args = [f"-max-priority-{i + 1}={t}" for i, t in enumerate(th) if t is not None]
        p = inst.exec(["-report-type", "mcraw", *args, *(["-allow-duplicated-violations"] if allow else []), "a.c", "--", "-w"], d, inst.env(MCSCRIPT=d + "/s"))
        eff = [t if t is not None else dflt for t, dflt in zip(th, (0, 10, 20))]
        n = [x * (2 if dup and allow else 1) for x in c]
        exp = 6 if err else 5 if any(a > b for a, b in zip(n, eff)) else 0
        bad = None
        line = " ".join(f"P{i + 1}={n[i]}[{eff[i]}]" for i in range(3))
        e = p.stderr.decode()
        if p.returncode != exp:
            bad = f"counts {n} thresholds {eff} errors {err}: exit {p.returncode}, expected {exp}"
        elif (exp == 5) != (line in e and "violations exceed threshold" in e):
            bad = f"counts {n} thresholds {eff} errors {err}: stderr {e!r}, expected line {line if exp == 5 else 'none'}"
        return dict(steps=len(rows), exp=exp, bad=bad, sample=dict(counts=n, thresholds=eff, errors=err, exit=exp))
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------------ C03
# thresholds set by etc, home, project, command line: positive, zero and negative values, different in every layer
TH = {1: (110, 5, 0, -3), 2: (210, 0, -80, 1), 3: (-1, 320, 330, 0)}
RC1 = ("10.5", "0", "-12.5", "13.5")
KEYS = ("output", "report-type", "max-priority-1", "max-priority-2", "max-priority-3", "allow-duplicated-violations", "enable-global-analysis", "rc1", "rc2", "paths")
LAYERS = ("etc", "home", "cwd", "cli")


def check_c03():
    chk = Check("C03", explanation="every subset of the four layers (etc/oclint < $HOME/.oclint < ./.oclint < command line) setting an option to a layer-specific value, for every option "
                "and every pair of options, through the real executable; every option observed by its effect (report file, report format, threshold printed, duplicates kept, value "
                "a rule sees, rule libraries loaded)")
    tree = B.build(True, [], ["TextReporter", "XcodeReporter", "JSONReporter", "XMLReporter"], [B.MCRAW, SCRIPT])
    jobs = []
    K = [k for k in KEYS if k != "enable-global-analysis"]
    for k in K:
        for m in range(16):
            for base in (0, 1):
                jobs.append(({k: m}, base, 0))
    pairs = list(itertools.combinations(K, 2))
    masks = range(16) if chk.thorough else (0, 1, 2, 4, 8, 3, 6, 12, 15)
    for a, b in pairs:
        for m, n in itertools.product(masks, repeat=2):
            jobs.append(({a: m, b: n}, 0, 0))
    for m in range(16):           # all options at once
        jobs.append(({k: m for k in K}, 0, 0))
        for k in K:
            jobs.append(({**{x: m for x in K}, k: 15 ^ m}, 0, 0))
    for combo in itertools.product((None, True, False), repeat=3):      # booleans: true/false/unset per layer
        for cli in (None, True, False):
            jobs.append(({"bool": combo + (cli,)}, 0, 0))
    for nohome in (1, 2):
        for m in range(16):
            jobs.append(({"rc1": m, "max-priority-1": m, "paths": m}, 0, nohome))
    for r in pmap(chk, tree, _c03_run, jobs):
        chk.states += 1
        chk.traces += 1
        chk.transitions += r["steps"]
        chk.outcomes[r["out"]] += 1
        chk.sample(r["sample"])
        if r["bad"]:
            chk.violation(r["bad"], r)
    chk.bounds = {"layers": 4, "options": len(K), "simultaneous options with independent layers": 2}
    return chk.finish()


def yaml_bool(b):
    return "true" if b else "false"


def _c03_inst(tree):
    i = script_inst(tree, ("MCRawReporter", "TextReporter", "XcodeReporter", "JSONReporter", "XMLReporter"))
    # rule libraries in other directories: copies, so that each is a library of its own
    for l in LAYERS:
        os.makedirs(f"{i.root}/rules-{l}")
        shutil.copy(tree.extra["MCScriptRule"], f"{i.root}/rules-{l}/{l}.so")
    os.makedirs(i.root + "/scripts")
    for l in LAYERS:
        open(f"{i.root}/scripts/{l}.so.script", "w").write(script([(f"rule {l}", "c", 3)], [(0, None, None, 1, 1, 1, 1, "here")]))
    return i


def _c03_run(job):
    masks, base, nohome = job
    inst = winst("c03", _c03_inst)
    d = inst.workdir()
    boolsel = masks.get("bool")
    try:
        home = d + "/home"
        os.makedirs(home)
        cwd = d + "/w"
        os.makedirs(cwd)
        etc = inst.etc
        files = {"etc": etc + "/oclint", "home": home + "/.oclint", "cwd": cwd + "/.oclint"}
        types = {"etc": "text", "home": "xcode", "cwd": "json", "cli": "xml"}
        cli = []
        steps = 0

        def on(k, li):
            return bool(masks.get(k, 0) >> li & 1)

        for li, l in enumerate(LAYERS):
            y = []
            rc = []
            if on("output", li):
                y.append(("output", "out-" + l))
            if on("report-type", li):
                y.append(("report-type", types[l]))
            for p in (1, 2, 3):
                if on(f"max-priority-{p}", li):
                    y.append((f"max-priority-{p}", str(TH[p][li])))
            if on("allow-duplicated-violations", li):
                y.append(("allow-duplicated-violations", yaml_bool(li % 2 == 0)))
            if boolsel and boolsel[li] is not None:
                y.append(("allow-duplicated-violations", yaml_bool(boolsel[li])))
            if on("rc1", li):
                rc.append(("KEY_ONE", RC1[li]))
            if on("rc2", li):
                rc.append(("KEY_TWO", f"v {l}"))
            steps += len(y) + len(rc)
            if l == "cli":
                for k, v in y:
                    cli.append(f"-o={v}" if k == "output" else f"-{k}={v}")
                cli += [f"-rc={k}={v}" for k, v in rc]
                if on("paths", li):
                    cli.append(f"-R={inst.root}/rules-{l}")
                continue
            t = "".join(f"{k}: {v}\n" for k, v in y)
            if rc:
                t += "rule-configurations:\n" + "".join(f"  - key: {k}\n    value: {v}\n" for k, v in rc)
            if on("paths", li):
                t += f"rule-paths:\n  - {inst.root}/rules-{l}\n"
            if t or base:
                open(files[l], "w").write(t or "\n")
            elif os.path.exists(files[l]):
                os.unlink(files[l])
        if nohome == 1:
            env_home = None
        elif nohome == 2:
            env_home = d + "/nowhere"
        else:
            env_home = home
        skip = {1} if nohome else set()

        def pick(k, val, dflt):
            best = dflt
            for li in range(4):
                if on(k, li) and li not in skip:
                    best = val(li)
            return best

        e_out = pick("output", lambda li: "out-" + LAYERS[li], "-")
        e_type = pick("report-type", lambda li: types[LAYERS[li]], "text")
        e_th = [pick(f"max-priority-{p}", lambda li: TH[p][li], dflt) for p, dflt in ((1, 0), (2, 10), (3, 20))]
        e_dup = pick("allow-duplicated-violations", lambda li: li % 2 == 0, False)
        if boolsel:
            for b in boolsel:
                if b is not None:
                    e_dup = b
        e1 = pick("rc1", lambda li: RC1[li], None)
        e2 = pick("rc2", lambda li: f"v {LAYERS[li]}", None)
        e_paths = {LAYERS[li] for li in range(4) if on("paths", li) and li not in skip}
        # violations: enough p1 to pass every threshold used, so that the summary line shows the effective thresholds
        rules = [("main", "c", 1), ("m two", "c", 2), ("m three", "c", 3)]
        rows = [(0, None, None, 7, k + 1, 1, 1, "x") for k in range(700)] + [(1, None, None, 8, 1, 1, 1, "dup")] * 2
        # p3 message shows the rule configuration
        open(inst.root + "/scripts/MCScriptRule.so.script", "w").write(script(rules, rows, [(2, "KEY_ONE"), (2, "KEY_TWO")]))
        open(cwd + "/a.c", "w").write("int x;\n")
        env = inst.env(MCSCRIPTDIR=inst.root + "/scripts", HOME=env_home)
        p = inst.exec([*cli, "a.c", "--", "-w"], cwd, env)
        text = None
        bad = None
        made = sorted(f for f in os.listdir(cwd) if f.startswith("out-"))
        if made != ([] if e_out == "-" else [e_out]):
            bad = f"report file: expected {e_out}, found {made}"
        else:
            text = (p.stdout if e_out == "-" else open(f"{cwd}/{e_out}", "rb").read()).decode()
            if e_out != "-" and p.stdout:
                bad = f"output also on stdout: {p.stdout[:80]!r}"
        if text is not None and not bad:
            kind = "json" if text.startswith("{") else "xml" if text.startswith("<?xml") else "text" if "OCLint Report" in text else "xcode"
            if kind != e_type:
                bad = f"report type {kind}, expected {e_type}"
            default = not e_paths
            rep_rules = {l for l in LAYERS if f"rule {l}" in text}
            if rep_rules != e_paths:
                bad = bad or f"rule libraries of {sorted(rep_rules)}, expected those of {sorted(e_paths)}"
            if default:
                m1 = f"KEY_ONE|{e1 or '<unset>'}|{int(float(e1)) if e1 else -77}|{float(e1) if e1 else -7.5:.6f}"
                m2 = f"KEY_TWO|{e2 or '<unset>'}|"
                import html
                t2 = html.unescape(text)
                if m1 not in t2 or m2 not in t2:
                    bad = bad or f"rule configuration: expected {m1!r} and {m2!r}, report has {re.findall(r'KEY_[A-Z]+[^<]{0,40}', t2)}"
                nd = text.count("dup")
                if nd != (2 if e_dup else 1):
                    bad = bad or f"{nd} copies of a duplicate, duplicates allowed = {e_dup}"
                n = [700, 2 if e_dup else 1, 2]
                exceeded = any(a > b for a, b in zip(n, e_th))
                line = " ".join(f"P{i + 1}={n[i]}[{e_th[i]}]" for i in range(3))
                if p.returncode != (5 if exceeded else 0) or exceeded and line not in p.stderr.decode():
                    bad = bad or f"thresholds: expected {line}, exit {p.returncode} {p.stderr.decode()[:200]!r}"
        return dict(steps=steps, bad=bad and f"{bad}  (layers: { {k: v if k == 'bool' else [LAYERS[i] for i in range(4) if v >> i & 1] for k, v in masks.items()} } home={env_home})",
                    out=f"{e_type} {e_dup} {len(e_paths)}", sample=dict(options=str(masks), exit=p.returncode), job=str(job), stderr=p.stderr.decode()[-500:])
    finally:
        shutil.rmtree(d)


# ------------------------------------------------------------------ C04
def check_c04():
    chk = Check("C04", explanation="every history of enable/disable operations up to the bound on the real RulesetFilter (in process), and every assignment of enable/disable/both to rules in the four "
                "layers through the real executable (rules listed and rules that actually reported)")
    tree = B.build(True, [], [], [B.MCRAW, SCRIPT, dict(name="MCFilter", src="MCFilter.cpp", kind="exe", with_=("core", "ruleset", "driverlib"), inc="driver", pch=False)])
    L = 7 if chk.thorough else 6
    out = subprocess.run([tree.extra["MCFilter"], str(L)], stdout=subprocess.PIPE, timeout=850)
    lines = out.stdout.decode(errors="replace").splitlines()
    if out.returncode or not lines:
        chk.violation(f"filter explorer ended with {out.returncode}", {"stdout": lines[-5:]})
        return chk.finish()
    for l in lines:
        if l.startswith("BAD"):
            chk.violation(l, {"history": l})
    m = re.match(r"STATES (\d+) STEPS (\d+) BAD (\d+)", lines[-1])
    chk.states += int(m[1])
    chk.transitions += int(m[2])
    chk.section("in-process", histories=int(m[1]))
    jobs = []
    opts = ("", "e", "d", "ed")
    for a in itertools.product(opts, repeat=4):
        jobs.append((a, ("",) * 4))
        for i in range(4):
            for b in opts[1:]:
                jobs.append((a, tuple(b if j == i else "" for j in range(4))))
        if chk.thorough:
            for b in itertools.product(("", "e", "d"), repeat=4):
                jobs.append((a, b))
    jobs = list(dict.fromkeys(jobs))
    for r in pmap(chk, tree, _c04_run, jobs):
        chk.states += 1
        chk.traces += 1
        chk.transitions += r["steps"]
        chk.outcomes[r["out"]] += 1
        chk.sample(r["sample"])
        if r["bad"]:
            chk.violation(r["bad"], r)
    chk.section("end to end", runs=len(jobs))
    chk.bounds = {"operations": L, "rules": 3, "layers": 4}
    return chk.finish()


C04_NAMES = ("alpha one", "beta two", "gamma")
C04_IDS = ("AlphaOne", "BetaTwo", "Gamma")


def _c04_run(job):
    inst = winst("script", script_inst)
    d = inst.workdir()
    try:
        os.makedirs(d + "/home")
        open(f"{d}/a.c", "w").write("int x;\n")
        open(d + "/s", "w").write(script([(n, "c", 3) for n in C04_NAMES], [(i, None, None, 1, 1, 1, 1, "m") for i in range(3)]))
        files = (inst.etc + "/oclint", d + "/home/.oclint", d + "/.oclint")
        en, dis = [], []
        state = {}
        args = []
        for li in range(4):
            e = [C04_IDS[k] for k in (0, 1) if "e" in job[k][li]]
            x = [C04_IDS[k] for k in (0, 1) if "d" in job[k][li]]
            for n in e:
                state[n] = 1
            for n in x:
                state[n] = 0
            if li < 3:
                t = ("rules:\n" + "".join(f"  - {n}\n" for n in e) if e else "") + ("disable-rules:\n" + "".join(f"  - {n}\n" for n in x) if x else "")
                open(files[li], "w").write(t)
            else:
                args = [f"-rule={n}" for n in e] + [f"-disable-rule={n}" for n in x]
        picked = any(v == 1 for v in state.values())
        exp = [n for n in C04_IDS if (state.get(n) == 1 if picked else state.get(n) != 0)]
        p = inst.exec(["-report-type", "mcraw", "-list-enabled-rules", *args, "a.c", "--", "-w"], d, inst.env(MCSCRIPT=d + "/s", HOME=d + "/home"))
        head, _, js = p.stdout.decode().partition("\n\n")
        listed = re.findall(r"^- (.*)$", head, re.M)
        got = sorted(v[0] for v in json.loads(js)["v"])
        bad = None
        if sorted(listed) != exp:
            bad = f"listed {listed}, expected {exp}"
        elif got != sorted(C04_NAMES[C04_IDS.index(n)] for n in exp):
            bad = f"rules that reported: {got}, expected {exp}"
        return dict(steps=sum(len(x) for j in job for x in j), bad=bad and f"{bad} for {job}", out=str(exp), sample=dict(layers=str(job), enabled=exp))
    finally:
        for f in (inst.etc + "/oclint",):
            if os.path.exists(f):
                os.unlink(f)
        shutil.rmtree(d)


FUNCS = {"C01": check_c01, "C02": check_c02, "C03": check_c03, "C04": check_c04}


def check(pid):
    return FUNCS[pid]()
