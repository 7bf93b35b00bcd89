"""C39 documentation: what oclint-docgen writes for every set of rules, and whether the shipped rules behave as documented."""
import itertools, os, re, shutil, subprocess, tempfile
import build as B, common, run as R

EXPL = ("oclint-docgen and all distributed rules are built with -DDOCGEN. It is run with every sequence of scripted rules up to the bound (metadata enumerated) and its pages are parsed and compared with a model; "
        "then with the real rules: every documented limit is compared with the behaviour of the rule for every measure around it, with every setting around it and with none, every documented suppression is applied, every documented source file is compiled and asked for its name. "
        "states = rule sets plus (rule, measure, setting) triples, transitions = rules documented plus programs linted, traces = runs.")


# ---------------------------------------------------------------- pages

def parse_page(text):
    """(title, [(identifier, {section: text})])"""
    lines = text.split("\n")
    title = lines[0]
    if len(lines) < 2 or lines[1] != "=" * len(title) or not title:
        raise ValueError("no title at the top")
    foot = [i for i, l in enumerate(lines) if l.startswith(".. Generated on ")]
    if len(foot) != 1 or any(l.strip() for l in lines[foot[0] + 1:]):
        raise ValueError("the footer is missing or repeated")
    body = lines[2:foot[0]]
    heads = [i for i in range(len(body) - 1) if body[i] and body[i + 1] and set(body[i + 1]) == {"-"} and (not i or not body[i - 1].strip())]
    if any(l.strip() for l in body[:heads[0] if heads else len(body)]):
        raise ValueError("text before the first rule")
    out = []
    for i, h in enumerate(heads):
        if len(body[h + 1]) < len(body[h]):
            raise ValueError("the underline of %r is too short" % body[h])
        out.append((body[h], "\n".join(body[h + 2:heads[i + 1] if i + 1 < len(heads) else len(body)])))
    return title, out


def sections(text):
    """the text of one rule, taken apart; None if it has another shape"""
    m = re.fullmatch(r"\s*\*\*Since: (?P<since>.*?)\*\*\s*\n\s*\*\*Name: (?P<name>.*?)\*\*\s*?\n(?P<description>.*?)\n\s*This rule is defined by the following class: `(?P<file>\S*)\s+<(?P<url>\S*)>`_"
                     r"\s*?\n\s*\*\*Example:\*\*\n(?P<example>.*?)"
                     r"(?:\n\*\*Thresholds:\*\*\n(?P<thresholds>.*?))?(?:\n\*\*Suppress:\*\*\n\s*\.\. code-block:: cpp\s*\n+ +__attribute__\(\(annotate\(\"(?P<suppress>.*?)\"\)\)\)\s*?\n(?P<rest>.*?))?", text, re.S)
    return m and {k: v for k, v in m.groupdict().items()}


def norm(s):
    return "\n".join(l.rstrip() for l in (s or "").strip("\n").split("\n")).strip("\n")


F = ("name", "category", "since", "description", "example", "suppress", "attribute", "additional", "file")


def identifier(name):
    n = name[:1].upper() + name[1:]
    n = "".join(c.upper() if i and not n[i - 1].isalpha() and c.islower() else c for i, c in enumerate(n))
    return "".join(c for c in n if c.isalpha())


def rule(name, category="basic", since="0.4", description="Some text.", example="\n.. code-block:: cpp\n\n    void example();\n    ", suppress="0", attribute="-", additional="", file="-", thresholds=()):
    return (name, category, since, description, example, suppress, attribute, additional, file, thresholds)


def expected(r):
    name, cat, since, desc, ex, sup, attr, add, file, thr = r
    ident = identifier(name)
    path = f"oclint-rules/rules/{cat}/{ident + 'Rule.cpp' if file == '-' else file}"
    d = dict(since=since, name=name, description=norm(desc), file=path, url="https://github.com/oclint/oclint/blob/master/" + path)
    tail = norm(ex)
    d["example"] = tail
    d["thresholds"] = sorted(dict(thr).items())
    d["suppress"] = f"oclint:suppress[{name if attr == '-' else attr}]" if sup == "1" else None
    d["additional"] = norm(add)
    return ident, d


def observed(text, want):
    s = sections(text)
    if s is None:
        return None
    d = dict(since=s["since"], name=s["name"], description=norm(s["description"]), file=s["file"], url=s["url"], suppress=s["suppress"])
    # the additional text follows the last section
    last = "rest" if s["suppress"] is not None else "thresholds" if s["thresholds"] is not None else "example"
    t = norm(s[last])
    add = want["additional"]
    if add:
        d["additional"] = add if t.endswith(add) else "(missing)"
        if t.endswith(add):
            t = norm(t[:-len(add)])
    else:
        d["additional"] = ""
    s[last] = t
    if last == "rest" and t:
        d["additional"] += "\n" + t
    d["example"] = norm(s["example"])
    d["thresholds"] = sorted(re.findall(r"^(\S+)\n    (.*?)$", norm(s["thresholds"]), re.M)) if s["thresholds"] is not None else []
    if s["thresholds"] is not None and len([l for l in norm(s["thresholds"]).split("\n") if l.strip()]) != 2 * len(d["thresholds"]):
        d["thresholds"].append("(other text)")
    return d


def compare(rules, root):
    """what the documentation directory should hold for these rules"""
    bad = []
    try:
        idx = open(os.path.join(root, "index.rst")).read()
    except OSError:
        return ["there is no index"]
    cats = sorted({r[1] for r in rules})
    m = re.search(r"includes (\d+) rules", idx)
    if not m or int(m[1]) != len(rules):
        bad.append(f"the index counts {m and m[1]} rules instead of {len(rules)}")
    got = idx.split(":maxdepth: 2", 1)[-1].split(".. Generated on")[0].split()
    if got != cats:
        bad.append(f"the index lists {got} instead of {cats}")
    for c in cats:
        mine = [r for r in rules if r[1] == c]
        try:
            title, entries = parse_page(open(os.path.join(root, c + ".rst"), errors="surrogateescape").read())
        except (OSError, ValueError) as e:
            bad.append(f"page {c}: {e}")
            continue
        if title != c[0].upper() + c[1:]:
            bad.append(f"page {c} is titled {title!r}")
        want = sorted(expected(r)[0] for r in mine)
        if [e[0] for e in entries] != want:
            bad.append(f"page {c} documents {[e[0] for e in entries]} instead of {want}")
            continue
        for ident in sorted(set(want)):
            texts = [t for i, t in entries if i == ident]
            models = [expected(r)[1] for r in mine if expected(r)[0] == ident]
            # rules of one identifier may be in either order
            if not any(all(observed(t, w) == w for t, w in zip(texts, p)) for p in itertools.permutations(models)):
                w = models[0]
                o = observed(texts[0], w)
                bad.append(f"page {c}, {ident}: " + ("not laid out as documented" if o is None else "; ".join(f"{k} is {o[k]!r} instead of {w[k]!r}" for k in w if o[k] != w[k]) or "wrong"))
    extra = sorted(set(os.listdir(root)) - {c + ".rst" for c in cats} - {"index.rst"})
    return bad, extra


def _scripted(a):
    seqs, exe, lib = a
    return a, common.winst(("docgen", exe, lib), lambda _: _Doc(exe, lib)).run(seqs)


class _Doc:
    def __init__(self, exe, lib):
        self.exe = exe
        self.top = tempfile.mkdtemp(prefix="d", dir=R._scratch)
        os.makedirs(self.top + "/rules")
        if lib:
            shutil.copy2(lib, self.top + "/rules/")
        self.n = 0

    def close(self):
        shutil.rmtree(self.top, ignore_errors=True)

    def once(self, rules, w):
        if rules is not None:
            with open(w + "/spec", "w", errors="surrogateescape") as f:
                for r in rules:
                    f.write("\x1f".join([*r[:9], *(x for kv in r[9] for x in kv)]) + "\x1e")
        p = subprocess.run([self.exe, "-R", self.top + "/rules", "docgen"], cwd=w + "/run", capture_output=True, text=True, errors="replace", timeout=120,
                           env={"PATH": os.environ.get("PATH", ""), "MC_DOC": w + "/spec", "TZ": "UTC", "LANG": "C.UTF-8"})
        return p

    def run(self, seqs):
        """a history of runs into one directory"""
        self.n += 1
        w = f"{self.top}/w{self.n}"
        root = w + "/build/oclint-docs/rules"
        os.makedirs(w + "/run")
        os.makedirs(root)
        bad = []
        try:
            before = {}
            cats = set()
            for rules in seqs:
                p = self.once(rules, w)
                if not rules:
                    if p.returncode == 0:
                        bad.append("no rule is loaded and the run succeeds")
                    after = {f: open(f"{root}/{f}", "rb").read() for f in os.listdir(root)}
                    if after != before:
                        bad.append("no rule is loaded and the documentation changes")
                    continue
                if p.returncode:
                    bad.append(f"exit {p.returncode} {p.stderr[-300:]}")
                    break
                r = compare(rules, root)
                if isinstance(r, list):
                    bad += r
                    break
                b, extra = r
                bad += b
                new = set(extra) - {c + ".rst" for c in cats}
                if new:
                    bad.append(f"unexpected files {sorted(new)}")
                for f in extra:
                    if f not in new and open(f"{root}/{f}", "rb").read() != before[f]:
                        bad.append(f"{f}, a page of an earlier run, changed")
                cats |= {x[1] for x in rules}
                before = {f: open(f"{root}/{f}", "rb").read() for f in os.listdir(root)}
            return bad
        finally:
            shutil.rmtree(w, ignore_errors=True)


def scripted(thorough):
    """histories (tuples of rule sequences)"""
    kinds = [rule(n, c) for c in ("basic", "size") for n in ("alpha", "beta gamma", "zeta")]
    for n in range(0, 5 if thorough else 4):
        for q in itertools.product(kinds, repeat=n):
            if len(set(q)) == len(q):
                yield (q,)
    # one rule, every combination of what it says
    for sup, attr, add, file, thr, n in itertools.product("01", ("-", "other word"), ("", "**References:**\n\nSome text.\n"), ("-", "OtherRule.cpp"), range(8 if thorough else 6), (1, 2)):
        ts = [(), (("LIMIT", "The limit, default value is 3."),), (("B", "two"), ("A", "one")), (("A", "one"), ("B", "two"), ("C", "three")), (("A", "."),), (("A_B_C", "x" * 300),), (("Z", "1"), ("A", "1")), (("AA", "A"), ("A", "AA"))][thr]
        q = [rule("first thing", suppress=sup, attribute=attr, additional=add, file=file, thresholds=ts)]
        if n == 2:
            q = [q[0], rule("second thing")] if sup == "0" else [rule("a thing"), q[0]]
        yield (tuple(q),)
    # texts
    texts = ["x", "a\n\nb", "a ``code`` b", "`link <http://x/>`_", "a * b", "1\n2", "\u00e9\u4e2d", "\\ back", '"quoted" \'single\'', "<&>", "%s %d {} $x", "a" * 5000, "  lead", "tail. "]
    for t in texts:
        yield ((rule("some thing", description=t),),)
        yield ((rule("some thing", example="\n.. code-block:: cpp\n\n    " + t.strip().replace("\n", "\n    ") + "\n    "),),)
        yield ((rule("some thing", additional=t, suppress="1"),),)
        if "\n" not in t:
            yield ((rule("some thing", since=t.strip()),),)
            yield ((rule("some thing", thresholds=(("KEY", t.rstrip()),)),),)
    names = ["a", "short name", "use C++", "if statement", "2 many", "x-y z", "UPPER CASE", "an ivar's name", "e m p t y", "n" * 300, "same", "Same"]
    for n in names:
        for sup in "01":
            yield ((rule(n, suppress=sup),),)
    for a, b in itertools.permutations(names, 2):
        yield ((rule(a), rule(b)),)
    cats = ["a", "basic", "Basic", "objc", "x1", "long category".replace(" ", "-")]
    for a, b in itertools.permutations(cats, 2):
        yield ((rule("one", a), rule("two", b), rule("three", a)),)
    # numbers of rules
    for n in list(range(1, 41 if thorough else 24)) + [99, 100, 101, 255, 256, 257]:
        ws = ["".join(chr(97 + (i // 26 ** k) % 26) for k in range(3)) for i in range(n)]
        yield (tuple(rule(x, "c" + str(i % 3)) for i, x in enumerate(ws)),)
        yield (tuple(rule(x, "c" + str(i % 7)) for i, x in enumerate(reversed(ws))),)
    # histories
    some = [(), (kinds[0],), (kinds[3],), (kinds[0], kinds[3]), (kinds[2], kinds[1], kinds[0]), (kinds[5], kinds[2])]
    for n in (2, 3):
        for h in itertools.product(some, repeat=n):
            yield h


# ---------------------------------------------------------------- the shipped rules

def listed():
    """rules the build lists"""
    out = {}
    S = B.sources()["rules"]
    for f in B.G("oclint-rules/rules/*/CMakeLists.txt"):
        text = re.sub(r"#[^\n]*", "", open(f).read())
        for m in re.finditer(r"LIST_OF_RULES([^)]*)\)", text):
            for n in m[1].split():
                if n in S and os.path.dirname(S[n]) == os.path.dirname(f):
                    out[n] = S[n]
    return out


def lines(n):
    return "\n" * max(n, 0)


def word(n):
    return ("v" + "abcdefghij" * (n // 10 + 1))[:n]


# rule -> (how many of what it measures, program with that measure, smallest measure, reported when) ; programs are C++
MEASURES = {
    "LongMethod": (lambda m: "void f()\n{%s}\n" % lines(m - 1), 1, ">"),
    "LongClass": (lambda m: "class C {%s};\n" % lines(m - 1), 1, ">"),
    "LongLine": (lambda m: "int a" + ";" * (m - 5) + "\n", 6, ">"),
    "CyclomaticComplexity": (lambda m: "void g(); void f(int a) { " + "if (a) g(); " * (m - 1) + "}\n", 1, ">"),
    "NPathComplexity": (lambda m: "void g(); void f(int a) { if (a" + " && a" * (m - 2) + ") g(); }\n", 2, ">"),
    "NcssMethodCount": (lambda m: "void g(); void f() { " + "g(); " * (m - 1) + "}\n", 1, ">"),
    "NestedBlockDepth": (lambda m: "void f() " + "{ " * m + "} " * m + "\n", 1, ">"),
    "TooManyFields": (lambda m: "class C { " + " ".join(f"int v{i};" for i in range(m)) + " };\n", 0, ">"),
    "TooManyMethods": (lambda m: "class C { " + " ".join(f"void f{i}();" for i in range(m)) + " };\n", 0, ">"),
    "TooManyParameters": (lambda m: "void f(" + ", ".join(f"int v{i}" for i in range(m)) + ") { }\n", 0, ">"),
    "LongVariableName": (lambda m: f"int {word(m)};\n", 1, ">"),
    "ShortVariableName": (lambda m: f"int {word(m)};\n", 1, "<"),
    "TooFewBranchesInSwitchStatement": (lambda m: "void f(int a) { switch (a) { " + " ".join(f"case {i}: break;" for i in range(m)) + " default: break; } }\n", 0, "<"),
}
SUPPRESSED = {  # rule -> program with %s where its declaration takes an attribute; rc
    "CyclomaticComplexity": ("void g(); %s void f(int a) { if (a) g(); }\n", ("CYCLOMATIC_COMPLEXITY=1",)),
    "NPathComplexity": ("void g(); %s void f(int a) { if (a) g(); }\n", ("NPATH_COMPLEXITY=1",)),
    "NcssMethodCount": ("void g(); %s void f() { g(); g(); }\n", ("NCSS_METHOD=1",)),
    "UnusedMethodParameter": ("void f(int abc %s) { }\n", ()),
    "UnusedLocalVariable": ("void f() { %s int abc; }\n", ()),
}


def _lint(a):
    """how often the rule reports each of the programs"""
    rulename, progs, rcs = a
    inst = common.winst(("lint",), R.Inst)
    opts = []
    for rc in rcs:
        opts += ["-rc", rc]
    res = inst.lint({f"p{i}.cpp": p for i, p in enumerate(progs)}, ["-rule", rulename, *opts], ["-std=c++14"])
    if res["e"]:
        raise RuntimeError(f"{res['e']} in {progs}")
    return a, [sum(v[3] == f"p{i}.cpp" for v in res["v"]) for i in range(len(progs))]


def check(pid):
    chk = common.Check("C39", explanation=EXPL)
    ship = listed()
    exe, real, script = B.build_docgen(sorted(ship))
    tree = B.build(True, sorted(set(MEASURES) | set(SUPPRESSED)), [], [B.MCRAW, dict(name="RuleInfo", src="RuleInfo.cpp", kind="exe", inc="core", with_=("core", "ruleset"))])
    jobs = [(h, exe, script) for h in scripted(chk.thorough)]
    for (h, _, _), bad in common.pmap(chk, tree, _scripted, jobs):
        chk.states += 1
        chk.transitions += sum(len(q) for q in h)
        chk.traces += len(h)
        chk.outcomes[f"{min(9, sum(len(q) for q in h))} rules"] += 1
        for b in bad:
            chk.violation(b + f" for {[[r[0] + '/' + r[1] for r in q][:8] for q in h]}", {"rules": h, "what": b})
        if chk.traces % 211 == 1:
            chk.sample({"histories": [[r[0] + "/" + r[1] for r in q] for q in h]})
    chk.section("scripted rules", histories=len(jobs))
    shipped(chk, tree, exe, real, ship)
    chk.bounds = {"scripted rules": 4 if chk.thorough else 3, "runs into one directory": 3, "around each limit": reach(chk)}
    return chk.finish()


def reach(chk):
    return 6 if chk.thorough else 3


def shipped(chk, tree, exe, real, ship):
    d = _Doc(exe, real)
    try:
        w = d.top + "/w"
        os.makedirs(w + "/run")
        root = w + "/build/oclint-docs/rules"
        os.makedirs(root)
        p = d.once(None, w)
        chk.traces += 1
        if p.returncode:
            chk.violation(f"oclint-docgen with the distributed rules: exit {p.returncode} {p.stderr[-300:]}", {"what": p.stderr})
            return
        idx = open(root + "/index.rst").read()
        pages = {f[:-4]: parse_page(open(f"{root}/{f}").read()) for f in os.listdir(root) if f != "index.rst"}
    except (OSError, ValueError) as e:
        chk.violation(f"documentation of the distributed rules: {e}", {"what": str(e)})
        return
    finally:
        d.close()
    info = R_info(tree, ship, chk)
    docs = {}
    for c, (title, entries) in pages.items():
        for ident, text in entries:
            s = sections(text)
            if s is None:
                chk.violation(f"page {c}, {ident}: not laid out as documented", {"page": c, "rule": ident, "text": text})
                continue
            docs.setdefault(ident, []).append((c, s))
    m = re.search(r"includes (\d+) rules", idx)
    n = sum(map(len, info.values()))
    if not m or int(m[1]) != n:
        chk.violation(f"the index counts {m and m[1]} rules, {n} are built", {"what": "index"})
    have, built = sorted(i for i, e in docs.items() for _ in e), sorted(r[2] for rs in info.values() for r in rs)
    if have != built:
        chk.violation(f"the rules documented are not those built: {sorted(set(have) ^ set(built))}", {"documented": have, "built": built})
    for n, (name, cat, ident, attr) in sorted((n, r) for n, rs in info.items() for r in rs):
        chk.states += 1
        chk.transitions += 1
        chk.traces += 1
        e = docs.get(ident)
        if not e:
            continue
        c, s = e[0]
        path = os.path.relpath(ship[n], B.REPO)
        for what, got, want in (("category", c, cat), ("name", s["name"], name), ("source file", s["file"], path), ("link", s["url"], "https://github.com/oclint/oclint/blob/master/" + path)):
            if got != want:
                chk.violation(f"the documented {what} of {n} is {got!r} instead of {want!r}", {"rule": n, "documented": got, "real": want})
        if not re.fullmatch(r"\d+(\.\d+)+", s["since"]):
            chk.violation(f"the documented version of {n} is {s['since']!r}", {"rule": n})
        if not s["description"].strip() or not s["example"].strip():
            chk.violation(f"the description or example of {n} is empty", {"rule": n})
        if s["suppress"] is not None and s["suppress"] != f"oclint:suppress[{attr}]":
            chk.violation(f"the documented suppression of {n} is {s['suppress']!r}; the rule is called {attr!r} there", {"rule": n})
    chk.section("distributed rules", rules=len(ship))
    # limits
    jobs = {}
    k = reach(chk)
    for n in sorted(MEASURES):
        if n not in info or info[n][0][2] not in docs:
            continue
        prog, least, op = MEASURES[n]
        ident = info[n][0][2]
        thr = docs[ident][0][1]["thresholds"]
        ts = re.findall(r"^(\S+)\n    (.*?)$", norm(thr), re.M) if thr else []
        if len(ts) != 1 or not re.search(r"default value is (\d+)", ts[0][1]):
            chk.violation(f"{n} has a limit, documented are {ts}", {"rule": n, "thresholds": ts})
            continue
        key, dflt = ts[0][0], int(re.search(r"default value is (\d+)", ts[0][1])[1])
        ms = [m for m in range(dflt - k, dflt + k + 1) if m >= least]
        for v in [None, *(x for x in range(dflt - k, dflt + k + 1) if x >= 0)]:
            lim = dflt if v is None else v
            jobs[ident, tuple(prog(m) for m in ms), () if v is None else (f"{key}={v}",)] = (n, key, dflt, ms, [int(m > lim if op == ">" else m < lim) for m in ms])
    for a, got in common.pmap(chk, tree, _lint, list(jobs)):
        n, key, dflt, ms, want = jobs[a]
        chk.traces += 1
        for m, g, w, prog in zip(ms, got, want, a[1]):
            chk.states += 1
            chk.transitions += 1
            chk.outcomes["reported" if g else "not reported"] += 1
            if bool(g) != bool(w):
                chk.violation(f"{n}: documented is {key} with default {dflt}; with {a[2][0] if a[2] else 'no option'} a program that measures {m} is reported {g} times", {"rule": n, "program": prog, "options": a[2], "reports": g})
    chk.section("limits", rules=len({j[0] for j in jobs}), runs=len(jobs))
    # suppressions
    texts = sorted({s["suppress"] for e in docs.values() for _, s in e if s["suppress"] is not None})
    jobs = {}
    for n in sorted(SUPPRESSED):
        if n in info and info[n][0][2] in docs:
            prog, rcs = SUPPRESSED[n]
            own = docs[info[n][0][2]][0][1]["suppress"]
            progs = [prog % ("" if t is None else f'__attribute__((annotate("{t}")))') for t in [None, *texts]]
            jobs[info[n][0][2], tuple(progs), rcs] = (n, own, [int(t is None or t != own) for t in [None, *texts]])
    for a, got in common.pmap(chk, tree, _lint, list(jobs)):
        n, own, want = jobs[a]
        chk.traces += 1
        for g, w, prog in zip(got, want, a[1]):
            chk.states += 1
            chk.transitions += 1
            if g != w:
                chk.violation(f"{n} documents the suppression {own!r}; {prog!r} is reported {g} times", {"rule": n, "program": prog, "documented": own, "reports": g})
    chk.section("suppressions", rules=len(jobs), texts=len(texts))


def R_info(tree, ship, chk):
    """name, category, identifier, attribute as the libraries without -DDOCGEN say"""
    full = B.build(False, sorted(ship), [], [])
    out = {}
    p = subprocess.run([tree.extra["RuleInfo"], *(full.rules[n] for n in sorted(ship))], capture_output=True, text=True, timeout=120)
    by = {full.rules[n]: n for n in ship}
    for l in p.stdout.splitlines():
        f = l.split("\t")
        out.setdefault(by[f[0]], []).append((f[1], f[3], f[4], f[5]))
    return out
