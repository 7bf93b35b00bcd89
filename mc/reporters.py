"""C05, C06: the reporters."""
import calendar, collections, datetime, html.parser, itertools, json, os, re, subprocess, tempfile, time
import xml.etree.ElementTree as ET
import build as B
import run as R
import common as C
from common import Check, pmap, batched
from core import hx, sweep as core_sweep

NAMES = ("HTMLReporter", "JSONReporter", "PMDReporter", "TextReporter", "XMLReporter", "XcodeReporter")
V = collections.namedtuple("V", "rule cat prio path sl sc el ec msg")        # rule None: diagnostic
Case = collections.namedtuple("Case", "files errors warnings bugs now")       # files: tuple of tuples of V


def run_cases(tree, cases):
    """-> list of {reporter: bytes}"""
    with tempfile.NamedTemporaryFile("w", suffix=".script") as f:
        for c in cases:
            f.write(f"case {c.now}\n")
            rules = {}
            for vs in c.files:
                for v in vs:
                    if (v.rule, v.cat, v.prio) not in rules:
                        rules[v.rule, v.cat, v.prio] = len(rules)
                        f.write(f"rule {hx(v.rule)} {hx(v.cat)} {v.prio}\n")
            for vs in c.files:
                f.write("file\n")
                for v in vs:
                    f.write(f"v {rules[v.rule, v.cat, v.prio]} {hx(v.path)} {v.sl} {v.sc} {v.el} {v.ec} {hx(v.msg)}\n")
            for k, l in (("e", c.errors), ("w", c.warnings), ("b", c.bugs)):
                for v in l:
                    f.write(f"{k} {hx(v.path)} {v.sl} {v.sc} {v.el} {v.ec} {hx(v.msg)}\n")
        f.flush()
        p = subprocess.run([tree.extra["MCReport"], f.name, *(tree.reporters[n] for n in NAMES)], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           env={"TZ": "UTC", "PATH": "/usr/bin:/bin"}, timeout=300)
        if p.returncode:
            raise Crash(p.returncode, p.stderr[-500:])
        out = []
        buf, pos = p.stdout, 0
        for c in cases:
            r = {}
            for n in NAMES:
                nl = buf.index(b"\n", pos)
                k = int(buf[pos:nl])
                r[n] = buf[nl + 1:nl + 1 + k]
                pos = nl + 1 + k
            out.append(r)
        return out


class Crash(Exception):
    pass


class Bad(Exception):
    pass


def need(c, what):
    if not c:
        raise Bad(what)


# ---- parsers: report bytes -> dict(violations, errors, warnings, bugs, summary...)
def viol(v, diag=False):
    return (None if diag else v.rule, None if diag else v.cat, None if diag else v.prio, v.path, v.sl, v.sc, v.msg)


def endpos(v):
    return (v.el, v.ec) if v.el != 0 and v.ec != 0 else None


def check_xml(raw, c):
    try:
        t = ET.fromstring(raw)
    except ET.ParseError as e:
        raise Bad(f"XML report is not well-formed: {e}")
    need(t.tag == "oclint" and t.get("version") and t.get("url"), "root element")

    def row(e):
        end = (int(e.get("endline")), int(e.get("endcolumn"))) if e.get("endline") is not None or e.get("endcolumn") is not None else None
        return (e.get("rule"), e.get("category"), int(e.get("priority")) if e.get("priority") is not None else None, e.get("path"), int(e.get("startline")),
                int(e.get("startcolumn")), e.get("message"), end)

    vs = [v for f in c.files for v in f]
    got = [row(e) for e in t.find("violations")]
    need(got == [viol(v) + (endpos(v),) for v in vs], f"XML violations {got[:3]}")
    got = [row(e) for e in t.find("clangstaticanalyzer")]
    need(got == [viol(v, True) + (endpos(v),) for v in c.bugs], f"XML checker bugs {got[:3]}")
    s = {p.get("name"): int(p.text) for p in t.find("summary")}
    exp = {"number of files": len(c.files), "files with violations": fwv(c)}
    for p in (1, 2, 3):
        exp[f"number of priority {p} violations"] = sum(v.prio == p for v in vs)
    need(s == exp, f"XML summary {s}, expected {exp}")
    g = time.gmtime(c.now)
    iso = f"{g.tm_year:04}-{g.tm_mon:02}-{g.tm_mday:02}T{g.tm_hour:02}:{g.tm_min:02}:{g.tm_sec:02}Z"
    need(t.find("datetime").text == iso, f"XML datetime {t.find('datetime').text}, expected {iso}")


def fwv(c):
    return len({f[0].path for f in c.files if f})


def uniq_pairs(p):
    d = dict(p)
    if len(d) != len(p):
        raise Bad("JSON object with a repeated key")
    return d


def check_json(raw, c):
    try:
        t = json.loads(raw.decode(), object_pairs_hook=uniq_pairs)
    except ValueError as e:
        raise Bad(f"JSON report is not valid: {e}")

    def row(e):
        end = (e["endLine"], e["endColumn"]) if "endLine" in e or "endColumn" in e else None
        return (e.get("rule"), e.get("category"), e.get("priority"), e["path"], e["startLine"], e["startColumn"], e["message"], end)

    vs = [v for f in c.files for v in f]
    got = [row(e) for e in t["violation"]]
    need(got == [viol(v) + (endpos(v),) for v in vs], f"JSON violations {got[:3]}")
    got = [row(e) for e in t["clangStaticAnalyzer"]]
    need(got == [viol(v, True) + (endpos(v),) for v in c.bugs], f"JSON checker bugs {got[:3]}")
    s = t["summary"]
    need(s["numberOfFiles"] == len(c.files) and s["numberOfFilesWithViolations"] == fwv(c), f"JSON summary {s}")
    exp = [(p, sum(v.prio == p for v in vs)) for p in (1, 2, 3)]
    need([(x["priority"], x["number"]) for x in s["numberOfViolationsWithPriority"]] == exp, f"JSON summary {s}")
    need(t["timestamp"] == c.now and t["version"] and t["url"], "JSON header")


def check_pmd(raw, c):
    try:
        t = ET.fromstring(raw)
    except ET.ParseError as e:
        raise Bad(f"PMD report is not well-formed: {e}")
    need(t.tag == "pmd" and t.get("version"), "root element")
    got = []
    for f in t:
        need(f.tag == "file" and len(f) == 1 and f[0].tag == "violation", "PMD structure")
        e = f[0]
        got.append((e.get("rule"), e.get("ruleset"), int(e.get("priority")), f.get("name"), int(e.get("beginline")), int(e.get("begincolumn")), int(e.get("endline")),
                    int(e.get("endcolumn")), (e.text or "").strip()))
    exp = []
    for k, p, l in (("compiler error", 1, c.errors), ("compiler warning", 2, c.warnings)):
        exp += [(k, "clang", p, v.path, v.sl, v.sc, v.el, v.ec, v.msg.strip()) for v in l]
    exp += [(v.rule, v.cat, 2 * v.prio - 1, v.path, v.sl, v.sc, v.el, v.ec, v.msg.strip()) for f in c.files for v in f]
    exp += [("clang static analyzer", "clang", 2, v.path, v.sl, v.sc, v.el, v.ec, v.msg.strip()) for v in c.bugs]
    need(got == exp, f"PMD entries {got[:3]}, expected {exp[:3]}")


class HP(html.parser.HTMLParser):
    VOID = {"hr", "br", "meta", "link", "img", "input"}

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.stack, self.tables, self.row, self.cell, self.heads = [], [], None, None, []
        self.para = ""
        self.tags = collections.Counter()

    def handle_starttag(self, tag, attrs):
        self.tags[tag] += 1
        if tag in self.VOID:
            return
        self.stack.append(tag)
        if tag == "table":
            self.tables.append([])
        elif tag == "tr":
            self.row = []
        elif tag in ("td", "th"):
            self.cell = [tag, dict(attrs).get("class"), ""]

    def handle_startendtag(self, tag, attrs):
        self.tags[tag] += 1

    def handle_comment(self, d):
        raise Bad(f"HTML comment {d!r}")

    def handle_endtag(self, tag):
        need(self.stack and self.stack[-1] == tag, f"HTML: </{tag}> closes {self.stack[-1:]}")
        self.stack.pop()
        if tag in ("td", "th"):
            self.row.append(tuple(self.cell))
            self.cell = None
        elif tag == "tr":
            self.tables[-1].append(self.row)

    def handle_data(self, d):
        if self.cell is not None:
            need(self.stack[-1] in ("td", "th"), f"HTML: text of a cell inside <{self.stack[-1]}>")
            self.cell[2] += d
        elif "p" in self.stack:
            self.para += d


def check_html(raw, c):
    p = HP()
    try:
        p.feed(raw.decode())
        p.close()
    except (AssertionError, UnicodeDecodeError) as e:
        raise Bad(f"HTML {e!r}")
    need(not p.stack, f"HTML: unclosed {p.stack}")
    need(len(p.tables) == 2, f"HTML has {len(p.tables)} tables")
    vs = [v for f in c.files for v in f]
    exp = [("td", None, str(len(c.files))), ("td", None, str(fwv(c)))] + [("td", f"priority{k}", str(sum(v.prio == k for v in vs))) for k in (1, 2, 3)] + \
          [("td", "cmplr-error", str(len(c.errors))), ("td", "cmplr-warning", str(len(c.warnings))), ("td", "checker-bug", str(len(c.bugs)))]
    need(len(p.tables[0]) == 2 and p.tables[0][1] == exp, f"HTML summary {p.tables[0][1:]}")
    rows = []
    for v in vs:
        rows.append([("td", None, v.path), ("td", None, f"{v.sl}:{v.sc}"), ("td", None, v.rule), ("td", None, v.cat), ("td", f"priority{v.prio}", str(v.prio)), ("td", None, v.msg)])
    for lev, l in (("error", c.errors), ("warning", c.warnings)):
        for v in l:
            rows.append([("td", None, v.path), ("td", None, f"{v.sl}:{v.sc}"), ("td", None, "compiler " + lev), ("td", None, ""), ("td", "cmplr-" + lev, lev), ("td", None, v.msg)])
    for v in c.bugs:
        rows.append([("td", None, v.path), ("td", None, f"{v.sl}:{v.sc}"), ("td", None, "clang static analyzer"), ("td", None, ""), ("td", "checker-bug", "checker bug"), ("td", None, v.msg)])
    need(p.tables[1][1:] == rows, f"HTML rows {p.tables[1][1:3]}, expected {rows[:2]}")
    need(time.asctime(time.gmtime(c.now)) in p.para, f"HTML date {p.para!r}")


def fmt(v):
    return f"{v.path}:{v.sl}:{v.sc}: {v.rule} [{v.cat}|P{v.prio}] {v.msg}"


def check_text(raw, c):
    t = raw.decode()
    vs = [v for f in c.files for v in f]
    lines = [l for l in t.split("\n") if l.strip()]
    exp = []
    if c.errors:
        exp += ["Compiler Errors:", None] + [f"{v.path}:{v.sl}:{v.sc}: {v.msg}" for v in c.errors]
    if c.warnings:
        exp += ["Compiler Warnings:"] + [f"{v.path}:{v.sl}:{v.sc}: {v.msg}" for v in c.warnings]
    if c.bugs:
        exp += ["Clang Static Analyzer Results:"] + [f"{v.path}:{v.sl}:{v.sc}: {v.msg}" for v in c.bugs]
    exp.append("OCLint Report")
    exp.append("Summary: TotalFiles=%d FilesWithViolations=%d P1=%d P2=%d P3=%d" % (len(c.files), fwv(c), *(sum(v.prio == k for v in vs) for k in (1, 2, 3))))
    exp += [fmt(v) for v in vs]
    need(lines[-1].startswith("[OCLint"), f"text footer {lines[-1:]}")
    got = [l.rstrip() for l in lines[:-1]]
    need(len(got) == len(exp) and all(e is None or e.rstrip() == g for e, g in zip(exp, got)), f"text report {got}, expected {exp}")


def check_xcode(raw, c):
    exp = "".join(f"{v.path}:{v.sl}:{v.sc}: warning: {v.rule} [{v.cat}|P{v.prio}] {v.msg}\n" for f in c.files for v in f)
    need(raw.decode() == exp, f"xcode report {raw.decode()[:200]!r}, expected {exp[:200]!r}")


CHECKS = {"XMLReporter": check_xml, "JSONReporter": check_json, "PMDReporter": check_pmd, "HTMLReporter": check_html, "TextReporter": check_text, "XcodeReporter": check_xcode}


def judge(tree, cases, reps):
    try:
        outs = run_cases(tree, cases)
    except Crash as e:
        if len(cases) == 1:
            return [(cases[0], f"reporter crashed: {e}", "")]
        return [x for c in cases for x in judge(tree, [c], reps)][:5]
    bad = []
    for c, o in zip(cases, outs):
        for n in reps:
            try:
                CHECKS[n](o[n], c)
            except Bad as e:
                bad.append((c, f"{n}: {e}", o[n].decode(errors="replace")[:3000]))
            except Exception as e:      # a missing element, a number that is no number, ...
                bad.append((c, f"{n}: unexpected structure {e!r}", o[n].decode(errors="replace")[:3000]))
    return bad


def _job(job):
    cases, reps, whole = job
    tree = C._W["tree"]
    cases = list(cases)
    if not whole:
        return dict(n=len(cases), v=sum(len(f) for c in cases for f in c.files), bad=judge(tree, cases, reps)[:5])
    # `whole`: cases is a list of violations for one document; isolate on failure
    doc = Case((tuple(cases),), (), (), (), 1700000000)
    bad = judge(tree, [doc], reps)
    if bad:
        b2 = judge(tree, [Case(((v,),), (), (), (), 1700000000) for v in cases], reps)
        bad = b2 or bad
    return dict(n=len(cases), v=len(cases), bad=bad[:5])


TOK = ["a", " ", "<", ">", "&", '"', "'", "\\", "/", "\n", "\t", "\r", "]", ";", "é", "😀", "%", "{", "#", "\x7f", "b2"]
SPECIAL = ["]]>", "&amp;", "&lt;", "&#10;", "\\u0041", "\\n", "\\\"", "</td>", "</tr></table>", "<!--", "-->", "<script>", "</violation>", "<![CDATA[x]]>", "' or '", "a\"b", "a b", "\\\\",
           "operator<", "vector<vector<int>>", "x && y", "%s%n", "$", "{}", "[]", "\u2028", "ÿ", "中文", "a\r\nb", "a\\"]
CTRL = [chr(i) for i in range(1, 32)]


def strings(n):
    for k in range(0, n + 1):
        for t in itertools.product(TOK, repeat=k):
            yield "".join(t)


def run_jobs(chk, tree, jobs, name):
    n = 0
    for r in pmap(chk, tree, _job, jobs):
        chk.states += r["n"]
        chk.traces += 1
        chk.transitions += r["v"]
        n += r["n"]
        for c, what, text in r["bad"]:
            chk.violation(f"{what} for {c}", {"case": repr(c), "report": text})
    chk.section(name, cases=n)


def check_c05():
    chk = Check("C05", explanation="every string over an alphabet of markup, quoting, white-space and multi-byte characters up to the bound, in every text field of a violation, through the "
                "real reporter libraries; the document must parse in its format and give back exactly the same field values (XML, PMD, JSON, HTML)")
    tree = B.build(False, [], "all", [dict(name="MCReport", src="MCReport.cpp", kind="exe", with_=("core",), inc="core")])
    X = ("XMLReporter", "PMDReporter", "HTMLReporter", "JSONReporter")

    def field(f, s):
        d = dict(rule="rule", cat="cat", prio=2, path="/p/a.c", sl=1, sc=2, el=3, ec=4, msg="msg")
        d[f] = s
        return V(**d)

    n = 4 if chk.thorough else 3
    longs = [t * k + u for t in ("a", "ab ", "&", "<b>", '"', "\\", "é", "\n") for k in (63, 64, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 20000) for u in ("", "<")]

    def jobs():
        for f in ("msg", "path", "rule", "cat"):
            for b in batched(itertools.chain(strings(n if f in ("msg", "path") else 2), SPECIAL), 300):
                yield ([field(f, s) for s in b], X, True)
            for b in batched(longs, 30):
                yield ([field(f, s) for s in b], X, True)
        for b in batched(itertools.product(CTRL + [x + y for x in CTRL for y in ("a", "1", '"', "\\")], ("msg", "path", "rule", "cat")), 100):
            yield ([field(f, s) for s, f in b], ("JSONReporter",), True)
        one = TOK + SPECIAL
        for f, g in itertools.combinations(("msg", "path", "rule", "cat"), 2):
            for b in batched(itertools.product(one, one), 400):
                yield ([field(f, s)._replace(**{g: t}) for s, t in b], X, True)

    def diag():
        for b in batched(itertools.product(one_strings(), (0, 1, 2), ("path", "msg")), 60):
            yield ([Case(((),), *[(field(f, s)._replace(rule=None),) if k == i else () for i in range(3)], 1700000000) for s, k, f in b], X, False)

    def one_strings():
        return list(strings(2)) + SPECIAL

    run_jobs(chk, tree, jobs(), "violations")
    run_jobs(chk, tree, diag(), "diagnostics")
    chk.sample({"alphabet": TOK, "special": SPECIAL})
    chk.bounds = {"string length": n, "alphabet": len(TOK), "fields": 4}
    chk.outcomes["documents parsed"] = chk.traces
    chk.outcomes["violations"] = chk.nviol
    return chk.finish()


def check_c06():
    chk = Check("C06", explanation="every result with up to the bound of violations (priority, file layout, end position present or not), errors, warnings and checker bugs, and every "
                "calendar boundary, through the six real reporter libraries; each report is parsed back and must list every item once, in order, with its location, rule and "
                "message, and the summary counts that follow")
    tree = B.build(True, [], "all", [dict(name="MCReport", src="MCReport.cpp", kind="exe", with_=("core",), inc="core"), B.MCRAW,
                                     dict(name="MCScriptRule", src="MCScriptRule.cpp", kind="so", with_=())])
    N = 5 if chk.thorough else 4

    def mk(i, prio, f, end):
        return V(f"rule {prio}", f"cat{prio}", prio, f"/p/{f}.c", 10 + i, 3 + i, *end, f"message {i}")

    def diag(k, n, f="z"):
        return tuple(V(None, None, 0, f"/p/{f}.c", 100 + i, 200 + i, 0, 0, f"{k} {i}") for i in range(n))

    def layouts(n):
        # which file (set) each violation goes to: compositions with empty files allowed
        for cut in itertools.product((0, 1, 2), repeat=n):
            yield cut

    def cases():
        for n in range(N + 1):
            for prios in itertools.product((1, 2, 3), repeat=n):
                for cut in layouts(n):
                    files, cur, name = [], [], "a"
                    for i, (p, c) in enumerate(zip(prios, cut)):
                        if c and (cur or i == 0):
                            if i:
                                files.append(tuple(cur))
                                cur = []
                            if c == 2:
                                files.append(())
                            name = "ab"[(len(files)) % 2]
                        cur.append(mk(i, p, name, (5 + i, 6 + i)))
                    files.append(tuple(cur))
                    yield Case(tuple(files), (), (), (), 1700000000)
        for e, w, b, v in itertools.product(range(3), range(3), range(3), range(3)):
            for same in (0, 1):
                f = (tuple(mk(0 if same else i, 1 + i, "a", (0, 0)) for i in range(v)),)
                d = [diag(k, n) if not same else diag(k, 1) * n for k, n in (("error", e), ("warning", w), ("bug", b))]
                yield Case(f, *d, 1700000000)
        for el, ec, sl, sc in itertools.product((0, 1, 77), (0, 1, 88), (0, 1, 99), (0, 1, 66)):
            for k in range(4):
                v = V("r", "c", 2, "/p/a.c", sl, sc, el, ec, "m")
                x = v._replace(rule=None)
                yield Case(((v,) if k == 0 else (),), *[((x,) if k == i else ()) for i in (1, 2, 3)], 1700000000)
        big = (9, 10, 99, 100, 255, 256, 999, 1000, 1024, 9999, 10000, 32768, 65535, 65536, 99999, 100000, 999999, 1000000, (1 << 24) + 1, 1234567, 1234567890, (1 << 31) - 1)
        for x, k in itertools.product(big, range(4)):
            v = V("r", "c", 2, "/p/a.c", *[x if i == k else 3 for i in range(4)], "m")
            d = v._replace(rule=None)
            yield Case(((v,),), (d,), (d,), (d,), 1700000000)
        for m in core_sweep(chk.thorough):
            for lay in range(3):
                vs = [mk(i, 1 + i * i % 3, "a" if not lay else f"a{i % 7 if lay == 1 else i}", (i + 1, i + 2)) for i in range(m)]
                fs = (tuple(vs),) if not lay else tuple(tuple(v for v in vs if v.path == p) for p in dict.fromkeys(v.path for v in vs)) or ((),)
                yield Case(fs, (), (), (), 1700000000)
            if m <= 1025:
                yield Case(((),), diag("error", m), (), (), 1700000000)
                yield Case(((),), (), diag("warning", m), (), 1700000000)
                yield Case(((),), (), (), diag("bug", m), 1700000000)
        for nf in (*range(6), *core_sweep(False)):
            yield Case(((),) * nf, (), (), (), 1700000000)
        for y in (1999, 2000, 2001, 2023, 2024, 2025, 2037, 2038, 2039, 2100, 2106, 2400):
            for m in range(1, 13):
                last = calendar.monthrange(y, m)[1]
                for d in (1, 9, 10, last):
                    for h in ((0, 0, 0), (23, 59, 59), (9, 5, 7), (12, 0, 0)):
                        yield Case(((),), (), (), (), calendar.timegm((y, m, d, *h)))
        for p in range(0, 6):
            yield Case(((mk(0, p, "a", (1, 1)), mk(1, 1, "a", (1, 1))),), (), (), (), 1700000000)

    run_jobs(chk, tree, ((b, NAMES, False) for b in batched(cases(), 200)), "results")
    # the executable hands the results to the selected reporter
    n = 0
    for r in pmap(chk, tree, _c06_e2e, list(itertools.product(range(6), (0, 1, 2), (0, 1), (0, 1)))):
        chk.states += 1
        chk.traces += 1
        n += 1
        if r["bad"]:
            chk.violation(r["bad"], r)
        chk.sample(r["sample"])
    chk.section("executable", runs=n)
    chk.bounds = {"violations": N, "diagnostics of each kind": 2}
    chk.outcomes["parsed"] = chk.traces
    return chk.finish()


def _c06_e2e(job):
    import core, shutil
    k, nv, tofile, dup = job
    name = NAMES[k]
    typ = name.replace("Reporter", "").lower()
    inst = C.winst("all", lambda t: core.script_inst(t, NAMES))
    d = inst.workdir()
    try:
        open(d + "/a.c", "w").write("int x;\n")
        open(d + "/b.c", "w").write("int y;\n")
        rules = [("rule 1", "cat1", 1), ("rule 2", "cat2", 2)]
        rows = [(i % 2, "a.c", None, 10 + i, 3, 5, 6, f"m {i}") for i in range(nv)] + ([(1, "b.c", None, 1, 1, 1, 1, "dup")] * 2)
        diag = [("e", "/p/z.c", 1, 2, "boom"), ("w", "/p/z.c", 3, 4, "warn"), ("b", "/p/z.c", 5, 6, "bug")]
        open(d + "/s", "w").write(core.script(rules, rows, (), diag))
        p = inst.exec(["-report-type", typ, *(["-o", "rep.out"] if tofile else []), *(["-allow-duplicated-violations"] if dup else []), "a.c", "b.c", "--", "-w"], d,
                      inst.env(MCSCRIPT=d + "/s"))
        raw = open(d + "/rep.out", "rb").read() if tofile and os.path.exists(d + "/rep.out") else p.stdout if not tofile else b""
        a, b = [], []
        for r in (0, 1):
            a += [V(*rules[r], d + "/a.c", *x[3:7], x[7]) for x in rows if x[0] == r and x[1] == "a.c"]
            b += [V(*rules[r], d + "/b.c", *x[3:7], x[7]) for x in rows if x[0] == r and x[1] == "b.c"]
        if not dup:
            b = b[:1]
        g = {k: (V(None, None, 0, p_, l, c, 0, 0, m),) for k, p_, l, c, m in diag}
        bad = None
        for now in range(int(time.time()) + 1, int(time.time()) - 20, -1):
            try:
                CHECKS[name](raw, Case((tuple(a), tuple(b)), g["e"], g["w"], g["b"], now))
                bad = None
                break
            except Exception as e:
                bad = bad if bad and "date" not in str(bad) and "header" not in str(bad) else f"{typ} report of the executable: {e}"
        if not bad and p.returncode != 6:
            bad = f"exit {p.returncode}"
        return dict(bad=bad, job=str(job), report=raw.decode(errors="replace")[:2000] if bad else "", sample=dict(report=typ, violations=nv, bytes=len(raw)))
    finally:
        shutil.rmtree(d)


def check(pid):
    return {"C05": check_c05, "C06": check_c06}[pid]()
