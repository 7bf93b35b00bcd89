"""Shared machinery: evidence, violations, known findings, and the program-space explorer."""
import collections, itertools, json, multiprocessing as mp, os, re, subprocess, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import run as R

VERIF = B.VERIF
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NW = int(os.environ.get("OCLV_JOBS", os.cpu_count() or 4))


def known_findings():
    out = {}
    try:
        for line in open(os.path.join(VERIF, "known_findings.txt")):
            line = line.strip()
            if line.startswith("known: "):
                head, _, text = line[7:].partition(" :: ")
                d = dict(x.split("=", 1) for x in head.split())
                out.setdefault(d["property"], {})[d["key"]] = text
    except OSError:
        pass
    return out


class Check:
    def __init__(self, pid, level="model_checking", explanation="", assumptions=()):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.outcomes = collections.Counter()
        self.samples = []
        self.explanation = explanation
        self.assumptions = list(assumptions)
        self.bounds = {}
        self.nviol = 0
        self.known = known_findings().get(pid, {})
        self.known_seen = {}
        self.tier = TIER
        self.rdir = os.path.join(VERIF, "replays", pid)
        if os.path.isdir(self.rdir):
            for f in os.listdir(self.rdir):
                os.unlink(os.path.join(self.rdir, f))
        self.sections = collections.OrderedDict()

    @property
    def thorough(self):
        return self.tier == "thorough"

    def sample(self, s, n=6):
        if len(self.samples) < n:
            self.samples.append(s)

    def violation(self, what, payload, key=None):
        """what: one line; payload: JSON-able, enough to replay."""
        if key is not None and key in self.known:
            self.known_seen[key] = what
            return
        self.nviol += 1
        if self.nviol > 5:
            return
        os.makedirs(self.rdir, exist_ok=True)
        path = os.path.join(self.rdir, f"{self.nviol}.json")
        with open(path, "w") as f:
            json.dump({"property": self.pid, "what": what, **payload}, f, indent=1, default=str)
        print(f"VIOLATION property={self.pid} replay={path}  {what[:300]}", flush=True)

    def section(self, name, **kw):
        self.sections[name] = kw

    def finish(self):
        for k, text in self.known.items():
            if k in self.known_seen:
                print(f"KNOWN-FINDING: property={self.pid} {text}")
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "samples": self.samples, "distinct_outcomes": len(self.outcomes),
               "outcomes": dict(self.outcomes.most_common(25)),
               "bounds": self.bounds, "parts": self.sections, "exhaustive": True,
               "explanation": self.explanation}
        if self.level == "fault_enumeration":
            cov["evaluations"] = self.traces
            cov["distinct_nontrivial"] = self.states
            cov["rule"] = self.explanation
        ev = {"property": self.pid, "tier": self.tier, "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": self.nviol}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        print(f"{self.pid} {self.tier}: states={self.states} transitions={self.transitions} runs={self.traces} "
              f"outcomes={len(self.outcomes)} violations={self.nviol} wall={ev['wall_s']}s")
        for n, kw in self.sections.items():
            print("   ", n, kw)
        return 1 if self.nviol else 0


# ------------------------------------------------------------------ program-space exploration
# A "space" is a picklable object with
#   name, files: (ext), clang args, opts, rules
#   items(): iterator over cheap picklable descriptions (deterministic)
#   render(item) -> text of a self-contained group of declarations (several lines allowed); {N} = unique id
#   expect(item) -> list of (dline, dcol or None, rule, message) the model predicts, relative to first line
#   observe(violations) optional projection
class Space:
    name = "space"
    ext = "c"
    clang = ()
    opts = ()
    rules = ()
    batch = 800
    prologue = ""
    cols = False        # compare columns too
    ends = False        # compare end positions too
    tail = "\n"         # end of the file
    pairs = False       # explore ordered pairs of representatives as neighbours, too

    def items(self):
        raise NotImplementedError

    def render(self, item):
        raise NotImplementedError

    def expect(self, item):
        raise NotImplementedError

    def steps(self, item):
        return 1

    def case_of(self, path):
        """the case a further file belongs to"""
        return None

    def proj(self, v, line0):
        """violation row -> comparable tuple relative to the case"""
        rule, cat, prio, path, sl, sc, el, ec, msg = v
        return (sl - line0, rule, msg)


def _lint_cases(inst, sp, cases):
    """cases: list of (idx, text); returns list of observed outcome lists and extra problems."""
    lines = [sp.prologue] if sp.prologue else []
    line = 1 + sum(t.count("\n") + 1 for t in lines)
    starts = []
    files = {}          # further files of the cases: "\x05name\x06content" after the text
    for i, (idx, text) in enumerate(cases):
        text, *more = text.replace("{N}", f"{i:04}").split("\x05")
        files.update(m.split("\x06") for m in more)
        starts.append(line)
        lines.append(text)
        line += text.count("\n") + 1
    src = "\n".join(lines) + sp.tail
    fn = "t." + sp.ext
    rep = inst.lint({fn: src, **files}, sp.opts, sp.clang, order=[fn])
    if rep["e"]:
        e = rep["e"][0]
        raise R.RunError(f"space {sp.name}: generated program does not compile: {e}\n" +
                         "\n".join(src.split("\n")[max(0, e[4] - 3):e[4] + 2]))
    out = [[] for _ in cases]
    import bisect
    stray = []
    for v in rep["v"]:
        k = bisect.bisect_right(starts, v[4]) - 1
        if v[3] != fn and sp.case_of(v[3]) is not None:
            out[sp.case_of(v[3])].append(sp.proj(v, 0))
            continue
        if v[3] == fn and v[4] < starts[0]:
            continue            # the fixed prologue
        if v[3] != fn or k < 0 or v[4] >= line:
            stray.append(v)
            continue
        out[k].append(sp.proj(v, starts[k]))
    return out, stray, src


def _lint_files(inst, sp, texts):
    """every text in a file of its own, all in one run"""
    head = sp.prologue + "\n" if sp.prologue else ""
    start = 1 + head.count("\n")
    names = [f"f{i:04}.{sp.ext}" for i in range(len(texts))]
    rep = inst.lint({n: head + t.replace("{N}", "0000") + sp.tail for n, t in zip(names, texts)}, sp.opts, sp.clang, order=names)
    if rep["e"]:
        raise R.RunError(f"space {sp.name}: generated program does not compile: {rep['e'][0]}")
    out = {n: [] for n in names}
    stray = []
    for v in rep["v"]:
        if v[3] not in out:
            stray.append(v)
        elif v[4] >= start:
            out[v[3]].append(sp.proj(v, start))
    return [sorted(out[n]) for n in names], stray


def _wfiles(args):
    """a run over files, one program each"""
    sp, items = args
    inst = _inst(sp)
    if _W["stop"].value:
        return {"n": 0, "steps": 0, "out": {}, "sample": None, "bad": []}
    texts = [sp.render(it) for it in items]
    exp = [sorted(sp.expect(it)) for it in items]
    bad = []
    try:
        obs, stray = _lint_files(inst, sp, texts)
        for i, (e, o) in enumerate(zip(exp, obs)):
            if e != o:
                first = max(0, i - 1)
                alone = _lint_files(inst, sp, texts[i:i + 1])[0][0]
                pair = _lint_files(inst, sp, texts[first:i + 1])[0][-1]
                bad.append({"item": repr(items[i]) + (f" analysed after {items[first]!r}" if pair != e else " analysed after others" if alone == e else ""),
                            "files": texts[i:i + 1] if alone != e else texts[first:i + 1] if pair != e else texts[:i + 1], "prologue": sp.prologue, "expected": e, "observed": o})
                if len(bad) > 3:
                    break
        if stray:
            bad.append({"item": "stray", "files": texts, "expected": [], "observed": stray[:5]})
    except (R.RunError, subprocess.TimeoutExpired) as e:
        bad.append({"item": "a run over files", "files": texts, "expected": "a report", "observed": str(e)[-1500:]})
    return {"n": len(items), "steps": sum(sp.steps(it) for it in items), "out": {}, "bad": bad, "sample": {"files": texts[:3]}}


_W = {}


def _winit(tree, stop=None):
    _W["tree"] = tree
    _W["stop"] = stop
    _W["inst"] = {}


def _inst(sp):
    key = (tuple(sp.rules))
    if key not in _W["inst"]:
        _W["inst"][key] = R.Inst(_W["tree"], rules=sp.rules)
        import atexit
        from multiprocessing import util
        util.Finalize(None, _W["inst"][key].close, exitpriority=10)
    return _W["inst"][key]


def kind_of(text, exp):
    """what a program is a representative of: the reports predicted for it and the words in it"""
    norm = lambda s: re.sub(r"\d+", "0", s)
    return norm(str(sorted({str(x[-2:]) for x in exp}))), len(exp), " ".join(sorted(set(re.findall(r"[a-z@_]\w{2,}|[^\w\s{}();,]+|\b\d+\b", re.sub(r"\d{4}", "", text)))))


def _wbatch(args):
    if len(args) == 2:
        try:
            return _wfiles(args)
        except Exception:
            return {"error": traceback.format_exc()}
    sp, batch, kinds = args
    try:
        inst = _inst(sp)
        cases = [(i, sp.render(it)) for i, it in enumerate(batch)]
        exp = [sorted(sp.expect(it)) for it in batch]
        if _W["stop"].value:
            return {"n": 0, "steps": 0, "out": {}, "sample": None, "bad": []}
        try:
            obs, stray, src = _lint_cases(inst, sp, cases)
        except subprocess.TimeoutExpired as e:
            _W["stop"].value = 1
            return {"n": len(batch), "steps": 0, "out": {}, "sample": None, "hang": True,
                    "bad": [{"item": repr([t for _, t in cases])[:1500], "program": "\n".join([sp.prologue] + [t for _, t in cases]),
                             "expected": "a report", "observed": f"no end after {e.timeout} s"}]}
        except R.RunError as e:
            # no report at all (crash, hang, error): narrow it down to one program if it fails alone
            part, why = cases, str(e)
            while len(part) > 1:
                for half in (part[:len(part) // 2], part[len(part) // 2:]):
                    try:
                        _lint_cases(inst, sp, half)
                    except R.RunError as e2:
                        part, why = half, str(e2)
                        break
                else:
                    break
            return {"n": len(batch), "steps": 0, "out": {}, "sample": None,
                    "bad": [{"item": repr([t for _, t in part])[:1500], "program": "\n".join([sp.prologue] + [t for _, t in part]),
                             "expected": "a report", "observed": why[-1500:]}]}
        bad = []
        outc = collections.Counter()
        for it, (i, text), e, o in zip(batch, cases, exp, obs):
            o = sorted(o)
            outc[str([x[1:] for x in e])[:120]] += 1
            if e != o:
                # replay alone before reporting
                alone, s1, src1 = _lint_cases(inst, sp, [(0, text)])
                oa = sorted(alone[0])
                bad.append({"item": repr(it), "program": src1 if oa != e else src, "alone": oa != e,
                            "expected": e, "observed": oa if oa != e else o})
                if len(bad) > 5:
                    break
        if stray:
            bad.append({"item": "stray", "program": src, "expected": [], "observed": stray[:5]})
        reps = {}
        if kinds and not bad:
            for i, (it, (_, text), e) in enumerate(zip(batch, cases, exp)):
                reps.setdefault(kind_of(text, e), (i, it))
        return {"n": len(batch), "steps": sum(sp.steps(it) for it in batch), "bad": bad, "out": outc, "reps": reps,
                "sample": {"program": cases[len(cases) // 2][1], "predicted": exp[len(cases) // 2]}}
    except Exception:
        return {"error": traceback.format_exc()}


def batched(it, n):
    it = iter(it)
    while True:
        b = list(itertools.islice(it, n))
        if not b:
            return
        yield b


def debruijn(k, n):
    """a sequence over range(k) in which every n-tuple occurs"""
    a, seq = [0] * k * n, []
    sys.setrecursionlimit(10000)

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    db(1, 1)
    return seq + seq[:n - 1]


def pick(reps, n):
    """n representatives: the first of every predicted report first, then the others evenly"""
    by = collections.OrderedDict()
    for k, (pos, it) in sorted(reps.items(), key=lambda x: x[1][0]):
        by.setdefault(k[0], []).append(it)
    out = []
    while by and len(out) < n:
        for k in list(by):
            if len(out) < n:
                out.append(by[k].pop(0 if len(by[k]) % 2 else -1))
            if not by[k]:
                del by[k]
    return out


def alone_ok(sp, it):
    """can be repeated, and is one file"""
    t = sp.render(it)
    return "{N}" in t and "\x05" not in t


def spread(xs, n):
    """n of them, evenly"""
    xs = list(xs)
    return xs if len(xs) <= n else [xs[i * (len(xs) - 1) // (n - 1)] for i in range(n)]


def in_a_row(its):
    """batches in which every two items follow one another"""
    if len(its) > 1:
        seq = debruijn(len(its), 2)
        for a in range(0, len(seq) - 1, 150):
            yield [its[i] for i in seq[a:a + 151]]


_SPACES = []


def _reps(a):
    k, n, cap = a
    sp = _SPACES[k]
    reps = {}
    for i, it in enumerate(itertools.islice(sp.items(), cap)):
        if alone_ok(sp, it):
            reps.setdefault(kind_of(sp.render(it), sp.expect(it)), (i, it))
    return k, pick(reps, n)


def files_in_a_row(chk, tree, spaces, n, cap):
    """Runs over files of one program each, in which every two of n representatives of a space follow one another."""
    _SPACES[:] = spaces
    picked = sorted(pmap(chk, tree, _reps, [(k, n, cap) for k in range(len(spaces))]), key=lambda x: x[0])
    ctx = mp.get_context("fork")
    stop = ctx.Value("i", 0)
    pool = ctx.Pool(NW, _winit, (tree, stop))
    runs = 0
    try:
        for k, nb, r in _imap(pool, _wtagged, ((k, 0, (spaces[k], b)) for k, its in picked for b in in_a_row(its)), NW * 4):
            if "error" in r:
                print(r["error"], file=sys.stderr)
                raise SystemExit(3)
            runs += 1
            chk.states += r["n"]
            chk.transitions += r["n"]
            chk.traces += 1
            for b in r["bad"]:
                chk.violation(f"model predicts {b['expected']} but oclint reports {b['observed']} for {b['item']}", b)
            if chk.nviol > 5:
                break
    finally:
        stop.value = int(chk.nviol > 0)
        pool.close()
        pool.join()
    chk.section("programs of the rule properties", spaces=len(spaces), representatives=sum(len(i) for _, i in picked), runs=runs)


def explore_spaces(chk, tree, spaces):
    """Runs every item of every space through the real executable and compares with the model; then representatives of each
    space in an order in which every two of them are neighbours."""
    per = collections.OrderedDict((sp.name, [0, 0, 0, 0]) for sp in spaces)
    reps = [{} for _ in spaces]
    npairs = 250 if chk.thorough else 100
    nfiles = 40 if chk.thorough else 16

    def jobs():
        for k, sp in enumerate(spaces):
            for nb, b in enumerate(batched(sp.items(), sp.batch)):
                per[sp.name][0] += len(b)
                per[sp.name][1] += 1
                yield k, nb, (sp, b, sp.pairs and sp.batch > 1)

    def pair_jobs():
        for k, sp in enumerate(spaces):
            its = pick({a: b for a, b in reps[k].items() if "{N}" in sp.render(b[1])}, npairs)     # the others cannot be repeated
            if len(its) > 1:
                seq = debruijn(len(its), 2)
                per[sp.name][2] = len(its)
                for a in range(0, len(seq) - 1, sp.batch):
                    yield k, 0, (sp, [its[i] for i in seq[a:a + sp.batch + 1]], False)

    def file_jobs():
        """files analysed one after the other in one run, every two of the representatives in turn"""
        for k in spread([k for k in range(len(spaces)) if reps[k]], 80 if chk.thorough else 20):
            sp = spaces[k]
            its = pick({a: b for a, b in reps[k].items() if alone_ok(sp, b[1])}, nfiles)
            per[sp.name][3] = len(its)
            for b in in_a_row(its):
                yield k, 0, (sp, b)

    ctx = mp.get_context("fork")
    stop = ctx.Value("i", 0)
    pool = ctx.Pool(NW, _winit, (tree, stop))
    try:
        for source in (jobs, pair_jobs, file_jobs):
            for k, nb, r in _imap(pool, _wtagged, source(), NW * 4):
                if "error" in r:
                    print(r["error"], file=sys.stderr)
                    raise SystemExit(3)
                for kind, (i, it) in r.get("reps", {}).items():
                    if kind not in reps[k] or (nb, i) < reps[k][kind][0]:
                        reps[k][kind] = ((nb, i), it)
                chk.states += r["n"]
                chk.transitions += r["steps"]
                chk.traces += 1
                chk.outcomes.update(r["out"])
                if chk.traces % 7 == 1:
                    chk.sample(r["sample"])
                for b in r["bad"]:
                    chk.violation(f"model predicts {b['expected']} but oclint reports {b['observed']} for {b['item']}", b)
                if chk.nviol > 5 or "hang" in r:
                    break
            if chk.nviol or stop.value:
                break
    finally:
        stop.value = int(chk.nviol > 0)
        pool.close()
        pool.join()
    for n, (a, b, c, d) in per.items():
        chk.section(n, programs=a, translation_units=b, **({"neighbours": c} if c else {}), **({"files in a row": d} if d else {}))


def _wtagged(a):
    k, nb, job = a
    try:
        return k, nb, _wbatch(job)
    except Exception:
        return k, nb, {"error": traceback.format_exc()}


def pmap(chk, tree, fn, jobs):
    """Runs fn(job) in forked workers (fn sees the tree as W['tree']); yields results; stops on internal errors."""
    ctx = mp.get_context("fork")
    pool = ctx.Pool(NW, _winit, (tree,))
    try:
        for r in _imap(pool, _guard, ((fn, j) for j in jobs), NW * 4):
            if isinstance(r, dict) and "error" in r:
                print(r["error"], file=sys.stderr)
                raise SystemExit(3)
            if isinstance(r, dict) and "hang" in r:
                chk.violation(f"oclint gives no result: {r['hang'][-200:]}", r)
                chk.nviol = max(chk.nviol, 6)
                break
            yield r["ok"]
            if chk.nviol > 5:
                break
    finally:
        pool.close() if chk.nviol <= 5 else pool.terminate()
        pool.join()


def _guard(a):
    try:
        return {"ok": a[0](a[1])}
    except (R.RunError, subprocess.TimeoutExpired) as e:
        return {"hang": str(e)[-1500:], "job": repr(a[1])[:1500]}
    except Exception:
        return {"error": traceback.format_exc()}


def winst(key, make):
    """Per-worker cached installation."""
    if key not in _W["inst"]:
        i = _W["inst"][key] = make(_W["tree"])
        from multiprocessing import util
        util.Finalize(None, i.close, exitpriority=10)
    return _W["inst"][key]


def _imap(pool, fn, it, depth):
    """imap_unordered with bounded look-ahead."""
    import queue
    q = queue.Queue()
    n = 0
    it = iter(it)
    done = False
    while True:
        while not done and n < depth:
            try:
                a = next(it)
            except StopIteration:
                done = True
                break
            pool.apply_async(fn, (a,), callback=q.put, error_callback=lambda e, a=a: q.put({"error": repr(e)} if fn is not _wtagged else (a[0], a[1], {"error": repr(e)})))
            n += 1
        if n == 0:
            return
        yield q.get()
        n -= 1


def main(fn):
    """fn(check name...) returns exit code; build errors and internal errors become exit 3."""
    try:
        rc = fn()
    except B.BuildError as e:
        print("BUILD ERROR:", e, file=sys.stderr)
        rc = 3
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
