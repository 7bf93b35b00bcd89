"""Statement/expression trees over a small alphabet: exhaustive enumeration by size, rendering, and shared metrics models.

A tree is a tuple; the first element is the kind.
expressions  ('v',) variable  ('!',e) ('()',e) ('&&',a,b) ('||',a,b) ('?:',c,a,b) ('+',a,b) ('call',)
statements   (';',) (';e',e) ('ret',e) ('blk',stmts) ('if',c,t,e|None) ('while',c,b) ('do',c,b) ('for',i,c,n,b)
             ('range',b) ('forin',b) ('sw',c,((label,stmts)...)) ('try',stmts,((stmts)...)) ('atry',stmts,catches,fin|None)
             ('sync',stmts) ('pool',stmts) ('brk',) ('cont',) ('decl',e|None) ('label',s) ('goto',)
"""
import functools, itertools


def splits(n, k):
    """All k-tuples of positive ints summing to n."""
    if k == 1:
        if n >= 1:
            yield (n,)
        return
    for a in range(1, n - k + 2):
        for r in splits(n - a, k - 1):
            yield (a, *r)


class Gen:
    """Grammar-driven exhaustive enumeration.  exprs/stmts: enabled kinds."""

    def __init__(self, exprs=("v",), stmts=(";e",), loops_null=False):
        self.ek, self.sk = tuple(exprs), tuple(stmts)
        self.ln = loops_null
        self.E = functools.lru_cache(None)(self._E)
        self.S = functools.lru_cache(None)(self._S)
        self.Q = functools.lru_cache(None)(self._Q)

    def __reduce__(self):
        return (Gen, (self.ek, self.sk, self.ln))

    def _E(self, n):
        r = []
        if n == 1:
            r += [(k,) for k in ("v", "call", "1", "0", "1.5") if k in self.ek]
        for k in ("()", "!", "neg", "="):
            if k in self.ek and n >= 2:
                r += [(k, e) for e in self.E(n - 1)]
        for k in ("&&", "||", "+", ","):
            if k in self.ek and n >= 3:
                for a, b in splits(n - 1, 2):
                    r += [(k, x, y) for x in self.E(a) for y in self.E(b)]
        if "?:" in self.ek and n >= 4:
            for a, b, c in splits(n - 1, 3):
                r += [("?:", x, y, z) for x in self.E(a) for y in self.E(b) for z in self.E(c)]
        return tuple(r)

    def _Q(self, n):
        """statement sequences of total size n (n >= 0)"""
        if n == 0:
            return ((),)
        r = []
        for a in range(1, n + 1):
            for s in self.S(a):
                for q in self.Q(n - a):
                    r.append((s, *q))
        return tuple(r)

    def _S(self, n):
        r = []
        k = self.sk
        if n == 1:
            r += [(x,) for x in (";", "brk", "cont", "goto") if x in k and x not in ("brk", "cont")]
            if "decl" in k:
                r.append(("decl", None))
        if ";e" in k:
            r += [(";e", e) for e in self.E(n)]
        if "ret" in k and n >= 1:
            r += [("ret", e) for e in self.E(n)]
        if "decl" in k and n >= 2:
            r += [("decl", e) for e in self.E(n - 1)]
        if n >= 1 and "blk" in k:
            r += [("blk", q) for q in self.Q(n - 1)]
        if n >= 3:
            for a, b in splits(n - 1, 2):
                for c in self.E(a):
                    for s in self.S(b):
                        if "if" in k:
                            r.append(("if", c, s, None))
                        if "while" in k:
                            r.append(("while", c, s))
                        if "do" in k:
                            r.append(("do", c, s))
                        if "for" in k:
                            v = ("v",)
                            r.append(("for", v, c, v, s))
        if n >= 4 and "for" in k:
            # the whole size budget in one of the three head slots, the other two empty; and all empty
            for a, b in splits(n - 2, 2):
                for c in self.E(a):
                    for s in self.S(b):
                        r.append(("for", None, c, None, s))
                        r.append(("for", c, None, None, s))
                        r.append(("for", None, None, c, s))
        if n >= 2 and "for" in k:
            r += [("for", None, None, None, s) for s in self.S(n - 1)]
        if n >= 4 and "ife" in k:
            for a, b, c in splits(n - 1, 3):
                r += [("if", e, s, t) for e in self.E(a) for s in self.S(b) for t in self.S(c)]
        if n >= 2:
            for kk in ("range", "forin", "label"):
                if kk in k:
                    r += [(kk, s) for s in self.S(n - 1)]
        if "pool" in k:
            r += [("pool", q) for q in self.Q(n - 1)]
        if "sync" in k:
            r += [("sync", q) for q in self.Q(n - 1)]
        if "sw" in k and n >= 2:
            # 0..3 label groups, cond of size 1.. ; labels: c(ase) d(efault) cc (two stacked cases)
            for a in range(1, n):
                rest = n - 1 - a
                for c in self.E(a):
                    if rest == 0:
                        r.append(("sw", c, ()))
                    for g in range(1, min(rest, 3) + 1):
                        for parts in splits(rest, g):
                            for labs in itertools.product(("c", "d", "cc"), repeat=g):
                                if labs.count("d") > 1:
                                    continue
                                cost = [p - 1 - (1 if l == "cc" else 0) for p, l in zip(parts, labs)]
                                if min(cost) < 0:
                                    continue
                                for qs in itertools.product(*(self.Q(m) for m in cost)):
                                    r.append(("sw", c, tuple(zip(labs, qs))))
        if "try" in k and n >= 2:
            for h in (1, 2):
                for parts in splits(n - 1 + 1, h + 1):   # try part may be empty (size 0): shift by one
                    qs = [self.Q(parts[0] - 1), *(self.Q(p - 1) for p in parts[1:])]
                    for combo in itertools.product(*qs):
                        r.append(("try", combo[0], tuple(combo[1:])))
        if "atry" in k and n >= 2:
            for h, f in ((0, 1), (1, 0), (1, 1), (2, 0), (2, 1)):
                for parts in splits(n - 1 + 1, h + f + 1):
                    qs = [self.Q(p - 1) for p in parts]
                    for combo in itertools.product(*qs):
                        r.append(("atry", combo[0], tuple(combo[1:1 + h]), combo[1 + h] if f else None))
        return tuple(r)


# ------------------------------------------------------------------ rendering
def rx(e):
    k = e[0]
    if k == "v":
        return "a"
    if k == "call":
        return "g()"
    if k in ("1", "0", "1.5"):
        return k
    if k == "()":
        return "(" + rx(e[1]) + ")"
    if k == "!":
        return "!" + rp(e[1])
    if k == "neg":
        return "- " + rp(e[1])
    if k == "=":
        return "a = " + rp(e[1])
    if k == "?:":      # only the parentheses the grammar of the language needs
        return rl(e[1], 4) + " ? " + rl(e[2], 0) + " : " + rl(e[3], 3)
    p = PREC.get(k, 9)
    return rl(e[1], p) + " " + k + " " + rl(e[2], p + 1)


PREC = {",": 1, "=": 2, "?:": 3, "||": 4, "&&": 5, "+": 7, "neg": 9}


def rl(e, least):
    """e as an operand that may stand without parentheses if it binds at least that tightly"""
    return rx(e) if PREC.get(e[0], 10) >= least else "(" + rx(e) + ")"


def rp(e):
    return rx(e) if e[0] in ("v", "call", "()", "1", "0", "1.5", "!") else "(" + rx(e) + ")"


def rs(s):
    k = s[0]
    if k == ";":
        return ";"
    if k == ";e":
        return rx(s[1]) + ";"
    if k == "ret":
        return "return " + rx(s[1]) + ";"
    if k == "decl":
        return "int l;" if s[1] is None else "int l = " + rx(s[1]) + ";"
    if k == "blk":
        return "{ " + rq(s[1]) + "}"
    if k == "if":
        t = rs(s[2])
        if s[3] is not None and dangling(s[2]):
            t = "{ " + t + " }"
        r = "if (" + rx(s[1]) + ") " + t
        if s[3] is not None:
            r += " else " + rs(s[3])
        return r
    if k == "while":
        return "while (" + rx(s[1]) + ") " + rs(s[2])
    if k == "do":
        return "do " + rs(s[2]) + " while (" + rx(s[1]) + ");"
    if k == "for":
        f = lambda x: "" if x is None else rx(x)
        return f"for ({f(s[1])}; {f(s[2])}; {f(s[3])}) " + rs(s[4])
    if k == "range":
        return "for (int w : arr) " + rs(s[1])
    if k == "forin":
        return "for (id w in col) " + rs(s[1])
    if k == "label":
        return "L: " + rs(s[1])
    if k == "pool":
        return "@autoreleasepool { " + rq(s[1]) + "}"
    if k == "sync":
        return "@synchronized(col) { " + rq(s[1]) + "}"
    if k == "try":
        return "try { " + rq(s[1]) + "}" + "".join(f" catch ({t}) {{ " + rq(q) + "}" for q, t in zip(s[2], ("int", "...") if len(s[2]) > 1 else ("int",)))
    if k == "atry":
        return "@try { " + rq(s[1]) + "}" + "".join(f" @catch ({t} *x) {{ " + rq(q) + "}" for q, t in zip(s[2], ("K", "M"))) + \
            ("" if s[3] is None else " @finally { " + rq(s[3]) + "}")
    if k == "sw":
        r, n = "", 1
        for lab, q in s[2]:
            for l in lab:
                r += "default: " if l == "d" else f"case {n} ... {n + 1}: " if l == "r" else f"case {n}: "
                n += {"d": 0, "c": 1, "r": 2}[l]
            r += rq(q) if q else "; "
        if s[0] != "sw" or len(s) > 3:          # no braces: one group of one statement
            return "switch (" + rx(s[1]) + ") " + r
        return "switch (" + rx(s[1]) + ") { " + r + "}"
    raise ValueError(k)


def rq(q):
    return "".join(rs(s) + " " for s in q)


def dangling(s):
    """An if without else at the right edge would capture a following else."""
    k = s[0]
    if k == "if":
        return s[3] is None or dangling(s[3])
    if k in ("while",):
        return dangling(s[2])
    if k == "for":
        return dangling(s[4])
    if k in ("range", "forin", "label"):
        return dangling(s[1])
    return False


def nodes(t):
    return 1 + sum(nodes(x) for x in t if isinstance(x, tuple)) if isinstance(t, tuple) else 0


def norm(s):
    """The tree the compiler sees: braces added for dangling else become a block."""
    return s
