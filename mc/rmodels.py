"""Reference models of the statement and expression rules: each marks the nodes of a tree that must be reported."""

LOOPS = ("while", "do", "for", "range", "forin")


def body_of(n):
    return {"while": 1, "do": 1, "for": 3, "range": 0, "forin": 0}[n.k]


def is_empty(n):
    return n is not None and (n.k == ";" or n.k == "blk" and not n.f[0])


def empty(root, ext):
    for n in root.walk():
        k = n.k

        def chk(x, rule):
            if is_empty(x):
                x.mark(rule)
        if k == "if":
            chk(n.f[1], "empty if statement")
            chk(n.f[2], "empty else block")
        elif k in LOOPS:
            chk(n.f[body_of(n)], {"while": "empty while statement", "do": "empty do/while statement"}.get(k, "empty for statement"))
        elif k in ("try", "atry"):
            chk(n.f[0], "empty try statement")
            for b in n.f[1]:
                chk(b, "empty catch statement")
            if k == "atry":
                chk(n.f[2], "empty finally statement")
        elif k == "sw" and not n.f[1]:
            n.f[2].mark("empty switch statement")


# ------------------------------------------------------------------ dead code
def jumpable(n):
    """contains a label control can jump to from outside"""
    if n is None:
        return False
    k = n.k
    if k == "label":
        return True
    if k == "sw":
        return any(jumpable(x) for l, q in n.f[1] for x in q)
    if k in ("blk", "pool", "sync"):
        return any(jumpable(x) for x in n.f[0])
    if k == "if":
        return jumpable(n.f[1]) or jumpable(n.f[2])
    if k in LOOPS:
        return jumpable(n.f[body_of(n)])
    if k in ("try", "atry"):
        return jumpable(n.f[0]) or any(jumpable(b) for b in n.f[1]) or (k == "atry" and jumpable(n.f[2]))
    return False


def leaves(n):
    """control never gets to the end of the statement"""
    if n is None:
        return False
    k = n.k
    if k in ("brk", "cont", "goto", "ret", "ret0", "thr", "rethrow", "athr"):
        return True
    if k == "label":
        return leaves(n.f[0])
    if k == "blk":
        ex = False
        for x in n.f[0]:
            if not ex or jumpable(x):
                ex = leaves(x)
        return ex
    if k == "if":
        return n.f[2] is not None and leaves(n.f[1]) and leaves(n.f[2])
    return False


def dead_code(root, ext):
    for n in root.walk():
        if n.k in ("blk", "pool", "sync"):
            items = [(x, jumpable(x)) for x in n.f[0]]
        elif n.k == "sw":
            items = [(x, i == 0 or jumpable(x)) for l, q in n.f[1] for i, x in enumerate(q)]
        else:
            continue
        ex = False
        for x, j in items:
            if ex and not j:
                x.mark("dead code")
                break
            ex = leaves(x)


# ------------------------------------------------------------------ basic expression rules
BITS = ("&", "|", "^")


def cond_of(n):
    if n.k in ("if", "while", "do"):
        return n.f[0]
    if n.k == "?:":
        return n.f[0]
    return None


def bitwise(root, ext):
    for n in root.walk():
        c = cond_of(n)
        if c is not None and any(x.k in BITS for x in c.walk()):
            c.mark("bitwise operator in conditional")


def const(n):
    """value of an expression of literals, or None if it depends on a variable (&& and || stop at a deciding operand)"""
    k = n.k
    if k in ("0", "1", "2"):
        return int(k)
    if k in ("T", "K"):
        return 1
    if k in ("F",):
        return 0
    if k == "sz":
        return 4
    if k == "1.5":
        return 1.5
    if k == "()":
        return const(n.f[0])
    if k in ("!", "neg", "pos", "~"):
        v = const(n.f[0])
        return None if v is None else {"!": lambda: int(not v), "neg": lambda: -v, "pos": lambda: v, "~": lambda: ~int(v)}[k]()
    if k == "&&":
        a, b = const(n.f[0]), const(n.f[1])
        if a is not None and not a:
            return 0
        if b is not None and not b:
            return 0
        return None if a is None or b is None else 1
    if k == "||":
        a, b = const(n.f[0]), const(n.f[1])
        if a or b:
            return 1
        return None if a is None or b is None else 0
    if k == "?:":
        c = const(n.f[0])
        return None if c is None else const(n.f[1] if c else n.f[2])
    if k in ("==", "!=", "<", "+", "-"):
        a, b = const(n.f[0]), const(n.f[1])
        if a is None or b is None:
            return None
        return {"==": int(a == b), "!=": int(a != b), "<": int(a < b), "+": a + b, "-": a - b}[k]
    return None


def constants(root, ext):
    for n in root.walk():
        if n.k == "if" and const(n.f[0]) is not None:
            n.f[0].mark("constant if expression")
        if n.k == "?:" and const(n.f[0]) is not None:
            n.f[0].mark("constant conditional operator")


def unparen(n):
    while n.k == "()":
        n = n.f[0]
    return n


def unaries(root, ext):
    U = ("!", "~", "neg", "pos")
    for n in root.walk():
        if n.k in U:
            i = unparen(n.f[0])
            if i.k in U:
                n.mark("multiple unary operator")
                if n.k == i.k and n.k in ("!", "~"):
                    n.mark("double negative")


def collapsible(root, ext):
    for n in root.walk():
        if n.k == "if" and n.f[2] is None:
            t = n.f[1]
            if t.k == "blk" and len(t.f[0]) == 1:
                t = t.f[0][0]
            if t.k == "if" and t.f[2] is None:
                n.mark("collapsible if statements")


def inverted(root, ext):
    for n in root.walk():
        c = n.f[0] if n.k == "?:" or n.k == "if" and n.f[2] is not None else None
        if c is not None and c.k in ("!=", "!"):
            c.mark("inverted logic")


def gotos(root, ext):
    for n in root.walk():
        if n.k == "goto":
            n.mark("goto statement")


def for_while(root, ext):
    for n in root.walk():
        if n.k == "for" and n.f[0] is None and n.f[2] is None and n.f[1] is not None:
            n.mark("for loop should be while loop")


def useless_parens(root, ext):
    for n in root.walk():
        c = n.f[0] if n.k in ("if", "ret", "decl") else None
        if c is not None and c.k == "()":
            c.mark("useless parentheses")


# ------------------------------------------------------------------ redundant
CONSTS = ("1", "0", "2", "1.5", "2.5", "'", "S", "S2", "T", "F")
VARS = ("v", "w", "t", "u")


def redundant_cond(root, ext):
    for n in root.walk():
        if n.k == "?:":
            a, b = n.f[1], n.f[2]
            if a.k == b.k and a.k in CONSTS + VARS or {a.k, b.k} == {"T", "F"}:
                n.mark("redundant conditional operator")


def single(n):
    while n is not None and n.k == "blk" and len(n.f[0]) == 1:
        n = n.f[0][0]
    return n


def redundant_if(root, ext):
    for n in root.walk():
        if n.k == "if" and n.f[2] is not None:
            a, b = single(n.f[1]), single(n.f[2])
            if a.k == b.k == "ret" and {a.f[0].k, b.f[0].k} == {"T", "F"}:
                n.mark("redundant if statement")
            if a.k == b.k == ";e" and a.f[0].k == b.f[0].k == "=" and a.f[0].f[0].k == b.f[0].f[0].k and \
                    {a.f[0].f[1].k, b.f[0].f[1].k} == {"T", "F"}:
                n.mark("redundant if statement")


def returns(n):
    if n is None:
        return False
    if n.k in ("ret", "ret0"):
        return True
    if n.k == "blk":
        return any(returns(x) for x in n.f[0])
    if n.k == "if":
        return returns(n.f[1]) and returns(n.f[2])
    return False


def unnecessary_else(root, ext):
    seen = set()
    for n in root.walk():
        if n.k == "if" and id(n) not in seen:
            chain = [n]
            while chain[-1].f[2] is not None and chain[-1].f[2].k == "if":
                chain.append(chain[-1].f[2])
                seen.add(id(chain[-1]))
            last = chain[-1].f[2]
            if last is not None and all(returns(x.f[1]) for x in chain):
                last.mark("unnecessary else statement")


# ------------------------------------------------------------------ switch
def switches_nobreak(root, ext):
    switches(root, ext, False)


def switches(root, ext, brk=True):
    """bodies are made of simple statements, branching statements and blocks of them"""
    def breaks(x):
        return x.k in ("brk", "ret", "ret0", "cont", "thr", "athr") or x.k == "blk" and any(breaks(y) for y in x.f[0])
    for n in root.walk():
        if n.k != "sw":
            continue
        groups = n.f[1]
        if brk and any(not any(breaks(x) for x in q) for l, q in groups):
            n.mark("missing break in switch statement")
        if not any(l == "d" for l, q in groups):
            n.mark("missing default in switch statements")
        if sum({"c": 1, "cc": 2, "d": 0}[l] for l, q in groups) < 3:
            n.mark("too few branches in switch statement")
        for i, (l, q) in enumerate(groups[:-1]):
            if l == "d":
                n.f[2].mark(f"{i}:ill-placed default label in switch statement")
    seen = set()
    for n in root.walk():
        if n.k == "sw":
            for x in n.walk():
                if x.k == "label" and id(x) not in seen:
                    seen.add(id(x))
                    x.mark("non case label in switch statement")


# ------------------------------------------------------------------ conventions
def last_in_loop(root, ext):
    for n in root.walk():
        if n.k in LOOPS:
            b = n.f[body_of(n)]
            if b.k == "blk" and b.f[0] and b.f[0][-1].k in ("brk", "cont", "ret", "ret0"):
                b.f[0][-1].mark("avoid branching statement as last in loop")
