"""C25 enforced methods, C26 languages and CUDA, C31 literals, C33 @finally and instance variables: Objective-C and language families."""
import itertools, re
import build as B, catalog, common, rtree, scope
from rtree import M, TSpace

EXPL = ("Every program of the bounded families is linted by the real executable with the real rule libraries; rule, line, column and message of every report are compared "
        "with a reference model that marks the constructs to report. states = distinct programs, transitions = tokens or programs, traces = runs of the executable.")


class OSpace(TSpace):
    def proj(self, v, line0):
        *a, msg = super().proj(v, line0)
        return (*a, re.sub(r"\d{4}", "0000", msg))


def ann(x):
    return f'__attribute__((annotate("oclint:{x}")))'


def forms(name, t):
    """(annotation, enforces?, comment)"""
    yes = [(f"enforce[{name}]", True, ""), (f"enforce[{name}][say why]", True, "say why")]
    no = [("", False, ""), (f"enforce[{name}s]", False, ""), ("enforce[x method]", False, ""), ("enforce", False, ""), (f"suppress[{name[1:]}]", False, ""), (f"enforced[{name}]", False, ""), (name, False, "")]
    for a, y, c in yes + (no if t else no[:3]):
        yield (ann(a) if a else ""), y, c


ROOT = "__attribute__((objc_root_class)) @interface J - (int)x; + (J *)new; @end\n#ifdef __cplusplus\nint g(...);\n#else\nint g();\n#endif\n"


# ------------------------------------------------------------------ C25
def sig(kind, sel, d=""):
    parts = sel.split(":")
    return f"{kind} (void)" + (sel if len(parts) == 1 else " ".join(f"{p}:(int)a{i}" for i, p in enumerate(parts[:-1])))


def send(rcv, sel):
    parts = sel.split(":")
    return f"[{rcv} {sel}]" if len(parts) == 1 else f"[{rcv} " + " ".join(f"{p}:{i}" for i, p in enumerate(parts[:-1])) + "]"


RS = "missing call to base method"
BODIES = [("", False), ("[super S];", True), ("{ { [super S]; } }", True), ("if (g()) [super S]; else g();", True), ("^{ [super S]; }();", True), ("[super other];", False), ("[self S];", False),
          ("[self other]; [super other]; [super S];", True), ("g((int)([super S], 1));", True), ("@try { g(); } @finally { [super S]; }", True), ("[super SX];", False), ("switch (g()) { case 1: [super S]; }", True)]
PLACES = ("none", "class", "class after", "category", "protocol", "protocol of protocol", "category protocol", "extension", "middle", "class, category", "class, extension")


def must_super(t):
    def gen():
        for sel in ("m", "m:", "m:n:") if t else ("m", "m:n:"):
            for k in "-+":
                for place in PLACES:
                    for a, y, _ in forms("base method", t):
                        decl = f"{sig(k, sel)} {a};"
                        plain = f"{sig(k, sel)};"
                        P = decl if "protocol" in place else ""
                        A = f"@protocol P{{N}} {P} @end @protocol Q{{N}} <P{{N}}> @end @interface A{{N}} : J {'<P{N}>' if place == 'protocol' else '<Q{N}>' if place == 'protocol of protocol' else ''} " + \
                            f"{decl if place == 'class' else plain if place.startswith('class,') else ''} + (void)other; - (void)other; {decl if place == 'class after' else ''} @end " + \
                            {"category": f"@interface A{{N}} (Cat) {decl} @end ", "extension": f"@interface A{{N}} () {decl} @end ", "category protocol": "@interface A{N} (Cat) <P{N}> @end ",
                             "class, category": f"@interface A{{N}} (Other) - (void)zzz; @end @interface A{{N}} (Cat) {decl} @end ", "class, extension": f"@interface A{{N}} () {decl} @end "}.get(place, "")
                        for cls in "ABC":
                            if place == "category protocol" and cls == "A":
                                continue
                            for redecl in (False, True):
                                if redecl and cls == "C":
                                    continue        # (a redeclaration in between takes the annotation away)
                                for cat in (False, True):
                                    B_ = f"@interface B{{N}} : A{{N}} {decl if place == 'middle' else plain if redecl and cls == 'B' else ''} @end @interface C{{N}} : B{{N}} @end "
                                    if place == "middle":
                                        over = cls == "C"
                                    elif "protocol" in place:
                                        over = True
                                    else:
                                        over = cls != "A" and place != "none"
                                    for b, calls in BODIES if not cat else BODIES[:3]:
                                        for other in (k, "-" if k == "+" else "+") if b in ("", "[super S];") else (k,):
                                            rep = y and over and not calls and other == k
                                            if cat:
                                                head, tail = f"@interface {cls}{{N}} (D) @end @implementation {cls}{{N}} (D) ", " @end"
                                            else:
                                                head, tail = f"@implementation {cls}{{N}} - (void)zz {{ }} ", " + (void)zz { [super x]; } @end"
                                            b2 = b.replace("[super SX]", send("super", sel.replace("m", "mx"))).replace("[super S]", send("super", sel)).replace("[self S]", send("self", sel))
                                            s = sig(other, sel)
                                            yield A + B_ + head + (M(RS, s, f"overridden method {sel} must call super") if rep else s) + " { " + b2 + " }" + tail
    return [OSpace(f"calls to super/{e}", e, ["ObjCVerifyMustCallSuper"], gen, prologue=ROOT) for e in ("m", "mm")]


RP = "calling prohibited method"


def prohibited(t):
    def msg(kind, name, c):
        return f"calling prohibited {kind} {name}" + (f" instead use {c}" if c else "")

    def fun(ext):
        cxx = ext in ("cpp", "mm")
        # $ marks a direct call
        uses = ["$F(1);", "$F($F(1));", "int a = 1 + $F(2);", "if ($F(1)) g(); else $F(2);", "int (*p)(int) = F; p(1);", "p2(F);", "for (int i = $F(0); $F(1); $F(2)) { $F(3); }", "${(F)(1)};", "${(*F)(1)};", "${(&F)(1)};",
                "(void)&F;", "F;", "return (void)$F(1);", "H(1);", "$F(H(2));", "switch ($F(1)) { case 1: $F(2); }", "while ($F(1)) $F(2);", "do { $F(1); } while (0);", "int a[] = { $F(1), $F(2) };", "g() ? $F(1) : $F(2);"]
        if cxx:
            uses += ["auto l = [] { return $F(1); };", "struct L { int m() { return $F(1); } int v = $F(2); };", "try { $F(1); } catch (int) { $F(2); }", "auto p = F; p(1);", "::F(1);" if False else "$::F(1);"]
        if ext in ("m", "mm"):
            uses += ["^{ $F(1); }();", "@try { $F(1); } @finally { $F(2); }", "@synchronized ((J *)0) { $F(1); }", "@autoreleasepool { $F(1); }", "if ($F(1)) { ^{ $F(2); }(); }"]

        def gen():
            for a, y, c in forms("prohibited method", t):
                for decl in (f"{a} int F(int);", f"int F(int); {a} int F(int);", f"int F(int) {a};", f"{a} int F(int x) {{ return x; }}", f"{a} int F(int x); int F(int x) {{ return x; }}", f"static {a} int F(int x) {{ return x; }}"):
                    for u in uses:
                        def r(m):
                            s = m[1] or m[2]
                            return (M(RP, "", msg("function", "FNAME", c)) if y else "") + s
                        b = re.sub(r"\$(?:\{([^}]*)\}|(::F|F))", r, u)
                        text = decl + f" int H(int); void p2{{N}}(int (*)(int)); void q{{N}}({'' if cxx else 'void'}) {{ {b} }}"
                        text = text.replace("p2(", "p2{N}(").replace("FNAME", "fun{N}")
                        yield re.sub(r"\bF\b", "fun{N}", re.sub(r"\bH\b", "hun{N}", text))
        return gen

    def members():
        for a, y, c in forms("prohibited method", t):
            def m(kind, name, text):
                return (M(RP, "", msg(kind, name, c)) if y else "") + text
            S = f"struct S{{N}} {{ S{{N}}(); {a} int m(int = 0); {a} static int s(); {a} virtual int v(); {a} int operator+(int); {a} int operator()(int); {a} operator bool(); int o(int); {a} int o(double); {a} ~S{{N}}(); int k() {{ return 1; }} }};"
            F = lambda b: f"{S} void f{{N}}(S{{N}} s, S{{N}} *p) {{ {b} }}"
            yield F(m("function", "m", "s.m();"))
            yield F(m("function", "m", f"p->m({m('function', 'm', 'p->m()')});"))
            yield F(m("function", "s", "S{N}::s();"))
            yield F(m("function", "v", "p->v();"))
            yield F(m("function", "operator+", "s + 1;"))
            yield F(m("function", "operator()", "s(1);"))
            yield F(m("function", "operator+", "s.operator+(1);"))
            yield F("s.o(1);")
            yield F(m("function", "o", "s.o(1.5);"))
            yield F("s.k(); int (S{N}::*q)(int) = &S{N}::m; (s.*q)(1); S{N} z; new S{N};")
            yield f"{S} struct U{{N}} : S{{N}} {{ int v() override; int n() {{ return {m('function', 'v', 'S{N}::v()')} + v() + {m('function', 'm', 'this->m()')}; }} }}; int h{{N}}(U{{N}} u) {{ return u.v() + {m('function', 'm', 'u.m(1)')}; }}"
            yield f"template <class T> {a} int t{{N}}(T x) {{ return 1; }} int f{{N}}() {{ return {m('function', 't{N}', 't{N}(1)')} + {m('function', 't{N}', 't{N}<double>(1)')}; }}"
            yield f"namespace n{{N}} {{ {a} int q(int); namespace k {{ int w() {{ return {m('function', 'q', 'q(1)')}; }} }} }} int q{{N}}(int); int f{{N}}() {{ return {m('function', 'q', 'n{N}::q(1)')} + q{{N}}(2); }}"
            yield f"{a} int q{{N}}(int); int v{{N}} = {m('function', 'q{N}', 'q{N}(1)')}; struct Z{{N}} {{ int a; Z{{N}}() : a({m('function', 'q{N}', 'q{N}(1)')}) {{ }} int b = {m('function', 'q{N}', 'q{N}(1)')}; int m(int d = {m('function', 'q{N}', 'q{N}(2)')}); }};"
            yield f"int q{{N}}(int); {a} int q{{N}}(double); int f{{N}}() {{ return q{{N}}(1) + {m('function', 'q{N}', 'q{N}(1.5)')}; }}"

    def messages():
        uses = ["$k", "int v = 1 + $k;", "[$k x];" if False else "g($k);", "if ($k) { $k; }", "^{ $k; }();", "[k x]; $k; [k x];", "@try { $k; } @catch (id e) { $k; } @finally { $k; }", "k; [k oo{N}];"]
        for a, y, c in forms("prohibited method", t):
            for place in ("class", "category", "protocol", "super", "none", "extension", "superprotocol", "class, category", "class, extension", "super, category"):
                for kind, sel in (("-", "nn{N}"), ("-", "nn{N}:"), ("+", "nn{N}"), ("-", "nn{N}:o:")):
                    d = f"{kind} (int)" + (sel if ":" not in sel else " ".join(f"{p}:(int)a{i}" for i, p in enumerate(sel.split(":")[:-1]))) + f" {a};"
                    A = f"@protocol P{{N}} {d if 'protocol' in place else ''} @end @interface A{{N}} : J {'<P{N}>' if place == 'superprotocol' else ''} {d if place == 'super' else d.replace(a, '') if place == 'super, category' else ''} @end {'@interface A{N} (Cat) ' + d + ' @end' if place == 'super, category' else ''} @interface K{{N}} : A{{N}} {'<P{N}>' if place == 'protocol' else ''} {d if place == 'class' else d.replace(a, '') if place.startswith('class,') else ''} - (int)oo{{N}}; @end " + \
                        {"class, category": f"@interface K{{N}} (Other) - (int)zz{{N}}; @end @interface K{{N}} (Cat) {d} @end ", "class, extension": f"@interface K{{N}} () {d} @end ", "category": f"@interface K{{N}} (Cat) {d} @end ", "extension": f"@interface K{{N}} () {d} @end "}.get(place, "")
                    if place == "none":
                        A += f"@interface Z{{N}} : J {d} @end @interface K{{N}} (R) {d.replace(a, '') if a else d} @end "
                    rep = y and place != "none"
                    rcvs = ["k", "(K{N} *)z", "[K{N} new]"] if kind == "-" else ["K{N}"]
                    if place in ("protocol", "superprotocol") and kind == "-":
                        rcvs.append("(id<P{N}>)z")
                    if place in ("class", "super", "class, category"):
                        rcvs.append("z" if kind == "-" else "[k class]" if False else "K{N}")
                    for rc in rcvs:
                        call = send(rc, sel)
                        if rc == "[K{N} new]":
                            call = send("(K{N} *)[K{N} new]", sel)
                        mk = (M(RP, "", msg("method", sel, c)) if rep else "") + call
                        for u in uses if rc in ("k", "K{N}") else uses[:2]:
                            yield A + f"void f{{N}}(K{{N}} *k, id z) {{ {u.replace('$k', mk)}; }}"
                    if kind == "-":
                        mk = (M(RP, "", msg("method", sel, c)) if rep else "")
                        for rc in ("self", "super"):
                            if rc == "super" and place not in ("super", "superprotocol", "super, category"):
                                continue
                            yield A + f"@implementation K{{N}} - (int)oo{{N}} {{ return {mk}{send(rc, sel)}; }} @end"
                            yield A + f"@implementation K{{N}} - (int)oo{{N}} {{ ^{{ {mk}{send(rc, sel)}; }}(); return 1; }} @end"
            # properties
            for sel, use in (("pp{N}", "[k pp{N}]"), ("setPp{N}:", "[k setPp{N}:1]"), ("gg{N}", "[k gg{N}]")):
                at = ", getter=gg{N}" if sel.startswith("gg") else ""
                yield f"@interface K{{N}} : J @property (nonatomic{at}) int pp{{N}} {a}; @end void f{{N}}(K{{N}} *k) {{ {M(RP, '', msg('method', sel, c)) if y else ''}{use}; }}"
            yield f"@interface K{{N}} : J @property (nonatomic) int pp{{N}} {a}; @end int f{{N}}(K{{N}} *k) {{ return k.{M(RP, '', msg('method', 'pp{N}', c)) if y else ''}pp{{N}}; }}"
            yield f"@interface K{{N}} : J @property (nonatomic) int pp{{N}} {a}; @end void f{{N}}(K{{N}} *k) {{ k.{M(RP, '', msg('method', 'setPp{N}:', c)) if y else ''}pp{{N}} = 1; }}"
    # several functions and methods in one body; the annotation among others
    F = [("enforce[prohibited method]", True, ""), ("enforce[prohibited method][use A]", True, "use A"), ("enforce[prohibited method][B]", True, "B"), ("enforce[other method][C]", False, ""), ("", False, "")]

    def sequences(ext):
        def gen():
            decl = "".join(f"{ann(a) if a else ''} int f{i}_{{N}}(void); " for i, (a, _, _) in enumerate(F))
            call = [(M(RP, "", msg("function", f"f{i}_{{N}}", c)) if y else "") + f"f{i}_{{N}}()" for i, (_, y, c) in enumerate(F)]
            if ext in ("m", "mm"):
                decl += "@interface K{N} : J " + "".join(f"- (int)m{i} {ann(a) if a else ''}; + (int)m{i} {ann(F[-1 - i][0]) if F[-1 - i][0] else ''}; " for i, (a, _, _) in enumerate(F)) + "@end "
                call += [(M(RP, "", msg("method", f"m{i}", c)) if y else "") + f"[k m{i}]" for i, (_, y, c) in enumerate(F)]
                call += [(M(RP, "", msg("method", f"m{len(F) - 1 - i}", c)) if y else "") + f"[K{{N}} m{len(F) - 1 - i}]" for i, (_, y, c) in enumerate(F)]
            for n in range(1, 4 if t or ext == "c" else 3):
                for q in itertools.product(call, repeat=n):
                    yield decl + f"int h{{N}}({'K{N} *k' if ext[0] == 'm' else 'void'}) {{ return " + " + ".join(q) + "; }"
            for n in range(0, 4):
                for q in itertools.product(F, repeat=n):
                    if len({x[2] for x in q if x[1]}) > 1:
                        continue            # (two replacements)
                    y, c = any(x[1] for x in q), "".join({x[2] for x in q if x[1]})
                    mk = M(RP, "", msg("function", "d{N}", c)) if y else ""
                    yield " ".join(ann(x[0]) for x in q if x[0]) + f" int d{{N}}(void); int h{{N}}(void) {{ return {mk}d{{N}}(); }}"
                    yield "".join(ann(x[0]) + " int d{N}(void); " for x in q if x[0]) + f"int d{{N}}(void); int h{{N}}(void) {{ return {mk}d{{N}}(); }}"
        return gen
    ps = [OSpace(f"prohibited sequences/{e}", e, ["ObjCVerifyProhibitedCall"], sequences(e), prologue=ROOT if e in ("m", "mm") else "") for e in ("c", "cpp", "m", "mm")]
    ps += [OSpace(f"prohibited functions/{e}", e, ["ObjCVerifyProhibitedCall"], fun(e), prologue="int g();" if e in ("c", "cpp") else ROOT) for e in ("c", "cpp", "m", "mm")]
    ps.append(OSpace("prohibited members/cpp", "cpp", ["ObjCVerifyProhibitedCall"], members, prologue="int g();"))
    ps.append(OSpace("prohibited members/mm", "mm", ["ObjCVerifyProhibitedCall"], members, prologue="int g();"))
    return ps + [OSpace(f"prohibited messages/{e}", e, ["ObjCVerifyProhibitedCall"], messages, prologue=ROOT) for e in ("m", "mm")]


RT = "calling protected method"


def protected(t):
    ANC = {"A": "A", "B": "BA", "C": "CBA", "D": "DA", "Z": "Z"}        # a class and its ancestors

    def gen():
        sels = ("pr", "pr:") if t else ("pr",)
        for a, y, _ in forms("protected method", t):
            for place in ("class", "category", "protocol", "extension", "class, category"):
                for kind in "-+":
                    for decl in "AB":
                        if place == "protocol":
                            owner = None
                        for sel in sels:
                            d = sig(kind, sel) + " " + a + ";"
                            H = f"@protocol P{{N}} {d if place == 'protocol' else ''} @end "
                            for c, sup in (("A", "J"), ("B", "A{N}"), ("C", "B{N}"), ("D", "A{N}"), ("Z", "J")):
                                H += f"@interface {c}{{N}} : {sup} {'<P{N}>' if place == 'protocol' and c == decl else ''} {d if place == 'class' and c == decl else d.replace(a, '') if place == 'class, category' and c == decl else ''} @end "
                                if c == decl and place in ("category", "extension", "class, category"):
                                    H += f"@interface {c}{{N}} ({'' if place == 'extension' else 'Cat'}) {d} @end "
                            for cont in "ABCDZ":
                                for cat in (False, True):
                                    for rc in "ABCDZis":
                                        if rc in ANC and decl not in ANC[rc]:
                                            continue
                                        if rc == "i" and kind == "+":
                                            continue
                                        if rc == "s" and decl not in ANC[cont]:
                                            continue
                                        own = rc if place == "protocol" else decl
                                        rep = y and rc in ANC and own not in ANC[cont]
                                        e = send("(id)z" if rc == "i" else "self" if rc == "s" else f"{rc}{{N}}" if kind == "+" else f"(({rc}{{N}} *)z)", sel)
                                        mk = (M(RT, "", f"calling protected method {sel} from outside {own}{{N}} and its subclasses") if rep else "") + e
                                        for body in (f"{mk};", f"if (z) {{ ^{{ {mk}; }}(); }}", f"{mk}; [(J *)z x]; {mk};") if t or cont in "AZ" else (f"{mk};",):
                                            hd = f"@interface {cont}{{N}} (E) @end @implementation {cont}{{N}} (E)" if cat else f"@implementation {cont}{{N}}"
                                            yield H + hd + f" {kind if rc == 's' else '-'} (void)uses:(id)z {{ {body} }} @end"
    return [OSpace(f"protected methods/{e}", e, ["ObjCVerifyProtectedMethod"], gen, prologue=ROOT) for e in ("m", "mm")]


RA = "missing abstract method implementation"


def abstract(t):
    def gen():
        # methods of the superclass: kind, selector, annotated?
        meths = [("-", "a"), ("-", "b:"), ("+", "c"), ("+", "a")]
        impls = [("-", "a"), ("-", "b:"), ("+", "c"), ("+", "a"), ("-", "c"), ("-", "b"), ("-", "q")]
        names = {True: ann("enforce[abstract method]"), False: ann("enforce[base method]"), None: ""}
        for n in range(0, 5 if t else 4):
            for ms in itertools.permutations(meths, n) if t else itertools.combinations(meths, n):
                for an in itertools.product((True, None, False) if t else (True, None), repeat=n):
                    A = "".join(f"{sig(*m)} {names[x]}; " for m, x in zip(ms, an))
                    for k in range(0, 4):
                        for im in itertools.combinations(impls, k):
                            miss = [m for m, x in zip(ms, an) if x and m not in im]
                            mk = "".join(M(RA, "", f"subclasses of A{{N}} must implement {x}") for x in dict.fromkeys(m[1] for m in miss))
                            body = " ".join(f"{sig(*m)} {{ }}" for m in im)
                            yield f"@interface A{{N}} : J {A} @end @interface B{{N}} : A{{N}} @end {mk}@implementation B{{N}} {body} @end"
        a = ann("enforce[abstract method]")
        mk = lambda s, c="A": M(RA, "", f"subclasses of {c}{{N}} must implement {s}")
        # chains, categories, properties, comments
        def places():
            for cm in ("", "[for that]"):
                a = ann("enforce[abstract method]" + cm)
                yield f"@interface A{{N}} : J - (void)a {a}; @end @implementation A{{N}} @end"
                yield f"@interface A{{N}} : J - (void)a {a}; @end @interface B{{N}} : A{{N}} @end @interface C{{N}} : B{{N}} @end {mk('a')}@implementation B{{N}} @end @implementation C{{N}} @end"
                yield f"@interface A{{N}} : J - (void)a {a}; @end @interface B{{N}} : A{{N}} - (void)a {a}; @end @interface C{{N}} : B{{N}} @end {mk('a')}@implementation B{{N}} @end {mk('a', 'B')}@implementation C{{N}} @end"
                yield f"@interface A{{N}} : J - (void)a; @end @interface A{{N}} (Cat) - (void)a {a}; @end @interface B{{N}} : A{{N}} @end {mk('a')}@implementation B{{N}} @end"
                yield f"@interface A{{N}} : J - (void)a {a}; @end @interface B{{N}} : A{{N}} - (void)a; @end {mk('a')}@implementation B{{N}} @end"
                yield f"@interface A{{N}} : J - (void)a {a}; @end @interface B{{N}} : A{{N}} - (void)a; @end @implementation B{{N}} - (void)a {{ }} @end"
                yield f"@interface A{{N}} : J - (void)a {a}; @end @interface B{{N}} : A{{N}} @end @interface C{{N}} : A{{N}} @end {mk('a')}@implementation B{{N}} @end @implementation C{{N}} - (void)a {{ }} @end {mk('a')}@implementation D{{N}} @end".replace("@interface C{N}", "@interface D{N} : A{N} @end @interface C{N}")
        for x in places():
            yield x
            yield x.replace("- (void)a", "+ (void)a")
    return [OSpace(f"abstract methods/{e}", e, ["ObjCVerifySubclassMustImplement"], gen, prologue=ROOT) for e in ("m", "mm")]


RH = "missing hash method"


def equal(t):
    def gen():
        ms = {"e": "- (char)isEqual:(id)o { return 1; }", "h": "- (unsigned)hash { return 1; }", "H": "+ (unsigned)hash { return 1; }", "E": "+ (char)isEqual:(id)o { return 1; }", "x": "- (char)isEqualTo:(id)o { return 1; }",
              "y": "- (unsigned)hash:(int)a { return 1; }", "z": "- (char)isEqual { return 1; }"}
        for n in range(0, 6 if t else 5):
            for q in itertools.permutations(ms, n):
                rep = "e" in q and "h" not in q
                yield f"@interface A{{N}} : J @end {M(RH, '', 'If you override isEqual you must override hash too.') if rep else ''}@implementation A{{N}} {' '.join(ms[c] for c in q)} @end"
                if n == 2:
                    for q2 in itertools.permutations(ms, 2):
                        r2 = "e" in q2 and "h" not in q2
                        mk = M(RH, '', 'If you override isEqual you must override hash too.')
                        yield f"@interface A{{N}} : J @end @interface B{{N}} : A{{N}} @end {mk if rep else ''}@implementation A{{N}} {' '.join(ms[c] for c in q)} @end {mk if r2 else ''}@implementation B{{N}} {' '.join(ms[c] for c in q2)} @end"
    return [OSpace(f"isEqual and hash/{e}", e, ["ObjCVerifyIsEqualHash"], gen, prologue=ROOT) for e in ("m", "mm")]


def c25(t):
    return must_super(t) + prohibited(t) + protected(t) + abstract(t) + equal(t)


# ------------------------------------------------------------------ C31
NUM = {"Char": "char", "Int": "int", "UnsignedInt": "unsigned int", "Long": "long", "UnsignedLong": "unsigned long", "LongLong": "long long", "UnsignedLongLong": "unsigned long long", "Float": "float", "Double": "double", "Bool": "BOOL", "Short": "short", "Integer": "NSInteger"}
P31 = ("typedef signed char BOOL; typedef long NSInteger; enum E { KC, KD = 5 };\n#define YES ((BOOL)1)\n#define NO ((BOOL)0)\n" + ROOT +
       "@interface %s : J " + " ".join(f"+ (id)numberWith{k}:({t})v;" for k, t in NUM.items()) + " + (id)numberWithInt:(int)a and:(int)b; - (id)initWithInt:(int)v; - (id)numberWithInt:(int)v; + (id)stringWithUTF8String:(const char *)s; + (id)stringWithString:(id)s; @end\n")
P31 = (P31 % "NSNumber") + (P31[P31.index("@interface %s"):] % "Z") + ((P31[P31.index("@interface %s"):] % "NSString")) + \
    "@interface MyNumber : NSNumber @end @interface Y : J + (id)numberWithInt:(int)v; @end char *cs(void); const char *ccs(void); char *cv;\n"
A_SEL = ["array", "arrayWithObject:", "arrayWithObjects:", "arrayWithObjects:count:", "arrayWithArray:", "new", "arrays"]
D_SEL = ["dictionary", "dictionaryWithObject:forKey:", "dictionaryWithObjects:forKeys:count:", "dictionaryWithObjectsAndKeys:", "dictionaryWithObjects:forKeys:", "dictionaryWithDictionary:", "new", "dictionaryWithObject:"]
S_GET = {"NSArray": ["objectAtIndex:", "objectAtIndexedSubscript:"], "NSDictionary": ["objectForKey:", "objectForKeyedSubscript:"],
         "NSMutableArray": ["replaceObjectAtIndex:withObject:", "setObject:atIndexedSubscript:"], "NSMutableDictionary": ["setObject:forKey:", "setObject:forKeyedSubscript:"]}
S_ALL = sorted({x for v in S_GET.values() for x in v}) + ["objectAtIndex", "removeObjectAtIndex:", "valueForKey:", "setObject:atIndex:"]


def mdecl(k, sel):
    parts = sel.split(":")
    return f"{k} (id)" + (sel if len(parts) == 1 else " ".join(f"{p}:(id)a{i}" for i, p in enumerate(parts[:-1]))) + ";"


def mcall(rcv, sel, arg="z"):
    parts = sel.split(":")
    return f"[{rcv} {sel}]" if len(parts) == 1 else f"[{rcv} " + " ".join(f"{p}:{arg}" for p in parts[:-1]) + "]"


P31B = ROOT + "".join(f"@interface {c} : {sup} " + " ".join(mdecl("+", x) for x in sorted(set(A_SEL + D_SEL) - {"new"})) + " " + " ".join(mdecl("-", x) for x in S_ALL) + " - (NSArray *)arr; - (NSDictionary *)dic; @end\n"
                      for c, sup in (("NSArray", "J"), ("NSDictionary", "J"), ("NSMutableArray", "NSArray"), ("NSMutableDictionary", "NSDictionary"), ("Z", "J"), ("NSSet", "J"), ("Sub", "NSArray")))
P31B = "@class NSArray, NSDictionary;\n" + P31B
POS = ["$;", "id v = $;", "return $;", "[z use{N}:$];", "^{ $; }();", "if ($) g(); else $;", "for (id qq = $; $; $) { $; }", "g($, $);", "while (g()) { switch (g()) { case 1: $; } }", "(void)(id)$;", "@try { $; } @catch (id e) { $; } @finally { $; }"]
HEADS = ["id f{N}(id z, int a, double d, BOOL b, char c, float fl, long l, unsigned u) { \x07 return z; }", "@interface K{N} : J @end @implementation K{N} - (id)m:(id)z a:(int)a d:(double)d b:(BOOL)b c:(char)c f:(float)fl l:(long)l u:(unsigned)u { \x07 return z; } @end",
         "@interface K{N} : J @end @interface K{N} (C) @end @implementation K{N} (C) + (id)m:(id)z a:(int)a d:(double)d b:(BOOL)b c:(char)c f:(float)fl l:(long)l u:(unsigned)u { \x07 return z; } @end"]
# argument: (text, type, what it is)
ARGS = [("1", "int", "lit"), ("0x7f", "int", "lit"), ("1U", "unsigned int", "lit"), ("1L", "long", "lit"), ("1UL", "unsigned long", "lit"), ("1LL", "long long", "lit"), ("1ULL", "unsigned long long", "lit"), ("1.5", "double", "lit"), ("1.5f", "float", "lit"),
        ("'c'", "", "chr"), ("-1", "int", ""), ("a", "int", ""), ("a + 1", "int", ""), ("KC", "", "enum"), ("YES", "", "bool"), ("NO", "", "bool"), ("__objc_yes", "", "bool"), ("__objc_no", "", "bool"), ("a > 1", "int", ""), ("(BOOL)1", "BOOL", ""), ("b", "BOOL", ""), ("!b", "int", ""),
        ("(1)", "int", "par"), ("(a + 1)", "int", "par"), ("(a * 2 - 1)", "int", "par"), ("(u + 1)", "unsigned int", "par"), ("(l + 1)", "long", "par"), ("(l + 1UL)", "unsigned long", "par"), ("(l + 1LL)", "long long", "par"), ("(l + 1ULL)", "unsigned long long", "par"),
        ("(d + 1)", "double", "par"), ("(fl + 1)", "float", "par"), ("((char)a)", "char", "par"), ("(int)(d)", "int", ""), ("((short)a)", "short", "par"), ("((NSInteger)a)", "NSInteger", "par"), ("(a, 1)", "int", "par"), ("((a + 1))", "int", "par"), ("(-1)", "int", "par")]


def c31(t):
    BX, NL, CL, SU = "use boxed expression", "use number literal", "use container literal", "use object subscripting"

    def wrap(e, h, p):
        return HEADS[h].replace("\x07", POS[p].replace("$", e))

    def numbers():
        for cls in ("NSNumber", "MyNumber", "Z", "NSString"):
            for k, ty in NUM.items():
                for arg, aty, what in ARGS:
                    if ty in ("short", "NSInteger"):
                        nl = bx = False
                    else:
                        nl = what == "lit" and aty == ty or what == "chr" and ty == "char" or what == "bool" and ty == "BOOL"
                        bx = what == "par" and (aty == ty or ty == "BOOL") or what == "enum" and ty == "int"
                    e = f"[{cls} numberWith{k}:{arg}]"
                    if cls == "NSNumber":
                        e = (M(NL, "") if nl else "") + (M(BX, "") if bx else "") + e
                    for h in range(len(HEADS)) if nl or bx else (0,):
                        for p in range(len(POS)) if nl or bx or t else (0,):
                            yield wrap(e, h, p)
        for e in ("[NSNumber numberWithInt:1 and:1]", "[(NSNumber *)z initWithInt:1]", "[(id)z initWithInt:(a + 1)]", "[NSNumber stringWithUTF8String:cs()]", "[NSString stringWithString:(z)]", "[Y numberWithInt:(a + 1)]"):
            for p in range(len(POS)):
                yield wrap(e, 0, p)
        # an instance of the class
        for e in ("1", "(a + 1)"):
            yield wrap(f"[(id){M(NL if e == '1' else BX, '')}[NSNumber numberWithInt:{e}] x]", 0, 0)
        for cls in ("NSString", "NSNumber", "Z"):
            for arg, y in (("cs()", True), ("(cs())", True), ("(cv + 1)", True), ("ccs()", False), ("\"x\"", False), ("cv", False), ("(ccs())", False), ("(char *)0", False), ("(const char *)cv", False), ("&cv[1]", False)):
                for p in range(len(POS)):
                    yield wrap((M(BX, "") if y and cls == "NSString" else "") + f"[{cls} stringWithUTF8String:{arg}]", 0, p)

    def containers():
        for cls in ("NSArray", "NSDictionary", "NSMutableArray", "NSMutableDictionary", "Z", "NSSet", "Sub"):
            for sel in sorted(set(A_SEL + D_SEL)):
                y = cls == "NSArray" and sel in A_SEL[:4] or cls == "NSDictionary" and sel in D_SEL[:5]
                for h in range(3):
                    for p in range(len(POS)):
                        yield wrap((M(CL, "") if y else "") + mcall(cls, sel), h, p).replace("BOOL", "char")
                if y:
                    for sel2 in A_SEL[1:5]:
                        yield wrap(f"{M(CL, '') if sel2 in A_SEL[:4] else ''}" + mcall("NSArray", sel2, M(CL, "") + mcall(cls, sel)), 0, 0).replace("BOOL", "char")

    def subscripts():
        decl = "@interface V{N} : J { @public $ i{N}; } @end "
        for ty in ("NSArray", "NSDictionary", "NSMutableArray", "NSMutableDictionary", "Z", "NSSet", "Sub"):
            for sel in S_ALL:
                y = sel in S_GET.get(ty, [])
                for rc, lv in (("x", True), ("o->i{N}", True), (f"(({ty} *)z)", False), ("q[1]", True), ("*r", True)):
                    for p in range(len(POS)):
                        mk = M(SU, "") if y and lv else ""
                        e = mk + mcall(rc, sel)
                        yield decl.replace("$", ty + " *") + wrap(e, 0, p).replace("(id z", f"({ty} *x, {ty} *q[], {ty} *const *r, V{{N}} *o, id z").replace("BOOL", "char")
                for p in range(len(POS)):
                    yield wrap(mcall("z", sel), 0, p).replace("BOOL", "char")
    out = []
    for e in ("m", "mm"):
        out.append(OSpace(f"numbers and strings/{e}", e, ["ObjCNSNumberLiterals", "ObjCBoxedExpressions"], numbers, prologue=P31))
        out.append(OSpace(f"numbers and strings, BOOL is bool/{e}", e, ["ObjCNSNumberLiterals", "ObjCBoxedExpressions"], numbers, prologue=P31.replace("signed char", "_Bool" if e == "m" else "bool")))
        out.append(OSpace(f"containers/{e}", e, ["ObjCContainerLiterals"], containers, prologue=P31B))
        out.append(OSpace(f"subscripts/{e}", e, ["ObjCObjectSubscripting"], subscripts, prologue=P31B))
    return out


# ------------------------------------------------------------------ C33
RF, TF, IA, FE = "return from finally block", "throw exception from finally block", "ivar assignment outside accessors or init", "feature envy"
P33 = ROOT + "".join(f"@interface {c} : J - (id)raise; + (id)raise; + (id)raise:(id)n format:(id)f; - (id)raise:(id)n format:(id)f; + (id)raise:(id)n format:(id)f arguments:(id)a; + (id)raise:(id)n; - (id)raise:(id)n; + (id)raise:(id)n other:(id)o; + (id)exc; @end\n" for c in ("NSException", "Other"))
# (text, reported when in a @finally block)
LEAVE = [("return z;", RF), ("{ return z; }", RF), ("@throw z;", TF), ("@throw [NSException exc];", TF)] + \
        [(f"[{r} {s}];", TF if c == "NSException" and s in ("raise", "raise:z format:z", "raise:z format:z arguments:z") else None)
         for c in ("NSException", "Other") for r, ss in ((c, ("raise", "raise:z format:z", "raise:z format:z arguments:z", "raise:z", "raise:z other:z")), (f"({c} *)z", ("raise", "raise:z format:z", "raise:z"))) for s in ss] + \
        [("g(z);", None), ("[z raise];", None), ("goto L;", None), ("g([NSException exc]);", None)]


def fin(t):
    mk = {None: lambda x: x, RF: lambda x: x.replace("return", M(RF, "") + "return", 1), TF: lambda x: M(TF, "") + x}
    wraps = ["$", "{ $ }", "if (g()) $ else g();", "while (g()) { $ }", "switch (g()) { case 1: $ default: break; }", "for (;;) { do { $ } while (g()); }", "if (g()) { if (g()) g(); else { $ } }", "@synchronized (z) { $ }", "@autoreleasepool { $ }", "M: $"]
    place = ["@try { g(); } @finally { # }", "@try { # } @finally { g(); }", "@try { g(); } @catch (id e) { # } @finally { g(); }", "@try { g(); } @catch (id e) { g(); } @finally { # }", "@try { # } @catch (id e) { g(); }", "#",
             "@try { @try { g(); } @finally { # } } @finally { g(); }", "@try { g(); } @finally { @try { # } @catch (id e) { g(); } }", "@try { g(); } @finally { @try { g(); } @catch (id e) { # } }", "@try { g(); } @finally { @try { g(); } @finally { # } }",
             "@try { @try { # } @finally { g(); } } @catch (id e) { g(); }", "@try { g(); } @finally { @try { # } @finally { g(); } }"]
    inside = {0, 3, 6, 7, 8, 9, 11}
    heads = ["id f{N}(id z) { # L: return z; }", "@interface K{N} : J @end @implementation K{N} - (id)m:(id)z { # L: return z; } @end", "@interface K{N} : J @end @interface K{N} (C) @end @implementation K{N} (C) + (id)m:(id)z { # L: return z; } @end"]

    def gen():
        for hi, h in enumerate(heads):
            for pi, p in enumerate(place):
                for w in wraps:
                    for x, r in LEAVE:
                        if x == "goto L;" and pi != 5 or w == "M: $" and x[0] == "{":
                            continue
                        body = mk[r if pi in inside else None](x)
                        if w[0] == "i" and w.startswith("if (g()) $") and x[-1] not in ";}":
                            continue
                        yield h.replace("#", p.replace("#", w.replace("$", body) + " g();"))
        # several in one function
        core = LEAVE[:4] + LEAVE[4:8]
        for p1 in range(len(place)):
            for p2 in range(len(place)):
                for (x, r), (y, s) in itertools.product(core, repeat=2) if t else zip(core, core[3:] + core[:3]):
                    yield heads[0].replace("#", place[p1].replace("#", mk[r if p1 in inside else None](x)) + " " + place[p2].replace("#", "g(); " + mk[s if p2 in inside else None](y)))
        # both in one block
        for p1 in inside:
            for (x, r), (y, s) in itertools.product(LEAVE, repeat=2):
                if "goto L;" not in (x, y):
                    yield heads[0].replace("#", place[p1].replace("#", mk[r](x) + " " + mk[s](y)))
    def seqs():
        """up to three (four) statements that may leave, in functions with and without a value"""
        some = [x for x in LEAVE if x[0] in ("return z;", "{ return z; }", "@throw z;", "[NSException raise];", "[(NSException *)z raise];", "[Other raise];", "g(z);")] + [("return [Other raise];", RF), ("if (g()) return z;", RF)]
        some = [(x, mk[r](x)) for x, r in some] + [("return [NSException raise];", M(RF, "") + "return " + M(TF, "") + "[NSException raise];"), ("if (g()) g(); else { @throw z; }", "if (g()) g(); else { " + M(TF, "") + "@throw z; }"),
               ("while (g()) { return z; }", "while (g()) { " + M(RF, "") + "return z; }")]
        for n in range(1, 5 if t else 4):
            for q in itertools.product(some if n < 3 else some[:7], repeat=n):
                for pi in (0, 1, 3, 7, 9) if n < 3 else (0,):
                    b = " ".join(m if pi in inside else x for x, m in q)
                    h = heads[0].replace("#", place[pi].replace("#", b))
                    yield h
                    v = h.replace("id f{N}", "void f{N}").replace("return z;", "return;")
                    if "return \x01" not in v and "return [" not in v:
                        yield v
    out = []
    for e in ("m", "mm"):
        out.append(OSpace(f"sequences in @finally/{e}", e, ["ReturnFromFinallyBlock", "ThrowExceptionFromFinallyBlock"], seqs, prologue=P33, clang=(*catalog.CLANG[e], "-fblocks")))
        out.append(OSpace(f"return and throw in @finally/{e}", e, ["ReturnFromFinallyBlock", "ThrowExceptionFromFinallyBlock"], gen, prologue=P33, clang=(*catalog.CLANG[e], "-fblocks")))
    return out


SELS = ["foo", "setFoo:", "setfoo:", "SetFoo:", "setFoo", "setFoo:x:", "foo:", "_foo", "init", "initWithFoo:", "initFoo", "initialize", "iNit", "Init", "ini", "reinit", "m", "set:", "setX:", "x", "fooBar", "setFooBar:", "foobar", "setFoobar:", "getFoo", "setFoo:y:"]
IVARS = ["foo", "_foo", "foo_", "__foo", "_f_oo", "Foo", "x", "_x", "foo_bar", "_fooBar", "ini"]
# (statement, assigns?); $ is the ivar
ASG = [("$ = 1;", 1), ("$ += 1;", 1), ("$ <<= 1;", 1), ("$ |= $$;", 1), ("self->$ = 1;", 1), ("o->$ = 1;", 1), ("l = $$;", 0), ("l = $$ + 1;", 0), ("l = $$ == 1;", 0), ("g($$);", 0), ("if (($ = 1)) g();", 1), ("^{ $ = 1; }();", 1), ("while (g()) { { $ = 1; } }", 1), ("($) = 1;", 1),
       ("(o)->$ = 1;", 1), ("int v = $$;", 0), ("int v = $ = 1;", 1), ("l = $ = 1;", 1), ("$ = self->$ = o->$ = 1;", 1), ("b[$$] = 1;", 0), ("l = ($$, 1);", 0), ("[o use:$$];", 0), ("switch ($$) { case 1: $ = 2; }", 1), ("@try { g(); } @finally { $ = 1; }", 1), ("$$ > 1; $$ <= 1;", 0), ("self.prop = $$;", 0)]


def ivar(t):
    def gen():
        for sel in SELS:
            for iv in IVARS:
                base = iv.replace("_", "")
                ok = sel in (base, "set" + base[:1].upper() + base[1:] + ":") or sel.startswith("init")
                for k in "-+":
                    for a, y in ASG:
                        if k == "+" and ("self" in a or "o->$" not in a) and "(o)->$" not in a:
                            continue
                        if sel == "m" or (iv in ("foo", "_foo", "foo_") and k == "-") or a == "$ = 1;" or t or k == "+":
                            txt = re.sub(r"(?<!\$)((?:self->|o->|\(o\)->)?)\$(?!\$)", lambda m: (M(IA, "") if y and not ok else "") + m.group(1) + iv, a.replace("$$", "\x07")).replace("\x07", iv).replace("($) = ", "($) = ")
                            parts = sel.split(":")
                            sg = sel if len(parts) == 1 else " ".join(f"{p}:(int)a{i}" for i, p in enumerate(parts[:-1]))
                            for impl in ("", " (C)") if t or sel in ("foo", "m", "setFoo:") else ("",):
                                yield f"@interface C{{N}} : J {{ int {iv}; }} @property int prop; - (void)use:(int)x; @end {'@interface C{N} (C) @end ' if impl else ''}@implementation C{{N}}{impl} {k} (int){sg} {{ C{{N}} *o; int l, b[9]; {txt} return 0; }} @end"
        # other places and targets
        for sel in ("m", "foo"):
            ok = sel == "foo"
            mk = "" if ok else M(IA, "")
            for decl, use in (("struct { int f; } foo;", f"{mk}foo.f = 1;"), ("int foo[3];", f"{mk}foo[0] = 1;"), ("struct { int f[2]; } foo[3];", f"{mk}foo[l].f[1] += 1;"), ("int foo, _foo_;", f"{mk}foo = {mk}_foo_ = 1;"),
                              ("C{N} *own; int foo;", f"{mk}own->foo = 1;"), ("C{N} *own; int foo;", f"{mk}self->own->foo = 1;"), ("int foo, ix; int arr[9];", "l = arr[ix]; b[ix] = 1; b[arr[ix]] = 1;"), ("C{N} *own;", "own.prop = 1; self->own.prop = 2; l = own.prop;")):
                if "own->foo" in use or "_foo_" in use or True:
                    yield f"@interface C{{N}} : J {{ {decl} }} @property int prop; @end @implementation C{{N}} - (int){sel} {{ int l = 0, b[9]; {use} return 0; }} @end"
            yield f"@interface C{{N}} : J {{ @public int foo; }} @end void h{{N}}(C{{N}} *o) {{ o->foo = 1; }} @implementation C{{N}} - (int){sel} {{ int foo; foo = 1; return 0; }} - (void)z {{ C{{N}} *p; p->{''}prop(); }} @end".replace(" - (void)z { C{N} *p; p->prop(); }", "")
    return [OSpace(f"ivar assignments/{e}", e, ["ObjCAssignIvarOutsideAccessors"], gen, prologue=ROOT, clang=(*catalog.CLANG[e], "-fblocks")) for e in ("m", "mm")]


P33E = ROOT + """@interface L : J { @public int lv; } @property int lp; - (L *)next; + (L *)cls; @end
@interface K : J { @public int kv; } @property int p; @property(class) int cp; - (K *)next; + (K *)cls; - (int)imp; - (void)setImp:(int)x; - (void)a:(int)x b:(int)y; @end
@interface SK : K @end
@interface Base : J { @public int inh; } @property int bp; - (int)bm; @end
@protocol PR - (int)prm; @property int prp; @end
@interface G<T> : J - (int)gm; + (id)cls; @property int gp; @end
typedef K KT; typedef KT KTT; typedef K *KP; @compatibility_alias KA K; typedef G<K *> GK;
"""
# (text, classes that are messaged, needs an instance)
ACT = [("[self x];", "C", 1), ("self.p = 1;", "C", 1), ("iv = 1;", "C", 1), ("inh = 1;", "C", 1), ("self.bp++;", "C", 1), ("[self bm];", "C", 1), ("[C{N} cls];", "C", 0), ("o->iv = 1;", "C", 0), ("[super x];", "", 0), ("super.bp = 1;", "", 1), ("[z x];", "", 0), ("g();", "", 0),
       ("[k x];", "K", 0), ("k.p = 1;", "K", 0), ("g(k.p);", "K", 0), ("k.p += 1;", "K", 0), ("k.imp = 2;", "K", 0), ("g(k.imp);", "K", 0), ("[K cls];", "K", 0), ("K.cp = 1;", "K", 0), ("k->kv = 1;", "K", 0), ("[[k next] x];", "KK", 0), ("k.next.p = 1;", "KK", 0), ("^{ [k x]; }();", "K", 0), ("[k a:[k x] b:k.p];", "KKK", 0),
       ("[sk x];", "S", 0), ("sk.p = 1;", "S", 0), ("sk->kv = 1;", "S", 0), ("[l x];", "L", 0), ("l.lp = k.p;", "LK", 0), ("[L cls].lp = l->lv;", "LLL", 0), ("if ([l x]) { [l x]; }", "LL", 0)]
# other ways of writing the class
ACT2 = [("[KT cls];", "K", 0), ("[KTT cls];", "K", 0), ("[KA cls];", "K", 0), ("[(KT *)z x];", "K", 0), ("KP kp = k; [kp x];", "K", 0), ("[(__kindof K *)z x];", "K", 0), ("[(K<PR> *)z x];", "K", 0),
        ("[(K<PR> *)z prm];", "K", 0), ("[(id<PR>)z prm];", "", 0), ("((id<PR>)z).prp = 1;", "", 0), ("[G cls];", "G", 0), ("[G<K *> cls];", "G", 0), ("[GK cls];", "G", 0), ("[(G<K *> *)z gm];", "G", 0), ("((GK *)z).gp = 1;", "G", 0), ("[[k self_] x];", "K", 0) if 0 else ("((KT *)z)->kv = 1;", "K", 0),
        ("[CT{N} cls];", "C", 0), ("[(CT{N} *)z x];", "C", 0), ("((CT{N} *)z).p = 1;", "C", 0), ("((CT{N} *)z)->iv = 1;", "C", 0), ("[CA{N} cls];", "C", 0), ("[(Class)z cls];", "", 0), ("[(__typeof(k))z x];", "K", 0), ("[(k) x];", "K", 0), ("[(0, k) x];", "K", 0), ("[(z ? k : sk) x];", "K", 0)]


def envy(t):
    heads = [("@implementation C{N} # @end", "-m"), ("@interface C{N} (X) @end @implementation C{N} (X) # @end", "-m"), ("@implementation C{N} # @end", "+m")]

    def prog(h, acts, sel):
        h, k = heads[h]
        text = " ".join(a[0] for a in acts)
        n = {c: sum(a[1].count(c) for a in acts) for c in "CKLSG"}
        env = [c for c in "KLSG" if n[c] > n["C"]]
        parts = sel.split(":")
        sg = sel if len(parts) == 1 else " ".join(f"{p}:(int)a{i}" for i, p in enumerate(parts[:-1]))
        mk = "".join(M(FE, "", f"Method {sel} messages {'SK' if c == 'S' else c} more than self.") for c in env)
        decl = "@interface C{N} : Base { @public int iv; } @property int p; + (C{N} *)cls; @end "
        if "CT{N}" in text or "CA{N}" in text:
            decl += "typedef C{N} CT{N}; @compatibility_alias CA{N} C{N}; "
        return decl + h.replace("#", f"{mk}{k[0]} (void){sg} {{ K *k; SK *sk; L *l; id z; C{{N}} *o; {text} }}")

    def gen():
        for n in range(0, 4):
            for acts in itertools.product(ACT, repeat=n) if n < 3 else itertools.combinations_with_replacement(ACT, n):
                for h in range(3) if n < 3 else (0,):
                    if heads[h][1] == "+m" and any(a[2] for a in acts):
                        continue
                    for sel in ("m", "m:n:", "m:") if n < 2 else ("m",):
                        yield prog(h, acts, sel)
        core = [ACT[i] for i in ((0, 1, 2, 4, 6, 8, 12, 13, 15, 20, 21, 25, 28, 30) if t else (0, 1, 2, 12, 13, 21, 26, 28, 30))]
        for n in (4, 5) if not t else (4, 5, 6):
            for acts in itertools.combinations_with_replacement(core, n):
                yield prog(0, acts, "m")
        for n in (1, 2, 3):
            for acts in itertools.product(ACT2 + core[::3], repeat=n):
                if n == 3 and not t and sum(a in ACT2 for a in acts) != 2:
                    continue
                if sum("KP kp" in a[0] for a in acts) < 2 and any(a in ACT2 for a in acts):
                    yield prog(0, acts, "m")
        # two methods in one class: each is judged by its own messages
        for a, b in itertools.product(ACT, repeat=2):
            one, two = prog(0, (a,), "m"), prog(0, (b,), "n")
            i = two.index("@implementation C{N}") + len("@implementation C{N}")
            yield one[:one.rindex("@end")] + two[i:]
    return [OSpace(f"feature envy/{e}", e, ["FeatureEnvy"], gen, prologue=P33E) for e in ("m", "mm")]


def c33(t):
    return fin(t)


def c34(t):
    return ivar(t) + envy(t)


PARTS = {"C25": c25, "C31": c31, "C33": c33, "C34": c34}


def check(pid):
    chk = common.Check(pid, explanation=EXPL, assumptions=["clang parses the generated programs as intended"])
    spaces = PARTS[pid](chk.thorough)
    rules = sorted({r for s in spaces for r in s.rules})
    tree = B.build(True, rules, (), [B.MCRAW])
    chk.bounds = {"spaces": "see parts"}
    common.explore_spaces(chk, tree, spaces)
    return chk.finish()
