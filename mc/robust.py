"""C35 every construct, C36 declarations on their own: all rules together on everything the languages offer."""
import collections, itertools, json, os, re, shutil, subprocess, time
import build as B, catalog, common, run as R, scope

EXPL = {"C35": "Every construct of the lists is put into every hole of every other one (expressions into expressions, statements and declarations into statements, everything into functions, templates, methods, lambdas, blocks) and linted with all rules by the real executable; "
               "compositions that clang rejects are left out. Every run has to end with a report in which every violation lies within the program it is for. states = distinct programs, transitions = programs linted, traces = runs of the executable.",
        "C36": "The catalogue's declarations are put into one file in sequences in which every ordered pair of them is adjacent, at top level and in namespaces and linkage specifications, with all rules loaded; what is reported for each declaration has to be what is reported for it alone. "
               "states = ordered pairs (triples) of declarations, transitions = declarations linted, traces = runs of the executable.",
        "C41": "Frames with two places for a statement (one after the other, branches, loops, cases, try and handler, a lambda or block and what follows) are filled with every ordered pair of statements and linted with all rules; what is reported inside each place has to be what is reported there when the other place holds a plain call. "
               "states = ordered pairs per frame, transitions = statements linted, traces = runs of the executable."}
E, S = "§", "¤"         # holes: expression, statement

# ------------------------------------------------------------------ constructs
X_C = ["a", "1", "1.5", "'c'", "\"s\"", "\"s\" \"t\"", "L\"w\"", "0", "p", "*p", "p[§]", "s->x", "(*s).x", "s->n->x", "(§)", "-§", "!§", "~a", "++a", "a--", "&a", "§ + 1", "§ == 2", "§ && §", "§ || a", "§ ? 1 : 2", "§ ? §: §", "a = §", "a += 1", "§, §", "(int)§", "(void)§",
       "sizeof(int)", "sizeof a", "sizeof(int[2])", "g(§)", "g(§, §)", "fp(§)", "(*fp)(1)", "__builtin_expect(§, 1)", "({ ¤ a; })", "({ §; })", "a & 1", "a % 2 == 1", "§ >> 1", "a ?: §", "__builtin_offsetof(struct P, x)", "__func__[0]", "__extension__ a", "E1", "__builtin_choose_expr(1, 1, 2)", "__builtin_types_compatible_p(int, int)", "a <= § && § > 2"]
X_CONLY = ["(struct P){ 1 }.x", "(struct P){ .x = § }.x", "(int[]){ 1, § }[0]", "_Generic(a, int: 1, default: 2)", "_Alignof(int)", "&(struct P){ 0 }", "(__typeof__(a))1", "__builtin_va_arg_pack_len_"]
X_CPP = ["true", "nullptr", "new int", "new int(§)", "new int[§]{1}", "new (p) int", "delete p", "delete[] p", "::delete p", "static_cast<int>(§)", "reinterpret_cast<long>(p)", "const_cast<const int *>(p)", "int(§)", "int{}", "S(1)", "S{1}.m(§)", "so.m(§)", "so.*mp", "(so.*mf)(1)", "sp->v()", "so + so", "so[§]", "so(§)",
         "[] { return 1; }()", "[&] { ¤ }", "[=](int b) mutable noexcept -> int { return b; }(1)", "[a](auto... xs) { return sizeof...(xs); }(1, 2)", "[&, b = §] { return b; }()", "[]<class U>(U u) { return u; }(1)", "typeid(int).name()", "typeid(so).name()", "throw 1", "§ ? throw 1 : 2", "noexcept(§)", "alignof(S)", "t1<int>(§)", "T2<int>::v", "T2<int>{}.m()", "vt<int>",
         "S::sm(1)", "S::sv", "dynamic_cast<D *>(sp)", "1_ud", "std::initializer_list<int>{1, 2}.size()", "requires { §; }", "requires(S u) { { u.m(1) } -> C1; typename S::I; requires true; }", "C1<int>", "so <=> so < 0", "sum(1, 2, 3)", "__builtin_bit_cast(unsigned, 1)", "__is_trivial(S)", "Agg{1, .0}.i", "Agg{.i = 1}.i", "decltype(a)(1)", "(a <=> 1) < 0", "u8\"x\"[0]", "R\"(raw)\"[0]", "so.operator+(so)", "int()", "auto(a)"]
X_DEP = ["x", "x + 1", "x.y", "x->y", "x.m(§)", "x(§)", "x[§]", "T(§)", "T{§}", "T::z", "T::m(§)", "typename T::u()", "x.template q<int>(§)", "sizeof(T)", "sizeof...(xs)", "f2(xs...)", "(xs + ... + 0)", "(... && xs)", "(T)x", "static_cast<T>(§)", "!x", "-x", "*x", "&x", "x == §", "x && §", "x ? x : §", "x, §", "x = §", "x += §", "new T", "new T(xs...)", "delete x", "noexcept(x)", "typeid(x).name()", "[x] { return x; }()", "[&](auto y) { return x + y; }", "requires { x.q(); typename T::w; }", "x <=> x", "x++", "g(§, x)", "t1<T>(x)", "T2<T>::v", "vt<T>", "this_(x)", "{x}_"]
X_OBJC = ["[k x]", "[k m:§ n:§]", "[K cm]", "[[K cm] x]", "k.p", "k.p = §", "k.q.p", "K.cp", "k[0]", "k[@\"s\"]", "k[0] = k", "@\"s\"", "@1", "@YES_", "@(§)", "@(a)", "@[]", "@[@1, §_]", "@[k, k]", "@{}", "@{@\"a\": k}", "@selector(x)", "@selector(m:n:)", "@protocol(Pr)", "@encode(int)", "^{ ¤ }", "^int (int b) { return b; }(1)", "^(id z) { [z x]; }", "(id)k", "k->iv", "k->iv = §", "k == nil", "!k", "k && [k x]", "k ? [k x] : 1", "(K *)z", "[z x]", "[(id)k m:1 n:§]", "[k class]_", "[NSNumber numberWithInt:§]", "[NSArray arrayWithObject:k]", "__objc_yes", "[z prot]", "blk(§)", "[g_ x]_"]
X_SELF = ["[self x]", "self.p", "self->iv", "iv", "iv = §", "[super x]", "super.p", "self.p = §", "[self m:§ n:§]", "_cmd == @selector(x)", "^{ [self x]; }", "self", "[[self q] x]", "self = [super q]_"]

ST_C = [";", "§;", "{ }", "{ ¤ }", "{ ¤ ¤ }", "if (§) ¤", "if (§) ¤ else ¤", "if (§) { ¤ } else { ¤ }", "if (a) ¤ else if (§) ¤", "if (a) ¤ else if (§) ¤ else ¤", "while (§) ¤", "do ¤ while (§);", "for (;;) ¤", "for (a = 0; §; a++) ¤", "for (int i = 0; i < 3; i++) ¤", "for (int i = 0, j = §; ; i++, j++) { ¤ }", "for (§; §; §) ;",
        "switch (§) { }", "switch (§) ;", "switch (a) { case 1: ¤ break; case 2: ¤ default: ¤ }", "switch (a) { default: ; }", "switch (a) { case 1: case 2: default: ¤ }", "switch (a) { case 1 ... 5: ¤ }", "switch (a) case 1: ¤", "switch (e) { case E1: ¤ case E2: break; }", "switch (a) { int v; case 1: v = §; ¤ }", "switch (a) { case 1: { ¤ } { case 2: ¤ } }", "switch (a) { case 1: do { ¤ case 2: ; } while (a); }", "switch (a) { L2: case 1: ¤ }",
        "break;", "continue;", "return §;", "goto L1;", "goto *&&L1;", "L3: ¤", "L4: ;", "int b;", "int b = §;", "int b, *c = &b, d[3];", "int b[] = { §, 2 };", "int b[a];", "static int sl = 1;", "extern int ge;", "typedef int TI;", "struct L { int x; } l;", "enum { LE1, LE2 = 3 } le;", "int lf(int);", "struct P lp = { 1 };", "void (*lfp)(int) = 0;", "__asm__(\"\");", "__asm__ volatile(\"\" : \"=r\"(a) : \"r\"(a) : \"memory\");", "_Static_assert(1, \"m\");", "__attribute__((fallthrough));_", "int b __attribute__((unused)) = §;", "const volatile int b = 1;", "register int b = §;_", "__label__ LL; LL: ;_",
        "\n#pragma clang loop unroll(disable)\nfor (;;) ¤", "\n#pragma omp parallel for\nfor (int i = 0; i < 3; i++) { ¤ }", "\n#pragma omp parallel\n{ ¤ }", "\n#pragma omp critical\n¤", "\n#pragma omp task\n{ ¤ }", "if (0) ¤", "while (1) ¤", "if (§) return 1; else return 0;", "if (!§) { return 1; } else { ¤ }", "if (a) { } else ;", "__builtin_unreachable();", "__builtin_assume(§);_", "char cs[] = \"x\";", "char *q = §;_", "__auto_type at = a;"]
ST_CONLY = ["struct P lp = { .x = § };", "int b[3] = { [1] = § };", "int b[] = { };", "_Alignas(8) int b;", "int nf(a_) int a_; { }_", "_Noreturn void nr(void);", "switch (a) { case 1: ; int k = §; }", "double b = §;", "__thread static int tl;", "int b[2][a];", "_Bool bb = §;", "_Atomic int ai;", "for (struct P q = { 0 }; q.x; ) ¤"]
ST_CPP = ["try { ¤ } catch (...) { ¤ }", "try { ¤ } catch (int ex) { ¤ } catch (const S &) { throw; }", "for (int i : arr) ¤", "for (auto &&[u, v] : pairs) { ¤ }", "for (int k = §; auto i : arr) ¤", "for (auto i : {1, 2}) ¤", "if (int b = §) ¤ else ¤", "if (int b = §; b) ¤", "if (auto [u, v] = pr; u) ¤", "if constexpr (true) ¤ else ¤", "if consteval { ¤ } else { ¤ }", "if !consteval { ¤ }", "while (int b = §) ¤", "switch (int b = §; b) { case 1: [[fallthrough]]; default: ¤ }", "switch (ec) { case EC::A: ¤ case EC::B: ; }",
          "[[maybe_unused]] int b = §;", "if (§) [[likely]] ¤", "auto [u, v] = pr;", "auto &&[u, v] = pr;", "auto b = §;", "auto l = [&] { ¤ };", "auto l = [=, this_]() { }_", "S b(§);", "S b{§};", "S b = S(1);", "S &b = so;", "S &&b = S(1);", "const S &b = S(2);", "struct L { void m() { ¤ } int y = 1; } l;", "struct L : S { using S::S; void m() override_; };", "struct L { virtual ~L(); void m(int = 1); };", "class L { static void m(); };", "using TI = int;", "using namespace ns;", "using ns::nf;", "using enum EC;", "namespace na = ns;", "static_assert(true);", "thread_local int tl = 1;", "constexpr int ce = 1;", "static constinit int ci = 1;_", "delete p;", "throw;", "return {};", "decltype(a) b = §;", "int b(§);", "int b{};", "union { int ua; float ub; };", "enum class LE : char { A };", "extern \"C\" int q;_", "asm(\"nop\");", "for (;;) try { ¤ } catch (int) { }", "do try { ¤ } catch (...) { } while (a);", "if (a) try { ¤ } catch (...) { } else ¤", "T2<int> b;", "T2 b{1};", "typedef T2<S> TT;", "static S st(1);", "goto L1; S b(1);_"]
ST_DEP = ["T b;", "T b = §;", "T b(§);", "T b{xs...};", "auto b = x;", "auto [u, v] = x;", "for (auto i : x) ¤", "for (auto &[k, v] : x) { ¤ }", "if constexpr (sizeof(T) > 1) ¤ else ¤", "if (x) ¤ else ¤", "if (x == §) { return x; } else { return §; }", "while (x) ¤", "switch (x) { case 1: ¤ default: ¤ }", "switch (x) { case T::z: ¤ }", "return x;", "return x ? true : false;", "if (x) return true; else return false;", "T &b = x; return b;", "typename T::u b;", "using V = typename T::u;", "struct L : T { void m() { ¤ } };", "static_assert(sizeof(T) > 0);", "try { ¤ } catch (T) { ¤ }", "x.m(); x->m();", "delete x;", "throw x;", "co_return_;", "x = x;", "if (x) { delete x; }", "if (x != nullptr) delete x;", "if (x && x->y) ¤", "if (!x || x->y) ¤", "T *b = new T; return *b;", "for (T i = 0; i < §; ++i) ¤", "for (T i = 0; i < x; ++i) for (T j = 0; j < x; ++i) ¤", "if (x & 1) ¤", "if (x % 2 == 1) ¤", "((void)xs, ...);", "int b = (x);", "goto L1;"]
ST_OBJC = ["@try { ¤ } @catch (id e) { ¤ }", "@try { ¤ } @catch (K *e) { ¤ } @catch (...) { @throw; } @finally { ¤ }", "@try { ¤ } @finally { ¤ }", "@throw z;", "@synchronized (z) { ¤ }", "@autoreleasepool { ¤ }", "for (id o in z) ¤", "for (K *o in [K cm]) { ¤ }", "id o; for (o in z) ¤", "K *b = §_;", "K *b = k;", "__weak id w = z;_", "id b = z; return 1;", "void (^lb)(void) = ^{ ¤ };", "__block int bb = 1;", "[k x];", "k.p = 1;", "if (k && [k x]) ¤", "if (!k || [k x]) ¤", "if (nil == k) ¤", "for (id o in z) { if (o) break; ¤ }", "@try { return 1; } @finally { return 2; }", "if (k) [k x];", "switch ([k x]) { case 1: ¤ }", "while ([k x]) ¤", "typeof(k) b = k;", "id<Pr> b = z;", "Class c = [k q]_;", "@encode(int);", "@\"s\";"]

D_C = [";", "int v{N};", "int v{N} = 1, *w{N}, z{N}[3];", "extern int ev{N};", "static const int sc{N} = 2;", "int f{N}(void);", "int f{N}();", "int f{N}(int, char *, ...);", "static inline int f{N}(int a) { return a; }", "struct FS{N};", "struct S{N} { int a; unsigned b : 3; unsigned : 2; struct { int c; }; union { int d; float e; }; int f[]; };", "union U{N} { int a; char b; };", "enum E{N} { A{N}, B{N} = 5 };", "typedef struct { int a; } T{N};", "typedef int (*FP{N})(int a, int b);", "int (*fp{N})(int) = 0;", "int arr{N}[2][3] = { { 1 } };",
       "struct S{N} { struct S{N} *n; int (*cb)(int x); } gs{N} = { 0, 0 };", "__asm__(\"\");", "_Static_assert(sizeof(int) == 4, \"\");", "int f{N}(int a) __attribute__((nonnull_));_", "__attribute__((noinline)) void f{N}(void) { }", "void f{N}(int a[static 3]) { }_", "void f{N}(int (*cb)(int x)) { cb(1); }", "void f{N}(int n, int a[n]) { }_", "int f{N}(int) { return 1; }_", "volatile int vv{N};", "__thread int tl{N};", "void f{N}(void) { } void g{N}(void) { f{N}(); }", "int al{N} __attribute__((aligned(8)));", "\n#pragma pack(1)\nstruct PK{N} { char a; int b; };", "const char *msg{N} = \"x\" \"y\";", "extern int f{N}(int a) __asm__(\"ff\");"]
D_CONLY = ["int f{N}(a, b) int a; char b; { return a; }_", "struct S{N} { int a; } s{N} = { .a = 1 };", "int a{N}[] = { [2] = 1 };", "_Noreturn void f{N}(void);", "_Atomic(int) at{N};", "int f{N}(int n, int a[n]);", "int f{N}(int a[static 3]);", "_Alignas(16) char al{N};", "inline int f{N}(void) { return 1; }", "struct S{N} { int n; int fl[]; };", "double _Complex c{N};", "_Bool b{N} = 1;", "void f{N}(int *restrict p) { *p = 1; }"]
D_CPP = ["namespace n{N} { int v; }", "namespace { int v{N}; }", "inline namespace n{N} { void f(); }", "namespace n{N}::m { }", "namespace na{N} = ns;", "using namespace ns;", "using ns::nf;", "using T{N} = int;", "template <class T> using A{N} = T2<T>;", "extern \"C\" { int f{N}(int); }", "extern \"C\" int f{N}(int a) { return a; }", "template <class T> struct C{N} { T t; void m(T a); static T sv; template <class U> void q(U u) { t = u; } }; template <class T> void C{N}<T>::m(T a) { t = a; } template <class T> T C{N}<T>::sv;",
         "template <class T> struct C{N}; template <> struct C{N}<int> { int a; }; template <class T> struct C{N}<T *> { T *a; };", "template <class T, int n = 3, template <class> class TT = T2> struct C{N} { T a[n]; };", "template <class... Ts> struct C{N} : Ts... { using Ts::m...; C{N}(Ts... ts) : Ts(ts)... { } };", "template <class T> T f{N}(T a) { return a; } template int f{N}(int); template <> char f{N}(char a) { return a; }", "extern template struct T2<long>;", "template <class T> constexpr T v{N} = T(1); template <> constexpr int v{N}<int> = 2;", "template <class T> concept K{N} = requires(T t) { t + 1; };", "template <C1 T> void f{N}(T t) { }", "void f{N}(C1 auto t) { }", "template <class T> requires C1<T> void f{N}(T t) requires (sizeof(T) > 1) { }", "auto f{N}(auto a, auto... b) { return a; }", "auto f{N}(int a) -> int { return a; }", "decltype(auto) f{N}(int a) { return (a); }", "constexpr int f{N}(int a) { if (a) return 1; return f{N}(a - 1); }", "consteval int f{N}(int a) { return a; }", "constinit int ci{N} = 1;", "inline int iv{N} = 1;",
         "struct S{N} { S{N}() = default; S{N}(const S{N} &) = delete; S{N}(int a) : S{N}() { } explicit operator bool() const { return true; } S{N} &operator=(S{N} &&) noexcept; ~S{N}(); friend bool operator==(const S{N} &, const S{N} &) = default; };", "struct S{N} { int a = 1, b{2}; S{N}() try : a(1) { } catch (...) { } mutable int c; static constexpr int d = 3; static inline int e = 4; };", "class S{N} : virtual public S, private T2<int> { protected: virtual void v2() = 0; virtual int v() override_; public: virtual ~S{N}() = default; };", "struct S{N} final : S { using S::S; int v() override { return 2; } };", "struct S{N} { template <class T> S{N}(T); struct I { }; enum { A }; typedef int TI; using U = int; friend class F{N}; friend void ff{N}(); static_assert(true); };", "template <class T> S{N}_(T) -> S{N}_<T>;_", "enum class E{N} : unsigned char { A, B };", "enum E{N} : int;", "enum struct E{N};", "union U{N} { int a; U{N}() { } ~U{N}() { } };", "struct { int a; } an{N};", "auto l{N} = [](int a) { return a; };", "auto [u{N}, w{N}] = pr;_", "int a{N}[]{1, 2};", "S so{N}(1), &sr{N} = so{N};", "[[nodiscard]] int f{N}();", "[[noreturn]] void f{N}();", "alignas(8) int al{N};", "thread_local S tl{N}(1);", "int operator\"\"_q{N}(unsigned long long v) { return 1; }", "S operator-(S a, S{N}x_);_", "void f{N}(int = 1, int b = 2);", "void f{N}() noexcept(true) { }", "int f{N}() try { return 1; } catch (...) { return 2; }", "void f{N}(S &&a, const S &b, S *const c, int S::*d, int (S::*e)(int), int (&g)[3]) { }", "static_assert(sizeof(int) == 4);", "asm(\"\");", "struct S{N} { auto operator<=>(const S{N} &) const = default; int a; };", "struct S{N} { void m(this S{N} &self) { } int operator[](int a, int b) { return a; } static int operator()(int a) { return a; } };", "template <auto V> struct C{N} { }; template struct C{N}<1>;", "template <class T> struct C{N} { template <class U> struct D; }; template <class T> template <class U> struct C{N}<T>::D { U u; };", "template <class T> C1 auto f{N}(T t) { return t; }", "struct S{N} { struct L; void m(); }; struct S{N}::L { int a; }; void S{N}::m() { }", "export_ int x;_", "template <class T> struct C{N} { ~C{N}(); virtual void m(T = T()); }; template <class T> struct D{N} : C{N}<T> { void m(T) override; };", "using enum EC;"]
D_OBJC = ["@class A{N};", "@protocol P{N};", "@protocol P{N} <Pr> @required - (int)x; @optional @property int p; + (void)c; @end", "@interface A{N} : J @end", "@interface A{N} : J <Pr> { int a; @private int b; @public struct P c; unsigned d : 2; } @property (nonatomic, readonly, getter=isP) int p; @property (class) int cp; - (int)x; + (id)c:(int)a, ...; @end", "@interface A{N}<T> : J - (T)t; @end", "@interface A{N}<__covariant T : K *> : J @property T t; @end", "@interface A{N} : K @end @interface A{N} () @property int e; @end @interface A{N} (Cat) - (int)cat; @end @implementation A{N} (Cat) - (int)cat { return 1; } @end", "@interface A{N} : K @end @implementation A{N} { int iv2; } @synthesize p = _p2_; @end_",
          "@interface A{N} : J @property int p; @property int d; @end @implementation A{N} @synthesize p = _pp; @dynamic d; - (int)x { return _pp; } + (int)y { return 1; } @end", "@implementation K (C{N}) - (int)k{N} { return self.p; } + (void)kk{N} { } @end", "@compatibility_alias Al{N} K;", "@interface A{N} : J @end @implementation A{N} - (id)init { return self; } - (void)m:(int)a :(int)b { } - (BOOL)isEqual:(id)o { return 1; } static int sf{N}(int a) { return a; } int gv{N} = 1; @end", "__attribute__((objc_root_class)) @interface R{N} { } @end @implementation R{N} @end", "int (^bl{N})(int) = ^(int a) { return a; };", "typedef void (^BT{N})(id a, int b);", "void f{N}(void (^cb)(int x)) { cb(1); }", "K *gk{N};", "id<Pr> gp{N};", "@interface A{N} : J - (instancetype)i; - (void)u __attribute__((unavailable)); - (void)dep __attribute__((deprecated(\"x\"))); @end", "NSString_ *c{N};_", "@interface A{N} : J - (oneway void)o:(in id)a; - (nullable K *)n:(nonnull id)b; @end", "@interface A{N} : J @property (copy) void (^h)(int); @end @implementation A{N} - (void)m { self.h(1); self.h = ^(int q) { [self m]; }; } @end", "@protocol P{N} - (void)a; @end @interface A{N} : J <P{N}> @end @implementation A{N} - (void)a { } @end",
          "__attribute__((objc_root_class)) @interface R{N} { int iv{N}; } - (int)d:(int)a; @property int p; @end @implementation R{N} - (int)d:(int)a { return 0; } - (void)m:(int)b { iv{N} = 1; { ¤ } } + (int)c:(int)a :(int)b { return a; } - (id)init { return self; } - (unsigned)hash { return 1; } - (BOOL)isEqual:(id)o { return 1; } @end @interface R{N} (Cat) - (int)k:(int)a; @end @implementation R{N} (Cat) - (int)k:(int)a { return 1; } - (void)l:(int)a { } @end",
          "@protocol P{N} - (void)a:(int)x; @optional - (void)b:(int)x; @end __attribute__((objc_root_class)) @interface R{N} <P{N}> @end @implementation R{N} - (void)a:(int)x { } - (void)b:(int)x { } - (void)z:(int)x { } @end", "@implementation W{N} - (int)m:(int)a { return 1; } @end", "@implementation W{N} { int iv; } - (void)m:(int)a { iv = 1; } + (id)c:(id)o { return o; } @end @implementation W{N} (Cat) - (void)n:(int)a { } @end",
          "@class F{N}; void f{N}(F{N} *o, id z) { (void)o; if (z && z != 0) { } }", "@interface A{N} : K - (int)x; @end @implementation A{N} - (int)x { return [super x] + 1; } - (void)dealloc { } - (int)m:(int)a n:(int)b { return a; } @end"]

PRO_C = """struct P { int x; struct P *n; }; enum E { E1, E2 }; int g(); int (*fp)(int);
"""
PRO_CPP = """namespace std { using size_t = decltype(sizeof 0); class type_info { public: const char *name() const; }; template <class T> class initializer_list { const T *b; size_t n; public: size_t size() const { return n; } const T *begin() const { return b; } const T *end() const { return b + n; } };
template <class T> struct tuple_size; template <size_t i, class T> struct tuple_element; struct strong_ordering { int v; static const strong_ordering less, equal, greater; friend constexpr bool operator<(strong_ordering a, int) { return a.v < 0; } }; inline constexpr strong_ordering strong_ordering::less{-1}, strong_ordering::equal{0}, strong_ordering::greater{1}; }
void *operator new(std::size_t, void *) noexcept;
struct P { int x; P *n; }; enum E { E1, E2 }; enum class EC { A, B }; int g(...); int (*fp)(int); struct Agg { int i; double d; }; struct Pair { int u, v; };
template <class T> concept C1 = sizeof(T) > 0; struct S { using I = int; int x; S(int); S(const S &) = default; S &operator=(const S &) = default; virtual ~S(); virtual int v(); int m(int = 0); S operator+(S); int operator[](int); int operator()(int); std::strong_ordering operator<=>(const S &) const; bool operator==(const S &) const; static int sm(int); static int sv; explicit operator bool() const; }; struct D : S { using S::S; };
template <class T> T t1(T a) { return a; } template <class T> struct T2 { static int v; T a; int m() { return 1; } }; template <class T> T2(T) -> T2<T>; template <class T> T vt = T(); namespace ns { int nf(int); } int operator\"\"_ud(unsigned long long); template <class... Ts> auto sum(Ts... ts) { return (ts + ...); } template <class... Ts> int f2(Ts...);
"""
PRO_OBJC = """typedef signed char BOOL;
@class K, NSString; @protocol Pr - (int)prot; @end
__attribute__((objc_root_class)) @interface J { @public int iv; } - (int)x; - (id)objectAtIndexedSubscript:(unsigned long)i; - (void)setObject:(id)o atIndexedSubscript:(unsigned long)i; - (id)objectForKeyedSubscript:(id)i; @property int p; - (K *)q; - (unsigned long)countByEnumeratingWithState:(void *)s objects:(id *)o count:(unsigned long)n; @end
@interface K : J <Pr> - (int)m:(int)a n:(int)b; + (K *)cm; @property (class) int cp; @end
@interface NSString : J @end @interface NSConstantString : NSString { char *s; unsigned int l; } @end extern int __CFConstantStringClassReference[]; @interface NSNumber : J + (id)numberWithInt:(int)a; + (id)numberWithDouble:(double)a; + (id)numberWithChar:(char)a; + (id)numberWithUnsignedLong:(unsigned long)a; + (id)numberWithLong:(long)a; + (id)numberWithUnsignedInt:(unsigned)a; + (id)numberWithBool:(BOOL)a; @end
@interface NSArray : J + (id)arrayWithObjects:(const id[])o count:(unsigned long)n; + (id)arrayWithObject:(id)o; @end @protocol NSCopying @end @interface NSDictionary : J + (id)dictionaryWithObjects:(const id[])o forKeys:(const id<NSCopying>[])k count:(unsigned long)n; @end
#define nil ((id)0)
int (^blk)(int);
"""
TAILS = {"c": "L1: return 1;"}
# (language, standard flags, prologue, container with ¤ for the body)
CONT = {
    "c": (PRO_C, ["int f{N}(int a, int *p, struct P *s, enum E e) { ¤ L1: return 1; }", "struct P f{N}(int a, int *p, struct P *s, enum E e); static inline int h{N}(int a, int *p, struct P *s, enum E e) { while (a) { ¤ } L1: return 1; }"]),
    "cpp": (PRO_CPP, ["int f{N}(int a, int *p, P *s, E e, EC ec, S so, S *sp, int S::*mp, int (S::*mf)(int), int (&arr)[3], Pair pr, Pair (&pairs)[2]) { ¤ L1: return 1; }",
                      "struct M{N} { int a, *p; P *s; E e; EC ec; S so, *sp; int S::*mp; int (S::*mf)(int); int arr[3]; Pair pr, pairs[2]; int m() const; int m2() { auto l = [&] { ¤ L1: return 1; }; return 1; } };",
                      "template <class T, class... Ts> int f{N}(T x, Ts... xs, int a, int *p, P *s, E e, EC ec, S so, S *sp, int S::*mp, int (S::*mf)(int), int (&arr)[3], Pair pr, Pair (&pairs)[2]) { ¤ L1: return 1; }"]),
    "m": (PRO_C + PRO_OBJC, ["int f{N}(int a, int *p, struct P *s, enum E e, K *k, id z) { ¤ L1: return 1; }", "@interface A{N} : K @end @implementation A{N} - (int)m:(int)a p:(int *)p s:(struct P *)s e:(enum E)e k:(K *)k z:(id)z { ¤ L1: return 1; } @end"]),
    "mm": (PRO_CPP + PRO_OBJC, ["int f{N}(int a, int *p, struct P *s, E e, K *k, id z, S so, S *sp, EC ec, int (&arr)[3], Pair pr) { ¤ L1: return 1; }", "@interface A{N} : K @end @implementation A{N} + (int)m:(int)a p:(int *)p s:(struct P *)s e:(enum E)e k:(K *)k z:(id)z { int (^b)(void) = ^{ ¤ L1: return 1; }; return b(); } @end"]),
}
ARGS = {"c": ("-std=gnu11", "-fopenmp"), "cpp": ("-std=c++2b", "-fopenmp"), "m": ("-std=gnu11", "-fblocks", "-fobjc-exceptions"), "mm": ("-std=c++20", "-fblocks", "-fobjc-exceptions", "-fexceptions", "-fcxx-exceptions")}
RC = sorted({o for r in catalog.R for o in r[4]})


def parts(lang):
    X = list(X_C) + (X_CONLY if lang in "cm" else []) + (X_CPP if lang in ("cpp", "mm") else []) + (X_OBJC if lang in ("m", "mm") else [])
    T = list(ST_C) + (ST_CONLY if lang in "cm" else []) + (ST_CPP if lang in ("cpp", "mm") else []) + (ST_OBJC if lang in ("m", "mm") else [])
    D = list(D_C) + (D_CONLY if lang in "cm" else []) + (D_CPP if lang in ("cpp", "mm") else []) + (D_OBJC if lang in ("m", "mm") else [])
    ok = lambda l: [x for x in l if not x.rstrip(";").endswith("_") and "_;" not in x]
    return ok(X), ok(T), ok(D)


def fill(t, x="a", s="g();"):
    return t.replace(E, x).replace(S, s)


# functions that return nothing, for returns without a value
VOID = {
    "c": ["void f{N}(int a, int *p, struct P *s, enum E e) { ¤ L1: return; }"],
    "cpp": ["void f{N}(int a, int *p, P *s, E e, EC ec, S so, S *sp, int S::*mp, int (S::*mf)(int), int (&arr)[3], Pair pr, Pair (&pairs)[2]) { ¤ L1: return; }",
            "struct M{N} { int a, *p; P *s; E e; EC ec; S so, *sp; int S::*mp; int (S::*mf)(int); int arr[3]; Pair pr, pairs[2]; M{N}() { ¤ L1: return; } ~M{N}() { auto l = [&] { ¤ L1: return; }; } };",
            "template <class T, class... Ts> void f{N}(T x, Ts... xs, int a, int *p, P *s, E e, EC ec, S so, S *sp, int S::*mp, int (S::*mf)(int), int (&arr)[3], Pair pr, Pair (&pairs)[2]) { ¤ L1: return; }"],
    "m": ["@interface A{N} : K @end @implementation A{N} - (void)m:(int)a p:(int *)p s:(struct P *)s e:(enum E)e k:(K *)k z:(id)z { ¤ L1: return; } @end",
          "void f{N}(int a, int *p, struct P *s, enum E e, K *k, id z) { void (^b)(void) = ^{ ¤ L1: return; }; b(); }"],
    "mm": ["@interface A{N} : K @end @implementation A{N} + (void)m:(int)a p:(int *)p s:(struct P *)s e:(enum E)e k:(K *)k z:(id)z { void (^b)(void) = ^{ ¤ L1: return; }; b(); } @end",
           "void f{N}(int a, int *p, struct P *s, E e, K *k, id z, S so, S *sp, EC ec, int (&arr)[3], Pair pr) { ¤ L1: return; }"],
}
RETURNS = {"c": ["return;"], "cpp": ["return;", "return (void)a;", "return void();"], "m": ["return;", "return (void)a;"], "mm": ["return;", "return void();"]}
NEED = {"c": 0, "cpp": 1, "m": 2, "mm": 3}      # quick: compositions with something of the language's own
DEEPQ = ("§;", "if (§) ¤", "return §;", "int b = §;")
DEEPT = DEEPQ + ("while (§) ¤", "do ¤ while (§);", "for (a = 0; §; a++) ¤", "switch (§) { }", "if (!§) { return 1; } else { ¤ }", "int b[] = { §, 2 };")
KIND = collections.defaultdict(int)
for l_, k_ in ((X_CPP, 1), (X_DEP, 1), (X_OBJC, 2), (X_SELF, 2), (ST_CPP, 1), (ST_DEP, 1), (ST_OBJC, 2), (D_CPP, 1), (D_OBJC, 2)):
    for x_ in l_:
        KIND[x_] = k_


def programs(lang, thorough):
    X, T, D = parts(lang)
    out = collections.OrderedDict()
    need = 0 if thorough else NEED[lang]
    want = lambda *cs: sum(1 << b for b in (0, 1) if any(KIND[c] >> b & 1 for c in cs)) & need == need

    def put(c, body):
        out.setdefault(c.replace(S, body))
    conts = CONT[lang][1]
    for ci, c in enumerate(conts):
        dep = lang == "cpp" and ci == 2
        selfy = lang == "m" and ci == 1
        DX, DT = [x for x in X_DEP if not x.endswith("_") and "_(" not in x], [x for x in ST_DEP if "_;" not in x]
        xs = X + (DX if dep else []) + (X_SELF if selfy else [])
        ts = T + (DT if dep else [])
        xs0, ts0 = (DX, DT) if dep and not thorough else (xs, ts)
        for t in ts:
            put(c, fill(t))
            if S in t:
                for u in ts0:
                    if want(t, u):
                        put(c, fill(t, s=fill(u)))
                        if thorough:
                            put(c, fill(t, s="{ " + fill(u) + " g(); }"))
            if E in t:
                for x in xs0:
                    if want(t, x):
                        put(c, fill(t, x=fill(x)))
                    if E in x and t in (DEEPT if thorough else DEEPQ):
                        for y in xs0:
                            if want(t, x, y):
                                put(c, fill(t, x=fill(x, x="(" + fill(y) + ")")))
        for t, u in itertools.product(ts0, repeat=2) if thorough or ci == 0 else ():
            if want(t, u):
                put(c, fill(t) + " " + fill(u))
        for x in xs:
            if S in x:
                for u in ts0:
                    if want(x, u):
                        put(c, "(void)" + fill(x, s=fill(u)) + ";")
                        put(c, "if (" + fill(x, s=fill(u)) + ") g();")
    for vi, c in enumerate(VOID[lang]):
        for r in RETURNS[lang][:None if vi == 0 or thorough else 1]:
            put(c, r)
            for t in T:
                if S in t:
                    put(c, fill(t, s=r))
                    put(c, fill(t, s="{ " + r + " }"))
                    put(c, fill(t, s="{ " + r + " g(); }"))
                    for u in T:
                        if S in u and want(t, u) and (thorough or vi == 0 and r == "return;"):
                            put(c, fill(t, s=fill(u, s=r)))
                    for k in range(t.count(S)):
                        b = t.split(S)      # in one of several places
                        put(c, fill("".join(x + (r if i == k else "g();") if i < len(b) - 1 else x for i, x in enumerate(b))))
    for d in D:
        out.setdefault(d)
    nests = {"c": [], "m": [], "cpp": ["namespace nn{N} { # }", "extern \"C++\" { # }", "struct Z{N} { # };", "template <class Z> struct Z{N} { # };"], "mm": ["namespace nn{N} { # }"]}[lang]
    for n in nests:
        for d in D:
            out.setdefault(n.replace("#", d))
    for a, b in itertools.product(D, repeat=2):
        if want(a, b) and (thorough or lang in "cm"):
            out.setdefault(a.replace("{N}", "{N}a") + " " + b)
    for d in D:     # as local declarations
        out.setdefault(conts[0].replace(S, d))
    return list(out)


# ------------------------------------------------------------------ C35
class Bad(Exception):
    pass


def _keyed(a):
    return a[1], a[0](a[1])


def _inst():
    return common.winst("all", lambda tree: R.Inst(tree))


def _lint(lang, texts):
    """one file of programs -> (report, first lines, number of lines, source)"""
    pro = CONT[lang][0]
    lines, starts, line = [pro], [], 1 + pro.count("\n") + 1
    for i, t in enumerate(texts):
        t = t.replace("{N}", f"{i:04}")
        starts.append(line)
        lines.append(t)
        line += t.count("\n") + 1
    src = "\n".join(lines) + "\n"
    fn = "t." + lang
    rep = _inst().lint({fn: src}, RC, ARGS[lang], timeout=300)
    return rep, starts, line, src, fn


def _construct(job):
    import bisect
    lang, texts = job
    texts = list(texts)
    bad, dropped, nviol, runs = [], 0, 0, 0
    while texts:
        runs += 1
        try:
            rep, starts, end, src, fn = _lint(lang, texts)
        except (R.RunError, subprocess.TimeoutExpired) as e:
            part, why = texts, str(e)
            while len(part) > 1:
                for half in (part[:len(part) // 2], part[len(part) // 2:]):
                    try:
                        _lint(lang, half)
                    except (R.RunError, subprocess.TimeoutExpired) as e2:
                        part, why = half, str(e2)
                        break
                else:
                    break
            bad.append({"program": CONT[lang][0] + "\n".join(part) + "\n", "language": lang, "arguments": ARGS[lang], "what": f"no report: {why[-1200:]}"})
            break
        if not rep["e"]:
            break
        drop = {bisect.bisect_right(starts, e[4]) - 1 for e in rep["e"] if e[3] == fn}
        if -1 in drop or not drop:
            drop = set(range(len(texts))) if len(texts) == 1 else set()
            if not drop:        # errors that cannot be placed: one by one
                half = len(texts) // 2
                a, b = _construct((lang, texts[:half])), _construct((lang, texts[half:]))
                return {"n": a["n"] + b["n"], "dropped": dropped + a["dropped"] + b["dropped"], "bad": a["bad"] + b["bad"], "nviol": a["nviol"] + b["nviol"], "runs": runs + a["runs"] + b["runs"], "sample": a["sample"], "rules": a["rules"] | b["rules"]}
        dropped += len(drop)
        texts = [t for i, t in enumerate(texts) if i not in drop]
    rules = set()
    if texts and not bad:
        ln = src.split("\n")
        seen = set()
        for v in rep["v"]:
            rule, cat, prio, path, sl, sc, el, ec, msg = v
            nviol += 1
            rules.add(rule)
            why = None
            if path != fn:
                why = "not in the file"
            elif sl < starts[0]:
                continue
            elif not (1 <= sl <= len(ln) and 1 <= el <= len(ln) and 1 <= sc <= len(ln[sl - 1].encode()) + 1 and 1 <= ec <= len(ln[el - 1].encode()) + 1):
                why = "outside of the file"
            elif (sl, sc) > (el, ec):
                why = "ends before it starts"
            elif bisect.bisect_right(starts, sl) != bisect.bisect_right(starts, el):
                why = "reaches into the next declaration"
            elif tuple(v) in seen:
                why = "listed twice"
            seen.add(tuple(v))
            if why:
                k = bisect.bisect_right(starts, sl) - 1
                bad.append({"program": CONT[lang][0] + texts[k] + "\n", "language": lang, "arguments": ARGS[lang], "what": f"violation {v} {why}"})
                if len(bad) > 3:
                    break
    return {"n": len(texts), "dropped": dropped, "bad": bad, "nviol": nviol, "runs": runs, "rules": rules, "sample": {"language": lang, "program": texts[len(texts) // 2] if texts else None, "violations in the file": nviol}}


def check_c35():
    chk = common.Check("C35", explanation=EXPL["C35"], assumptions=["clang parses the generated programs as intended"])
    tree = B.build(True, "all", (), [B.MCRAW])
    jobs, tot = [], {}
    for lang in ("c", "cpp", "m", "mm"):
        ps = programs(lang, chk.thorough)
        tot[lang] = [len(ps), 0, 0, 0, set()]
        jobs += [(lang, b) for b in common.batched(ps, 120)]
    chk.bounds = {"depth": "constructs in holes of constructs" + f", expressions to depth 3 in {len(DEEPT if chk.thorough else DEEPQ)} statements", "constructs": {l: [len(x) for x in parts(l)] for l in tot}}
    for (lang, b), r in common.pmap(chk, tree, _keyed, [(_construct, j) for j in jobs]):
        chk.states += r["n"]
        chk.transitions += r["n"]
        chk.traces += r["runs"]
        t = tot[lang]
        t[1] += r["n"]
        t[2] += r["dropped"]
        t[3] += r["nviol"]
        t[4] |= r["rules"]
        if chk.traces % 50 < 2:
            chk.sample(r["sample"])
        for x in r["bad"]:
            chk.violation(f"{x['what'][:250]} for {x['program'].splitlines()[-1][:300]!r}", x)
    for lang, t in tot.items():
        chk.section(lang, compositions=t[0], programs=t[1], rejected_by_clang=t[2], violations=t[3], rules_reporting=len(t[4]))
        for r in t[4]:
            chk.outcomes[r] += 1
    return chk.finish()


# ------------------------------------------------------------------ C36
WRAPS = {"c": [("", "")], "m": [("", "")], "cpp": [("", ""), ("namespace w {", "}"), ("extern \"C++\" {", "}"), ("namespace {", "}"), ("inline namespace v { namespace w {", "} }")], "mm": [("", "")]}
NOT36 = ("#pragma pack", "using namespace", "using ns::nf;", "using enum", "extern template", "__asm__(\"ff\")")       # these do change the meaning of what follows


def _setup36(group):
    """(prologue, compiler arguments, declarations)"""
    kind, lang = group
    if kind == "catalogue":
        return catalog.PROLOGUE[lang], catalog.CLANG[lang], [re.sub("[⟦⟧]", "", t) for _, _, exts, t, _ in catalog.R if lang in exts]
    X, T, D = parts(lang)
    conts = CONT[lang][1]
    ds = [d for d in D if not any(n in d for n in NOT36)]
    if kind == "declarations":
        return CONT[lang][0], ARGS[lang], ds + [c.replace(S, "g();") for c in conts]
    return CONT[lang][0], ARGS[lang], [conts[0].replace(S, fill(t)) for t in T if not any(n in t for n in NOT36)] + [conts[-1].replace(S, fill(x) + ";") for x in X]


def _forward(item):
    """declarations of what the item defines: prototypes, forward declarations of classes and protocols"""
    out = []
    m = re.match(r"((?:template <[^{}]*?> )?(?:requires \S+ )?[^{};=@#\n]*?\b\w*\{N\}\w*\([^{};]*\)(?: noexcept)?)\s*\{", item)
    if m and not re.search(r"[^=!<>]=[^=]|\bconstexpr\b|\bauto\b|^\W*typedef|operator|__attribute__|\[\[", m[1]) and item.rstrip().endswith("}"):
        out.append(m[1] + ";")
    for m in re.finditer(r"(?:^|[;}] )((template <[^{}]*?> )?(struct|class|union) \w*\{N\}\w*)(?: final)?(?: :[^:;{}]*)? \{", item):
        out.append(m[1].replace("typename T = int", "typename T") + ";")
    for m in re.finditer(r"@interface (\w*\{N\}\w*) :", item):
        out.append(f"@class {m[1]};")
    for m in re.finditer(r"@protocol (\w*\{N\}\w*)(?! ?;)", item):
        out.append(f"@protocol {m[1]};")
    return " ".join(dict.fromkeys(out))


def _redecl36(job):
    """every declaration between forward declarations of what it defines"""
    group, ks, base = job
    items = _setup36(group)[2]
    wrap = WRAPS[group[1]][0]
    ks, bad, rej = list(ks), [], 0
    while ks:
        fw = {k: _forward(items[k]) for k in ks}
        seq = [t for k in ks for t in (fw[k], items[k], fw[k])]
        rows, err = _run36(group, wrap, range(len(seq)), seq, lambda i: i // 3)
        if not err:
            break
        drop = {ks[i // 3] for i in err if i >= 0}
        if not drop:
            raise R.RunError("does not compile")
        rej += len(drop)
        ks = [k for k in ks if k not in drop]
    if ks:
        alone, err = _run36(group, wrap, range(len(ks)), [fw[k] for k in ks])
        if err:
            raise R.RunError(f"forward declarations do not compile: {[fw[ks[i]] for i in err][:3]}")
    for i, k in enumerate(ks):
        for j, want in ((0, alone[i]), (1, base[k]), (2, alone[i])):
            want = [r for r in want if r[1] != "wrapper"]
            got = [r for r in rows[3 * i + j] if r[1] != "wrapper"]
            if got != want:
                bad.append((items[k], fw[k], ("the first forward declaration", "the definition", "the second forward declaration")[j], want, got))
    return len(ks), rej, bad


def _run36(group, wrap, idx, items, number=lambda i: i):
    """lints the declarations in this order -> per position the relative rows"""
    import bisect
    pro, args, _ = _setup36(group)
    lines, starts, line = [pro, wrap[0]], [], pro.count("\n") + 3
    for i, k in enumerate(idx):
        t = items[k].replace("{N}", f"{number(i):04}")
        starts.append(line)
        lines.append(t)
        line += t.count("\n") + 1
    fn = "t." + group[1]
    rep = _inst().lint({fn: "\n".join(lines) + "\n" + wrap[1] + "\n"}, RC + ["-allow-duplicated-violations"], args, timeout=600)
    out = [[] for _ in idx]
    bad = set()
    for rule, cat, prio, path, sl, sc, el, ec, msg in rep["v"]:
        if path == fn and starts[0] <= sl:
            k = bisect.bisect_right(starts, sl) - 1
            out[k].append((rule, sl - starts[k], sc, el - starts[k], ec, re.sub(r"(?<!\d)\d{4}(?!\d)|(?<=[A-Za-z])\d{4}", "#", msg)))
        elif path == fn and sl == starts[0] - 1:
            out[0].append((rule, "wrapper"))
    for e in rep["e"]:
        bad.add(bisect.bisect_right(starts, e[4]) - 1 if e[3] == fn else -1)
    return [sorted(o, key=repr) for o in out], bad


def _base36(job):
    group, wrap, k = job
    items = _setup36(group)[2]
    try:
        rows, bad = _run36(group, wrap, [k], items)
    except R.RunError as e:
        return ("crash", str(e)[-600:])
    return None if bad else rows[0]


def _seq36(job):
    group, wrap, idx, base = job
    items = _setup36(group)[2]
    strip = lambda rows: [r for r in rows if r[1] != "wrapper"]

    def wrong(ix):
        rows, bad = _run36(group, wrap, ix, items)
        if bad:
            return None, bad
        return [i for i, k in enumerate(ix) if strip(rows[i]) != strip(base[k])], rows
    try:
        w, rows = wrong(idx)
    except (R.RunError, subprocess.TimeoutExpired) as e:
        return {"n": len(idx), "bad": [(f"no report: {str(e)[-500:]}", [items[k] for k in idx[:3]])], "err": 0, "nv": 0}
    if w is None:
        return {"n": len(idx), "bad": [], "err": [items[idx[i]] for i in rows if i >= 0][:3] or ["?"], "nv": 0}
    out = []
    for i in w[:2]:
        k = idx[i]
        ctx = [idx[i]]
        for cand in ([idx[i - 1], k] if i else [k], [k, idx[i + 1]] if i + 1 < len(idx) else [k], idx[max(0, i - 3):i + 1], idx[:i + 1], idx):
            pos = len(cand) - 1 if cand[-1] == k and len(cand) <= i + 1 else cand.index(k) if cand is not idx else i
            ww, rr = wrong(cand)
            if ww and pos in ww:
                ctx = cand
                end = time.time() + 15
                while len(ctx) > 2 and time.time() < end:     # shrink
                    for j in range(len(ctx)):
                        if j != pos and time.time() < end:
                            c2 = ctx[:j] + ctx[j + 1:]
                            p2 = pos - (j < pos)
                            w2, r2 = wrong(c2)
                            if w2 and p2 in w2:
                                ctx, pos, rr = c2, p2, r2
                                break
                    else:
                        break
                out.append((f"alone {strip(base[k])}, here {strip(rr[pos])}", [items[c] for c in ctx]))
                break
    if w and not out:
        out.append(("unstable", [items[idx[i]] for i in w[:3]]))
    return {"n": len(idx), "bad": out, "err": 0, "nv": sum(map(len, rows))}


debruijn = common.debruijn


def check_c36():
    chk = common.Check("C36", explanation=EXPL["C36"], assumptions=["clang parses the generated programs as intended"])
    tree = B.build(True, "all", (), [B.MCRAW])
    groups = [(k, l) for l in ("c", "cpp", "m", "mm") for k in ("catalogue", "declarations", "statements")]
    runs = [(g, w) for g in groups for w in WRAPS[g[1]]]
    bj = [(g, w, k) for g, w in runs for k in range(len(_setup36(g)[2]))]
    base = collections.defaultdict(dict)
    for (g, w, k), r in common.pmap(chk, tree, _keyed, [(_base36, j) for j in bj]):
        chk.traces += 1
        if isinstance(r, tuple):
            chk.violation(f"no report for {_setup36(g)[2][k]!r}: {r[1]}", {"group": g, "declaration": _setup36(g)[2][k]})
        elif r is not None:
            base[g, w][k] = r
    jobs = []
    for g, w in runs:       # the wrapper itself changes nothing
        b0 = base[g, WRAPS[g[1]][0]]
        for k, r in base[g, w].items():
            if k in b0 and [x for x in r if x[1] != "wrapper"] != b0[k]:
                chk.violation(f"{_setup36(g)[2][k]!r} inside {w[0]}: {r}, outside: {b0[k]}", {"group": g, "wrapped in": w, "declaration": _setup36(g)[2][k], "inside": r, "outside": b0[k]})
        ks = sorted(base[g, w])
        reporting = [k for k in ks if base[g, w][k]]
        if w[0] and g[0] != "catalogue" and not chk.thorough:
            chk.section(f"{g[0]}/{g[1]} in {w[0]!r}", declarations=len(ks), sequences=0)
            continue
        seqs = [[ks[i] for i in debruijn(len(ks), 2)]]
        if chk.thorough and g[0] == "catalogue":
            seqs.append([reporting[i] for i in debruijn(min(len(reporting), 36), 3)])
        for seq, ov in zip(seqs, (1, 2)):
            for a in range(0, len(seq) - ov, 500):
                idx = seq[a:a + 500 + ov]
                jobs.append((g, w, idx, {k: base[g, w][k] for k in set(idx)}))
            chk.states += len(ks) ** 2 if ov == 1 else min(len(reporting), 36) ** 3
        chk.section(f"{g[0]}/{g[1]}" + (f" in {w[0]!r}" if w[0] else ""), declarations=len(ks), reporting=len(reporting), rejected_by_clang=len(_setup36(g)[2]) - len(ks))
    fj = []
    for g in groups:
        b = base[g, WRAPS[g[1]][0]]
        ks = [k for k in sorted(b) if _forward(_setup36(g)[2][k])]
        fj += [(g, ks[i:i + 40], b) for i in range(0, len(ks), 40)]
    nf = collections.Counter()
    for (g, ks, _), (n, rej, bad) in common.pmap(chk, tree, _keyed, [(_redecl36, j) for j in fj]):
        chk.traces += 2
        chk.states += n
        chk.transitions += 3 * n
        nf[g] += n
        nf["rejected by clang"] += rej
        for item, fw, where, want, got in bad[:3]:
            chk.violation(f"{where} of {item[:200]!r} with {fw!r} before and after it: {got}, alone: {want}", {"group": g, "prologue": _setup36(g)[0], "declaration": item, "forward declarations": fw, "where": where, "alone": want, "here": got})
    chk.section("between forward declarations", **{" ".join(k) if isinstance(k, tuple) else k: v for k, v in nf.items()})
    chk.bounds = {"sequences": "all ordered pairs adjacent" + ("; ordered triples of 36 declarations" if chk.thorough else ""), "declarations in a file": 501}
    for (g, w, idx, _), r in common.pmap(chk, tree, _keyed, [(_seq36, j) for j in jobs]):
        chk.traces += 1
        chk.transitions += r["n"]
        chk.outcomes[g[1]] += r["nv"]
        if r["err"]:
            raise RuntimeError(f"a file of valid declarations does not compile: {g} {w} {r['err']}")
        if chk.traces % 40 == 0:
            chk.sample({"group": g, "wrapped in": w, "declarations in order": [_setup36(g)[2][k] for k in idx[:6]], "rows": r["nv"]})
        for what, ctx in r["bad"]:
            chk.violation(f"{ctx[-1][:200]!r} among {[c[:120] for c in ctx]}: {what[:700]}", {"group": g, "wrapped in": w, "prologue": _setup36(g)[0], "declarations": ctx, "what": what})
    return chk.finish()


# ------------------------------------------------------------------ C41
# frames with two holes, each on a line of its own
FRAMES = {
    "sequence": ("{\n#\n}\n{\n#\n}", "c cpp m mm"),
    "branches": ("if (a) {\n#\n} else {\n#\n}", "c cpp m mm"),
    "loop": ("while (a) {\n{\n#\n}\n{\n#\n}\ng(); }", "c cpp m mm"),
    "outer and inner": ("for (int fr = 0; fr < a; fr++) {\n{\n#\n}\nif (a) {\n#\n}\ng(); }", "c cpp m mm"),
    "cases": ("switch (a) { case 101: {\n#\n} break; default: {\n#\n} break; }", "c cpp m mm"),
    "do": ("do {\n#\n} while (a);\n{\n#\n}", "c cpp m mm"),
    "lambda": ("[&] {\n#\nreturn 1; }();\n{\n#\n}", "cpp"),
    "try": ("try {\n#\n} catch (...) {\n#\n}", "cpp mm"),
    "block": ("^{\n#\nreturn 1; }();\n{\n#\n}", "m mm"),
    "finally": ("@try {\n#\n} @finally {\n#\n}", "m mm"),
}
PLAIN = "g();"


def _items41(lang):
    X, T, D = parts(lang)
    out = collections.OrderedDict()
    for t in T:
        if not any(n in t for n in NOT36):
            out.setdefault(fill(t))
    for t in T:
        if S in t and E in t and not any(n in t for n in NOT36):
            out.setdefault(fill(t, x="!a", s="{ }"))
    for x in X:
        out.setdefault(fill(x) + ";")
        out.setdefault("int lv = " + fill(x) + ";")
    return [x for x in out if "\n" not in x]


def _lint41(lang, cont, frame, pairs):
    """-> per pair (rows of hole 1, rows of hole 2) or None where clang rejects it"""
    c = CONT[lang][1][cont]
    fr = FRAMES[frame][0]
    live = list(range(len(pairs)))
    out = [None] * len(pairs)
    while live:
        lines, line, holes, owner = [CONT[lang][0]], CONT[lang][0].count("\n") + 2, {}, []
        for k in live:
            b = fr.split("#")
            f = b[0] + pairs[k][0] + b[1] + pairs[k][1] + b[2]
            t = c.replace(S, "\n" + f + "\n").replace("{N}", f"{k:05}")
            h1 = line + c.split(S)[0].count("\n") + 1 + b[0].count("\n")
            holes[h1] = (k, 0)
            holes[h1 + b[1].count("\n")] = (k, 1)
            owner.append(line)
            lines.append(t)
            line += t.count("\n") + 1
        fn = "t." + lang
        rep = _inst().lint({fn: "\n".join(lines) + "\n"}, RC + ["-allow-duplicated-violations"], ARGS[lang], timeout=600)
        if not rep["e"]:
            break
        import bisect
        bad = {bisect.bisect_right(owner, e[4]) - 1 for e in rep["e"] if e[3] == fn}
        bad = {live[i] for i in bad if i >= 0}
        if not bad:
            raise R.RunError(f"does not compile: {rep['e'][:3]}")
        live = [k for k in live if k not in bad]
    rows = {k: ([], []) for k in live}
    for rule, cat, prio, path, sl, sc, el, ec, msg in rep["v"] if live else ():
        if path == fn and sl in holes:
            k, h = holes[sl]
            rows[k][h].append((rule, sc, el - sl, ec, re.sub(r"\d{5}", "#", msg)))
    for k in live:
        out[k] = tuple(sorted(r) for r in rows[k])
    return out


def _base41(job):
    lang, cont, frame, ks = job
    it = _items41(lang)
    return _lint41(lang, cont, frame, [p for k in ks for p in ((it[k], PLAIN), (PLAIN, it[k]), (it[k], it[k]))])


def _pairs41(job):
    lang, cont, frame, ks, base = job
    it = _items41(lang)
    res = _lint41(lang, cont, frame, [(it[a], it[b]) for a, b in ks])
    bad, nv, rej = [], 0, 0
    for (a, b), r in zip(ks, res):
        if r is None:
            rej += 1
            continue
        nv += len(r[0]) + len(r[1])
        for h, k in ((0, a), (1, b)):
            if r[h] != base[k][h]:
                # on its own, before it is reported
                one = _lint41(lang, cont, frame, [(it[a], it[b])])[0]
                if one and one[h] != base[k][h]:
                    bad.append((it[a], it[b], h, base[k][h], one[h]))
    return bad, nv, rej


def _choir41(job):
    """statements that report, in one compound: those of the list that clang accepts together"""
    lang, cont, frame, cands = job
    it = _items41(lang)
    parts = []
    todo = [cands[i:i + 8] for i in range(0, len(cands), 8)]
    while todo:
        c = todo.pop(0)
        t = parts + ["{ " + it[k] + " }" for k in c]
        t1 = " ".join(t)
        if None not in _lint41(lang, cont, frame, [(PLAIN, t1), (t1, PLAIN)]):
            parts = t
        elif len(c) > 1:
            todo = [c[:len(c) // 2], c[len(c) // 2:]] + todo
    return " ".join(parts), len(parts)


def _solos41(job):
    """every statement before and after the choir"""
    lang, cont, frame, ks, base, choir = job
    it = _items41(lang)
    own = _lint41(lang, cont, frame, [(choir, PLAIN), (PLAIN, choir)])
    if None in own:
        raise R.RunError(f"choir rejected in {frame} ({lang})")
    res = _lint41(lang, cont, frame, [p for k in ks for p in ((it[k], choir), (choir, it[k]))])
    bad, nv, rej = [], 0, 0
    for i, k in enumerate(ks):
        for h, r in ((0, res[2 * i]), (1, res[2 * i + 1])):
            if r is None:
                rej += 1
                continue
            nv += len(r[0]) + len(r[1])
            want = (base[k][0], own[1][1]) if h == 0 else (own[0][0], base[k][1])
            if r != want:
                miss = lambda a, b: [x for x in a if x not in b][:4]
                bad.append((it[k], choir, h, [miss(want[j], r[j]) for j in (0, 1)], [miss(r[j], want[j]) for j in (0, 1)]))
    return bad, nv, rej


def check_c41():
    chk = common.Check("C41", explanation=EXPL["C41"], assumptions=["clang parses the generated programs as intended"])
    tree = B.build(True, "all", (), [B.MCRAW])
    bj = []
    for lang in CONT:
        n = len(_items41(lang))
        for cont in range(2):
            for f, (_, ls) in FRAMES.items():
                if lang in ls.split() and (chk.thorough or f == "sequence" or not cont and (lang == "mm" or f == "lambda")):
                    bj += [(lang, cont, f, list(range(i, min(n, i + 60)))) for i in range(0, n, 60)]
    base = collections.defaultdict(dict)
    for (lang, cont, f, ks), res in common.pmap(chk, tree, _keyed, [(_base41, j) for j in bj]):
        chk.traces += 1
        for i, k in enumerate(ks):
            x, y, z = res[3 * i:3 * i + 3]
            if x and y and z:
                base[lang, cont, f][k] = (x[0], y[1])
    # one statement of every kind that reports, all together; every statement stands before and after them
    def kinds(key):
        b, it = base[key], _items41(key[0])
        seen = {}
        for k in sorted(b):
            if b[k][0] and not re.search(r"\bL\d|\bgoto\b", it[k]):
                seen.setdefault((tuple(r[0] for r in b[k][0]), it[k].split("(")[0][:6], it[k].startswith("int lv")), k)
        return list(seen.values())
    choirs, sizes = {}, {}
    keys = list(dict.fromkeys(j[:3] for j in bj))
    for j, (text, n) in common.pmap(chk, tree, _keyed, [(_choir41, (*key, kinds(key))) for key in keys]):
        choirs[j[:3]], sizes[j[:3]] = text, n
    solos = []
    for key in dict.fromkeys(j[:3] for j in bj):
        ks = sorted(base[key])
        solos += [(*key, ks[a:a + 40], {k: base[key][k] for k in ks[a:a + 40]}, choirs[key]) for a in range(0, len(ks), 40)]
    for (lang, cont, f, ks, _, choir), (bad, nv, rej) in common.pmap(chk, tree, _keyed, [(_solos41, j) for j in solos]):
        chk.traces += 1
        chk.states += 2 * len(ks) - rej
        chk.transitions += 2 * len(ks)
        chk.outcomes[f"{lang} {f}"] += nv
        for a, b, h, miss, more in bad[:2]:
            chk.violation(f"in {f} ({lang}): {a!r} {'after' if h else 'before'} statements of every kind: missing {miss}, unexpected {more}",
                          dict(language=lang, frame=FRAMES[f][0], container=CONT[lang][1][cont], prologue=CONT[lang][0], statement=a, others=b, statement_first=not h, missing=miss, unexpected=more))
    jobs = []
    for key in dict.fromkeys(j[:3] for j in bj):
        b = base[key]
        ks = sorted(b)
        loud = [k for k in ks if b[k][0] or b[k][1]]
        it = _items41(key[0])
        if chk.thorough:
            pairs = list(itertools.product(ks, repeat=2))
        else:       # one representative of those that report the same
            seen, reps = set(), []
            for k in loud:
                sig = (tuple(r[0] for r in b[k][0]), it[k].split("(")[0][:6], it[k].startswith("int lv"))
                if sig not in seen:
                    seen.add(sig)
                    reps.append(k)
            pairs = list(itertools.product(reps, repeat=2))
        for a in range(0, len(pairs), 200):
            c = pairs[a:a + 200]
            jobs.append((*key, c, {k: b[k] for p in c for k in p}))
        chk.states += len(pairs)
        chk.section("/".join(map(str, key)), statements=len(ks), reporting=len(loud), together=sizes[key], pairs=len(pairs))
    rejected = 0
    for (lang, cont, f, ks, _), (bad, nv, rej) in common.pmap(chk, tree, _keyed, [(_pairs41, j) for j in jobs]):
        chk.traces += 1
        chk.transitions += 2 * len(ks)
        chk.outcomes[f"{lang} {f}"] += nv
        rejected += rej
        for a, b, h, want, got in bad:
            chk.violation(f"in {f} ({lang}): {(a, b)[h]!r} {'before' if not h else 'after'} {(a, b)[1 - h]!r}: {got}, with {PLAIN!r} instead: {want}", dict(language=lang, frame=FRAMES[f][0], container=CONT[lang][1][cont], prologue=CONT[lang][0], first=a, second=b, expected=want, observed=got))
    chk.section("pairs clang rejects together", pairs=rejected)
    chk.bounds = {"frames": len(FRAMES), "statements together": 2}
    return chk.finish()


def check(pid):
    return {"C35": check_c35, "C36": check_c36, "C41": check_c41}[pid]()
