"""A minimal program for every rule; ⟦ ⟧ enclose the construct that is reported.  {N} keeps the names of several programs in one file apart."""

C, X, M, MM = "c", "cpp", "m", "mm"
ALL, CX = (C, X, M, MM), (C, X)
OB = (M, MM)
# (rule, file name of the rule, languages, program, -rc options)
R = []


def r(rule, lib, exts, text, *opts):
    R.append((rule, lib, exts, text, tuple("-rc=" + o for o in opts)))


# basic
r("bitwise operator in conditional", "BitwiseOperatorInConditional", ALL, "void f{N}(int a, int b) { if (⟦a & b⟧) g(); }")
r("bitwise operator in conditional", "BitwiseOperatorInConditional", ALL, "int f{N}(int a, int b) { return ⟦(a | b)⟧ ? 1 : 2; }")
r("broken null check", "BrokenNullCheck", CX, "void f{N}(struct P *p) { if (⟦p || p->x⟧) g(); }")
r("broken nil check", "BrokenNullCheck", OB, "void f{N}(K *p) { if (⟦!p && [p x]⟧) g(); }")
r("broken oddness check", "BrokenOddnessCheck", ALL, "int f{N}(int a) { return ⟦a % 2 == 1⟧; }")
r("collapsible if statements", "CollapsibleIfStatements", ALL, "void f{N}(int a, int b) { ⟦if (a) { if (b) { g(); } }⟧ }")
r("constant conditional operator", "ConstantConditionalOperator", ALL, "int f{N}(int a) { return ⟦1⟧ ? a : 3; }")
r("constant if expression", "ConstantIfExpression", ALL, "void f{N}(void) { if (⟦1 + 0⟧) g(); }")
r("dead code", "DeadCode", ALL, "int f{N}(void) { return 1; ⟦g()⟧; }")
r("double negative", "DoubleNegative", ALL, "int f{N}(int a) { return ⟦!!a⟧; }")
r("for loop should be while loop", "ForLoopShouldBeWhileLoop", ALL, "void f{N}(int a) { ⟦for (; a; ) g()⟧; }")
r("goto statement", "GotoStatement", ALL, "void f{N}(void) { ⟦goto L⟧; L: g(); }")
r("jumbled incrementer", "JumbledIncrementer", ALL, "void f{N}(void) { for (int i = 0; i < 9; i++) { for (int j = 0; j < 9; ⟦i++⟧) { g(); } } }")
r("misplaced null check", "MisplacedNullCheck", CX, "void f{N}(struct P *p) { if (⟦p->x && p⟧) g(); }")
r("misplaced nil check", "MisplacedNullCheck", OB, "void f{N}(K *p) { if (⟦[p x] || !p⟧) g(); }")
r("multiple unary operator", "MultipleUnaryOperator", ALL, "int f{N}(int a) { return ⟦-~a⟧; }")
r("return from finally block", "ReturnFromFinallyBlock", OB, "int f{N}(void) { @try { g(); } @finally { ⟦return 1⟧; } }")
r("throw exception from finally block", "ThrowExceptionFromFinallyBlock", OB, "void f{N}(id x) { @try { g(); } @finally { ⟦@throw x⟧; } }")
# convention
r("avoid branching statement as last in loop", "AvoidBranchingStatementAsLastInLoop", ALL, "void f{N}(int a) { while (a) { g(); ⟦break⟧; } }")
r("base class destructor should be virtual or protected", "BaseClassDestructorShouldBeVirtualOrProtected", (X,), "namespace n{N} { ⟦struct A { }⟧; struct B : A { virtual ~B(); }; }")
r("unnecessary default statement in covered switch statement", "CoveredSwitchStatementsDontNeedDefault", ALL, "void f{N}(enum E e) { ⟦switch (e) { case e1: g(); break; case e2: g(); break; default: g(); }⟧ }")
r("ill-placed default label in switch statement", "DefaultLabelNotLastInSwitchStatement", ALL, "void f{N}(int a) { switch (a) { ⟦default: g()⟧; break; case 1: g(); } }")
r("destructor of virtual class", "DestructorOfVirtualClass", (X,), "namespace n{N} { ⟦class A { public: virtual void m(); }⟧; }")
r("inverted logic", "InvertedLogic", ALL, "int f{N}(int a) { return ⟦!a⟧ ? 1 : 2; }")
r("inverted logic", "InvertedLogic", ALL, "void f{N}(int a) { if (⟦a != 1⟧) { g(); } else { g(); } }")
r("missing break in switch statement", "MissingBreakInSwitchStatement", ALL, "void f{N}(int a) { ⟦switch (a) { case 1: g(); case 2: break; }⟧ }")
r("non case label in switch statement", "NonCaseLabelInSwitchStatement", ALL, "void f{N}(int a) { switch (a) { case 1: ⟦L: g()⟧; } }")
r("ivar assignment outside accessors or init", "ObjCAssignIvarOutsideAccessors", OB, "@interface C{N} : K { int v; } @end @implementation C{N} - (void)m { ⟦v⟧ = 1; } @end")
r("parameter reassignment", "ParameterReassignment", ALL, "void f{N}(int a) { ⟦a = 1⟧; }")
r("prefer early exits and continue", "PreferEarlyExit", ALL, "int f{N}(int a) { ⟦if (a) {\ng();\ng(); }⟧ return 1; }", "MAXIMUM_IF_LENGTH=2")
r("missing default in switch statements", "SwitchStatementsShouldHaveDefault", ALL, "void f{N}(int a) { ⟦switch (a) { case 1: g(); }⟧ }")
r("too few branches in switch statement", "TooFewBranchesInSwitchStatement", ALL, "void f{N}(int a) { ⟦switch (a) { case 1: g(); }⟧ }")
# design
r("avoid default arguments on virtual methods", "AvoidDefaultArgumentsOnVirtualMethods", (X,), "struct S{N} { ⟦virtual void m(int a = 1)⟧; };")
r("avoid private static members", "AvoidPrivateStaticMembers", (X, MM), "class S{N} { ⟦static int v⟧; ⟦static void m()⟧; };")
r("feature envy", "FeatureEnvy", OB, "@interface C{N} : K @end @implementation C{N} ⟦- (void)m:(K *)k { [k x]; [k n]; [self x]; }⟧ @end")
# empty
r("empty catch statement", "EmptyCatchStatement", (X, MM), "void f{N}() { try { g(); } catch (int) ⟦{ }⟧ }")
r("empty catch statement", "EmptyCatchStatement", OB, "void f{N}(void) { @try { g(); } @catch (id x) ⟦{ }⟧ }")
r("empty do/while statement", "EmptyDoWhileStatement", ALL, "void f{N}(int a) { do ⟦{ }⟧ while (a); }")
r("empty else block", "EmptyElseBlock", ALL, "void f{N}(int a) { if (a) { g(); } else ⟦{ }⟧ }")
r("empty finally statement", "EmptyFinallyStatement", OB, "void f{N}(void) { @try { g(); } @finally ⟦{ }⟧ }")
r("empty for statement", "EmptyForStatement", ALL, "void f{N}(void) { for (;;) ⟦{ }⟧ }")
r("empty if statement", "EmptyIfStatement", ALL, "void f{N}(int a) { if (a) ⟦{ }⟧ }")
r("empty switch statement", "EmptySwitchStatement", ALL, "void f{N}(int a) { switch (a) ⟦{ }⟧ }")
r("empty try statement", "EmptyTryStatement", (X, MM), "void f{N}() { try ⟦{ }⟧ catch (int) { g(); } }")
r("empty try statement", "EmptyTryStatement", OB, "void f{N}(void) { @try ⟦{ }⟧ @finally { g(); } }")
r("empty while statement", "EmptyWhileStatement", ALL, "void f{N}(int a) { while (a) ⟦;⟧ }")
# naming
r("long variable name", "LongVariableName", ALL, "void f{N}(⟦int abcdef⟧);", "LONG_VARIABLE_NAME=5")
r("short variable name", "ShortVariableName", ALL, "void f{N}(void) { ⟦int i⟧; }")
# redundant
r("redundant conditional operator", "RedundantConditionalOperator", ALL, "int f{N}(int a) { return ⟦a ? 1 : 1⟧; }")
r("redundant if statement", "RedundantIfStatement", (X, MM), "bool f{N}(int a) { ⟦if (a) return true; else return false⟧; }")
r("redundant local variable", "RedundantLocalVariable", ALL, "int f{N}(int a) { ⟦int b = a⟧; return b; }")
r("redundant nil check", "RedundantNilCheck", OB, "int f{N}(K *p) { return ⟦p && [p x]⟧; }")
r("unnecessary else statement", "UnnecessaryElseStatement", ALL, "int f{N}(int a) { if (a) { return 1; } else ⟦{ return 2; }⟧ }")
r("unnecessary null check for dealloc", "UnnecessaryNullCheckForCXXDealloc", (X,), "void f{N}(int *p) { ⟦if (p) delete p⟧; }")
r("useless parentheses", "UselessParentheses", ALL, "int f{N}(int a) { return ⟦(1 + a)⟧; }")
# size
r("high cyclomatic complexity", "CyclomaticComplexity", ALL, "⟦void f{N}(int a) { if (a) g(); if (a) g(); }⟧", "CYCLOMATIC_COMPLEXITY=2")
r("long class", "LongClass", (X,), "⟦struct S{N} {\n\n\n}⟧;", "LONG_CLASS=3")
r("long method", "LongMethod", ALL, "⟦void f{N}(void) {\n\n\n}⟧", "LONG_METHOD=3")
r("high npath complexity", "NPathComplexity", ALL, "⟦void f{N}(int a) { if (a) g(); if (a) g(); }⟧", "NPATH_COMPLEXITY=3")
r("high ncss method", "NcssMethodCount", ALL, "⟦void f{N}(int a) { g(); g(); }⟧", "NCSS_METHOD=2")
r("deep nested block", "NestedBlockDepth", ALL, "void f{N}(int a) ⟦{ if (a) { if (a) { g(); } } }⟧", "NESTED_BLOCK_DEPTH=2")
r("too many fields", "TooManyFields", (X, MM), "⟦struct S{N} { int a; int b; }⟧;", "TOO_MANY_FIELDS=1")
r("too many fields", "TooManyFields", OB, "⟦@interface C{N} : K { int a; int b; } @ end⟧", "TOO_MANY_FIELDS=1")
r("too many methods", "TooManyMethods", (X, MM), "⟦struct S{N} { void a(); void b(); }⟧;", "TOO_MANY_METHODS=1")
r("too many methods", "TooManyMethods", OB, "@interface C{N} : K @end ⟦@implementation C{N} - (void)a { } - (void)b { } @end⟧", "TOO_MANY_METHODS=1")
r("too many parameters", "TooManyParameters", ALL, "⟦void f{N}(int a, int b) { }⟧", "TOO_MANY_PARAMETERS=1")
r("too many parameters", "TooManyParameters", OB, "@interface C{N} : K @end @implementation C{N} ⟦- (void)m:(int)a n:(int)b { }⟧ @end", "TOO_MANY_PARAMETERS=1")
# unused
r("unused local variable", "UnusedLocalVariable", ALL, "void f{N}(void) { ⟦int a = 1⟧; }")
r("unused method parameter", "UnusedMethodParameter", ALL, "void f{N}(⟦int a⟧) { g(); }")
# migration, cocoa
r("use boxed expression", "ObjCBoxedExpressions", OB, "id f{N}(int a) { return ⟦[NSNumber numberWithInt:(a + 1)]⟧; }")
r("use container literal", "ObjCContainerLiterals", OB, "id f{N}(void) { return ⟦[NSArray array]⟧; }")
r("use number literal", "ObjCNSNumberLiterals", OB, "id f{N}(void) { return ⟦[NSNumber numberWithInt:1]⟧; }")
r("use object subscripting", "ObjCObjectSubscripting", OB, "id f{N}(NSArray *a) { return ⟦[a objectAtIndex:0]⟧; }")
r("missing hash method", "ObjCVerifyIsEqualHash", OB, "@interface C{N} : K @end ⟦@implementation C{N} - (char)isEqual:(id)o { return 1; } @end⟧")
r("missing call to base method", "ObjCVerifyMustCallSuper", OB, "@interface C{N} : K @end @implementation C{N} ⟦- (void)must { }⟧ @end")
r("calling prohibited method", "ObjCVerifyProhibitedCall", OB, "void f{N}(K *k) { ⟦[k never]⟧; }")
r("calling prohibited method", "ObjCVerifyProhibitedCall", ALL, "void f{N}(void) { ⟦never()⟧; }")
r("calling protected method", "ObjCVerifyProtectedMethod", OB, "@interface C{N} : J @end @implementation C{N} - (void)m:(K *)k { ⟦[k prot]⟧; } @end")
r("missing abstract method implementation", "ObjCVerifySubclassMustImplement", OB, "@interface C{N} : A @end ⟦@implementation C{N} - (void)m { } @end⟧")

_C = ("int g(); __attribute__((annotate(\"oclint:enforce[prohibited method]\"))) void never(); struct P { int x; }; enum E { e1, e2 };")
_O = ("@class NSString; __attribute__((objc_root_class)) @interface J - (int)x; @end @interface K : J - (K *)n; - (void)must __attribute__((annotate(\"oclint:enforce[base method]\"))); "
      "- (void)never __attribute__((annotate(\"oclint:enforce[prohibited method]\"))); - (void)prot __attribute__((annotate(\"oclint:enforce[protected method]\"))); @end "
      "@interface A : J - (void)abs __attribute__((annotate(\"oclint:enforce[abstract method]\"))); @end "
      "@interface NSNumber : J + (id)numberWithInt:(int)i; @end @interface NSArray : J + (id)array; - (id)objectAtIndex:(unsigned)i; @end")
PROLOGUE = {C: _C, X: _C, M: _C + " " + _O, MM: _C + " " + _O}
CLANG = {C: (), X: ("-std=c++17",), M: ("-fobjc-exceptions",), MM: ("-fobjc-exceptions", "-fexceptions", "-fcxx-exceptions", "-std=c++17")}


def entries():
    """(rule, library, ext, program, options), one per language"""
    for rule, lib, exts, text, opts in R:
        for e in exts:
            t = text
            if e in (C, M) and "(struct P" in t or "enum E e" in t:
                pass
            yield rule, lib, e, t, opts
