TX = "exhaustive enumeration of bounded configurations, histories or fault points, each executed on the real code and compared with a reference model"
NX = "Exhaustive within the stated bounds; larger configurations are not covered. Scripted violations enter through a rule library loaded by the real executable."
prop("C01", "Each violation is reported once; counts match what is listed",
     "Unless -allow-duplicated-violations is given, the results contain every distinct violation (rule, file, start and end position, message) exactly once, in order of first occurrence, no matter how often or in how many translation units it was found; with the option every occurrence is kept. "
     "The number of violations, of violations per priority, of errors, warnings and static analyzer bugs, of analysed files and of files with violations always agree with the listed items, in whatever order they are asked for.",
     ["histories", "configurations"], "all histories of added violations and diagnostics over contents differing in one field or colliding in the hash, all file layouts, all query orders",
     "Unit tests add two or three fixed violations; agreement must hold for every history, every pair of nearly equal violations and every order of queries on caching objects.",
     ["oclint-core/lib/UniqueResults.cpp", "oclint-core/lib/RawResults.cpp", "oclint-core/lib/AbstractResults.cpp", "oclint-core/lib/Violation.cpp", "oclint-core/lib/ResultCollector.cpp", "oclint-driver/main.cpp"],
     [("deduplication", "removeViolationDuplications"), ("equality", "Violation::operator=="), ("counting", "AbstractResults")],
     ["collected violation sets", "cached unique lists"], ["Results interface", "report of the oclint executable"], TX, NX)
prop("C02", "The exit status follows compile errors and priority thresholds exactly",
     "oclint exits with 6 if there was any compile error; otherwise with 5, and a line on standard error giving count and threshold of every priority, if the number of reported violations of priority 1, 2 or 3 is greater than its threshold (0, 10 and 20 by default); otherwise with 0. "
     "Counts equal to a threshold, other priorities, compiler warnings and removed duplicates never fail a run.",
     ["configurations", "inputs"], "all combinations of counts per priority, thresholds around them and defaults, compile errors and duplicates",
     "No unit test covers main(); the gate used by continuous integration must be exact for every combination of counts and thresholds.",
     ["oclint-driver/main.cpp", "oclint-core/lib/AbstractResults.cpp", "oclint-driver/lib/Options.cpp"],
     [("gate", "numberOfViolationsExceedThreshold, handleExit")], ["counts per priority", "thresholds"], ["exit status", "standard error"], TX, NX)
prop("C03", "Options are layered: etc, then home, then project, then command line",
     "Every setting is read from etc/oclint of the installation, then $HOME/.oclint, then .oclint in the working directory, then the command line, and for every option the last layer that sets it wins: report file, report type, thresholds, duplicates and the value of each rule configuration key. "
     "A layer that does not mention an option leaves it alone; rule-paths and -R directories of all layers add up and replace the default rule directory.",
     ["configurations"], "all subsets of the four layers for every option and every pair of options",
     "No unit test covers option processing; precedence must hold for every combination of layers and options.",
     ["oclint-driver/lib/Options.cpp", "oclint-driver/lib/ConfigFile.cpp", "oclint-core/lib/RuleConfiguration.cpp"],
     [("layering", "processConfigFiles, updateArgIfSet"), ("rule configurations", "RuleConfiguration::addConfiguration")], ["option values", "rule configuration map"],
     ["report file, report format, thresholds printed, values rules see"], TX, NX)
prop("C04", "Exactly the selected rules run",
     "Enable and disable requests for rules are taken in order (etc, home, project file, command line; within a layer first enables, then disables) and the last one for a rule decides. "
     "If any rule is then explicitly enabled, exactly the enabled rules run; otherwise all rules but the disabled ones run. The list printed by -list-enabled-rules is exactly the set of rules that run; names that match no rule have no other effect.",
     ["histories", "configurations"], "all histories of enable/disable operations to the bound; all assignments of enable/disable/both to two rules in four layers",
     "Unit tests try a few fixed sequences; a leftover of an earlier request shows only in particular orders.",
     ["oclint-driver/lib/RulesetFilter.cpp", "oclint-driver/lib/Options.cpp", "oclint-driver/main.cpp", "oclint-core/lib/RuleBase.cpp"],
     [("selection", "RulesetFilter::enableRule/disableRule/filteredRules"), ("identifier", "RuleBase::identifier")], ["enabled and disabled name sets"],
     ["list of enabled rules", "rules that report"], TX, NX)
prop("C05", "Structured reports are well-formed and give back every text unchanged",
     "For every path, rule name, category and message, whatever characters they contain (markup, quotes, backslashes, white space, multi-byte), the XML, PMD, HTML and JSON reports are well-formed documents that give back exactly that text; JSON also for control characters.",
     ["inputs"], "all strings to the bound over an alphabet of special characters in every text field and pair of fields, for violations and diagnostics",
     "Reporter tests use plain words; file names and diagnostics contain arbitrary characters.",
     ["oclint-reporters/reporters/XMLReporter.cpp", "oclint-reporters/reporters/PMDReporter.cpp", "oclint-reporters/reporters/HTMLReporter.cpp", "oclint-reporters/reporters/JSONReporter.cpp"],
     [("escaping", "xmlEscape, htmlEscape, jsonEscape")], ["report text"], ["report document"], TX, "Control characters other than tab and line breaks are excluded for XML, which cannot represent them; texts are valid UTF-8.")
prop("C06", "Every report lists every finding once, with location and matching totals",
     "For any results, each report type lists exactly the violations of the results, once each and in order, with path, position, rule, category, priority and message (JSON and XML with the end position if there is one; PMD with priority 2p-1); text, HTML and PMD also list compiler errors and warnings, all but xcode list static analyzer bugs. "
     "Summaries (number of files, files with violations, violations of each priority, errors, warnings, bugs) agree with what is listed, the date given is the date of the run, and the report goes to the requested file or else to standard output.",
     ["inputs", "configurations"], "all results to the bound of violations over files and priorities, diagnostics of each kind, presence of end positions, calendar boundaries, times all six reporters",
     "Reporter tests print one violation through one helper each; completeness, separators and totals depend on the combination of lists.",
     ["oclint-reporters/reporters/TextReporter.cpp", "oclint-reporters/reporters/HTMLReporter.cpp", "oclint-reporters/reporters/XMLReporter.cpp", "oclint-reporters/reporters/JSONReporter.cpp", "oclint-reporters/reporters/PMDReporter.cpp", "oclint-reporters/reporters/XcodeReporter.cpp", "oclint-driver/main.cpp"],
     [("rendering", "report() of each reporter")], ["results"], ["report document"], TX, NX)
prop("C07", "Cyclomatic complexity is exact",
     "For every C, C++ or Objective-C function or method definition, the cyclomatic complexity used and printed by oclint is one plus the number of if, for, for-in, range-for, while, do, case, catch, ?:, && and || constructs written in it. "
     "The function is reported if and only if that number exceeds the configured limit (10 by default), once, with the number and the limit in the message.",
     ["programs", "configurations"], "all function bodies of the bounded statement/expression grammars (C, C++, Objective-C), in every kind of function container, under limits around the value",
     "The metric's unit tests feed a few dozen hand-written bodies and never combine constructs, containers and limits; a miscount in one nesting or one container stays invisible.",
     ["oclint-metrics/lib/CyclomaticComplexityMetric.cpp", "oclint-rules/rules/size/CyclomaticComplexityRule.cpp"],
     [("decision counting", "CyclomaticComplexityMetric"), ("limit and message", "CyclomaticComplexityRule::applyDecl")],
     ["count of decisions of the function being traversed"], ["report of the oclint executable"], TECH, NOTE)
prop("C08", "NPath complexity is exact and never wraps",
     "For every function or method definition, the NPath complexity used and printed by oclint follows Nejmeh's definition over sequences, if/else, loops, switch, &&, || and ?: in conditions, and is capped at the largest int instead of wrapping. "
     "The function is reported if and only if the number exceeds the configured limit (200 by default), once, at its definition, with number and limit in the message.",
     ["programs", "configurations"], "all function bodies of the bounded grammars, products of up to 114 sequential decisions, limits around the value",
     "Unit tests evaluate the metric on single statements; composition (sum versus product, else, stacked cases, overflow after 31 decisions) needs every combination.",
     ["oclint-metrics/lib/NPathComplexityMetric.cpp", "oclint-metrics/include/oclint/metric/NPathComplexityMetric.h", "oclint-rules/rules/size/NPathComplexityRule.cpp"],
     [("structural recursion", "NPathComplexityMetric::nPath"), ("limit and message", "NPathComplexityRule::applyDecl")],
     ["path count"], ["report of the oclint executable"], TECH, NOTE + " Switch statements without any label are outside: the project's unit tests define their NPath as 0.")
prop("C09", "Non-commenting source statement count is exact",
     "For every function or method definition, the NCSS number used and printed by oclint is one for the function plus one for every simple or controlling statement, else, case, default, try, catch, @finally, @synchronized and @autoreleasepool in it, two for do-while, and zero for empty statements and bare braces. "
     "The function is reported if and only if the number exceeds the configured limit (30 by default), once, at its definition, with number and limit in the message.",
     ["programs", "configurations"], "all function bodies of the bounded statement grammars (C, C++, Objective-C), containers and limits around the value",
     "Unit tests count single statement kinds; nested and sequential combinations, containers and limits are unbounded.",
     ["oclint-metrics/lib/NcssMetric.cpp", "oclint-metrics/include/oclint/metric/NcssMetric.h", "oclint-rules/rules/size/NcssMethodCountRule.cpp"],
     [("statement counting", "NcssMetric::ncss"), ("limit and message", "NcssMethodCountRule::applyDecl")],
     ["statement count"], ["report of the oclint executable"], TECH, NOTE)
prop("C10", "Nested block depth is exact",
     "For every brace block in a program, the depth used and printed by oclint is one plus the deepest chain of brace blocks nested inside it through if, else, loops, switch, try/catch, @try/@catch/@finally, @synchronized and @autoreleasepool. "
     "Each block is reported, once, if and only if its depth exceeds the configured limit (5 by default), with depth and limit in the message.",
     ["programs", "configurations"], "all bodies of the bounded statement grammars (C, C++, Objective-C), limits around the value",
     "Unit tests have one nesting per statement kind; the maximum over siblings and branches needs combinations.",
     ["oclint-metrics/lib/StmtDepthMetric.cpp", "oclint-metrics/include/oclint/metric/StmtDepthMetric.h", "oclint-rules/rules/size/NestedBlockDepthRule.cpp"],
     [("depth recursion", "StmtDepthMetric::depth"), ("limit and message", "NestedBlockDepthRule::VisitCompoundStmt")],
     ["depth of each block"], ["report of the oclint executable"], TECH, NOTE)
prop("C27", "A report that could not be written completely is never a success",
     "If opening the report file or writing the report fails at any point (disk full after any number of bytes, I/O error on any call), oclint prints an error and exits with status 4. "
     "Interrupted and short writes are completed: whenever the exit status is another one, the report is complete.",
     ["fault_sequences", "crash_points"], "every byte position at which the file size limit can hit, every open, write and close call failing with each errno, interrupted or short, for six reporters and several report sizes, to a file and to standard output",
     "Unit tests never inject faults; a failure matters only at particular bytes and calls (the last buffer, the close).",
     ["oclint-driver/main.cpp"], [("report stream", "outStream, disposeOutStream")], ["output stream state"], ["exit status", "report file"],
     "exhaustive fault-point enumeration on the real executable (file size limit at every byte, every system call on the report failing)",
     "Faults are injected one at a time; an error of close() after everything was written may or may not be reported.", level="fault_enumeration")
prop("C28", "Loading rules and reporters does not depend on directory order",
     "The rules that run, the reporter that writes the report, the violations and the exit status do not depend on the order in which the system enumerates the rule and reporter directories or on the order of -R options; hidden files are ignored, every library of every existing -R directory is loaded. "
     "A rule library that cannot be loaded, or no rule at all, ends the run with status 1, a report type no reporter has with status 2, and no report is written.",
     ["schedules", "configurations"], "all permutations of the entries of the rule and reporter directories, all sequences of up to three -R directories",
     "Enumeration order is chosen by the file system; tests see one order.",
     ["oclint-driver/rules_dlfcn_port.cpp", "oclint-driver/reporters_dlfcn_port.cpp", "oclint-driver/main.cpp", "oclint-driver/lib/Options.cpp"],
     [("loading", "dynamicLoadRules, loadReporter, consumeArgRulesPath")], ["rule set", "selected reporter"], ["exit status, listed rules, report"], TX, "Directories with only loadable reporter libraries; up to six entries.")
prop("C29", "Configuration files are obeyed to the letter",
     "Whatever text a configuration file gives for a value, and in whatever YAML form (plain, quoted, escaped, block or flow, any order of keys, comments, CRLF, any file size, any working directory), oclint acts on exactly that text. Empty and blank files change nothing.",
     ["inputs", "configurations"], "all values to the bound over an alphabet of special characters in four scalar styles, all key orders in eight layouts, file sizes around page boundaries, working directories of any length",
     "No unit test reads a configuration file; lifetime and size effects show only for particular sizes and styles.",
     ["oclint-driver/lib/ConfigFile.cpp", "oclint-driver/include/oclint/ConfigFile.h", "oclint-driver/lib/Options.cpp"],
     [("parsing", "ConfigFile::ConfigFile, mapping")], ["parsed values"], ["values rules see, rules that run, thresholds"], TX, NX)
prop("C30", "Each source file is compiled on its own terms and judged independently",
     "Every file given is compiled with each of its compile commands, in that command's directory with that command's flags and __OCLINT__ defined; the rules run on it if and only if it compiles without error, whatever happens to the other files, with and without global analysis. "
     "Each compiler error and warning is reported once, under its kind, with its file and line; static analyzer bugs only when the analyzer is enabled, and enabling it changes nothing else.",
     ["inputs", "histories", "configurations"], "all sequences of files to the bound over eight kinds, command line or database, per file and globally, with and without the static analyzer",
     "No unit test covers the driver; isolation must hold for every sequence of good and bad files.",
     ["oclint-driver/lib/Driver.cpp", "oclint-driver/lib/CompilerInstance.cpp", "oclint-driver/lib/DiagnosticDispatcher.cpp", "oclint-driver/lib/RulesetBasedAnalyzer.cpp"],
     [("compilation", "constructCompilers, newCompilerInvocation"), ("diagnostics", "DiagnosticDispatcher::HandleDiagnostic"), ("analysis", "RulesetBasedAnalyzer::analyze")],
     ["compilers, collected diagnostics"], ["report of the oclint executable", "exit status"], TX, NX)
prop("C37", "Analysing leaves sources and build outputs as they were",
     "A run reads. Whatever output options the compile commands contain (object files, dependency files, serialized diagnostics, temporaries, statistics, compilation database fragments of a database's command), with and without the static analyzer, per file and globally, whether the file compiles or not: "
     "no file or directory of the source and build tree, of the temporary or of the home directory is created, changed or removed, except the report file named with -o; and the options change nothing in the report.",
     ["inputs", "configurations"], "all subsets of up to two of 39 writing compiler options (database or command line), analyzer, global analysis, existing or missing outputs, compiling and failing files",
     "No unit test runs the driver on compile commands with such options; the damage is to the user's build tree and invisible in the report.",
     ["oclint-driver/lib/Driver.cpp", "oclint-driver/lib/CompilerInstance.cpp", "oclint-driver/main.cpp"],
     [("compile commands", "newCompilerInvocation, newInvocation, adjustArguments"), ("frontend actions", "CompilerInstance::start")],
     ["file system"], ["files and directories before and after", "report of the oclint executable"], TX, NX + " Module caches and -MJ on the command line (written by clang's own command line reader) are outside.")
prop("C38", "Scaffolding creates what was asked for and touches nothing else",
     "oclint-scripts/scaffoldRule and scaffoldReporter create exactly the requested source file (rules/<category>/<Class>Rule.cpp, reporters/<Class>Reporter.cpp) and, unless told not to, its test, and register each exactly once with the build; a category that does not exist yet is created and registered with rules and tests. "
     "The generated rule compiles (also for the documentation), loads, and has the requested name (by default the words of the class name in lower case), priority (default 3) and category (default custom), reports nothing and can be selected; the generated reporter loads under its name and writes nothing; the first generated test passes. "
     "What a command creates does not depend on the commands before it. If the source or the requested test exists already, the command says so and changes nothing. No other file is changed; the build lists are only appended to.",
     ["inputs", "histories"], "all combinations of four classes, five types, four categories, names, priorities and tests; all sequences of two (thorough three) of 23 commands; eleven generated libraries compiled, loaded and tested",
     "The scripts have no tests at all, and a history of commands is needed to overwrite work or register something twice.",
     ["oclint-scripts/scaffoldRule", "oclint-scripts/scaffoldReporter", "oclint-scripts/oclintscripts/path.py", "oclint-rules/template/GenericRule.tmpl", "oclint-rules/template/ASTVisitorRule.tmpl", "oclint-rules/template/ASTMatcherRule.tmpl",
      "oclint-rules/template/SourceCodeReaderRule.tmpl", "oclint-rules/template/RuleTest.tmpl", "oclint-reporters/template/Reporter.tmpl", "oclint-reporters/template/ReporterTest.tmpl"],
     [("files and registration", "pre_check, scaffold, write_cmake_lists"), ("templates", "copy_template, replace_wildcard")],
     ["rule and reporter source tree"], ["files before and after", "targets recorded while cmake interprets the lists", "what the loaded rule says about itself"], TX,
     NX + " Class names are capitalised identifiers; the same class in two categories (two targets of one name) is outside.")
prop("C39", "The rule documentation is complete and says what the rules do",
     "For every set of loaded rules (at least one; otherwise it fails and writes nothing) oclint-docgen writes an index with the number of rules and every category once in order, and for every category one page with its capitalised name as title and every rule of the category exactly once, ordered by identifier, "
     "with its version, name, description, source file and link, example, every threshold with its text in order, the suppression under the rule's attribute name if it has one, and its additional text, each unchanged; an earlier run into the same directory makes no difference. "
     "For the distributed rules what is documented is true: the source file defines a rule of that name and category; the documented limit is the option the rule reads, and its documented default is the limit without the option; the documented suppression suppresses that rule and the suppressions of other rules do not.",
     ["inputs", "configurations", "histories"], "all sequences of up to three (four) scripted rules of two categories; all combinations of optional metadata; texts; counts; all histories of three runs; all 70 rule sources; 13 limits x measures x settings around the default; 5 suppressions x 5 rules",
     "No test runs or even compiles the generator, and documented limits are plain text that nothing ties to the code.",
     ["oclint-driver/main_docgen.cpp", "oclint-core/lib/RuleBase.cpp", "oclint-core/include/oclint/RuleBase.h"] + ["oclint-rules/rules/size/%sRule.cpp" % r for r in ("LongMethod", "LongClass", "LongLine", "CyclomaticComplexity", "NPathComplexity", "NcssMethodCount", "NestedBlockDepth", "TooManyFields", "TooManyMethods", "TooManyParameters")]
     + ["oclint-rules/rules/naming/LongVariableNameRule.cpp", "oclint-rules/rules/naming/ShortVariableNameRule.cpp"],
     [("generator", "main, writeRuleToCategory, writeCategoryToIndex"), ("metadata", "RuleBase::fileName, enableSuppress, thresholds (DOCGEN)")],
     ["loaded rules", "rule options"], ["generated pages, parsed", "report of the oclint executable for the documented options and annotations"], TX,
     NX + " Built with -DDOCGEN like the project's documentation build; the prose of descriptions and examples is not judged.")
prop("C40", "Where oclint is started and how paths are spelled makes no difference",
     "Rules, reporters and etc/oclint are those of the installation whose executable the shell ran, whether named absolutely, relatively, with dots, or found through PATH (absolute or relative entries, after entries that hold no executable of that name). "
     "Relative -R directories, rule-paths, -o and output, -p and source arguments are taken from the directory oclint was started in, whatever directories its compile commands run in; only this directory's .oclint (and etc's and HOME's, if HOME is set) is read. "
     "Every analysed source is compiled in its own command's directory and its findings carry its path; spelling the same sources, database, rule directories and report differently, per-file or global analysis, with or without the static analyzer, gives the same findings and exit status. The report is the only file that is written, and replaces what was there.",
     ["configurations", "inputs"], "all combinations of 8 ways to start x entries before in PATH x 6 working directories x PWD x -R x etc; all subsets of configuration layers x HOME x -rc; 5 working directories x 4 spellings of sources x 4 of the database x 10 of the report x 7 of rule directories x 7 file sequences x analysis modes (quick: at most two of these dimensions off their default; thorough: all)",
     "No unit test runs the executable; a path resolved after the change to a compile command's directory is wrong only in particular combinations.",
     ["oclint-driver/lib/Options.cpp", "oclint-driver/lib/Driver.cpp", "oclint-driver/main.cpp", "oclint-driver/rules_dlfcn_port.cpp", "oclint-driver/reporters_dlfcn_port.cpp"],
     [("starting directory", "preserveWorkingPath, outputPath"), ("installation", "preserveExecutablePath, installPrefix"), ("compile directories", "Driver: chdir per compile command")],
     ["working directory", "PATH, HOME, PWD", "spelling of every path"], ["report, exit status, new files"], TX,
     NX + " Symlinked executables, and compilation databases with a relative `directory`, are outside.")
RN = ("Exhaustive within the grammars, texts and size bounds of the spaces listed in the evidence; conversions the compiler inserts are outside where the statement says so. "
      "Trusts clang 20 parsing and the Python reference model.")
RW = "The rule's unit tests feed a handful of snippets; a wrong answer for one nesting, one construct of another language or one container stays invisible."
def rprop(id, title, statement, qtext, files, mech, note=RN, over=("programs", "configurations"), why=RW):
    prop(id, title, statement, list(over), qtext, why, ["oclint-rules/" + f for f in files], mech, ["abstract syntax tree of the translation unit"],
         ["report of the oclint executable (rule, line, column, message)"], TECH, note)
rprop("C16", "Dead code is reported exactly where control cannot reach",
      "In every statement sequence, a statement is reported as dead code, once, at its beginning, if and only if control never gets to the end of the statement before it and the statement contains no label (or case of a switch around it) that can be jumped to; of several dead statements in a row only the first is reported. "
      "Control does not get past return, break, continue, goto, throw and @throw, labelled or not, past a block that ends that way, or past an if whose two branches both do; loops, switch, try and calls are taken to be passed. It holds in every function, method, lambda and block, in C, C++ and Objective-C.",
      "all statement sequences of the bounded grammars over jumps, labels, blocks, if/else, loops, switch, try, in all containers",
      ["rules/basic/DeadCodeRule.cpp"], [("exit analysis", "ExitTypeGetter, VisitCompoundStmt")])
rprop("C17", "Empty control statements are reported exactly",
      "For every if, else, while, do, for (including range-based and for-in), switch, try, catch and @finally, its body is reported under the rule for that construct, at the beginning of the body, if and only if it is an empty block or a lone semicolon (a comment does not count as content; an empty switch is an empty block). "
      "Nothing else is reported: not bodies with any statement or declaration in them, not plain blocks, function bodies or case groups. An else branch that is another if is judged by that if alone.",
      "all statement sequences of the bounded grammars in C, C++ and Objective-C with every kind of body, in all containers",
      ["rules/empty/EmptyIfStatementRule.cpp", "rules/empty/EmptyElseBlockRule.cpp", "rules/empty/EmptyForStatementRule.cpp", "rules/empty/EmptyWhileStatementRule.cpp",
       "rules/empty/EmptyDoWhileStatementRule.cpp", "rules/empty/EmptySwitchStatementRule.cpp", "rules/empty/EmptyTryStatementRule.cpp", "rules/empty/EmptyCatchStatementRule.cpp",
       "rules/empty/EmptyFinallyStatementRule.cpp", "rules/abstract/AbstractEmptyBlockStmtRule.h"], [("emptiness", "AbstractEmptyBlockStmtRule::checkLexicalEmptyStmt")])
rprop("C19", "Redundant constructs are reported exactly",
      "A ?: whose two results are the same constant or variable or are true and false, an if/else that returns, or assigns to the same variable, true in one branch and false in the other, an else after an if/else-if chain whose branches all return, parentheses directly around a whole if condition, return value or initializer (whose value undergoes no implicit conversion), "
      "a local variable declared alone in the statement right before a return of just that variable, and in C++ an if without else that only checks the pointer that it deletes (and may then set to null) are each reported once, under their rule, at the construct. "
      "The same forms with differing constants, types or variables, with further statements in the branches, or with statements in between are not reported.",
      "all combinations to the bound of constants, variables, branches, blocks around them, chains, conditions and positions",
      ["rules/redundant/RedundantConditionalOperatorRule.cpp", "rules/redundant/RedundantIfStatementRule.cpp", "rules/redundant/RedundantLocalVariableRule.cpp",
       "rules/redundant/UnnecessaryElseStatementRule.cpp", "rules/redundant/UselessParenthesesRule.cpp", "rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp"],
      [("pattern per rule", "Visit methods of each rule")])
rprop("C20", "Switch statements are judged by their own cases and labels",
      "For every switch: missing default is reported if and only if it has no default label and does not cover its enumeration; unnecessary default if and only if it has one although the cases cover the enumeration; ill-placed default, at the default label, if and only if another case group follows the default's statements; too few branches if and only if it has fewer case labels than the limit (3 by default); "
      "missing break if some case group (made of simple statements and blocks) contains no break, return, continue or throw; a non case label is reported at each ordinary label inside a switch, once. "
      "A switch nested in another one never counts for the outer one.",
      "all switch statements to the bound of case groups, labels, bodies, nesting, enumerations covered or not, limits around the count",
      ["rules/convention/MissingBreakInSwitchStatementRule.cpp", "rules/convention/SwitchStatementsShouldHaveDefaultRule.cpp", "rules/convention/CoveredSwitchStatementsDontNeedDefaultRule.cpp",
       "rules/convention/DefaultLabelNotLastInSwitchStatementRule.cpp", "rules/convention/NonCaseLabelInSwitchStatementRule.cpp", "rules/convention/TooFewBranchesInSwitchStatementRule.cpp"],
      [("pattern per rule", "VisitSwitchStmt of each rule")])
rprop("C21", "Conditions, operators and loop headers are judged exactly",
      "Wherever it stands in a program: an if or ?: condition is reported as constant if and only if the compiler can evaluate it without knowing a variable; a condition of if, while, do or ?: if and only if a bitwise &, | or ^ occurs in it; a unary !, ~, - or + whose operand (through parentheses) is another of them as multiple unary, and as double negative for !! and ~~; "
      "an if/else or ?: whose whole condition is != or ! as inverted logic; an if without else that contains nothing but another if without else as collapsible; every goto; a for with a condition but neither initializer nor increment; an inner for whose increment steps (++ or --) the variable the enclosing for declared, when it is the first statement of the loop body; x % 2 == 1 of an int x, in either order, as broken oddness check. Each is reported once, at the construct.",
      "all expression trees to the bound over the operators in every condition, statement and expression position, all containers, C, C++ and Objective-C",
      ["rules/basic/ConstantIfExpressionRule.cpp", "rules/basic/ConstantConditionalOperatorRule.cpp", "rules/basic/BitwiseOperatorInConditionalRule.cpp", "rules/basic/DoubleNegativeRule.cpp",
       "rules/basic/MultipleUnaryOperatorRule.cpp", "rules/basic/CollapsibleIfStatementsRule.cpp", "rules/convention/InvertedLogicRule.cpp", "rules/basic/GotoStatementRule.cpp",
       "rules/basic/ForLoopShouldBeWhileLoopRule.cpp", "rules/basic/JumbledIncrementerRule.cpp", "rules/basic/BrokenOddnessCheckRule.cpp"],
      [("pattern per rule", "Visit methods of each rule")])
rprop("C32", "Loop endings, early exits and parameter reassignments are reported exactly",
      "A break, continue or return that is the last statement directly in the block body of any loop is reported. "
      "An if without else that spans more lines than the limit (15 by default) is reported if it ends a loop body (alone, or last in its block), or stands right before a closing return, goto, break or continue of its block. "
      "Each plain assignment whose left side is directly a parameter of the function or method is reported, one per assignment, but none to members, elements, dereferenced parameters or to another variable that hides the parameter's name. It holds for every kind of loop and function, in C, C++ and Objective-C.",
      "all loop bodies of the bounded statement grammars, if statements around the line limit in every position, all assignments over kinds of left side, statement and hiding declaration",
      ["rules/convention/AvoidBranchingStatementAsLastInLoopRule.cpp", "rules/convention/PreferEarlyExitRule.cpp", "rules/convention/ParameterReassignmentRule.cpp"],
      [("pattern per rule", "Visit methods of each rule")])
rprop("C11", "Size limits are applied to exactly what was written",
      "A function or method is reported when the lines of its body, from the opening to the closing brace (or the end of its last handler), exceed LONG_METHOD (50 by default); a class, struct or union, and an Objective-C interface, category, protocol or implementation, when the lines it spans exceed LONG_CLASS (1000); a line of the file when its bytes exceed LONG_LINE (100); "
      "a class with more fields than TOO_MANY_FIELDS (20; instance variables for interfaces), more methods that were written in it than TOO_MANY_METHODS (30), and a function or method definition with more parameters than TOO_MANY_PARAMETERS (10). "
      "The report stands at the declaration (for lines: from column 1 to the last one), and its message gives the exact size and the limit in force. A size equal to the limit is never reported, nor are prototypes, lambdas, blocks, enclosing constructs for what nested ones contain (other than lines), inherited, implicit, static or friend members where they do not count.",
      "all sizes around the limit, for every limit of a range, in every container; all sequences to the bound of kinds of lines, members and parameters; files with and without a last line break",
      ["rules/size/LongMethodRule.cpp", "rules/size/LongClassRule.cpp", "rules/size/LongLineRule.cpp", "rules/size/TooManyFieldsRule.cpp", "rules/size/TooManyMethodsRule.cpp", "rules/size/TooManyParametersRule.cpp",
       "lib/AbstractSourceCodeReaderRule.cpp", "lib/util/ASTUtil.cpp"], [("measuring", "getLineCount, applyDecl, VisitCXXRecordDecl, eachLine")],
      over=("inputs", "programs", "configurations"))
rprop("C18", "Null checks are judged by what they protect",
      "In every && and || of C, C++ and Objective-C: when the left operand tests a pointer p (p, p != null, null != p; or !p, p == null, null == p) and the right operand accesses p (p->x, p->f(), or [p x]) although the left one let a null p through, it is reported as broken check; when the right operand's test of p would have been needed by the access in the left one, as misplaced check; "
      "in Objective-C p && (anything with [p x]) is a redundant check unless the right operand is a negation. Null is 0, NULL, nil, nullptr or such a value cast, in parentheses or not; accesses to other variables, parenthesised operands and checks that do protect the access are not reported.",
      "all expression trees to the bound over checks and accesses of two pointers in each language, in all statement positions and containers",
      ["rules/basic/BrokenNullCheckRule.cpp", "rules/basic/MisplacedNullCheckRule.cpp", "rules/redundant/RedundantNilCheckRule.cpp", "rules/abstract/AbstractNullCheckRule.h", "lib/util/ASTUtil.cpp"],
      [("patterns", "AbstractNullCheckRule.h, VisitBinaryOperator")])
rprop("C22", "Unused variables and parameters are reported exactly",
      "A local variable (with a name) that nothing refers to is reported once, at its declaration; one that is used anywhere in its scope, read, written, by address, in a nested block, lambda or block, is not, and uses of another variable of the same name do not count (function templates are left out). "
      "The same holds for the named parameters of function, method and block definitions, other than methods defined inside the class, virtual ones, and Objective-C methods that override or implement a declaration of a superclass or protocol or are IBActions. "
      "Objects of the classes listed in RAII_DEFAULT_CLASSES (std::lock_guard and std::unique_lock unless configured) and RAII_CUSTOM_CLASSES are exempt, however the list is separated; variables and parameters marked unused and those of declarations without body are never reported.",
      "all sequences to the bound of declarations, uses and scopes over two names with zero to two parameters, in all containers and languages; all lists of up to three classes with all separators",
      ["rules/unused/UnusedLocalVariableRule.cpp", "rules/unused/UnusedMethodParameterRule.cpp", "lib/util/ASTUtil.cpp"], [("usage", "VisitVarDecl, isExistingByContract")])
rprop("C23", "Short and long variable names are judged by their exact length",
      "Every variable or parameter whose name is shorter than SHORT_VARIABLE_NAME (3 by default) is reported at its declaration, except the variables of loop headers and catch clauses; every one whose name is longer than LONG_VARIABLE_NAME (20) is reported, without exception; the message gives the name (shortened in the middle when it exceeds the limit by more than ten), its exact length and the limit in force. "
      "Names at the limit are not reported; nor are fields, types, labels, functions and constants; a name exempted in one place is not exempted elsewhere.",
      "all name lengths around the limit for every limit of a range, in every declaration position; all sequences of declarations of the same name to the bound",
      ["rules/naming/ShortVariableNameRule.cpp", "rules/naming/LongVariableNameRule.cpp"], [("names", "VisitVarDecl, handleVarDecl")])
rprop("C24", "Class design rules see the whole hierarchy",
      "A class definition with or inheriting virtual methods is reported if neither it nor a class it derives from has a virtual destructor (bases that depend on template parameters are unknown). For every polymorphic class, each public base (and recursively the public bases of bases that are not polymorphic) whose destructor is neither virtual nor protected is reported at the base, once per derived class named in the message. "
      "Every virtual method declaration or definition whose parameters have a default argument, and every private static data member or method at its declaration and at its definition outside the class, is reported once. It holds for classes, structs, class templates, nested and local classes and redeclared ones; nothing else is reported.",
      "all hierarchies of up to four classes over kinds of members, destructors, access and virtual inheritance; all parameter lists and member sequences to the bound",
      ["rules/convention/DestructorOfVirtualClassRule.cpp", "rules/convention/BaseClassDestructorShouldBeVirtualOrProtectedRule.cpp", "rules/design/AvoidDefaultArgumentsOnVirtualMethodsRule.cpp", "rules/design/AvoidPrivateStaticMembersRule.cpp"],
      [("class checks", "VisitCXXRecordDecl, check, setUpMatcher")])
rprop("C12", "Suppressions silence exactly what they cover",
      "A violation is left out of the report if and only if (a) its first line holds //!OCLINT within a documentation comment of that same file, (b) its declaration, or any declaration that lexically encloses it, carries annotate(\"oclint:suppress\"), or annotate(\"oclint:suppress[rule]\") naming its rule (the name the rule registers for annotations), with or without further text in a second pair of brackets, or (c), for rules that look at lines, the line lies in the lines of such a declaration. "
      "Markers in other comments, other files or other translation units, on other lines, annotations of other rules, with other words or on other declarations, and whatever was suppressed before, never silence a violation. It holds for every rule in C, C++ and Objective-C.",
      "every rule: comments of all forms at every token and pair of tokens; all annotations on every declaration, prototype and enclosing container; all sequences of kinds of lines; all subsets of rules suppressed by three nested declarations; all sequences of files with their own suppressions",
      ["lib/helper/SuppressHelper.cpp", "lib/helper/AttributeHelper.cpp", "lib/AbstractASTRuleBase.cpp", "lib/AbstractSourceCodeReaderRule.cpp", "include/oclint/helper/SuppressHelper.h"],
      [("suppression", "shouldSuppress"), ("annotations", "declHasOCLintAttribute, declHasActionAttribute")], over=("inputs", "programs", "histories"))
rprop("C13", "A file's violations do not depend on other files or rules in the run",
      "What is reported for a file and a rule is the same whether the file is analysed alone or with any other files before or after it, in any order, the same file again included, whether other rules are enabled or not, and whether each file is processed on its own or all together (-enable-global-analysis). "
      "It holds for every rule and every language.",
      "every ordered pair of adjacent files of a catalogue with violations of every rule in every language, in both modes; every rule alone, every pair of rules (thorough) and all rules",
      ["include/oclint/AbstractASTVisitorRule.h", "lib/AbstractASTRuleBase.cpp", "lib/helper/SuppressHelper.cpp"],
      [("state of rules", "setUp, tearDown, apply"), ("analysis loop", "oclint-core/lib/RulesetBasedAnalyzer.cpp")], over=("histories", "configurations"),
      why="Unit tests run one rule over one snippet; state left behind in a rule or shared between rules shows only in particular sequences.")
rprop("C14", "Violations are reported for the analysed files only",
      "A construct is reported if its declaration starts in a file that was given for analysis (or comes from a macro used there), wherever the macro was defined, and only there; declarations of included headers, user or system, however deeply nested, often or early included, are not reported, and do not keep the file's own ones from being reported.",
      "every rule: all sequences to the bound of declarations in the file itself, from a macro, in included, nested included and system headers",
      ["include/oclint/AbstractASTVisitorRule.h", "include/oclint/AbstractASTMatcherRule.h", "lib/AbstractSourceCodeReaderRule.cpp"],
      [("main file", "isInMainFile, TraverseDecl loop")], over=("inputs", "programs"))
rprop("C15", "Reports point at the exact construct, whatever the layout",
      "A violation names the file in which the reported construct starts and its position: the line and column of its first token and those of its last token, as an editor counts them (from 1, in bytes). Spaces, tabs, line breaks, escaped line breaks, form feeds, and comments between tokens change nothing else; where tokens come from a macro, the position is that of the macro's use in the file (for arguments too); for parts that stand in an included file it is the position there. "
      "Layout never makes a violation appear or disappear, other than for rules about lines.",
      "every rule: every separator at every token, pairs of tokens and ranges; every range of tokens moved into a macro, a macro's arguments or an included file",
      ["lib/AbstractASTRuleBase.cpp"], [("location", "addViolation")], over=("inputs", "programs"))
rprop("C25", "Enforced method contracts are reported exactly",
      "Annotations annotate(\"oclint:enforce[...]\") on Objective-C methods (and functions) are enforced to the letter. base method: a method definition that overrides an annotated instance or class method of a superclass, of a category or extension of it or of a protocol it adopts (the nearest declaration decides) and has no message to super with its own selector anywhere in its body is reported. "
      "prohibited method: every call of an annotated function, member function, operator or method (by message or property) is reported, with the text of the annotation's second brackets as the replacement. protected method: a message to a receiver of known class, or property use, that stands in a method of a class that is neither the declaring class nor a subclass is reported. "
      "abstract method: an @implementation of a direct subclass that does not define an annotated method is reported. An @implementation that overrides isEqual: without hash is reported. Other annotations, other selectors and calls that satisfy the contract are never reported.",
      "all combinations to the bound of declaring place, annotation, selector, class level, body and calling context; all sets of methods for isEqual: and hash",
      ["rules/cocoa/ObjCVerifyMustCallSuperRule.cpp", "rules/cocoa/ObjCVerifyProhibitedCallRule.cpp", "rules/cocoa/ObjCVerifyProtectedMethodRule.cpp", "rules/cocoa/ObjCVerifySubclassMustImplementRule.cpp",
       "rules/cocoa/ObjCVerifyIsEqualHashRule.cpp", "lib/helper/EnforceHelper.cpp", "lib/helper/AttributeHelper.cpp"],
      [("contracts", "declHasEnforceAttribute, Visit methods of each rule")])
rprop("C26", "Every rule runs on exactly the languages it is for",
      "A rule is applied to a file if and only if it supports the file's language: C, C++, or Objective-C (which includes Objective-C++), decided by how the file is compiled (its extension or -x) in every language standard. The rules for C++ only (base class destructor, destructor of a virtual class, default arguments of virtual methods, needless null check before delete) are silent on Objective-C++; "
      "the nil checks replace the null checks in Objective-C. On CUDA sources (host compilation), which are C++, only branch divergence looks into __global__ functions, together with cyclomatic complexity; all other rules, and cyclomatic complexity, look at all other functions, in namespaces, linkage specifications, classes and templates too. "
      "Branch divergence reports exactly the if statements with an else in __global__ functions.",
      "every catalogue program in every language, language standard, extension and -x in which it is valid; probe rules for all sets of languages and function kinds; all CUDA programs to the bound of function kinds, nestings and statements",
      ["lib/AbstractASTRuleBase.cpp", "include/oclint/AbstractASTVisitorRule.h", "include/oclint/AbstractASTMatcherRule.h", "rules/cuda/CudaBranchDivergenceRule.cpp"],
      [("language", "isLanguageSupported"), ("CUDA", "applyCUDA, TraverseDecl"), ("divergence", "CudaBranchDivergenceRule::VisitIfStmt")], over=("programs", "configurations", "inputs"))
rprop("C31", "Objective-C code that has a literal form is reported exactly",
      "Number literal: [NSNumber numberWithX:] with a single literal of exactly X's type (numeric, character, or YES, NO, __objc_yes, __objc_no for Bool). Boxed expression: the same with a parenthesized expression of exactly X's type (any for Bool) or, for Int, an enumeration constant, and [NSString stringWithUTF8String:] with a call or parenthesized expression of type char *. "
      "Container literal: the NSArray and NSDictionary class messages array, arrayWithObject:, arrayWithObjects:, arrayWithObjects:count:, dictionary, dictionaryWithObject:forKey:, dictionaryWithObjects:forKeys:, with count:, and dictionaryWithObjectsAndKeys:. Object subscripting: objectAtIndex: and objectAtIndexedSubscript: of an NSArray variable, objectForKey: and objectForKeyedSubscript: of an NSDictionary variable, and the replacing and setting messages of their mutable classes. "
      "Each such message is reported once, wherever it stands in an expression, in Objective-C and Objective-C++ alike; other classes, selectors and argument types are not.",
      "all combinations of class, selector, argument, position and container, in Objective-C and Objective-C++, with BOOL as signed char and as bool",
      ["rules/migration/ObjCNSNumberLiteralsRule.cpp", "rules/migration/ObjCBoxedExpressionsRule.cpp", "rules/migration/ObjCContainerLiteralsRule.cpp", "rules/migration/ObjCObjectSubscriptingRule.cpp"],
      [("patterns", "VisitObjCMessageExpr of each rule")])
rprop("C33", "Leaving a @finally block is reported exactly",
      "Every return, @throw and [NSException raise], raise:format: and raise:format:arguments: (as class or instance message) that stands in the block of an @finally, at any depth and also within a try, catch or finally nested in it, is reported once, at its beginning; "
      "the same statements in the try or catch parts, or outside, and messages of the same name to other classes, are never reported.",
      "all combinations of statement, surrounding statements, place among nested try, catch and finally blocks and container, and pairs of them",
      ["rules/basic/ReturnFromFinallyBlockRule.cpp", "rules/basic/ThrowExceptionFromFinallyBlockRule.cpp"], [("search", "VisitObjCAtFinallyStmt")])
rprop("C34", "Instance variable assignments and feature envy are judged exactly",
      "An assignment (= or compound) whose target is an instance variable, or a field or array element of one, in an Objective-C method is reported at the target if and only if the method's selector is neither the variable's name without underscores, nor setName: with that name capitalized, nor begins with init; reads, indexes and the owner of the assigned variable are not reported. "
      "Feature envy: a method definition is reported once for each class that receives more messages from it than the method's own class does, where messages, property accesses (one per use) and instance variable accesses count for the class of their receiver, in blocks and nested expressions too, inherited ones for the object's own class, and receivers of unknown class and super do not count; the message names method and class.",
      "all combinations of selector, variable name, assignment form and container; all multisets of accesses to the bound over 32 kinds",
      ["rules/convention/ObjCAssignIvarOutsideAccessorsRule.cpp", "rules/design/FeatureEnvyRule.cpp", "lib/util/StdUtil.cpp"],
      [("assignments", "ContainsBinaryOperatorWithIvarAssignment"), ("messages", "MessageAnalyzer")])

rprop("C35", "Every construct is analysed to the end; every report lies where it belongs",
      "For every program that clang accepts, whatever constructs of C, C++ (to C++23), Objective-C or Objective-C++ it combines, with all rules enabled, oclint ends normally and writes its report. No violation is listed twice, and each one lies in the analysed file, at an existing position, ends no earlier than it begins, and stays within the top-level declaration it is for.",
      "every construct of the lists in every hole of every other one in every kind of container, four languages; expressions to depth 3 in several statements",
      ["lib/AbstractASTRuleBase.cpp", "include/oclint/AbstractASTVisitorRule.h", "rules/basic/ConstantIfExpressionRule.cpp", "rules/basic/ConstantConditionalOperatorRule.cpp", "rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp",
       "rules/convention/AvoidBranchingStatementAsLastInLoopRule.cpp", "rules/unused/UnusedMethodParameterRule.cpp"],
      [("traversal", "AbstractASTVisitorRule::isValidDecl, traverse"), ("locations", "AbstractASTRuleBase::addViolation"), ("every rule", "Visit and Traverse methods of all rules")])
rprop("C36", "A declaration is judged the same whatever else its file declares",
      "What is reported for a top-level declaration (rules, positions relative to it, messages) is the same whether it stands alone in the file, after or before any other independent declarations, or in a namespace, an unnamed namespace or a linkage specification: no rule carries anything from one function, method or class to the next, or skips declarations because of where they stand; and forward declarations (prototypes, class and protocol names) before and after a definition change nothing in what is reported for it. "
      "(Declarations that refer to each other, and directives and using declarations, which change what follows, are not independent.)",
      "all ordered pairs of declarations adjacent in files of 501 (de Bruijn sequences), four languages, four kinds of enclosing scope; every definition between its forward declarations; thorough: ordered triples",
      ["lib/AbstractASTRuleBase.cpp", "include/oclint/AbstractASTVisitorRule.h", "include/oclint/AbstractASTMatcherRule.h", "lib/AbstractASTMatcherRule.cpp", "rules/convention/ParameterReassignmentRule.cpp", "rules/redundant/RedundantLocalVariableRule.cpp",
       "rules/design/FeatureEnvyRule.cpp", "rules/convention/AvoidBranchingStatementAsLastInLoopRule.cpp"],
      [("traversal", "AbstractASTVisitorRule::applyC, setUp, tearDown"), ("state of rules", "members of the rule classes")])
rprop("C41", "A statement is judged the same whatever stands beside it",
      "What is reported inside a compound statement (rules, positions, messages) is the same whatever statement stands beside it in the same function: before or after it, in the other branch of an if, in the same or the enclosing loop, in another case, in the handler or @finally of its try, or in a lambda or block next to it. "
      "No rule stops looking, or carries anything over, after it has seen or reported a statement. (Reports that begin outside, such as the measures of the function or dead code after a jump, are not meant.)",
      "all ordered pairs of statements that report something (one per kind of report and of statement; thorough: all pairs of about 300 per language) in 10 frames, four languages, two containers",
      ["lib/AbstractASTRuleBase.cpp", "include/oclint/AbstractASTVisitorRule.h", "lib/AbstractASTMatcherRule.cpp", "rules/convention/ParameterReassignmentRule.cpp", "rules/redundant/RedundantLocalVariableRule.cpp", "rules/basic/DeadCodeRule.cpp", "rules/naming/ShortVariableNameRule.cpp"],
      [("traversal", "Visit and Traverse methods returning whether to go on"), ("state of rules", "members of the rule classes")])
