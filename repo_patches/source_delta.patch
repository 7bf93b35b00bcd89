From e516e8a296fc6185a5e5ae8800c70068947602d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 01/51] fix: count C++ range-based for loops in the function
 metrics

---
 .../include/oclint/metric/CyclomaticComplexityMetric.h     | 1 +
 .../include/oclint/metric/NPathComplexityMetric.h          | 2 ++
 oclint-metrics/include/oclint/metric/NcssMetric.h          | 2 ++
 oclint-metrics/include/oclint/metric/StmtDepthMetric.h     | 2 ++
 oclint-metrics/lib/CyclomaticComplexityMetric.cpp          | 6 ++++++
 oclint-metrics/lib/NPathComplexityMetric.cpp               | 7 +++++++
 oclint-metrics/lib/NcssMetric.cpp                          | 5 +++++
 oclint-metrics/lib/StmtDepthMetric.cpp                     | 5 +++++
 8 files changed, 30 insertions(+)

diff --git a/oclint-metrics/include/oclint/metric/CyclomaticComplexityMetric.h b/oclint-metrics/include/oclint/metric/CyclomaticComplexityMetric.h
index 62aa5a3..93e9054 100644
--- a/oclint-metrics/include/oclint/metric/CyclomaticComplexityMetric.h
+++ b/oclint-metrics/include/oclint/metric/CyclomaticComplexityMetric.h
@@ -24,6 +24,7 @@ public:
     bool VisitIfStmt(clang::IfStmt *stmt);
     bool VisitForStmt(clang::ForStmt *stmt);
     bool VisitObjCForCollectionStmt(clang::ObjCForCollectionStmt *stmt);
+    bool VisitCXXForRangeStmt(clang::CXXForRangeStmt *stmt);
     bool VisitWhileStmt(clang::WhileStmt *stmt);
     bool VisitDoStmt(clang::DoStmt *stmt);
     bool VisitCaseStmt(clang::CaseStmt *stmt);
diff --git a/oclint-metrics/include/oclint/metric/NPathComplexityMetric.h b/oclint-metrics/include/oclint/metric/NPathComplexityMetric.h
index 4d57bff..465dd69 100644
--- a/oclint-metrics/include/oclint/metric/NPathComplexityMetric.h
+++ b/oclint-metrics/include/oclint/metric/NPathComplexityMetric.h
@@ -30,6 +30,7 @@ public:
             DISPATH(clang::SwitchStmt);
             DISPATH(clang::SwitchCase);
             DISPATH(clang::ObjCForCollectionStmt);
+            DISPATH(clang::CXXForRangeStmt);
         }
         return 1;
     }
@@ -52,6 +53,7 @@ public:
     int nPath(clang::DoStmt *stmt);
     int nPath(clang::ForStmt *stmt);
     int nPath(clang::ObjCForCollectionStmt *stmt);
+    int nPath(clang::CXXForRangeStmt *stmt);
     int nPath(clang::SwitchStmt *stmt);
     int nPath(clang::SwitchCase *stmt);
     int nPath(clang::ConditionalOperator *expr);
diff --git a/oclint-metrics/include/oclint/metric/NcssMetric.h b/oclint-metrics/include/oclint/metric/NcssMetric.h
index 5dd80ac..7dccb1f 100644
--- a/oclint-metrics/include/oclint/metric/NcssMetric.h
+++ b/oclint-metrics/include/oclint/metric/NcssMetric.h
@@ -23,6 +23,7 @@ public:
             DISPATH(clang::DoStmt);
             DISPATH(clang::ForStmt);
             DISPATH(clang::ObjCForCollectionStmt);
+            DISPATH(clang::CXXForRangeStmt);
             DISPATH(clang::SwitchStmt);
             DISPATH(clang::SwitchCase);
             DISPATH(clang::CXXTryStmt);
@@ -44,6 +45,7 @@ public:
     int ncss(clang::DoStmt *stmt);
     int ncss(clang::ForStmt *stmt);
     int ncss(clang::ObjCForCollectionStmt *stmt);
+    int ncss(clang::CXXForRangeStmt *stmt);
     int ncss(clang::SwitchStmt *stmt);
     int ncss(clang::SwitchCase *stmt);
     int ncss(clang::CXXTryStmt *stmt);
diff --git a/oclint-metrics/include/oclint/metric/StmtDepthMetric.h b/oclint-metrics/include/oclint/metric/StmtDepthMetric.h
index 9a2efcc..0269c67 100644
--- a/oclint-metrics/include/oclint/metric/StmtDepthMetric.h
+++ b/oclint-metrics/include/oclint/metric/StmtDepthMetric.h
@@ -22,6 +22,7 @@ public:
             DISPATH(clang::DoStmt);
             DISPATH(clang::ForStmt);
             DISPATH(clang::ObjCForCollectionStmt);
+            DISPATH(clang::CXXForRangeStmt);
             DISPATH(clang::SwitchStmt);
             DISPATH(clang::SwitchCase);
             DISPATH(clang::CXXTryStmt);
@@ -41,6 +42,7 @@ public:
     int depth(clang::DoStmt *stmt);
     int depth(clang::ForStmt *stmt);
     int depth(clang::ObjCForCollectionStmt *stmt);
+    int depth(clang::CXXForRangeStmt *stmt);
     int depth(clang::SwitchStmt *stmt);
     int depth(clang::SwitchCase *stmt);
     int depth(clang::CXXTryStmt *stmt);
diff --git a/oclint-metrics/lib/CyclomaticComplexityMetric.cpp b/oclint-metrics/lib/CyclomaticComplexityMetric.cpp
index 5638fae..2a3e570 100644
--- a/oclint-metrics/lib/CyclomaticComplexityMetric.cpp
+++ b/oclint-metrics/lib/CyclomaticComplexityMetric.cpp
@@ -27,6 +27,12 @@ bool CyclomaticComplexityMetric::VisitObjCForCollectionStmt(clang::ObjCForCollec
     return true;
 }
 
+bool CyclomaticComplexityMetric::VisitCXXForRangeStmt(clang::CXXForRangeStmt *)
+{
+    _count++;
+    return true;
+}
+
 bool CyclomaticComplexityMetric::VisitWhileStmt(clang::WhileStmt *)
 {
     _count++;
diff --git a/oclint-metrics/lib/NPathComplexityMetric.cpp b/oclint-metrics/lib/NPathComplexityMetric.cpp
index 15bb38e..5b938f9 100644
--- a/oclint-metrics/lib/NPathComplexityMetric.cpp
+++ b/oclint-metrics/lib/NPathComplexityMetric.cpp
@@ -76,6 +76,13 @@ int NPathComplexityMetric::nPath(clang::ObjCForCollectionStmt *stmt)
     return nPath(stmt->getBody()) + 2;
 }
 
+int NPathComplexityMetric::nPath(clang::CXXForRangeStmt *stmt)
+{
+    // same reasoning as for the foreach loop of Objective-C
+
+    return nPath(stmt->getBody()) + 2;
+}
+
 int NPathComplexityMetric::nPath(clang::SwitchStmt *stmt)
 {
     int internalNPath = 0, nPathSwitchStmt = nPath(stmt->getCond());
diff --git a/oclint-metrics/lib/NcssMetric.cpp b/oclint-metrics/lib/NcssMetric.cpp
index 07a7fcf..0f69935 100644
--- a/oclint-metrics/lib/NcssMetric.cpp
+++ b/oclint-metrics/lib/NcssMetric.cpp
@@ -49,6 +49,11 @@ int NcssMetric::ncss(clang::ObjCForCollectionStmt *stmt)
     return 1 + ncss(stmt->getBody());
 }
 
+int NcssMetric::ncss(clang::CXXForRangeStmt *stmt)
+{
+    return 1 + ncss(stmt->getBody());
+}
+
 int NcssMetric::ncss(clang::SwitchStmt *stmt)
 {
     return 1 + ncss(stmt->getBody());
diff --git a/oclint-metrics/lib/StmtDepthMetric.cpp b/oclint-metrics/lib/StmtDepthMetric.cpp
index e41b431..2dfe3eb 100644
--- a/oclint-metrics/lib/StmtDepthMetric.cpp
+++ b/oclint-metrics/lib/StmtDepthMetric.cpp
@@ -49,6 +49,11 @@ int StmtDepthMetric::depth(clang::ObjCForCollectionStmt *stmt)
     return depth(stmt->getBody());
 }
 
+int StmtDepthMetric::depth(clang::CXXForRangeStmt *stmt)
+{
+    return depth(stmt->getBody());
+}
+
 int StmtDepthMetric::depth(clang::SwitchStmt *stmt)
 {
     return depth(stmt->getBody());
-- 
2.43.0


From c94e55f77f0b10a465589ab3893494ef7c109914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 02/51] fix: saturate the NPath complexity instead of
 overflowing

---
 oclint-metrics/lib/NPathComplexityMetric.cpp | 33 +++++++++++++-------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/oclint-metrics/lib/NPathComplexityMetric.cpp b/oclint-metrics/lib/NPathComplexityMetric.cpp
index 5b938f9..2330f24 100644
--- a/oclint-metrics/lib/NPathComplexityMetric.cpp
+++ b/oclint-metrics/lib/NPathComplexityMetric.cpp
@@ -1,14 +1,23 @@
 #include "oclint/metric/NPathComplexityMetric.h"
 
+#include <limits>
+
 using namespace oclint;
 
+// the number of paths grows exponentially, so an overflow stays at the maximum instead of wrapping
+static int saturate(long long npath)
+{
+    return npath > std::numeric_limits<int>::max() ?
+        std::numeric_limits<int>::max() : static_cast<int>(npath);
+}
+
 int NPathComplexityMetric::nPath(clang::CompoundStmt *stmt)
 {
     int npath = 1;
     for (clang::CompoundStmt::body_iterator body = stmt->body_begin(), bodyEnd = stmt->body_end();
         body != bodyEnd; body++)
     {
-        npath *= nPath(*body);
+        npath = saturate(static_cast<long long>(npath) * nPath(*body));
     }
     return npath;
 }
@@ -21,17 +30,17 @@ int NPathComplexityMetric::nPath(clang::IfStmt *stmt)
     {
         nPathElseStmt = nPath(elseStmt);
     }
-    return nPath(stmt->getCond()) + nPath(stmt->getThen()) + nPathElseStmt;
+    return saturate(0LL + nPath(stmt->getCond()) + nPath(stmt->getThen()) + nPathElseStmt);
 }
 
 int NPathComplexityMetric::nPath(clang::WhileStmt *stmt)
 {
-    return nPath(stmt->getCond()) + nPath(stmt->getBody()) + 1;
+    return saturate(1LL + nPath(stmt->getCond()) + nPath(stmt->getBody()));
 }
 
 int NPathComplexityMetric::nPath(clang::DoStmt *stmt)
 {
-    return nPath(stmt->getCond()) + nPath(stmt->getBody()) + 1;
+    return saturate(1LL + nPath(stmt->getCond()) + nPath(stmt->getBody()));
 }
 
 int NPathComplexityMetric::nPath(clang::ForStmt *stmt)
@@ -59,8 +68,8 @@ int NPathComplexityMetric::nPath(clang::ForStmt *stmt)
     // As a conclusion, in my opinion, same logic in different formats should not reduce
     // the complexity. However, here, I will follow Nejmeh's NPath
 
-    return nPath(stmt->getInit()) + nPath(stmt->getCond()) + nPath(stmt->getInc())
-        + nPath(stmt->getBody()) + 1;
+    return saturate(1LL + nPath(stmt->getInit()) + nPath(stmt->getCond()) + nPath(stmt->getInc())
+        + nPath(stmt->getBody()));
 }
 
 int NPathComplexityMetric::nPath(clang::ObjCForCollectionStmt *stmt)
@@ -73,14 +82,14 @@ int NPathComplexityMetric::nPath(clang::ObjCForCollectionStmt *stmt)
     // So, convert to same logic in for statement, we assume the NPath complexity as below
     // NP(Foreach) := NP((for-range)) + 2
 
-    return nPath(stmt->getBody()) + 2;
+    return saturate(2LL + nPath(stmt->getBody()));
 }
 
 int NPathComplexityMetric::nPath(clang::CXXForRangeStmt *stmt)
 {
     // same reasoning as for the foreach loop of Objective-C
 
-    return nPath(stmt->getBody()) + 2;
+    return saturate(2LL + nPath(stmt->getBody()));
 }
 
 int NPathComplexityMetric::nPath(clang::SwitchStmt *stmt)
@@ -89,7 +98,7 @@ int NPathComplexityMetric::nPath(clang::SwitchStmt *stmt)
     clang::Stmt *body = stmt->getBody();
     if(!clang::isa<clang::CompoundStmt>(body))
     {
-        return nPathSwitchStmt + nPath(body);
+        return saturate(0LL + nPathSwitchStmt + nPath(body));
     }
     clang::CompoundStmt *compound = clang::dyn_cast<clang::CompoundStmt>(body);
     for (clang::CompoundStmt::body_iterator bodyStmt = compound->body_begin(),
@@ -97,15 +106,15 @@ int NPathComplexityMetric::nPath(clang::SwitchStmt *stmt)
     {
         if (clang::isa<clang::SwitchCase>(*bodyStmt))
         {
-            nPathSwitchStmt += internalNPath;
+            nPathSwitchStmt = saturate(0LL + nPathSwitchStmt + internalNPath);
             internalNPath = nPath(*bodyStmt);
         }
         else
         {
-            internalNPath *= nPath(*bodyStmt);
+            internalNPath = saturate(static_cast<long long>(internalNPath) * nPath(*bodyStmt));
         }
     }
-    return nPathSwitchStmt + internalNPath;
+    return saturate(0LL + nPathSwitchStmt + internalNPath);
 }
 
 int NPathComplexityMetric::nPath(clang::SwitchCase *expr)
-- 
2.43.0


From 6db893c8e4686b33ac3aee17d6e7bd26b88d59a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 03/51] fix: report a function's size violations at its
 definition only, not at its prototypes

---
 oclint-rules/rules/size/LongMethodRule.cpp        | 5 ++++-
 oclint-rules/rules/size/NPathComplexityRule.cpp   | 5 ++++-
 oclint-rules/rules/size/NcssMethodCountRule.cpp   | 5 ++++-
 oclint-rules/rules/size/TooManyParametersRule.cpp | 5 ++++-
 4 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/oclint-rules/rules/size/LongMethodRule.cpp b/oclint-rules/rules/size/LongMethodRule.cpp
index a645e00..6502056 100644
--- a/oclint-rules/rules/size/LongMethodRule.cpp
+++ b/oclint-rules/rules/size/LongMethodRule.cpp
@@ -87,7 +87,10 @@ public:
 
     bool VisitFunctionDecl(FunctionDecl *decl)
     {
-        applyDecl(decl);
+        if (decl->doesThisDeclarationHaveABody())
+        {
+            applyDecl(decl);
+        }
         return true;
     }
 };
diff --git a/oclint-rules/rules/size/NPathComplexityRule.cpp b/oclint-rules/rules/size/NPathComplexityRule.cpp
index 8bf664a..4eda0a3 100644
--- a/oclint-rules/rules/size/NPathComplexityRule.cpp
+++ b/oclint-rules/rules/size/NPathComplexityRule.cpp
@@ -126,7 +126,10 @@ Brian A. Nejmeh  (1988). `"NPATH: a measure of execution path complexity and its
 
     bool VisitFunctionDecl(FunctionDecl *decl)
     {
-        applyDecl(decl);
+        if (decl->doesThisDeclarationHaveABody())
+        {
+            applyDecl(decl);
+        }
         return true;
     }
 };
diff --git a/oclint-rules/rules/size/NcssMethodCountRule.cpp b/oclint-rules/rules/size/NcssMethodCountRule.cpp
index b84e450..99b1d2c 100644
--- a/oclint-rules/rules/size/NcssMethodCountRule.cpp
+++ b/oclint-rules/rules/size/NcssMethodCountRule.cpp
@@ -98,7 +98,10 @@ public:
 
     bool VisitFunctionDecl(FunctionDecl *decl)
     {
-        applyDecl(decl);
+        if (decl->doesThisDeclarationHaveABody())
+        {
+            applyDecl(decl);
+        }
         return true;
     }
 };
diff --git a/oclint-rules/rules/size/TooManyParametersRule.cpp b/oclint-rules/rules/size/TooManyParametersRule.cpp
index 9edc21b..baecef1 100644
--- a/oclint-rules/rules/size/TooManyParametersRule.cpp
+++ b/oclint-rules/rules/size/TooManyParametersRule.cpp
@@ -101,7 +101,10 @@ Fowler, Martin (1999). *Refactoring: Improving the design of existing code.* Add
 
     bool VisitFunctionDecl(FunctionDecl *decl)
     {
-        applyDecl(decl);
+        if (decl->doesThisDeclarationHaveABody())
+        {
+            applyDecl(decl);
+        }
 
         return true;
     }
-- 
2.43.0


From 6f8f96073c14998c5e117b94798289f576aae89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 04/51] fix: write the calendar month, not the month index, in
 the XML report's datetime

---
 oclint-reporters/reporters/XMLReporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oclint-reporters/reporters/XMLReporter.cpp b/oclint-reporters/reporters/XMLReporter.cpp
index 4e44cba..1bf7364 100644
--- a/oclint-reporters/reporters/XMLReporter.cpp
+++ b/oclint-reporters/reporters/XMLReporter.cpp
@@ -54,7 +54,7 @@ public:
             28,
             "%04i-%02i-%02iT%02i:%02i:%02iZ",
             tmNow->tm_year + 1900,
-            tmNow->tm_mon,
+            tmNow->tm_mon + 1,
             tmNow->tm_mday,
             tmNow->tm_hour,
             tmNow->tm_min,
-- 
2.43.0


From 155d6167a1cb367a0f745fc32937bfa35476f4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 05/51] fix: escape paths, rule names and messages in the XML
 report

---
 oclint-reporters/reporters/XMLReporter.cpp | 48 ++++++++++++++++++++--
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/oclint-reporters/reporters/XMLReporter.cpp b/oclint-reporters/reporters/XMLReporter.cpp
index 1bf7364..a3e6fd4 100644
--- a/oclint-reporters/reporters/XMLReporter.cpp
+++ b/oclint-reporters/reporters/XMLReporter.cpp
@@ -70,7 +70,7 @@ public:
     void writeViolation(std::ostream &out, const Violation &violation)
     {
         out << "<violation";
-        writeViolationAttribute(out, "path", violation.path);
+        writeViolationAttribute(out, "path", xmlEscape(violation.path));
         writeViolationAttribute(out, "startline", violation.startLine);
         writeViolationAttribute(out, "startcolumn", violation.startColumn);
         if (violation.endLine != 0 && violation.endColumn != 0)
@@ -81,14 +81,54 @@ public:
         const RuleBase *rule = violation.rule;
         if (rule)
         {
-            writeViolationAttribute(out, "rule", rule->name());
-            writeViolationAttribute(out, "category", rule->category());
+            writeViolationAttribute(out, "rule", xmlEscape(rule->name()));
+            writeViolationAttribute(out, "category", xmlEscape(rule->category()));
             writeViolationAttribute(out, "priority", rule->priority());
         }
-        writeViolationAttribute(out, "message", violation.message);
+        writeViolationAttribute(out, "message", xmlEscape(violation.message));
         out << "></violation>";
     }
 
+    std::string xmlEscape(const std::string &data)
+    {
+        std::string output;
+        output.reserve(data.size());
+        for (const auto &c : data)
+        {
+            switch (c)
+            {
+                case '<':
+                    output += "&lt;";
+                    break;
+                case '>':
+                    output += "&gt;";
+                    break;
+                case '"':
+                    output += "&quot;";
+                    break;
+                case '&':
+                    output += "&amp;";
+                    break;
+                case '\'':
+                    output += "&apos;";
+                    break;
+                case '\t':
+                    output += "&#9;";
+                    break;
+                case '\n':
+                    output += "&#10;";
+                    break;
+                case '\r':
+                    output += "&#13;";
+                    break;
+                default:
+                    output += c;
+                    break;
+            }
+        }
+        return output;
+    }
+
     template <typename T>
     void writeViolationAttribute(std::ostream &out, std::string key, T value)
     {
-- 
2.43.0


From 8a470b01322d8e025381ee3348a98fd6e8892268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 06/51] fix: escape paths, rule names and line breaks in the
 PMD report

---
 oclint-reporters/reporters/PMDReporter.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/oclint-reporters/reporters/PMDReporter.cpp b/oclint-reporters/reporters/PMDReporter.cpp
index 2ba9cd5..fc005b7 100644
--- a/oclint-reporters/reporters/PMDReporter.cpp
+++ b/oclint-reporters/reporters/PMDReporter.cpp
@@ -29,8 +29,8 @@ private:
         void write(std::ostream &out) const
         {
             out << "priority=\"" << priority << "\" ";
-            out << "rule=\"" << name << "\" ";
-            out << "ruleset=\"" << category << "\" ";
+            out << "rule=\"" << xmlEscape(name) << "\" ";
+            out << "ruleset=\"" << xmlEscape(category) << "\" ";
         }
     };
 
@@ -81,7 +81,7 @@ private:
                         const Violation &violation,
                         const PMDRuleDescription *ruleDescription)
     {
-        out << "<file name=\"" << violation.path << "\">" << std::endl;
+        out << "<file name=\"" << xmlEscape(violation.path) << "\">" << std::endl;
         out << "<violation ";
         out << "begincolumn=\"" << violation.startColumn << "\" ";
         out << "endcolumn=\"" << violation.endColumn << "\" ";
@@ -97,7 +97,7 @@ private:
         out << "</file>" << std::endl;
     }
 
-    std::string xmlEscape(const std::string &data)
+    static std::string xmlEscape(const std::string &data)
     {
         std::string output;
         output.reserve(data.size());
@@ -120,6 +120,15 @@ private:
                 case '\'':
                     output += "&apos;";
                     break;
+                case '\t':
+                    output += "&#9;";
+                    break;
+                case '\n':
+                    output += "&#10;";
+                    break;
+                case '\r':
+                    output += "&#13;";
+                    break;
                 default:
                     output += c;
                     break;
-- 
2.43.0


From 0c9fec8360330562ee096e44d63a37b602b701d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:02 +0000
Subject: [PATCH 07/51] fix: escape paths, rule names and messages in the HTML
 report

---
 oclint-reporters/reporters/HTMLReporter.cpp | 44 +++++++++++++++++----
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/oclint-reporters/reporters/HTMLReporter.cpp b/oclint-reporters/reporters/HTMLReporter.cpp
index df67afa..a070c05 100644
--- a/oclint-reporters/reporters/HTMLReporter.cpp
+++ b/oclint-reporters/reporters/HTMLReporter.cpp
@@ -66,25 +66,53 @@ public:
             << "OCLint v" << version << "</a>.</p>";
     }
 
+    std::string htmlEscape(const std::string &data)
+    {
+        std::string output;
+        output.reserve(data.size());
+        for (const auto &c : data)
+        {
+            switch (c)
+            {
+                case '<':
+                    output += "&lt;";
+                    break;
+                case '>':
+                    output += "&gt;";
+                    break;
+                case '"':
+                    output += "&quot;";
+                    break;
+                case '&':
+                    output += "&amp;";
+                    break;
+                default:
+                    output += c;
+                    break;
+            }
+        }
+        return output;
+    }
+
     void writeViolation(std::ostream &out, const Violation &violation)
     {
-        out << "<tr><td>" << violation.path << "</td><td>" << violation.startLine
+        out << "<tr><td>" << htmlEscape(violation.path) << "</td><td>" << violation.startLine
             << ":" << violation.startColumn << "</td>";
         const RuleBase *rule = violation.rule;
-        out << "<td>" << rule->name() << "</td>"
-            << "<td>" << rule->category() << "</td>"
+        out << "<td>" << htmlEscape(rule->name()) << "</td>"
+            << "<td>" << htmlEscape(rule->category()) << "</td>"
             << "<td class='priority" << rule->priority() << "'>"
             << rule->priority() << "</td>"
-            << "<td>" << violation.message << "</td></tr>";
+            << "<td>" << htmlEscape(violation.message) << "</td></tr>";
     }
 
     void writeCompilerErrorOrWarning(std::ostream &out,
         const Violation &violation, std::string level)
     {
-        out << "<tr><td>" << violation.path << "</td><td>" << violation.startLine
+        out << "<tr><td>" << htmlEscape(violation.path) << "</td><td>" << violation.startLine
             << ":" << violation.startColumn << "</td>";
         out << "<td>compiler " << level << "</td><td></td><td class='cmplr-" << level << "'>"
-            << level << "</td><td>" << violation.message << "</td></tr>";
+            << level << "</td><td>" << htmlEscape(violation.message) << "</td></tr>";
     }
 
     void writeCompilerDiagnostics(std::ostream &out, std::vector<Violation> violations,
@@ -100,10 +128,10 @@ public:
     {
         for (const auto& violation : violations)
         {
-            out << "<tr><td>" << violation.path << "</td><td>" << violation.startLine
+            out << "<tr><td>" << htmlEscape(violation.path) << "</td><td>" << violation.startLine
                 << ":" << violation.startColumn << "</td>";
             out << "<td>clang static analyzer</td><td></td><td class='checker-bug'>"
-                << "checker bug</td><td>" << violation.message << "</td></tr>";
+                << "checker bug</td><td>" << htmlEscape(violation.message) << "</td></tr>";
         }
     }
 
-- 
2.43.0


From a45750d38720795310aebb5b48292b61e2f45397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:45 +0000
Subject: [PATCH 08/51] fix: escape strings in the JSON report

---
 oclint-reporters/reporters/JSONReporter.cpp | 28 ++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/oclint-reporters/reporters/JSONReporter.cpp b/oclint-reporters/reporters/JSONReporter.cpp
index ec4ede3..c802f50 100644
--- a/oclint-reporters/reporters/JSONReporter.cpp
+++ b/oclint-reporters/reporters/JSONReporter.cpp
@@ -1,3 +1,4 @@
+#include <cstdio>
 #include <ctime>
 
 #include "oclint/Constants.h"
@@ -72,10 +73,35 @@ public:
         }
     }
 
+    std::string jsonEscape(const std::string &data)
+    {
+        std::string output;
+        output.reserve(data.size());
+        for (const auto &c : data)
+        {
+            if (c == '"' || c == '\\')
+            {
+                output += '\\';
+                output += c;
+            }
+            else if (static_cast<unsigned char>(c) < 0x20)
+            {
+                char escaped[7];
+                snprintf(escaped, sizeof(escaped), "\\u%04x", c);
+                output += escaped;
+            }
+            else
+            {
+                output += c;
+            }
+        }
+        return output;
+    }
+
     void writeKeyValue(std::ostream &out, std::string key, std::string value, bool last = false)
     {
         writeKey(out, key);
-        out << "\"" << value << "\"";
+        out << "\"" << jsonEscape(value) << "\"";
         writeComma(out, last);
     }
 
-- 
2.43.0


From d230c2703f077babba4fa9af8112e18ee8086a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:10 +0000
Subject: [PATCH 09/51] fix: keep the configuration text alive as long as the
 values that point into it

---
 oclint-driver/include/oclint/ConfigFile.h | 3 +++
 oclint-driver/lib/ConfigFile.cpp          | 7 ++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/oclint-driver/include/oclint/ConfigFile.h b/oclint-driver/include/oclint/ConfigFile.h
index 101a12a..b8cc8c0 100644
--- a/oclint-driver/include/oclint/ConfigFile.h
+++ b/oclint-driver/include/oclint/ConfigFile.h
@@ -1,6 +1,7 @@
 #ifndef OCLINT_CONFIGFILE_H
 #define OCLINT_CONFIGFILE_H
 
+#include <memory>
 #include <vector>
 
 #include <llvm/Support/YAMLTraits.h>
@@ -30,6 +31,8 @@ class ConfigFile
 {
 private:
     std::string _path;
+    std::unique_ptr<llvm::MemoryBuffer> _buffer; // keeps the text the StringRefs below point to
+    std::unique_ptr<llvm::yaml::Input> _input;   // keeps the unescaped scalars
     std::vector<llvm::StringRef> _rules;
     std::vector<llvm::StringRef> _disableRules;
     std::vector<llvm::StringRef> _rulePaths;
diff --git a/oclint-driver/lib/ConfigFile.cpp b/oclint-driver/lib/ConfigFile.cpp
index 1e002ec..d32c0ef 100644
--- a/oclint-driver/lib/ConfigFile.cpp
+++ b/oclint-driver/lib/ConfigFile.cpp
@@ -86,7 +86,8 @@ oclint::option::ConfigFile::ConfigFile(const std::string &path)
         llvm::MemoryBuffer::getFile(path);
     if (buffer)
     {
-        const llvm::StringRef &content = buffer.get()->getBuffer();
+        _buffer = std::move(buffer.get());
+        const llvm::StringRef content = _buffer->getBuffer();
 
         const std::string whitespace(" \t\f\v\n\r");
         if (content.str().find_last_not_of(whitespace) == std::string::npos) {
@@ -97,8 +98,8 @@ oclint::option::ConfigFile::ConfigFile(const std::string &path)
             return;
         }
 
-        llvm::yaml::Input yin(content);
-        yin >> *this;
+        _input = std::make_unique<llvm::yaml::Input>(content);
+        *_input >> *this;
     }
     else
     {
-- 
2.43.0


From 1266d733b5525f3928efce8012e12dace05e807e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:10 +0000
Subject: [PATCH 10/51] fix: fail when the report cannot be written completely

---
 oclint-driver/main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oclint-driver/main.cpp b/oclint-driver/main.cpp
index 0810174..afd9028 100644
--- a/oclint-driver/main.cpp
+++ b/oclint-driver/main.cpp
@@ -65,11 +65,16 @@ ostream* outStream()
 
 void disposeOutStream(ostream* out)
 {
+    out->flush();
     if (out && oclint::option::hasOutputPath())
     {
         ofstream *fout = (ofstream *)out;
         fout->close();
     }
+    if (out->fail())
+    {
+        throw oclint::GenericException("cannot write report");
+    }
 }
 
 void listRules()
-- 
2.43.0


From 119cb0e8949e3e7248c79a3f9d53164bf9a04432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:25 +0000
Subject: [PATCH 11/51] fix: remember working paths longer than 300 characters

---
 oclint-driver/lib/Options.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oclint-driver/lib/Options.cpp b/oclint-driver/lib/Options.cpp
index 8622136..9142f49 100644
--- a/oclint-driver/lib/Options.cpp
+++ b/oclint-driver/lib/Options.cpp
@@ -1,5 +1,6 @@
 #include "oclint/Options.h"
 
+#include <climits>
 #include <unistd.h>
 
 #include <llvm/Option/OptTable.h>
@@ -180,8 +181,8 @@ static void processConfigFiles()
 
 static void preserveWorkingPath()
 {
-    char path[300];
-    if (getcwd(path, 300))
+    char path[PATH_MAX];
+    if (getcwd(path, PATH_MAX))
     {
         absoluteWorkingPath = std::string(path);
     }
-- 
2.43.0


From 00c909958f0e48086cdbe8de371f923449baac6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:55 +0000
Subject: [PATCH 12/51] fix: keep the last argument of compile commands that
 already ask for -fsyntax-only when running the static analyzer

---
 oclint-driver/lib/Driver.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oclint-driver/lib/Driver.cpp b/oclint-driver/lib/Driver.cpp
index d05445c..f7e1b0e 100644
--- a/oclint-driver/lib/Driver.cpp
+++ b/oclint-driver/lib/Driver.cpp
@@ -190,11 +190,12 @@ static clang::CompilerInvocation *newCompilerInvocation(
         argv.push_back(commandLine[0].c_str());
         argv.push_back("--analyze");
         start = 1;
-        end -= 1;
     }
     for (int cmdIndex = start; cmdIndex != end; cmdIndex++)
     {
-        if (commandLine[cmdIndex] != "-gmodules")
+        bool skip = commandLine[cmdIndex] == "-gmodules" ||
+            (runClangChecker && commandLine[cmdIndex] == "-fsyntax-only");
+        if (!skip)
         {
             argv.push_back(commandLine[cmdIndex].c_str());
         }
-- 
2.43.0


From 156882efcb0348c38ffb28b505403cb56c9b7824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:12 +0000
Subject: [PATCH 13/51] fix: let annotations suppress what lies in the type
 part of a declaration, such as its parameters

---
 oclint-rules/lib/helper/SuppressHelper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/lib/helper/SuppressHelper.cpp b/oclint-rules/lib/helper/SuppressHelper.cpp
index 62deeb1..1eb3adb 100644
--- a/oclint-rules/lib/helper/SuppressHelper.cpp
+++ b/oclint-rules/lib/helper/SuppressHelper.cpp
@@ -47,7 +47,8 @@ bool markedParentsAsSuppress(const T &node, clang::ASTContext &context, oclint::
         return markedParentsAsSuppress(*aStmt, context, rule);
     }
 
-    return false;
+    // neither of them, e.g. a parameter's parent is the type of its function
+    return markedParentsAsSuppress(*dynTypedNode, context, rule);
 }
 
 bool shouldSuppress(const clang::Decl *decl, clang::ASTContext &context, oclint::RuleBase *rule)
-- 
2.43.0


From da5e3eaf628e6f95d21d558b5415d034cc5a7469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:49 +0000
Subject: [PATCH 14/51] fix: let annotations suppress long lines when the
 declaration starts with a macro

---
 oclint-rules/lib/helper/SuppressHelper.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/oclint-rules/lib/helper/SuppressHelper.cpp b/oclint-rules/lib/helper/SuppressHelper.cpp
index 1eb3adb..4c22dc8 100644
--- a/oclint-rules/lib/helper/SuppressHelper.cpp
+++ b/oclint-rules/lib/helper/SuppressHelper.cpp
@@ -82,8 +82,7 @@ public:
             declEnd = decl->decls_end(); declIt != declEnd; ++declIt)
         {
             clang::SourceLocation startLocation = (*declIt)->getBeginLoc();
-            if (startLocation.isValid() &&
-                _sourceManager->getMainFileID() == _sourceManager->getFileID(startLocation))
+            if (startLocation.isValid() && _sourceManager->isInMainFile(startLocation))
             {
                 (void) /* explicitly ignore the return of this function */
                     clang::RecursiveASTVisitor<DeclAnnotationRangeCollector>::TraverseDecl(*declIt);
-- 
2.43.0


From 611902b830739e72afafce6ce400e04b37faf06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 15/51] fix: look up suppressing comments and annotations per
 file, translation unit and rule

---
 .../include/oclint/helper/SuppressHelper.h    |   1 +
 oclint-rules/lib/AbstractASTRuleBase.cpp      |   2 +-
 oclint-rules/lib/helper/SuppressHelper.cpp    | 116 ++++++++----------
 3 files changed, 56 insertions(+), 63 deletions(-)

diff --git a/oclint-rules/include/oclint/helper/SuppressHelper.h b/oclint-rules/include/oclint/helper/SuppressHelper.h
index 192a131..2136eda 100644
--- a/oclint-rules/include/oclint/helper/SuppressHelper.h
+++ b/oclint-rules/include/oclint/helper/SuppressHelper.h
@@ -7,6 +7,7 @@
 
 bool shouldSuppress(const clang::Decl *decl, clang::ASTContext &context, oclint::RuleBase *rule);
 bool shouldSuppress(const clang::Stmt *stmt, clang::ASTContext &context, oclint::RuleBase *rule);
+bool shouldSuppress(clang::SourceLocation beginLocation, clang::ASTContext &context);
 bool shouldSuppress(int beginLine, clang::ASTContext& context,
                     oclint::RuleBase* rule = nullptr);
 
diff --git a/oclint-rules/lib/AbstractASTRuleBase.cpp b/oclint-rules/lib/AbstractASTRuleBase.cpp
index 00fa4f9..94ed6b0 100644
--- a/oclint-rules/lib/AbstractASTRuleBase.cpp
+++ b/oclint-rules/lib/AbstractASTRuleBase.cpp
@@ -15,7 +15,7 @@ void AbstractASTRuleBase::addViolation(clang::SourceLocation startLocation,
     clang::SourceLocation startFileLoc = sourceManager->getFileLoc(startLocation);
     clang::SourceLocation endFileLoc = sourceManager->getFileLoc(endLocation);
     int beginLine = sourceManager->getPresumedLineNumber(startFileLoc);
-    if (!shouldSuppress(beginLine, *_carrier->getASTContext()))
+    if (!shouldSuppress(startFileLoc, *_carrier->getASTContext()))
     {
         llvm::StringRef filename = sourceManager->getFilename(startFileLoc);
         _carrier->addViolation(filename.str(),
diff --git a/oclint-rules/lib/helper/SuppressHelper.cpp b/oclint-rules/lib/helper/SuppressHelper.cpp
index 4c22dc8..71d8104 100644
--- a/oclint-rules/lib/helper/SuppressHelper.cpp
+++ b/oclint-rules/lib/helper/SuppressHelper.cpp
@@ -1,5 +1,6 @@
 #include "oclint/helper/SuppressHelper.h"
 
+#include <map>
 #include <regex>
 #include <set>
 #include <unordered_map>
@@ -9,8 +10,6 @@
 #include <clang/AST/RecursiveASTVisitor.h>
 #include <clang/Basic/SourceManager.h>
 
-#include "oclint/RuleCarrier.h"
-
 #include "oclint/helper/AttributeHelper.h"
 
 bool markedAsSuppress(const clang::Decl *decl, oclint::RuleBase *rule)
@@ -107,85 +106,70 @@ public:
     }
 };
 
-std::string getMainFilePath(clang::ASTContext &context)
+bool commentMarkedAsSuppress(llvm::StringRef commentLine)
 {
-    oclint::RuleCarrier ruleCarrier(&context, nullptr);
-    return ruleCarrier.getMainFilePath();
+// g++ 4.8 on Ubuntu 14.04 LTS doesn't support regex yet,
+// so we will ship this once Ubuntu 16.04 releases
+#if defined(__APPLE__) || defined(__MACH__)
+    std::regex oclintRegex = std::regex("//! *OCLINT", std::regex::basic | std::regex::icase);
+    return std::regex_search(commentLine.str(), oclintRegex);
+#else
+    return llvm::StringRef::npos != commentLine.find("//!OCLINT");
+#endif
 }
 
-typedef std::unordered_map<std::string, std::set<int>> LineMap;
-static LineMap singleLineMapping;
-
-
-
-bool lineBasedShouldSuppress(int beginLine, clang::ASTContext &context)
+bool lineBasedShouldSuppress(clang::FileID fileID, int beginLine, clang::ASTContext &context)
 {
-    std::string filePath = getMainFilePath(context);
-    auto commentLinesIt = singleLineMapping.find(filePath);
-    std::set<int> commentLines;
-    if (commentLinesIt == singleLineMapping.end())
+    const auto commentMap = context.Comments.getCommentsInFile(fileID);
+    if (commentMap == nullptr)
+    {
+        return false;
+    }
+
+    clang::SourceManager &sourceManager = context.getSourceManager();
+    for (const auto &comment : *commentMap)
     {
-        auto mainFileID = context.getSourceManager().getMainFileID();
-        auto commentList = context.Comments;
-        const auto commentMap = commentList.getCommentsInFile(mainFileID);
-        if (commentMap != nullptr)
+        // adjacent comments are merged into one, so a comment may have markers on several lines
+        int line = sourceManager.getPresumedLineNumber(comment.second->getBeginLoc());
+        llvm::StringRef remaining = comment.second->getRawText(sourceManager);
+        for (; !remaining.empty() && line <= beginLine; line++)
         {
-            for (auto c : *commentMap)
+            std::pair<llvm::StringRef, llvm::StringRef> splitPair = remaining.split('\n');
+            if (line == beginLine && commentMarkedAsSuppress(splitPair.first))
             {
-                auto comment = c.second;
-                if (comment == nullptr)
-                {
-                    continue;
-                }
-// g++ 4.8 on Ubuntu 14.04 LTS doesn't support regex yet,
-// so we will ship this once Ubuntu 16.04 releases
-#if defined(__APPLE__) || defined(__MACH__)
-                std::string commentString = comment->getRawText(context.getSourceManager()).str();
-                std::regex oclintRegex =
-                    std::regex("//! *OCLINT", std::regex::basic | std::regex::icase);
-                if (std::regex_search(commentString, oclintRegex))
-#else
-                if (std::string::npos !=
-                    comment->getRawText(context.getSourceManager()).find("//!OCLINT"))
-#endif
-                {
-                    clang::SourceLocation startLocation = comment->getBeginLoc();
-                    int startLocationLine =
-                        context.getSourceManager().getPresumedLineNumber(startLocation);
-                    commentLines.insert(startLocationLine);
-                }
+                return true;
             }
+            remaining = splitPair.second;
         }
-        singleLineMapping[filePath] = commentLines;
-    }
-    else
-    {
-        commentLines = commentLinesIt->second;
     }
-
-    return commentLines.find(beginLine) != commentLines.end();
+    return false;
 }
 
-typedef std::unordered_map<std::string, RangeSet> RangeMap;
-static RangeMap rangeMapping;
+typedef std::map<oclint::RuleBase *, RangeSet> RangeMap;
+static std::unordered_map<clang::ASTContext *, RangeMap> rangeMapping;
+
+void forgetRanges(void *context)
+{
+    rangeMapping.erase(static_cast<clang::ASTContext *>(context));
+}
 
 bool rangeBasedShouldSuppress(int beginLine, clang::ASTContext &context, oclint::RuleBase *rule)
 {
-    std::string filePath = getMainFilePath(context);
-    auto commentRangesIt = rangeMapping.find(filePath);
-    RangeSet commentRanges;
-    if (commentRangesIt == rangeMapping.end())
+    if (rangeMapping.find(&context) == rangeMapping.end())
     {
-        DeclAnnotationRangeCollector annotationCollector;
-        commentRanges = annotationCollector.collect(context, rule);
-        rangeMapping[filePath] = commentRanges;
+        context.AddDeallocation(forgetRanges, &context);
     }
-    else
+
+    RangeMap &rangesOfRules = rangeMapping[&context];
+    auto commentRangesIt = rangesOfRules.find(rule);
+    if (commentRangesIt == rangesOfRules.end())
     {
-        commentRanges = commentRangesIt->second;
+        DeclAnnotationRangeCollector annotationCollector;
+        commentRangesIt =
+            rangesOfRules.emplace(rule, annotationCollector.collect(context, rule)).first;
     }
 
-    for (const auto& range : commentRanges)
+    for (const auto& range : commentRangesIt->second)
     {
         if (beginLine >= range.first && beginLine <= range.second)
         {
@@ -196,8 +180,16 @@ bool rangeBasedShouldSuppress(int beginLine, clang::ASTContext &context, oclint:
     return false;
 }
 
+bool shouldSuppress(clang::SourceLocation beginLocation, clang::ASTContext &context)
+{
+    clang::SourceManager &sourceManager = context.getSourceManager();
+    return lineBasedShouldSuppress(sourceManager.getFileID(beginLocation),
+        sourceManager.getPresumedLineNumber(beginLocation), context);
+}
+
 bool shouldSuppress(int beginLine, clang::ASTContext &context, oclint::RuleBase *rule)
 {
-    return lineBasedShouldSuppress(beginLine, context) ||
+    return lineBasedShouldSuppress(
+        context.getSourceManager().getMainFileID(), beginLine, context) ||
         (rule && rangeBasedShouldSuppress(beginLine, context, rule));
 }
-- 
2.43.0


From cb287909f524ee4e7eb855c2099dfe1b2e63fec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:47 +0000
Subject: [PATCH 16/51] fix: apply the rules to C89 sources too

---
 oclint-rules/lib/AbstractASTRuleBase.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/oclint-rules/lib/AbstractASTRuleBase.cpp b/oclint-rules/lib/AbstractASTRuleBase.cpp
index 94ed6b0..c6a6f83 100644
--- a/oclint-rules/lib/AbstractASTRuleBase.cpp
+++ b/oclint-rules/lib/AbstractASTRuleBase.cpp
@@ -77,11 +77,7 @@ bool AbstractASTRuleBase::isLanguageSupported() const
     {
         return supportsCXX();
     }
-    if (langOpts.C99)
-    {
-        return supportsC();
-    }
-    return false;
+    return supportsC();
 }
 
 unsigned int AbstractASTRuleBase::supportedCUDAFunctionAttrs() const
-- 
2.43.0


From eb6a193e797cfeed3e381dbe4399d2cffb789c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:47 +0000
Subject: [PATCH 17/51] fix: report a class at its definition only, not at its
 forward declarations

---
 .../rules/convention/DestructorOfVirtualClassRule.cpp        | 2 +-
 oclint-rules/rules/size/TooManyFieldsRule.cpp                | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp b/oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp
index b1f0b92..46e15de 100644
--- a/oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp
+++ b/oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp
@@ -69,7 +69,7 @@ public:
     bool VisitCXXRecordDecl(const CXXRecordDecl* cxxRecordDecl)
     {
         if (cxxRecordDecl != nullptr
-            && cxxRecordDecl->hasDefinition()
+            && cxxRecordDecl->isThisDeclarationADefinition()
             && cxxRecordDecl->isPolymorphic()
             && !hasVirtualDestructor(*cxxRecordDecl))
         {
diff --git a/oclint-rules/rules/size/TooManyFieldsRule.cpp b/oclint-rules/rules/size/TooManyFieldsRule.cpp
index 5aa4707..e4c6b20 100644
--- a/oclint-rules/rules/size/TooManyFieldsRule.cpp
+++ b/oclint-rules/rules/size/TooManyFieldsRule.cpp
@@ -76,7 +76,7 @@ public:
 
     bool VisitObjCInterfaceDecl(ObjCInterfaceDecl *decl)
     {
-        int fieldCount = decl->ivar_size();
+        int fieldCount = decl->isThisDeclarationADefinition() ? decl->ivar_size() : 0;
         if (fieldCount > _threshold)
         {
             string description = "Objective-C interface with " +
@@ -88,7 +88,8 @@ public:
 
     bool VisitCXXRecordDecl(CXXRecordDecl *decl)
     {
-        int fieldCount = distance(decl->field_begin(), decl->field_end());
+        int fieldCount = decl->isThisDeclarationADefinition() ?
+            distance(decl->field_begin(), decl->field_end()) : 0;
         if (fieldCount > _threshold)
         {
             string description = "C++ class with " +
-- 
2.43.0


From 95a2bdce33c79b1f7919059d0983c4ece7249ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 18/51] fix: report long methods defined inside a class

---
 oclint-rules/rules/size/LongMethodRule.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/oclint-rules/rules/size/LongMethodRule.cpp b/oclint-rules/rules/size/LongMethodRule.cpp
index 6502056..19f90f5 100644
--- a/oclint-rules/rules/size/LongMethodRule.cpp
+++ b/oclint-rules/rules/size/LongMethodRule.cpp
@@ -13,8 +13,7 @@ class LongMethodRule : public AbstractASTVisitorRule<LongMethodRule>
 private:
     void applyDecl(Decl *decl)
     {
-        if (decl->hasBody() &&
-            !isCppMethodDeclLocatedInCppRecordDecl(dyn_cast<CXXMethodDecl>(decl)))
+        if (decl->hasBody())
         {
             Stmt *stmt = decl->getBody();
             int length = getLineCount(stmt->getSourceRange(), _carrier->getSourceManager());
-- 
2.43.0


From b2fe28aa0cb3d23417588e09dcaaf011a43c018a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:42 +0000
Subject: [PATCH 19/51] fix: do not count implicit members as methods of a C++
 class

---
 oclint-rules/rules/size/TooManyMethodsRule.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/rules/size/TooManyMethodsRule.cpp b/oclint-rules/rules/size/TooManyMethodsRule.cpp
index 2425b1e..c97795e 100644
--- a/oclint-rules/rules/size/TooManyMethodsRule.cpp
+++ b/oclint-rules/rules/size/TooManyMethodsRule.cpp
@@ -1,3 +1,5 @@
+#include <algorithm>
+
 #include "oclint/AbstractASTVisitorRule.h"
 #include "oclint/RuleConfiguration.h"
 #include "oclint/RuleSet.h"
@@ -96,7 +98,8 @@ public:
 
     bool VisitCXXRecordDecl(CXXRecordDecl *decl)
     {
-        int methodCount = distance(decl->method_begin(), decl->method_end());
+        int methodCount = count_if(decl->method_begin(), decl->method_end(),
+            [](const CXXMethodDecl *method) { return !method->isImplicit(); });
         if (methodCount > _threshold)
         {
             string description = "C++ class with " + toString<int>(methodCount) +
-- 
2.43.0


From e6757b998c4f3468eaf176365124cce86c5807be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:40 +0000
Subject: [PATCH 20/51] fix: exempt exactly the variables of loops and catch
 clauses from the short names

---
 .../rules/naming/ShortVariableNameRule.cpp    | 46 ++++++-------------
 1 file changed, 13 insertions(+), 33 deletions(-)

diff --git a/oclint-rules/rules/naming/ShortVariableNameRule.cpp b/oclint-rules/rules/naming/ShortVariableNameRule.cpp
index cb85f4a..d72c919 100644
--- a/oclint-rules/rules/naming/ShortVariableNameRule.cpp
+++ b/oclint-rules/rules/naming/ShortVariableNameRule.cpp
@@ -1,4 +1,4 @@
-#include <stack>
+#include <set>
 
 #include "oclint/AbstractASTVisitorRule.h"
 #include "oclint/RuleConfiguration.h"
@@ -12,21 +12,13 @@ using namespace oclint;
 class ShortVariableNameRule : public AbstractASTVisitorRule<ShortVariableNameRule>
 {
 private:
-    std::stack<VarDecl *> _suppressVarDecls;
+    std::set<const VarDecl *> _suppressVarDecls;
 
-    void clearVarDeclsStack()
-    {
-        while (!_suppressVarDecls.empty())
-        {
-            _suppressVarDecls.pop();
-        }
-    }
-
-    void handleVarDecl(VarDecl *varDecl)
+    void handleVarDecl(const VarDecl *varDecl)
     {
         if (varDecl)
         {
-            _suppressVarDecls.push(varDecl);
+            _suppressVarDecls.insert(varDecl);
         }
     }
 
@@ -37,17 +29,9 @@ private:
         {
             return;
         }
-        if (declStmt->isSingleDecl())
+        for (const auto& decl : declStmt->decls())
         {
-            handleVarDecl(dyn_cast_or_null<VarDecl>(declStmt->getSingleDecl()));
-        }
-        else
-        {
-            for (DeclStmt::reverse_decl_iterator it = declStmt->decl_rbegin(),
-                itEnd = declStmt->decl_rend(); it != itEnd; it++)
-            {
-                handleVarDecl(dyn_cast_or_null<VarDecl>(*it));
-            }
+            handleVarDecl(dyn_cast_or_null<VarDecl>(decl));
         }
     }
 
@@ -99,6 +83,11 @@ public:
     }
 #endif
 
+    virtual void setUp() override
+    {
+        _suppressVarDecls.clear();
+    }
+
     bool VisitVarDecl(VarDecl *varDecl)
     {
         std::string varName = varDecl->getNameAsString();
@@ -109,14 +98,9 @@ public:
             return true;
         }
 
-        if (!_suppressVarDecls.empty())
+        if (_suppressVarDecls.count(varDecl))
         {
-            VarDecl *topVarDecl = _suppressVarDecls.top();
-            _suppressVarDecls.pop();
-            if (varDecl == topVarDecl)
-            {
-                return true;
-            }
+            return true;
         }
 
         string description = "Length of variable name `" + varName +
@@ -129,7 +113,6 @@ public:
 
     bool VisitForStmt(ForStmt *forStmt)
     {
-        clearVarDeclsStack();
         handleDeclStmt(forStmt->getInit());
 
         return true;
@@ -137,7 +120,6 @@ public:
 
     bool VisitCXXForRangeStmt(CXXForRangeStmt *forStmt)
     {
-        clearVarDeclsStack();
         handleVarDecl(forStmt->getLoopVariable());
 
         return true;
@@ -146,7 +128,6 @@ public:
 
     bool VisitObjCForCollectionStmt(ObjCForCollectionStmt *forStmt)
     {
-        clearVarDeclsStack();
         handleDeclStmt(forStmt->getElement());
 
         return true;
@@ -154,7 +135,6 @@ public:
 
     bool VisitCXXCatchStmt(CXXCatchStmt *catchStmt)
     {
-        clearVarDeclsStack();
         handleVarDecl(catchStmt->getExceptionDecl());
 
         return true;
-- 
2.43.0


From 609502263da44e8697f976942e7e636fe212d1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:40 +0000
Subject: [PATCH 21/51] fix: find the dead code around labels, nested cases and
 throws of temporaries

---
 oclint-rules/rules/basic/DeadCodeRule.cpp | 40 ++++++++++++++++++-----
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/oclint-rules/rules/basic/DeadCodeRule.cpp b/oclint-rules/rules/basic/DeadCodeRule.cpp
index 0466782..75aaf8f 100644
--- a/oclint-rules/rules/basic/DeadCodeRule.cpp
+++ b/oclint-rules/rules/basic/DeadCodeRule.cpp
@@ -6,9 +6,28 @@
 using namespace clang;
 using namespace oclint;
 
-static bool isAnyLabelStmt(const Stmt& stmt)
+/*
+ * Whether control can get into the statement other than through its beginning, that is, there is
+ * a label in it, or a case that belongs to a switch statement around it.
+ */
+static bool canBeJumpedInto(const Stmt *stmt, bool isInSwitch = false)
 {
-    return isa<SwitchCase>(&stmt) || isa<LabelStmt>(&stmt);
+    if (stmt == nullptr || isa<Expr>(stmt))
+    {
+        return false;
+    }
+    if (isa<LabelStmt>(stmt) || (isa<SwitchCase>(stmt) && !isInSwitch))
+    {
+        return true;
+    }
+    for (const Stmt *child : stmt->children())
+    {
+        if (canBeJumpedInto(child, isInSwitch || isa<SwitchStmt>(stmt)))
+        {
+            return true;
+        }
+    }
+    return false;
 }
 
 enum EExitType
@@ -37,20 +56,25 @@ public: // Visitor methods
     EExitType VisitCXXThrowExpr(const CXXThrowExpr*) { return FullExit; }
     EExitType VisitObjCAtThrowStmt(const ObjCAtThrowStmt*) { return FullExit; }
 
+    EExitType VisitExprWithCleanups(const ExprWithCleanups* expr)
+    {
+        return Visit(expr->getSubExpr());
+    }
+
+    EExitType VisitLabelStmt(const LabelStmt* stmt) { return Visit(stmt->getSubStmt()); }
     EExitType VisitSwitchCase(const SwitchCase* stmt) { return Visit(stmt->getSubStmt()); }
     EExitType VisitCompoundStmt(const CompoundStmt* compoundStmt)
     {
+        EExitType exitType = NoExit;
         for (CompoundStmt::const_body_iterator body = compoundStmt->body_begin(),
             bodyEnd = compoundStmt->body_end(); body != bodyEnd; body++)
         {
-            const EExitType exitType = Visit(*body);
-
-            if (exitType != NoExit)
+            if (exitType == NoExit || canBeJumpedInto(*body))
             {
-                return exitType;
+                exitType = Visit(*body);
             }
         }
-        return NoExit;
+        return exitType;
     }
 
     EExitType VisitIfStmt(const IfStmt* ifStmt)
@@ -142,7 +166,7 @@ public:
             bodyEnd = compoundStmt->body_end(); body != bodyEnd; body++)
         {
             const Stmt *bodyStmt = *body;
-            if (hasBreakPoint && bodyStmt && !isAnyLabelStmt(*bodyStmt))
+            if (hasBreakPoint && bodyStmt && !canBeJumpedInto(bodyStmt))
             {
                 addViolation(bodyStmt, this);
                 break;
-- 
2.43.0


From 5fcd288f212d0e4d7c422b1e5b9aae66d3164f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:40 +0000
Subject: [PATCH 22/51] fix: do not take assignments to variables that hide a
 parameter for parameter reassignments

---
 .../convention/ParameterReassignmentRule.cpp  | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/oclint-rules/rules/convention/ParameterReassignmentRule.cpp b/oclint-rules/rules/convention/ParameterReassignmentRule.cpp
index 3c0d6c8..4577b62 100644
--- a/oclint-rules/rules/convention/ParameterReassignmentRule.cpp
+++ b/oclint-rules/rules/convention/ParameterReassignmentRule.cpp
@@ -10,13 +10,13 @@ class ParameterReassignmentRule : public AbstractASTVisitorRule<ParameterReassig
     class BinaryOperatorAnalyzer : public RecursiveASTVisitor<BinaryOperatorAnalyzer>
     {
     private:
-        vector<string> _names;
+        vector<const ParmVarDecl*> _params;
         vector<BinaryOperator*> _binaryOperators;
 
     public:
-        vector<BinaryOperator*> analyze(Decl *decl, vector<string> &names)
+        vector<BinaryOperator*> analyze(Decl *decl, vector<const ParmVarDecl*> &params)
         {
-            _names = names;
+            _params = params;
             _binaryOperators.clear();
             (void) /* explicitly ignore the return of this function */ TraverseDecl(decl);
             return _binaryOperators;
@@ -28,9 +28,9 @@ class ParameterReassignmentRule : public AbstractASTVisitorRule<ParameterReassig
             if (binaryOperator->getOpcode() == BO_Assign && leftExpr && isa<DeclRefExpr>(leftExpr))
             {
                 DeclRefExpr *declRefExpr = dyn_cast<DeclRefExpr>(leftExpr);
-                for (const auto& name : _names)
+                for (const auto& param : _params)
                 {
-                    if (declRefExpr->getFoundDecl()->getNameAsString() == name)
+                    if (declRefExpr->getDecl() == param)
                     {
                         _binaryOperators.push_back(binaryOperator);
                         break;
@@ -42,12 +42,12 @@ class ParameterReassignmentRule : public AbstractASTVisitorRule<ParameterReassig
     };
 
 private:
-    void locateParamNames(Decl *decl, vector<string> &names)
+    void locateParams(Decl *decl, vector<const ParmVarDecl*> &params)
     {
-        if (!names.empty())
+        if (!params.empty())
         {
             BinaryOperatorAnalyzer biOpAnalyzer;
-            vector<BinaryOperator*> binaryOperators = biOpAnalyzer.analyze(decl, names);
+            vector<BinaryOperator*> binaryOperators = biOpAnalyzer.analyze(decl, params);
             for (const auto& binaryOperator : binaryOperators)
             {
                 addViolation(binaryOperator, this);
@@ -100,33 +100,33 @@ public:
 
     bool VisitFunctionDecl(FunctionDecl *decl)
     {
-        vector<string> names;
+        vector<const ParmVarDecl*> params;
         for (size_t i = 0; i != decl->getNumParams(); ++i)
         {
             ParmVarDecl *parmVarDecl = decl->getParamDecl(i);
             if (parmVarDecl->getNameAsString() != "")
             {
-                names.push_back(parmVarDecl->getNameAsString());
+                params.push_back(parmVarDecl);
             }
         }
-        locateParamNames(decl, names);
+        locateParams(decl, params);
 
         return true;
     }
 
     bool VisitObjCMethodDecl(ObjCMethodDecl *decl)
     {
-        vector<string> names;
+        vector<const ParmVarDecl*> params;
         for (ObjCMethodDecl::param_iterator param = decl->param_begin(),
             paramEnd = decl->param_end(); param != paramEnd; param++)
         {
             ParmVarDecl *parmVarDecl = *param;
             if (parmVarDecl->getNameAsString() != "")
             {
-                names.push_back(parmVarDecl->getNameAsString());
+                params.push_back(parmVarDecl);
             }
         }
-        locateParamNames(decl, names);
+        locateParams(decl, params);
 
         return true;
     }
-- 
2.43.0


From 487c3497e7c944ba853862973153ad76f6178d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:40 +0000
Subject: [PATCH 23/51] fix: count a switch statement's own cases only

---
 .../TooFewBranchesInSwitchStatementRule.cpp   | 30 ++++++++-----------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/oclint-rules/rules/convention/TooFewBranchesInSwitchStatementRule.cpp b/oclint-rules/rules/convention/TooFewBranchesInSwitchStatementRule.cpp
index ca132e8..a3dde41 100644
--- a/oclint-rules/rules/convention/TooFewBranchesInSwitchStatementRule.cpp
+++ b/oclint-rules/rules/convention/TooFewBranchesInSwitchStatementRule.cpp
@@ -9,25 +9,20 @@ using namespace oclint;
 class TooFewBranchesInSwitchStatementRule :
     public AbstractASTVisitorRule<TooFewBranchesInSwitchStatementRule>
 {
-    class CountCaseStmts : public RecursiveASTVisitor<CountCaseStmts>
+private:
+    int countCaseStmts(const SwitchStmt *switchStmt)
     {
-    private:
-        int _count;
-
-    public:
-        int count(SwitchStmt *switchStmt)
+        int count = 0;
+        for (const SwitchCase *switchCase = switchStmt->getSwitchCaseList(); switchCase;
+            switchCase = switchCase->getNextSwitchCase())
         {
-            _count = 0;
-            (void) /* explicitly ignore the return of this function */ TraverseStmt(switchStmt);
-            return _count;
+            if (isa<CaseStmt>(switchCase))
+            {
+                count++;
+            }
         }
-
-        bool VisitCaseStmt(CaseStmt *)
-        {
-            _count++;
-            return true;
-        }
-    };
+        return count;
+    }
 
 public:
     virtual const string name() const override
@@ -86,8 +81,7 @@ public:
 
     bool VisitSwitchStmt(SwitchStmt *switchStmt)
     {
-        CountCaseStmts countCaseStmts;
-        int numberOfCaseStmts = countCaseStmts.count(switchStmt);
+        int numberOfCaseStmts = countCaseStmts(switchStmt);
         int threshold = RuleConfiguration::intForKey("MINIMUM_CASES_IN_SWITCH", 3);
         if (numberOfCaseStmts < threshold)
         {
-- 
2.43.0


From 7dc0f5262f6389d503db60d72413f67a324792a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:40 +0000
Subject: [PATCH 24/51] fix: see through implicit casts between unary operators

---
 oclint-rules/rules/basic/MultipleUnaryOperatorRule.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/oclint-rules/rules/basic/MultipleUnaryOperatorRule.cpp b/oclint-rules/rules/basic/MultipleUnaryOperatorRule.cpp
index c303f36..5a38c4c 100644
--- a/oclint-rules/rules/basic/MultipleUnaryOperatorRule.cpp
+++ b/oclint-rules/rules/basic/MultipleUnaryOperatorRule.cpp
@@ -59,10 +59,9 @@ public:
     bool VisitUnaryOperator(UnaryOperator *unaryOperator)
     {
         Expr *subExpr = unaryOperator->getSubExpr();
-        while (subExpr && isa<ParenExpr>(subExpr))
+        if (subExpr)
         {
-            ParenExpr *parenExpr = dyn_cast<ParenExpr>(subExpr);
-            subExpr = parenExpr->getSubExpr();
+            subExpr = subExpr->IgnoreParenImpCasts();
         }
         if (subExpr && isa<UnaryOperator>(subExpr))
         {
-- 
2.43.0


From 7465676bf331ae585e04c453c60e4c1e3bd57003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:40 +0000
Subject: [PATCH 25/51] fix: report empty range-based for statements

---
 oclint-rules/rules/empty/EmptyForStatementRule.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oclint-rules/rules/empty/EmptyForStatementRule.cpp b/oclint-rules/rules/empty/EmptyForStatementRule.cpp
index 2a7d77a..0c4ff19 100644
--- a/oclint-rules/rules/empty/EmptyForStatementRule.cpp
+++ b/oclint-rules/rules/empty/EmptyForStatementRule.cpp
@@ -60,6 +60,11 @@ public:
         return checkLexicalEmptyStmt(forStmt->getBody(), this);
     }
 
+    bool VisitCXXForRangeStmt(CXXForRangeStmt *forStmt)
+    {
+        return checkLexicalEmptyStmt(forStmt->getBody(), this);
+    }
+
     bool VisitObjCForCollectionStmt(ObjCForCollectionStmt *forStmt)
     {
         return checkLexicalEmptyStmt(forStmt->getBody(), this);
-- 
2.43.0


From 670358b2b3d16fbfdb4d7aba4100d8e4e7428210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:40 +0000
Subject: [PATCH 26/51] fix: report branching statements at the end of
 range-based for loops

---
 .../convention/AvoidBranchingStatementAsLastInLoopRule.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/oclint-rules/rules/convention/AvoidBranchingStatementAsLastInLoopRule.cpp b/oclint-rules/rules/convention/AvoidBranchingStatementAsLastInLoopRule.cpp
index dabab39..44996a5 100644
--- a/oclint-rules/rules/convention/AvoidBranchingStatementAsLastInLoopRule.cpp
+++ b/oclint-rules/rules/convention/AvoidBranchingStatementAsLastInLoopRule.cpp
@@ -87,6 +87,13 @@ public:
         return true;
     }
 
+    bool VisitCXXForRangeStmt(CXXForRangeStmt *stmt)
+    {
+        applyStmt<CXXForRangeStmt>(stmt);
+
+        return true;
+    }
+
     bool VisitObjCForCollectionStmt(ObjCForCollectionStmt *stmt)
     {
         applyStmt<ObjCForCollectionStmt>(stmt);
-- 
2.43.0


From daa861b3f37cdffcf287df202ed72ff9d97281a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:40 +0000
Subject: [PATCH 27/51] fix: check the bodies of range-based for and for-in
 loops for early exits

---
 oclint-rules/rules/convention/PreferEarlyExitRule.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/oclint-rules/rules/convention/PreferEarlyExitRule.cpp b/oclint-rules/rules/convention/PreferEarlyExitRule.cpp
index edba2ac..97a85fb 100644
--- a/oclint-rules/rules/convention/PreferEarlyExitRule.cpp
+++ b/oclint-rules/rules/convention/PreferEarlyExitRule.cpp
@@ -168,6 +168,16 @@ public:
         return VisitLoopBody(forStmt->getBody());
     }
 
+    bool VisitCXXForRangeStmt(CXXForRangeStmt* forStmt)
+    {
+        return VisitLoopBody(forStmt->getBody());
+    }
+
+    bool VisitObjCForCollectionStmt(ObjCForCollectionStmt* forStmt)
+    {
+        return VisitLoopBody(forStmt->getBody());
+    }
+
     bool VisitWhileStmt(WhileStmt* whileStmt)
     {
         return VisitLoopBody(whileStmt->getBody());
-- 
2.43.0


From 8d791bea8ecc60eab8ef0e688beb2a9ef4bbb164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:51 +0000
Subject: [PATCH 28/51] fix: report an if statement as redundant only if both
 branches assign the same variable

---
 oclint-rules/rules/redundant/RedundantIfStatementRule.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/rules/redundant/RedundantIfStatementRule.cpp b/oclint-rules/rules/redundant/RedundantIfStatementRule.cpp
index 9f4b1cc..5488c0d 100644
--- a/oclint-rules/rules/redundant/RedundantIfStatementRule.cpp
+++ b/oclint-rules/rules/redundant/RedundantIfStatementRule.cpp
@@ -1,5 +1,6 @@
 #include "oclint/AbstractASTVisitorRule.h"
 #include "oclint/RuleSet.h"
+#include "oclint/util/ASTUtil.h"
 
 using namespace std;
 using namespace clang;
@@ -71,7 +72,9 @@ private:
 
     bool doesBinaryOperatorsViolateRule(BinaryOperator *first, BinaryOperator *second)
     {
-        return first && second && isNotEquals(first->getRHS(), second->getRHS());
+        return first && second && first->getOpcode() == second->getOpcode() &&
+            areSameExpr(*_carrier->getASTContext(), *first->getLHS(), *second->getLHS()) &&
+            isNotEquals(first->getRHS(), second->getRHS());
     }
 
 public:
-- 
2.43.0


From 4e1c2b9a483eafbe2465085451379f11615d2bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:11 +0000
Subject: [PATCH 29/51] fix: take casts of different integers for different
 constants

---
 .../rules/redundant/RedundantConditionalOperatorRule.cpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp b/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
index f726478..f41981d 100644
--- a/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
+++ b/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
@@ -83,8 +83,8 @@ private:
                 dyn_cast_or_null<IntegerLiteral>(trueObjCBOOL->getSubExpr());
             IntegerLiteral *falseInteger =
                 dyn_cast_or_null<IntegerLiteral>(falseObjCBOOL->getSubExpr());
-            return trueInteger && falseInteger && trueInteger->getValue().getBoolValue() ==
-                falseInteger->getValue().getBoolValue();
+            return trueInteger && falseInteger &&
+                llvm::APInt::isSameValue(trueInteger->getValue(), falseInteger->getValue());
         }
         return false;
     }
-- 
2.43.0


From 5831052488f036ac517332ef363a57ef280a0349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:11 +0000
Subject: [PATCH 30/51] fix: recognise redundant conditional operators on
 variables and strings in C++

---
 .../rules/redundant/RedundantConditionalOperatorRule.cpp  | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp b/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
index f41981d..8a44124 100644
--- a/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
+++ b/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
@@ -114,8 +114,8 @@ private:
 
     bool isStringLiteralEquals(Expr *trueExpr, Expr *falseExpr)
     {
-        StringLiteral *trueStr = extractFromImplicitCastExpr<StringLiteral>(trueExpr);
-        StringLiteral *falseStr = extractFromImplicitCastExpr<StringLiteral>(falseExpr);
+        StringLiteral *trueStr = dyn_cast<StringLiteral>(trueExpr->IgnoreImpCasts());
+        StringLiteral *falseStr = dyn_cast<StringLiteral>(falseExpr->IgnoreImpCasts());
         return trueStr && falseStr && trueStr->getString() == falseStr->getString();
     }
 
@@ -139,8 +139,8 @@ private:
 
     bool isSameVariable(Expr *trueExpr, Expr *falseExpr)
     {
-        DeclRefExpr *trueDeclRef = extractFromImplicitCastExpr<DeclRefExpr>(trueExpr);
-        DeclRefExpr *falseDeclRef = extractFromImplicitCastExpr<DeclRefExpr>(falseExpr);
+        DeclRefExpr *trueDeclRef = dyn_cast<DeclRefExpr>(trueExpr->IgnoreImpCasts());
+        DeclRefExpr *falseDeclRef = dyn_cast<DeclRefExpr>(falseExpr->IgnoreImpCasts());
         return trueDeclRef && falseDeclRef && trueDeclRef->getDecl() == falseDeclRef->getDecl();
     }
 
-- 
2.43.0


From f20c15ac0d90b60330b79b91ffa7f43e7712f34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:17 +0000
Subject: [PATCH 31/51] fix: recognize null checks against any form of a null
 pointer constant

A nil that is ((void *)0), a nil on the left-hand side of a comparison, and members
inherited from a base class were missed by the null and nil check rules.
---
 .../rules/abstract/AbstractNullCheckRule.h    | 25 +++++--------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/oclint-rules/rules/abstract/AbstractNullCheckRule.h b/oclint-rules/rules/abstract/AbstractNullCheckRule.h
index dc0fe54..ed03dcd 100644
--- a/oclint-rules/rules/abstract/AbstractNullCheckRule.h
+++ b/oclint-rules/rules/abstract/AbstractNullCheckRule.h
@@ -7,27 +7,14 @@ class AbstractNullCheckRule : public oclint::AbstractASTVisitorRule<T>
 protected:
     bool isNullToPointer(clang::Expr *expr)
     {
-        clang::ImplicitCastExpr *implicitCastExpr =
-            clang::dyn_cast_or_null<clang::ImplicitCastExpr>(expr);
-        if (implicitCastExpr)
+        while (expr)
         {
-            clang::CastKind castKind = implicitCastExpr->getCastKind();
-            if (castKind == clang::CK_NullToPointer)
+            clang::CastExpr *castExpr = clang::dyn_cast<clang::CastExpr>(expr->IgnoreParens());
+            if (castExpr && castExpr->getCastKind() == clang::CK_NullToPointer)
             {
                 return true;
             }
-            if (castKind == clang::CK_BitCast)
-            {
-                clang::Expr *subExpr = implicitCastExpr->getSubExpr();
-                while (subExpr && clang::isa<clang::ParenExpr>(subExpr))
-                {
-                    clang::ParenExpr *parenExpr = clang::dyn_cast<clang::ParenExpr>(subExpr);
-                    subExpr = parenExpr->getSubExpr();
-                }
-                clang::CStyleCastExpr *cStyleCastExpr =
-                    clang::dyn_cast_or_null<clang::CStyleCastExpr>(subExpr);
-                return cStyleCastExpr && cStyleCastExpr->getCastKind() == clang::CK_NullToPointer;
-            }
+            expr = castExpr ? castExpr->getSubExpr() : nullptr;
         }
         return false;
     }
@@ -91,10 +78,10 @@ protected:
         {
             return "";
         }
-        if (implicitCastExpr->getCastKind() == clang::CK_PointerToBoolean)
+        if (clang::isa<clang::ImplicitCastExpr>(implicitCastExpr->getSubExpr()))
         {
             return extractIdentifierFromImplicitCastExpr(
-                clang::dyn_cast_or_null<clang::ImplicitCastExpr>(implicitCastExpr->getSubExpr()));
+                clang::dyn_cast<clang::ImplicitCastExpr>(implicitCastExpr->getSubExpr()));
         }
         clang::DeclRefExpr *declRefExpr =
             clang::dyn_cast_or_null<clang::DeclRefExpr>(implicitCastExpr->getSubExpr());
-- 
2.43.0


From 12d545048b0800a0ffb44cc8fb91f97d65fa21d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:45 +0000
Subject: [PATCH 32/51] fix: named parameters of function types are not unused
 method parameters

void (*callback)(int code) has no body that could use code.
---
 .../rules/unused/UnusedMethodParameterRule.cpp      | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/oclint-rules/rules/unused/UnusedMethodParameterRule.cpp b/oclint-rules/rules/unused/UnusedMethodParameterRule.cpp
index 866c0c1..83662ff 100644
--- a/oclint-rules/rules/unused/UnusedMethodParameterRule.cpp
+++ b/oclint-rules/rules/unused/UnusedMethodParameterRule.cpp
@@ -23,6 +23,18 @@ private:
         return true;
     }
 
+    bool belongsToFunctionOrMethod(ParmVarDecl *varDecl)
+    {
+        DeclContext *context = varDecl->getDeclContext();
+        FunctionDecl *function = dyn_cast<FunctionDecl>(context);
+        if (function)
+        {
+            return llvm::is_contained(function->parameters(), varDecl);
+        }
+        ObjCMethodDecl *method = dyn_cast<ObjCMethodDecl>(context);
+        return method && llvm::is_contained(method->parameters(), varDecl);
+    }
+
     bool isFunctionDeclaration(DeclContext *context)
     {
         FunctionDecl *decl = dyn_cast<FunctionDecl>(context);
@@ -178,6 +190,7 @@ public:
             !hasAttributeUnused(varDecl) &&
             hasVariableName(varDecl) &&
             isInNonTemplateFunction(varDecl) &&
+            belongsToFunctionOrMethod(varDecl) &&
             !isExistingByContract(varDecl) &&
             !isObjCMethodWithIBActionAttribute(varDecl))
         {
-- 
2.43.0


From d6af99b610c68cb2584ab49146906cbbc8adef5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:32 +0000
Subject: [PATCH 33/51] fix: parameters of overriding class methods are not
 unused method parameters

Super classes and protocols were searched for instance methods only.
---
 oclint-rules/lib/util/ASTUtil.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/oclint-rules/lib/util/ASTUtil.cpp b/oclint-rules/lib/util/ASTUtil.cpp
index e538545..a4295d7 100644
--- a/oclint-rules/lib/util/ASTUtil.cpp
+++ b/oclint-rules/lib/util/ASTUtil.cpp
@@ -11,7 +11,8 @@ bool isObjCMethodDeclaredInSuperClass(clang::ObjCMethodDecl *decl)
         if (interfaceDecl)
         {
             clang::ObjCInterfaceDecl *superInterface = interfaceDecl->getSuperClass();
-            return superInterface && superInterface->lookupInstanceMethod(selector);
+            return superInterface &&
+                superInterface->lookupMethod(selector, decl->isInstanceMethod());
         }
     }
     return false;
@@ -32,7 +33,7 @@ bool isObjCMethodDeclaredInProtocol(clang::ObjCMethodDecl *decl)
             protocolEnd = interfaceDecl->protocol_end(); protocol != protocolEnd; protocol++)
         {
             clang::ObjCProtocolDecl *protocolDecl = (clang::ObjCProtocolDecl *)*protocol;
-            if (protocolDecl->lookupInstanceMethod(selector))
+            if (protocolDecl->lookupMethod(selector, decl->isInstanceMethod()))
             {
                 return true;
             }
-- 
2.43.0


From 2fbe6d771d2349c7e44d847fffa4db3155b8de1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:30 +0000
Subject: [PATCH 34/51] fix: find the virtual and protected destructors of
 class templates

---
 ...structorShouldBeVirtualOrProtectedRule.cpp | 36 +++++++++++++++----
 .../DestructorOfVirtualClassRule.cpp          | 21 +++++++++--
 2 files changed, 49 insertions(+), 8 deletions(-)

diff --git a/oclint-rules/rules/convention/BaseClassDestructorShouldBeVirtualOrProtectedRule.cpp b/oclint-rules/rules/convention/BaseClassDestructorShouldBeVirtualOrProtectedRule.cpp
index be32722..01c28d3 100644
--- a/oclint-rules/rules/convention/BaseClassDestructorShouldBeVirtualOrProtectedRule.cpp
+++ b/oclint-rules/rules/convention/BaseClassDestructorShouldBeVirtualOrProtectedRule.cpp
@@ -3,16 +3,40 @@
 
 using namespace clang;
 
-static bool hasVirtualOrProtectedDestructor(const CXXRecordDecl& cxxRecordDecl)
+// CXXRecordDecl::getDestructor() finds neither the destructors of class templates
+// nor those that they inherit, so look for them among the methods and the bases.
+static bool hasVirtualDestructor(const CXXRecordDecl& cxxRecordDecl)
 {
-    const CXXDestructorDecl* cxxDestructorDecl = cxxRecordDecl.getDestructor();
+    for (const CXXMethodDecl* method : cxxRecordDecl.methods())
+    {
+        if (isa<CXXDestructorDecl>(method) && method->isVirtual())
+        {
+            return true;
+        }
+    }
+    for (const CXXBaseSpecifier& base : cxxRecordDecl.bases())
+    {
+        const CXXRecordDecl* baseClass = base.getType()->getAsCXXRecordDecl();
 
-    if (cxxDestructorDecl == nullptr)
+        if (baseClass != nullptr && baseClass->hasDefinition()
+            && hasVirtualDestructor(*baseClass))
+        {
+            return true;
+        }
+    }
+    return false;
+}
+
+static bool hasVirtualOrProtectedDestructor(const CXXRecordDecl& cxxRecordDecl)
+{
+    for (const CXXMethodDecl* method : cxxRecordDecl.methods())
     {
-        return false;
+        if (isa<CXXDestructorDecl>(method) && method->getAccess() == AS_protected)
+        {
+            return true;
+        }
     }
-    return cxxDestructorDecl->isVirtual()
-        || cxxDestructorDecl->getAccess() == AS_protected;
+    return hasVirtualDestructor(cxxRecordDecl);
 }
 
 static std::string getMessageViolation(const CXXRecordDecl& base, const CXXRecordDecl& child)
diff --git a/oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp b/oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp
index 46e15de..1a16de0 100644
--- a/oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp
+++ b/oclint-rules/rules/convention/DestructorOfVirtualClassRule.cpp
@@ -3,11 +3,28 @@
 
 using namespace clang;
 
+// CXXRecordDecl::getDestructor() finds neither the destructors of class templates
+// nor those that they inherit, so look for them among the methods and the bases.
 static bool hasVirtualDestructor(const CXXRecordDecl& cxxRecordDecl)
 {
-    const CXXDestructorDecl* cxxDestructorDecl = cxxRecordDecl.getDestructor();
+    for (const CXXMethodDecl* method : cxxRecordDecl.methods())
+    {
+        if (isa<CXXDestructorDecl>(method) && method->isVirtual())
+        {
+            return true;
+        }
+    }
+    for (const CXXBaseSpecifier& base : cxxRecordDecl.bases())
+    {
+        const CXXRecordDecl* baseClass = base.getType()->getAsCXXRecordDecl();
 
-    return cxxDestructorDecl != nullptr && cxxDestructorDecl->isVirtual();
+        if (baseClass != nullptr && baseClass->hasDefinition()
+            && hasVirtualDestructor(*baseClass))
+        {
+            return true;
+        }
+    }
+    return false;
 }
 
 static std::string getMessageViolation(const CXXRecordDecl& cxxRecordDecl)
-- 
2.43.0


From 4a5c9157692cca932a2cf7e88ce22ce4d8c91fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 35/51] fix: look for the call to the base method in
 definitions, of class methods too

---
 oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp b/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp
index 73935cf..0aed20f 100644
--- a/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp
+++ b/oclint-rules/rules/cocoa/ObjCVerifyMustCallSuperRule.cpp
@@ -26,7 +26,8 @@ public:
     bool VisitObjCMessageExpr(ObjCMessageExpr* expr)
     {
         if(expr->getSelector().getAsString() == _selector
-        && expr->getReceiverKind() == ObjCMessageExpr::SuperInstance) {
+        && (expr->getReceiverKind() == ObjCMessageExpr::SuperInstance
+            || expr->getReceiverKind() == ObjCMessageExpr::SuperClass)) {
             _foundSuperCall = true;
         }
         return true;
@@ -125,6 +126,11 @@ public:
 #endif
 
     bool VisitObjCMethodDecl(ObjCMethodDecl* decl) {
+        // Only a definition can call anything
+        if(!decl->isThisDeclarationADefinition()) {
+            return true;
+        }
+
         // Save the method name
         string selectorName = decl->getSelector().getAsString();
 
-- 
2.43.0


From 6db402d0ab8530bbfc263d366c0edfaa60c139a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 36/51] fix: judge protected methods by the class that declares
 them, in categories too, and without crashing on those of protocols

---
 .../rules/cocoa/ObjCVerifyProtectedMethodRule.cpp  | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp b/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp
index a042ecc..83a8a93 100644
--- a/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp
+++ b/oclint-rules/rules/cocoa/ObjCVerifyProtectedMethodRule.cpp
@@ -19,6 +19,12 @@ namespace {
             vector<ObjCMessageExpr*> _violations;
 
         public:
+            // The class that declares the method, or for a protocol's one the receiver's class
+            static const ObjCInterfaceDecl* getProtectingInterface(const ObjCMessageExpr* expr) {
+                const auto declaringClass = expr->getMethodDecl()->getClassInterface();
+                return declaringClass ? declaringClass : expr->getReceiverInterface();
+            }
+
             CheckMethodsInsideClass(ObjCInterfaceDecl& container, AbstractASTRuleBase& rule) :
                 _container(container), _rule(rule) {};
 
@@ -28,11 +34,11 @@ namespace {
                 return true;
             }
 
-            const auto interface = expr->getReceiverInterface();
-            if(!interface) {
+            if(!expr->getReceiverInterface()) {
                 return true;
             }
 
+            const auto interface = getProtectingInterface(expr);
             if(!isObjCInterfaceClassOrSubclass(&_container, interface->getNameAsString())) {
                 _violations.push_back(expr);
             }
@@ -50,7 +56,7 @@ namespace {
 class ObjCVerifyProtectedMethodRule : public AbstractASTVisitorRule<ObjCVerifyProtectedMethodRule>
 {
 public:
-    bool VisitObjCImplementationDecl(ObjCImplementationDecl* decl) {
+    bool VisitObjCImplDecl(ObjCImplDecl* decl) {
         const auto interface = decl->getClassInterface();
 
         if(interface) {
@@ -58,7 +64,7 @@ public:
             checker.TraverseDecl(decl);
             const auto violations = checker.getViolations();
             for(auto expr : violations) {
-                const auto sourceClass = expr->getMethodDecl()->getClassInterface();
+                const auto sourceClass = CheckMethodsInsideClass::getProtectingInterface(expr);
 
                 string description = "calling protected method " +
                     expr->getSelector().getAsString() +
-- 
2.43.0


From aad6ef86b32d24a0ff20467a6149426f06f99051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 37/51] fix: apply the CUDA function kinds to functions in
 namespaces, classes and templates

---
 .../include/oclint/AbstractASTVisitorRule.h   | 31 +++++++++++--------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/oclint-rules/include/oclint/AbstractASTVisitorRule.h b/oclint-rules/include/oclint/AbstractASTVisitorRule.h
index 2c1703b..735eb1a 100644
--- a/oclint-rules/include/oclint/AbstractASTVisitorRule.h
+++ b/oclint-rules/include/oclint/AbstractASTVisitorRule.h
@@ -46,25 +46,30 @@ protected:
     }
 
     void applyCUDADecl(clang::Decl *decl) {
-        if (!isValidDecl(decl)) { return; }
-
-        if (clang::isa<clang::FunctionDecl>(decl)) {
-            auto funcDecl = clang::cast<clang::FunctionDecl>(decl);
-            if (funcDecl->hasAttr<clang::CUDAGlobalAttr>()) {
-                if (supportedCUDAFunctionAttrs() & CUDA_GLOBAL) {
-                    traverse(decl);
-                }
-            } else if (supportedCUDAFunctionAttrs() & CUDA_HOST) {
-                traverse(decl);
-            }
-        } else {
+        if (isValidDecl(decl)) {
             traverse(decl);
         }
     }
 
+    bool isSupportedCUDAFunction(clang::FunctionDecl *funcDecl) {
+        return supportedCUDAFunctionAttrs() &
+            (funcDecl->hasAttr<clang::CUDAGlobalAttr>() ? CUDA_GLOBAL : CUDA_HOST);
+    }
+
+    /* functions may be nested in namespaces, classes and templates */
+    bool TraverseDecl(clang::Decl *decl) {
+        if (decl && isCUDASourceFile()) {
+            auto funcDecl = clang::dyn_cast<clang::FunctionDecl>(decl);
+            if (funcDecl && !isSupportedCUDAFunction(funcDecl)) {
+                return true;
+            }
+        }
+        return clang::RecursiveASTVisitor<T>::TraverseDecl(decl);
+    }
+
     void traverse(clang::Decl *decl) {
         (void) /* explicitly ignore the return of this function */
-            clang::RecursiveASTVisitor<T>::TraverseDecl(decl);
+            TraverseDecl(decl);
     }
 
 private:
-- 
2.43.0


From 24d1395c125b8821f85781d13d352389a9fa06d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:20 +0000
Subject: [PATCH 38/51] fix: number literal and boxed expression rules in
 Objective-C++

A character literal has no implicit conversion in C++, the operand of
(BOOL)1 has one, and an enumeration constant has its enumeration type,
so [NSNumber numberWithChar:'c'], [NSNumber numberWithBool:YES] and
[NSNumber numberWithInt:EnumConstant] were found in Objective-C only.
---
 .../rules/migration/ObjCBoxedExpressionsRule.cpp    | 13 +++++++++----
 .../rules/migration/ObjCNSNumberLiteralsRule.cpp    | 13 +++++--------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/oclint-rules/rules/migration/ObjCBoxedExpressionsRule.cpp b/oclint-rules/rules/migration/ObjCBoxedExpressionsRule.cpp
index c511a9d..a55cb06 100644
--- a/oclint-rules/rules/migration/ObjCBoxedExpressionsRule.cpp
+++ b/oclint-rules/rules/migration/ObjCBoxedExpressionsRule.cpp
@@ -31,12 +31,17 @@ private:
 
     bool isEnumConstantBox(Expr *expr, string &selectorString)
     {
-        if (selectorString == "numberWithInt:" && expr && isa<DeclRefExpr>(expr))
+        if (selectorString == "numberWithInt:" && expr &&
+            isa<DeclRefExpr>(expr->IgnoreImpCasts()))
         {
-            DeclRefExpr *declRefExpr = dyn_cast<DeclRefExpr>(expr);
+            DeclRefExpr *declRefExpr = dyn_cast<DeclRefExpr>(expr->IgnoreImpCasts());
             Decl *refDecl = declRefExpr->getDecl();
-            return declRefExpr->getType().getAsString() == "int" &&
-                refDecl && isa<EnumConstantDecl>(refDecl);
+            QualType type = declRefExpr->getType();
+            if (const EnumType *enumType = type->getAs<EnumType>()) // the type in C++
+            {
+                type = enumType->getDecl()->getPromotionType();
+            }
+            return refDecl && isa<EnumConstantDecl>(refDecl) && type.getAsString() == "int";
         }
         return false;
     }
diff --git a/oclint-rules/rules/migration/ObjCNSNumberLiteralsRule.cpp b/oclint-rules/rules/migration/ObjCNSNumberLiteralsRule.cpp
index 23cf142..6f55408 100644
--- a/oclint-rules/rules/migration/ObjCNSNumberLiteralsRule.cpp
+++ b/oclint-rules/rules/migration/ObjCNSNumberLiteralsRule.cpp
@@ -10,13 +10,9 @@ class ObjCNSNumberLiteralsRule : public AbstractASTVisitorRule<ObjCNSNumberLiter
 private:
     bool isCharLiteral(Expr *expr, string &selectorString)
     {
-        if (selectorString == "numberWithChar:" && expr && isa<ImplicitCastExpr>(expr))
-        {
-            ImplicitCastExpr *implicitCastExpr = dyn_cast<ImplicitCastExpr>(expr);
-            Expr *subExpr = implicitCastExpr->getSubExpr();
-            return subExpr && isa<CharacterLiteral>(subExpr);
-        }
-        return false;
+        // a character literal is an int in C, but already a char in C++
+        return selectorString == "numberWithChar:" && expr &&
+            isa<CharacterLiteral>(expr->IgnoreImpCasts());
     }
 
     template <typename T>
@@ -40,7 +36,8 @@ private:
             {
                 CStyleCastExpr *cStyleCastExpr =
                     dyn_cast<CStyleCastExpr>(dyn_cast<ParenExpr>(expr)->getSubExpr());
-                return cStyleCastExpr && isa<IntegerLiteral>(cStyleCastExpr->getSubExpr()) &&
+                return cStyleCastExpr &&
+                    isa<IntegerLiteral>(cStyleCastExpr->getSubExprAsWritten()) &&
                     cStyleCastExpr->getType().getAsString() == "BOOL";
             }
 
-- 
2.43.0


From 0de98a36ccce3e770310dc1576b8916c861f21d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 39/51] fix: an array index and the owner of an assigned ivar
 are only read

buffer[_index] = v and other->ivar = v, with other an ivar itself, were
reported as assignments of _index and of other.
---
 .../convention/ObjCAssignIvarOutsideAccessorsRule.cpp  | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/oclint-rules/rules/convention/ObjCAssignIvarOutsideAccessorsRule.cpp b/oclint-rules/rules/convention/ObjCAssignIvarOutsideAccessorsRule.cpp
index aea37a9..6338f44 100644
--- a/oclint-rules/rules/convention/ObjCAssignIvarOutsideAccessorsRule.cpp
+++ b/oclint-rules/rules/convention/ObjCAssignIvarOutsideAccessorsRule.cpp
@@ -19,6 +19,16 @@ public:
         return true;
     }
 
+    // The element is assigned, the index is only read
+    bool TraverseArraySubscriptExpr(ArraySubscriptExpr *arraySubscript) {
+        return TraverseStmt(arraySubscript->getBase());
+    }
+
+    // The ivar is assigned, the object that owns it is only read
+    bool TraverseObjCIvarRefExpr(ObjCIvarRefExpr *ivarRef) {
+        return WalkUpFromObjCIvarRefExpr(ivarRef);
+    }
+
     vector<ObjCIvarRefExpr*>& getInstances() {
         return _instances;
     }
-- 
2.43.0


From 2c46b776189b155cdbb4e95eaa58f2ed29460881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 40/51] fix: count inherited properties and ivars of self as
 messages to self

A property or ivar was counted for the class that declares it and not
for the class of its receiver, so a method that only uses what its own
object inherits was reported to envy its superclass.
---
 oclint-rules/rules/design/FeatureEnvyRule.cpp | 39 ++++++-------------
 1 file changed, 11 insertions(+), 28 deletions(-)

diff --git a/oclint-rules/rules/design/FeatureEnvyRule.cpp b/oclint-rules/rules/design/FeatureEnvyRule.cpp
index 54515c5..1704e67 100644
--- a/oclint-rules/rules/design/FeatureEnvyRule.cpp
+++ b/oclint-rules/rules/design/FeatureEnvyRule.cpp
@@ -56,22 +56,21 @@ class FeatureEnvyRule : public AbstractASTVisitorRule<FeatureEnvyRule>
 
         bool VisitObjCIvarRefExpr(ObjCIvarRefExpr *node)
         {
-            countIvar(node->getDecl());
+            countReceiver(node->getBase());
 
             return true;
         }
 
         bool VisitObjCPropertyRefExpr(ObjCPropertyRefExpr *node)
         {
-            if (node->isMessagingSetter())
+            if (node->isObjectReceiver())
             {
-                countInterface(getSetterInterface(node));
+                countReceiver(node->getBase());
             }
-            else
+            else if (node->isClassReceiver())
             {
-                countInterface(getGetterInterface(node));
+                countInterface(node->getClassReceiver());
             }
-
             return true;
         }
 
@@ -99,26 +98,6 @@ class FeatureEnvyRule : public AbstractASTVisitorRule<FeatureEnvyRule>
             return decl->getClassInterface();
         }
 
-        ObjCInterfaceDecl *getSetterInterface(ObjCPropertyRefExpr *node)
-        {
-            if (node->isExplicitProperty())
-            {
-                ObjCPropertyDecl *decl = node->getExplicitProperty();
-                return getClassInterface(decl->getSetterMethodDecl());
-            }
-            return getClassInterface(node->getImplicitPropertySetter());
-        }
-
-        ObjCInterfaceDecl *getGetterInterface(ObjCPropertyRefExpr *node)
-        {
-            if (node->isExplicitProperty())
-            {
-                ObjCPropertyDecl *decl = node->getExplicitProperty();
-                return getClassInterface(decl->getGetterMethodDecl());
-            }
-            return getClassInterface(node->getImplicitPropertyGetter());
-        }
-
         void countClassName(const string& className)
         {
             ++_receiversCount[className];
@@ -132,9 +111,13 @@ class FeatureEnvyRule : public AbstractASTVisitorRule<FeatureEnvyRule>
             }
         }
 
-        void countIvar(ObjCIvarDecl *ivarDecl)
+        // the class of the receiver, as for a message, and not the class that declares what is accessed
+        void countReceiver(const Expr *receiver)
         {
-            countInterface(ivarDecl->getContainingInterface());
+            if (auto pointerType = receiver->getType()->getAs<ObjCObjectPointerType>())
+            {
+                countInterface(pointerType->getInterfaceDecl());
+            }
         }
 
         // void countCXXRecord(CXXRecordDecl *decl)
-- 
2.43.0


From b6728729e5323a056c76bb93c1e044302e9151b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 41/51] fix: find redundant local variables in C++23

The returned variable is moved implicitly there, which adds a cast that
the rule did not look through.
---
 .../rules/redundant/RedundantLocalVariableRule.cpp       | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/oclint-rules/rules/redundant/RedundantLocalVariableRule.cpp b/oclint-rules/rules/redundant/RedundantLocalVariableRule.cpp
index b3539cf..532882b 100644
--- a/oclint-rules/rules/redundant/RedundantLocalVariableRule.cpp
+++ b/oclint-rules/rules/redundant/RedundantLocalVariableRule.cpp
@@ -18,8 +18,13 @@ private:
                 dyn_cast_or_null<ImplicitCastExpr>(returnStmt->getRetValue());
             if (implicitCastExpr)
             {
-                DeclRefExpr *returnExpr =
-                    dyn_cast_or_null<DeclRefExpr>(implicitCastExpr->getSubExpr());
+                Expr *returned = implicitCastExpr->getSubExpr();
+                ImplicitCastExpr *implicitMove = dyn_cast_or_null<ImplicitCastExpr>(returned);
+                if (implicitMove && implicitMove->getCastKind() == CK_NoOp) // since C++23
+                {
+                    returned = implicitMove->getSubExpr();
+                }
+                DeclRefExpr *returnExpr = dyn_cast_or_null<DeclRefExpr>(returned);
                 if (returnExpr)
                 {
                     return returnExpr->getFoundDecl();
-- 
2.43.0


From b6246015c2ed82d46942835c87613445f6c4aeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:51 +0000
Subject: [PATCH 42/51] fix: rules for other languages do not run on CUDA
 sources

CUDA is C++, but the supported languages of a rule were not looked at,
so a rule for C or Objective-C only ran on CUDA sources as well.
---
 oclint-rules/include/oclint/AbstractASTVisitorRule.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/oclint-rules/include/oclint/AbstractASTVisitorRule.h b/oclint-rules/include/oclint/AbstractASTVisitorRule.h
index 735eb1a..41e47b3 100644
--- a/oclint-rules/include/oclint/AbstractASTVisitorRule.h
+++ b/oclint-rules/include/oclint/AbstractASTVisitorRule.h
@@ -35,6 +35,8 @@ protected:
     }
 
     void applyCUDA() {
+        if (!isLanguageSupported()) { return; }
+
         setUp();
         clang::DeclContext *tu = getTranslationUnit();
         for (clang::DeclContext::decl_iterator it = tu->decls_begin(), declEnd = tu->decls_end();
-- 
2.43.0


From 611a835db5aab36d0088ce408cff52eafa363ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:45 +0000
Subject: [PATCH 43/51] fix: no crash on if consteval and on constant
 conditions in templates

if consteval has no condition, and an expression that depends on a
template parameter, such as new T, cannot be evaluated.
---
 oclint-rules/rules/basic/ConstantConditionalOperatorRule.cpp | 3 ++-
 oclint-rules/rules/basic/ConstantIfExpressionRule.cpp        | 5 +++--
 .../redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp      | 3 ++-
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/oclint-rules/rules/basic/ConstantConditionalOperatorRule.cpp b/oclint-rules/rules/basic/ConstantConditionalOperatorRule.cpp
index 862928f..d0b26dc 100644
--- a/oclint-rules/rules/basic/ConstantConditionalOperatorRule.cpp
+++ b/oclint-rules/rules/basic/ConstantConditionalOperatorRule.cpp
@@ -54,7 +54,8 @@ public:
         Expr *conditionExpr = conditionalOperator->getCond();
 
         bool evaluatedResult;
-        if (conditionExpr->EvaluateAsBooleanCondition(evaluatedResult, *_carrier->getASTContext()))
+        if (!conditionExpr->isInstantiationDependent() &&
+            conditionExpr->EvaluateAsBooleanCondition(evaluatedResult, *_carrier->getASTContext()))
         {
             addViolation(conditionExpr, this);
         }
diff --git a/oclint-rules/rules/basic/ConstantIfExpressionRule.cpp b/oclint-rules/rules/basic/ConstantIfExpressionRule.cpp
index a012e00..73f70cc 100644
--- a/oclint-rules/rules/basic/ConstantIfExpressionRule.cpp
+++ b/oclint-rules/rules/basic/ConstantIfExpressionRule.cpp
@@ -57,10 +57,11 @@ public:
 
     bool VisitIfStmt(IfStmt *ifStmt)
     {
-        Expr *conditionExpr = ifStmt->getCond();
+        Expr *conditionExpr = ifStmt->getCond(); // if consteval has none
 
         bool evaluatedResult;
-        if (conditionExpr->EvaluateAsBooleanCondition(evaluatedResult, *_carrier->getASTContext()))
+        if (conditionExpr && !conditionExpr->isInstantiationDependent() &&
+            conditionExpr->EvaluateAsBooleanCondition(evaluatedResult, *_carrier->getASTContext()))
         {
             addViolation(conditionExpr, this);
         }
diff --git a/oclint-rules/rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp b/oclint-rules/rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp
index 8734f1a..4964bc0 100644
--- a/oclint-rules/rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp
+++ b/oclint-rules/rules/redundant/UnnecessaryNullCheckForCXXDeallocRule.cpp
@@ -150,7 +150,8 @@ public:
 
     bool VisitIfStmt(IfStmt* ifStmt)
     {
-        if (ifStmt == nullptr || ifStmt->getElse() != nullptr)
+        if (ifStmt == nullptr || ifStmt->getElse() != nullptr ||
+            ifStmt->getCond() == nullptr) // if consteval
         {
             return true;
         }
-- 
2.43.0


From 6a64375af60eaead748cd48861110849151fb3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:17 +0000
Subject: [PATCH 44/51] fix: abbreviated function templates at file level are
 analysed

---
 oclint-rules/include/oclint/AbstractASTVisitorRule.h | 5 +++++
 oclint-rules/lib/helper/SuppressHelper.cpp           | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/oclint-rules/include/oclint/AbstractASTVisitorRule.h b/oclint-rules/include/oclint/AbstractASTVisitorRule.h
index 41e47b3..b09b23d 100644
--- a/oclint-rules/include/oclint/AbstractASTVisitorRule.h
+++ b/oclint-rules/include/oclint/AbstractASTVisitorRule.h
@@ -84,6 +84,11 @@ private:
     {
         clang::SourceManager *sourceManager = &_carrier->getSourceManager();
         clang::SourceLocation startLocation = decl->getBeginLoc();
+        if (startLocation.isInvalid())
+        {
+            // templates without a template header, e.g. void f(auto a), have no beginning
+            startLocation = decl->getLocation();
+        }
         return startLocation.isValid() && sourceManager->isInMainFile(startLocation);
     }
 
diff --git a/oclint-rules/lib/helper/SuppressHelper.cpp b/oclint-rules/lib/helper/SuppressHelper.cpp
index 71d8104..b8143e0 100644
--- a/oclint-rules/lib/helper/SuppressHelper.cpp
+++ b/oclint-rules/lib/helper/SuppressHelper.cpp
@@ -81,6 +81,10 @@ public:
             declEnd = decl->decls_end(); declIt != declEnd; ++declIt)
         {
             clang::SourceLocation startLocation = (*declIt)->getBeginLoc();
+            if (startLocation.isInvalid())
+            {
+                startLocation = (*declIt)->getLocation();
+            }
             if (startLocation.isValid() && _sourceManager->isInMainFile(startLocation))
             {
                 (void) /* explicitly ignore the return of this function */
-- 
2.43.0


From 28a8d952afef18e2aecdd8fb37e69f0910008429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:43 +0000
Subject: [PATCH 45/51] fix: conditional operators on wide strings do not
 crash, constants are compared exactly

---
 .../rules/redundant/RedundantConditionalOperatorRule.cpp   | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp b/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
index 8a44124..41f7887 100644
--- a/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
+++ b/oclint-rules/rules/redundant/RedundantConditionalOperatorRule.cpp
@@ -101,8 +101,7 @@ private:
         FloatingLiteral *trueFloating = dyn_cast_or_null<FloatingLiteral>(trueExpr);
         FloatingLiteral *falseFloating = dyn_cast_or_null<FloatingLiteral>(falseExpr);
         return trueFloating && falseFloating &&
-            trueFloating->getValueAsApproximateDouble() ==
-                falseFloating->getValueAsApproximateDouble();
+            trueFloating->getValue().bitwiseIsEqual(falseFloating->getValue());
     }
 
     bool isCharacterLiteralEquals(Expr *trueExpr, Expr *falseExpr)
@@ -116,7 +115,9 @@ private:
     {
         StringLiteral *trueStr = dyn_cast<StringLiteral>(trueExpr->IgnoreImpCasts());
         StringLiteral *falseStr = dyn_cast<StringLiteral>(falseExpr->IgnoreImpCasts());
-        return trueStr && falseStr && trueStr->getString() == falseStr->getString();
+        return trueStr && falseStr &&
+            trueStr->getCharByteWidth() == falseStr->getCharByteWidth() &&
+            trueStr->getBytes() == falseStr->getBytes();
     }
 
     bool isNotEquals(Expr *trueExpr, Expr *falseExpr)
-- 
2.43.0


From c67d30aa26f9a458db4558dece4341225a545875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:48 +0000
Subject: [PATCH 46/51] fix: JSON timestamps after January 2038 no longer wrap
 around

---
 oclint-reporters/reporters/JSONReporter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/oclint-reporters/reporters/JSONReporter.cpp b/oclint-reporters/reporters/JSONReporter.cpp
index c802f50..5814128 100644
--- a/oclint-reporters/reporters/JSONReporter.cpp
+++ b/oclint-reporters/reporters/JSONReporter.cpp
@@ -105,7 +105,7 @@ public:
         writeComma(out, last);
     }
 
-    void writeKeyValue(std::ostream &out, std::string key, int value, bool last = false)
+    void writeKeyValue(std::ostream &out, std::string key, long long value, bool last = false)
     {
         writeKey(out, key);
         out << value;
-- 
2.43.0


From 999fc9c75790224a0c3e3abdb403460b33a7e43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:20 +0000
Subject: [PATCH 47/51] fix: analyzing no longer overwrites dependency,
 diagnostics and plist files of the build

---
 oclint-driver/lib/Driver.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/oclint-driver/lib/Driver.cpp b/oclint-driver/lib/Driver.cpp
index f7e1b0e..f581347 100644
--- a/oclint-driver/lib/Driver.cpp
+++ b/oclint-driver/lib/Driver.cpp
@@ -95,6 +95,12 @@ static clang::CompilerInvocation *newInvocation(clang::DiagnosticsEngine *diagno
     auto invocation = new clang::CompilerInvocation;
     clang::CompilerInvocation::CreateFromArgs(*invocation, argStringList, *diagnostics);
     invocation->getFrontendOpts().DisableFree = false;
+
+    // the code is only analyzed, so leave alone what the build writes next to its objects
+    invocation->getDependencyOutputOpts() = clang::DependencyOutputOptions();
+    invocation->getDiagnosticOpts().DiagnosticLogFile.clear();
+    invocation->getDiagnosticOpts().DiagnosticSerializationFile.clear();
+    invocation->getAnalyzerOpts().AnalysisDiagOpt = clang::PD_TEXT_MINIMAL;
     return invocation;
 }
 
@@ -193,6 +199,12 @@ static clang::CompilerInvocation *newCompilerInvocation(
     }
     for (int cmdIndex = start; cmdIndex != end; cmdIndex++)
     {
+        if (llvm::StringRef(commandLine[cmdIndex]).starts_with("-MJ"))
+        {
+            // written by the driver, the file name may be the next argument
+            cmdIndex += commandLine[cmdIndex] == "-MJ" ? 1 : 0;
+            continue;
+        }
         bool skip = commandLine[cmdIndex] == "-gmodules" ||
             (runClangChecker && commandLine[cmdIndex] == "-fsyntax-only");
         if (!skip)
-- 
2.43.0


From 88022d67edbbc22f56ed1387ddea1ae9631328fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:39 +0000
Subject: [PATCH 48/51] fix: compile commands with -fdiagnostics-format=sarif
 no longer crash

---
 oclint-driver/lib/Driver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/oclint-driver/lib/Driver.cpp b/oclint-driver/lib/Driver.cpp
index f581347..09b2223 100644
--- a/oclint-driver/lib/Driver.cpp
+++ b/oclint-driver/lib/Driver.cpp
@@ -101,6 +101,9 @@ static clang::CompilerInvocation *newInvocation(clang::DiagnosticsEngine *diagno
     invocation->getDiagnosticOpts().DiagnosticLogFile.clear();
     invocation->getDiagnosticOpts().DiagnosticSerializationFile.clear();
     invocation->getAnalyzerOpts().AnalysisDiagOpt = clang::PD_TEXT_MINIMAL;
+
+    // DiagnosticDispatcher collects the diagnostics, clang needs its own printer for other formats
+    invocation->getDiagnosticOpts().setFormat(clang::TextDiagnosticFormat::Clang);
     return invocation;
 }
 
-- 
2.43.0


From 1971321ec6087647297cba816f4c3133d791b104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:37 +0000
Subject: [PATCH 49/51] fix: compile errors are no longer listed as static
 analyzer bugs too

---
 oclint-driver/lib/DiagnosticDispatcher.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/oclint-driver/lib/DiagnosticDispatcher.cpp b/oclint-driver/lib/DiagnosticDispatcher.cpp
index 884f901..3db1c35 100644
--- a/oclint-driver/lib/DiagnosticDispatcher.cpp
+++ b/oclint-driver/lib/DiagnosticDispatcher.cpp
@@ -78,7 +78,11 @@ void DiagnosticDispatcher::HandleDiagnostic(clang::DiagnosticsEngine::Level diag
     ResultCollector *results = ResultCollector::getInstance();
     if (_isCheckerCustomer)
     {
-        results->addCheckerBug(violation);
+        // the checkers use custom diagnostics, the compiler's own have been collected before
+        if (diagnosticInfo.getID() >= clang::diag::DIAG_UPPER_LIMIT)
+        {
+            results->addCheckerBug(violation);
+        }
     }
     else
     {
-- 
2.43.0


From 0d3267f3cc8dedc38c1c63ea06dad9ced7d28a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:32 +0000
Subject: [PATCH 50/51] fix: scaffoldRule refuses to overwrite a rule or test
 that exists

---
 oclint-scripts/scaffoldRule | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/oclint-scripts/scaffoldRule b/oclint-scripts/scaffoldRule
index b6de450..e365821 100755
--- a/oclint-scripts/scaffoldRule
+++ b/oclint-scripts/scaffoldRule
@@ -33,6 +33,18 @@ def add_path_to_cmake_lists(path, cmake_lists, build_step):
         with open(cmake_lists, 'a') as cmake_lists_file:
             cmake_lists_file.write(build_step)
 
+def pre_validate(folder_name, rule_dict):
+    class_name = rule_dict['RULE_CLASS_NAME']
+    new_class_path = os.path.join(custom_folder_path(folder_name), class_name + "Rule.cpp")
+    class_file_exists = os.path.isfile(new_class_path)
+    if class_file_exists:
+        print("Error: " + class_name + "Rule.cpp already exists.")
+    new_test_path = os.path.join(custom_test_folder_path(folder_name), class_name + "RuleTest.cpp")
+    test_file_exists = rule_dict['RULE_TEST'] and os.path.isfile(new_test_path)
+    if test_file_exists:
+        print("Error: " + class_name + "RuleTest.cpp already exists.")
+    return not (class_file_exists or test_file_exists)
+
 def pre_check_rule(folder_name):
     path.mkdir_p(custom_folder_path(folder_name))
     cmake_lists_path = custom_cmake_lists_path(folder_name)
@@ -140,5 +152,6 @@ rule_info_dict = {"RULE_CLASS_NAME" : args.class_name,
 
 if not args.rule_name:
     rule_info_dict["RULE_NAME"] = re.sub('[A-Z]', lower_add_space, args.class_name)[1:]
-pre_check(args.rule_category)
-scaffold(args.rule_category, rule_info_dict)
+if pre_validate(args.rule_category, rule_info_dict):
+    pre_check(args.rule_category)
+    scaffold(args.rule_category, rule_info_dict)
-- 
2.43.0


From eb29d733581f7b831488047a7a714b239b050f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:32 +0000
Subject: [PATCH 51/51] fix: feature envy counts class messages by interface,
 typedefs and self included

---
 oclint-rules/rules/design/FeatureEnvyRule.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/oclint-rules/rules/design/FeatureEnvyRule.cpp b/oclint-rules/rules/design/FeatureEnvyRule.cpp
index 1704e67..9d7aeb9 100644
--- a/oclint-rules/rules/design/FeatureEnvyRule.cpp
+++ b/oclint-rules/rules/design/FeatureEnvyRule.cpp
@@ -47,8 +47,7 @@ class FeatureEnvyRule : public AbstractASTVisitorRule<FeatureEnvyRule>
                 }
                 else if (node->getReceiverKind() == ObjCMessageExpr::Class)
                 {
-                    QualType qualType = node->getClassReceiver();
-                    countClassName(qualType.getAsString());
+                    countInterface(node->getReceiverInterface());
                 }
             }
             return true;
-- 
2.43.0

