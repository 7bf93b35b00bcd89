// A reporter plugin of the verification harness: dumps the Results object it is given, byte for byte,
// as JSON with every non-printable byte escaped (bytes >= 0x80 come out as \u00XX: latin-1 view of the bytes).
#include <cstdio>
#include <ostream>
#include "oclint/Reporter.h"
#include "oclint/Results.h"
#include "oclint/RuleBase.h"
#include "oclint/Violation.h"
using namespace oclint;
static void str(std::ostream &o, const std::string &s)
{
    o << '"';
    for (unsigned char c : s)
    {
        if (c < 0x20 || c >= 0x7f || c == '"' || c == '\\')
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o << b;
        }
        else
            o << c;
    }
    o << '"';
}
static void list(std::ostream &o, const std::vector<Violation> &vs)
{
    o << '[';
    bool first = true;
    for (const auto &v : vs)
    {
        if (!first)
            o << ",\n";
        first = false;
        o << '[';
        if (v.rule)
        {
            str(o, v.rule->name());
            o << ',';
            str(o, v.rule->category());
            o << ',' << v.rule->priority() << ',';
        }
        else
            o << "null,null,0,";
        str(o, v.path);
        o << ',' << v.startLine << ',' << v.startColumn << ',' << v.endLine << ',' << v.endColumn << ',';
        str(o, v.message);
        o << ']';
    }
    o << ']';
}
class MCRawReporter : public Reporter
{
public:
    const std::string name() const override { return "mcraw"; }
    void report(Results *r, std::ostream &o) override
    {
        o << "{\"files\":" << r->numberOfFiles() << ",\"fwv\":" << r->numberOfFilesWithViolations()
          << ",\"n\":" << r->numberOfViolations() << ",\"p\":[" << r->numberOfViolationsWithPriority(1) << ','
          << r->numberOfViolationsWithPriority(2) << ',' << r->numberOfViolationsWithPriority(3) << "],\"ne\":["
          << r->numberOfErrors() << ',' << r->numberOfWarnings() << ',' << r->numberOfCheckerBugs() << "],\n\"v\":";
        list(o, r->allViolations());
        o << ",\n\"e\":";
        list(o, r->allErrors());
        o << ",\n\"w\":";
        list(o, r->allWarnings());
        o << ",\n\"b\":";
        list(o, r->allCheckerBugs());
        o << "}\n";
        o.flush();
    }
};
extern "C" Reporter *create() { return new MCRawReporter(); }
