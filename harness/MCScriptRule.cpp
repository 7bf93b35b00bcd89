// A rule plugin of the verification harness.  It registers the rules, and reports the violations, that a
// script file describes ($MCSCRIPT, or $MCSCRIPTDIR/<name of this library>.script); the rest of oclint is real.
//   rule <name> <category> <priority>
//   v <rule index> <main file ends with | -> <path | -> <sl> <sc> <el> <ec> <message>
//   e|w|b <path> <sl> <sc> <message>          compiler error / warning / checker bug, once
//   c <rule index> <configuration key>        reports the value of a rule configuration
// strings are written in hexadecimal, "." is the empty string.
#include <dlfcn.h>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <clang/AST/ASTContext.h>
#include "oclint/ResultCollector.h"
#include "oclint/RuleBase.h"
#include "oclint/RuleCarrier.h"
#include "oclint/RuleConfiguration.h"
#include "oclint/RuleSet.h"
#include "oclint/Violation.h"
using namespace oclint;
namespace {
std::string unhex(const std::string &s)
{
    std::string r;
    if (s == ".")
        return r;
    for (size_t i = 0; i + 1 < s.size(); i += 2)
        r += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16);
    return r;
}
struct V { std::string file, path, msg; int sl, sc, el, ec; };
class ScriptRule : public RuleBase
{
public:
    std::string n, c;
    int p;
    std::vector<V> vs;
    std::vector<std::string> cfg;
    const std::string name() const override { return n; }
    const std::string category() const override { return c; }
    int priority() const override { return p; }
#ifdef DOCGEN
    const std::string since() const override { return ""; }
    const std::string description() const override { return ""; }
    const std::string example() const override { return ""; }
#endif
    void apply() override
    {
        std::string main = _carrier->getMainFilePath();
        for (auto &v : vs)
            if (v.file == "-" || (main.size() >= v.file.size() && main.substr(main.size() - v.file.size()) == v.file))
                _carrier->addViolation(v.path == "-" ? main : v.path, v.sl, v.sc, v.el, v.ec, this, v.msg);
        for (auto &k : cfg)
        {
            char b[64];
            snprintf(b, sizeof b, "|%d|%.6f", RuleConfiguration::intForKey(k, -77), RuleConfiguration::doubleForKey(k, -7.5));
            _carrier->addViolation(main, 1, 1, 1, 1, this, k + "|" + RuleConfiguration::stringForKey(k, "<unset>") + b);
        }
    }
};
struct Loader
{
    Loader()
    {
        std::string path;
        if (const char *s = getenv("MCSCRIPT"))
            path = s;
        else if (const char *d = getenv("MCSCRIPTDIR"))
        {
            Dl_info i;
            if (!dladdr((void *)&unhex, &i))
                return;
            std::string f = i.dli_fname;
            path = std::string(d) + "/" + f.substr(f.find_last_of('/') + 1) + ".script";
        }
        std::ifstream in(path);
        std::vector<ScriptRule *> rules;
        std::string line;
        while (std::getline(in, line))
        {
            std::istringstream l(line);
            std::string k, a, b, c;
            l >> k;
            if (k == "rule")
            {
                auto r = new ScriptRule;
                l >> a >> b >> r->p;
                r->n = unhex(a);
                r->c = unhex(b);
                rules.push_back(r);
                RuleSet reg(r);
            }
            else if (k == "v")
            {
                int i;
                V v;
                l >> i >> a >> b >> v.sl >> v.sc >> v.el >> v.ec >> c;
                v.file = a == "-" ? a : unhex(a);
                v.path = b == "-" ? b : unhex(b);
                v.msg = unhex(c);
                rules.at(i)->vs.push_back(v);
            }
            else if (k == "c")
            {
                int i;
                l >> i >> a;
                rules.at(i)->cfg.push_back(unhex(a));
            }
            else if (k == "e" || k == "w" || k == "b")
            {
                int sl, sc;
                l >> a >> sl >> sc >> c;
                Violation v(nullptr, unhex(a), sl, sc, 0, 0, unhex(c));
                auto *rc = ResultCollector::getInstance();
                if (k == "e")
                    rc->addError(v);
                else if (k == "w")
                    rc->addWarning(v);
                else
                    rc->addCheckerBug(v);
            }
        }
    }
};
Loader loader;
}
