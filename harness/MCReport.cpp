// Feeds scripted results to the real reporter libraries.
// usage: MCReport script reporter.so...      output: for every case and reporter "<bytes>\n<report>"
#include <dlfcn.h>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <fstream>
#include <iostream>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include "oclint/RawResults.h"
#include "oclint/Reporter.h"
#include "oclint/ResultCollector.h"
#include "oclint/RuleBase.h"
#include "oclint/Violation.h"
#include "oclint/ViolationSet.h"
using namespace oclint;
static time_t now_ = 1700000000;
extern "C" time_t time(time_t *t) noexcept
{
    if (t)
        *t = now_;
    return now_;
}
static std::string unhex(const std::string &s)
{
    std::string r;
    if (s == ".")
        return r;
    for (size_t i = 0; i + 1 < s.size(); i += 2)
        r += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16);
    return r;
}
class R : public RuleBase
{
public:
    std::string n, c;
    int p;
    void apply() override {}
    const std::string name() const override { return n; }
    const std::string category() const override { return c; }
    int priority() const override { return p; }
};
class RC : public ResultCollector
{
public:
    RC() : ResultCollector() {}
};
int main(int argc, char **argv)
{
    std::vector<Reporter *> reps;
    for (int i = 2; i < argc; i++)
    {
        void *h = dlopen(argv[i], RTLD_LAZY);
        if (!h)
        {
            fprintf(stderr, "%s\n", dlerror());
            return 3;
        }
        reps.push_back(((Reporter * (*)()) dlsym(h, "create"))());
    }
    std::ifstream in(argv[1]);
    std::string line;
    std::unique_ptr<RC> rc;
    std::vector<R *> rules;
    std::vector<ViolationSet *> sets;
    auto flush = [&]() {
        if (!rc)
            return;
        for (auto *rep : reps)
        {
            RawResults res(*rc);
            std::ostringstream o;
            rep->report(&res, o);
            std::cout << o.str().size() << "\n" << o.str();
        }
        for (auto *s : sets)
            delete s;
        sets.clear();
        for (auto *r : rules)
            delete r;
        rules.clear();
        rc.reset();
    };
    while (std::getline(in, line))
    {
        std::istringstream l(line);
        std::string k, a, b, c;
        l >> k;
        if (k == "case")
        {
            flush();
            rc.reset(new RC);
            long t = 0;
            l >> t;
            now_ = t;
        }
        else if (k == "rule")
        {
            auto r = new R;
            l >> a >> b >> r->p;
            r->n = unhex(a);
            r->c = unhex(b);
            rules.push_back(r);
        }
        else if (k == "file")
        {
            sets.push_back(new ViolationSet);
            rc->add(sets.back());
        }
        else if (k == "v")
        {
            int i, sl, sc, el, ec;
            l >> i >> a >> sl >> sc >> el >> ec >> b;
            sets.back()->addViolation(Violation(rules.at(i), unhex(a), sl, sc, el, ec, unhex(b)));
        }
        else
        {
            int sl, sc, el, ec;
            l >> a >> sl >> sc >> el >> ec >> b;
            Violation v(nullptr, unhex(a), sl, sc, el, ec, unhex(b));
            if (k == "e")
                rc->addError(v);
            else if (k == "w")
                rc->addWarning(v);
            else if (k == "b")
                rc->addCheckerBug(v);
        }
    }
    flush();
    std::cout.flush();
    return 0;
}
