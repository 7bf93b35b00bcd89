// Every history of enable/disable operations up to a depth on the real RulesetFilter, against a reference model.
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include "oclint/RuleBase.h"
#include "oclint/RuleSet.h"
#include "oclint/RulesetFilter.h"
using namespace oclint;
class R : public RuleBase
{
public:
    std::string n;
    R(std::string n) : n(n) { RuleSet s(this); }
    void apply() override {}
    const std::string name() const override { return n; }
    const std::string category() const override { return "c"; }
    int priority() const override { return 1; }
#ifdef DOCGEN
    const std::string since() const override { return ""; }
    const std::string description() const override { return ""; }
    const std::string example() const override { return ""; }
#endif
};
int main(int, char **argv)
{
    int L = atoi(argv[1]);
    R a("alpha one"), b("beta 2-two"), c("gamma");
    std::vector<RuleBase *> all = {&a, &b, &c};
    std::vector<std::string> names = {"AlphaOne", "BetaTwo", "Gamma", "NoSuchRule"};
    std::vector<std::pair<int, bool>> h;
    long states = 0, steps = 0, bad = 0;
    std::function<void(int)> rec = [&](int d) {
        for (int style = 0; style < (d ? 2 : 1); style++)
        {
            RulesetFilter f;
            std::map<std::string, bool> st;
            std::string hist;
            for (auto &o : h)
            {
                hist += (o.second ? "+" : "-") + names[o.first] + " ";
                st[names[o.first]] = o.second;
                std::vector<std::string> v = {names[o.first]};
                if (style == 0)
                    o.second ? f.enableRule(v[0]) : f.disableRule(v[0]);
                else
                    o.second ? f.enableRules(v.begin(), v.end()) : f.disableRules(v.begin(), v.end());
            }
            bool any = false;
            for (auto &s : st)
                any = any || s.second;
            std::vector<RuleBase *> exp;
            std::vector<std::string> en;
            for (int i = 0; i < 3; i++)
            {
                auto s = st.find(names[i]);
                bool on = any ? s != st.end() && s->second : !(s != st.end() && !s->second);
                if (on)
                    exp.push_back(all[i]), en.push_back(names[i]);
            }
            auto got = f.filteredRules();
            auto gn = f.filteredRuleNames();
            if (got != exp || gn != en)
                if (bad++ < 5)
                    printf("BAD after %s: %zu rules enabled, expected %zu\n", hist.c_str(), got.size(), exp.size());
            states++;
            steps += h.size();
        }
        if (d == L)
            return;
        for (int i = 0; i < 4; i++)
            for (int k = 0; k < 2; k++)
            {
                h.push_back({i, (bool)k});
                rec(d + 1);
                h.pop_back();
            }
    };
    rec(0);
    printf("STATES %ld STEPS %ld BAD %ld\n", states, steps, bad);
}
