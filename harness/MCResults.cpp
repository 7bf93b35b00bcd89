// Exhaustive exploration of the result objects: every history of up to L "add" steps (a violation of the
// alphabet to the current file, or to a new file), every order of the queries, against a reference model.
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <string>
#include <vector>
#include "oclint/RawResults.h"
#include "oclint/ResultCollector.h"
#include "oclint/RuleBase.h"
#include "oclint/UniqueResults.h"
#include "oclint/Violation.h"
#include "oclint/ViolationSet.h"
using namespace oclint;
class R : public RuleBase
{
public:
    int p;
    std::string n;
    R(int p, std::string n) : p(p), n(n) {}
    void apply() override {}
    const std::string name() const override { return n; }
    const std::string category() const override { return "c"; }
    int priority() const override { return p; }
#ifdef DOCGEN
    const std::string since() const override { return ""; }
    const std::string description() const override { return ""; }
    const std::string example() const override { return ""; }
#endif
};
class RC : public ResultCollector
{
public:
    RC() : ResultCollector() {}
};
struct M { int rule; std::string path; int sl, sc, el, ec; std::string msg; };
static bool same(const M &a, const M &b)
{
    return a.rule == b.rule && a.path == b.path && a.sl == b.sl && a.sc == b.sc && a.el == b.el && a.ec == b.ec && a.msg == b.msg;
}
static R *rules[4];
static bool same(const M &a, const Violation &v)
{
    return (a.rule < 0 ? nullptr : (RuleBase *)rules[a.rule]) == v.rule && a.path == v.path && a.sl == v.startLine && a.sc == v.startColumn &&
           a.el == v.endLine && a.ec == v.endColumn && a.msg == v.message;
}
static std::vector<M> uniq(const std::vector<M> &x)
{
    std::vector<M> r;
    for (auto &m : x)
    {
        bool dup = false;
        for (auto &y : r)
            dup = dup || same(m, y);
        if (!dup)
            r.push_back(m);
    }
    return r;
}
static bool eq(const std::vector<M> &m, const std::vector<Violation> &v)
{
    if (m.size() != v.size())
        return false;
    for (size_t i = 0; i < m.size(); i++)
        if (!same(m[i], v[i]))
            return false;
    return true;
}
static long states, steps, bad;
static std::string hist;
static void fail(const char *what)
{
    if (bad++ < 5)
        printf("BAD %s after %s\n", what, hist.c_str());
}
static Violation mk(const M &m) { return Violation(m.rule < 0 ? nullptr : rules[m.rule], m.path, m.sl, m.sc, m.el, m.ec, m.msg); }

static void queries(AbstractResults &r, const std::vector<M> &vs, const std::vector<M> &es, const std::vector<M> &ws, const std::vector<M> &bs,
                    int files, int fwv, const int *perm, const char *kind)
{
    for (int twice = 0; twice < 2; twice++)
        for (int i = 0; i < 4; i++)
        {
            std::string k = std::string(kind) + (twice ? " second" : " first");
            switch (perm[i])
            {
            case 0:
                if (!eq(vs, r.allViolations()))
                    fail((k + " allViolations").c_str());
                if (r.numberOfViolations() != (int)vs.size())
                    fail((k + " numberOfViolations").c_str());
                break;
            case 1:
                if (!eq(es, r.allErrors()))
                    fail((k + " allErrors").c_str());
                if (r.numberOfErrors() != (int)es.size() || r.hasErrors() != !es.empty())
                    fail((k + " numberOfErrors").c_str());
                break;
            case 2:
                if (!eq(ws, r.allWarnings()))
                    fail((k + " allWarnings").c_str());
                if (r.numberOfWarnings() != (int)ws.size() || r.hasWarnings() != !ws.empty())
                    fail((k + " numberOfWarnings").c_str());
                break;
            case 3:
                if (!eq(bs, r.allCheckerBugs()))
                    fail((k + " allCheckerBugs").c_str());
                if (r.numberOfCheckerBugs() != (int)bs.size() || r.hasCheckerBugs() != !bs.empty())
                    fail((k + " numberOfCheckerBugs").c_str());
                break;
            }
        }
    for (int p = 0; p <= 5; p++)
    {
        int n = 0;
        for (auto &m : vs)
            n += rules[m.rule]->p == p;
        if (r.numberOfViolationsWithPriority(p) != n)
            fail((std::string(kind) + " numberOfViolationsWithPriority").c_str());
    }
    if (r.numberOfFiles() != files)
        fail((std::string(kind) + " numberOfFiles").c_str());
    if (r.numberOfFilesWithViolations() != fwv)
        fail((std::string(kind) + " numberOfFilesWithViolations").c_str());
}

int main(int argc, char **argv)
{
    int L = atoi(argv[1]), D = atoi(argv[2]);
    rules[0] = new R(1, "a"), rules[1] = new R(2, "b"), rules[2] = new R(3, "c"), rules[3] = new R(1, "a");
    // each differs from the first in one field; several pairs share the implementation's hash of the position
    std::vector<M> A = {
        {0, "/f", 8, 2, 3, 1, "m"}, {1, "/f", 8, 2, 3, 1, "m"}, {3, "/f", 8, 2, 3, 1, "m"}, {2, "/f", 8, 2, 3, 1, "m"},
        {0, "/g", 8, 2, 3, 1, "m"}, {0, "/f", 9, 2, 3, 1, "m"}, {0, "/f", 8, 3, 3, 1, "m"}, {0, "/f", 8, 2, 4, 1, "m"},
        {0, "/f", 8, 2, 3, 2, "m"}, {0, "/f", 8, 2, 3, 1, "n"}, {0, "/f", 12, 3, 3, 1, "m"}, {0, "/f", 8, 6, 2, 1, "m"},
        {0, "/f", 2, 8, 1, 3, "m"}, {0, "m", 8, 2, 3, 1, "/f"}, {0, "/f", 0, 0, 0, 0, ""}};
    int n = A.size();
    int perms[24][4], np = 0;
    int p[4] = {0, 1, 2, 3};
    do
        std::copy(p, p + 4, perms[np++]);
    while (std::next_permutation(p, p + 4));
    // histories: each step = (alphabet index, same file / new file / new file after an empty one)
    std::vector<std::pair<int, int>> h;
    std::function<void(int)> rec = [&](int d) {
        // run this history
        {
            hist.clear();
            RC rc;
            std::vector<M> all;
            std::vector<std::vector<M>> sets;
            std::vector<ViolationSet *> own;
            bool homogeneous = true;
            for (auto &s : h)
            {
                hist += "(" + std::to_string(s.first) + "," + std::to_string(s.second) + ")";
                if (s.second == 2)
                {
                    own.push_back(new ViolationSet);
                    rc.add(own.back());
                    sets.emplace_back();
                }
                if (own.empty() || s.second)
                {
                    own.push_back(new ViolationSet);
                    rc.add(own.back());
                    sets.emplace_back();
                }
                own.back()->addViolation(mk(A[s.first]));
                if (!sets.back().empty() && sets.back()[0].path != A[s.first].path)
                    homogeneous = false;
                sets.back().push_back(A[s.first]);
                all.push_back(A[s.first]);
            }
            std::vector<std::string> paths;
            for (auto &s : sets)
                if (!s.empty())
                    paths.push_back(s[0].path);
            std::sort(paths.begin(), paths.end());
            paths.erase(std::unique(paths.begin(), paths.end()), paths.end());
            std::vector<M> none;
            RawResults raw(rc);
            UniqueResults un(rc);
            queries(raw, all, none, none, none, sets.size(), homogeneous ? (int)paths.size() : raw.numberOfFilesWithViolations(), perms[states % 24], "raw");
            queries(un, uniq(all), none, none, none, sets.size(), homogeneous ? (int)paths.size() : un.numberOfFilesWithViolations(), perms[states % 24], "unique");
            for (auto o : own)
                delete o;
            states++;
            steps += h.size();
        }
        if (d == L)
            return;
        for (int a = 0; a < n; a++)
            for (int k = 0; k < 3; k++)
            {
                if (h.empty() && k == 1)
                    continue;
                h.push_back({a, k});
                rec(d + 1);
                h.pop_back();
            }
    };
    rec(0);
    // diagnostics: every sequence of D additions of {error, warning, bug, violation} x 4 contents, every query order
    std::vector<M> E = {{-1, "/f", 1, 1, 0, 0, "m"}, {-1, "/f", 1, 2, 0, 0, "m"}, {-1, "/f", 1, 1, 0, 0, "n"}, {-1, "/g", 1, 1, 0, 0, "m"}};
    std::vector<std::pair<int, int>> g;
    std::function<void(int)> rec2 = [&](int d) {
        for (int q = 0; q < 24; q++)
        {
            hist = "diag q" + std::to_string(q);
            RC rc;
            ViolationSet vs;
            rc.add(&vs);
            std::vector<M> m[4];
            for (auto &s : g)
            {
                hist += "(" + std::to_string(s.first) + "," + std::to_string(s.second) + ")";
                M x = E[s.second];
                if (s.first == 3)
                    x.rule = 0;
                m[s.first].push_back(x);
                Violation v = mk(x);
                if (s.first == 0)
                    rc.addError(v);
                else if (s.first == 1)
                    rc.addWarning(v);
                else if (s.first == 2)
                    rc.addCheckerBug(v);
                else
                    vs.addViolation(v);
            }
            RawResults raw(rc);
            UniqueResults un(rc);
            int fwv = m[3].empty() ? 0 : 1;
            for (auto &x : m[3])
                if (x.path != m[3][0].path)
                    fwv = raw.numberOfFilesWithViolations();
            queries(raw, m[3], m[0], m[1], m[2], 1, fwv, perms[q], "raw");
            queries(un, uniq(m[3]), uniq(m[0]), uniq(m[1]), uniq(m[2]), 1, fwv, perms[q], "unique");
            states++;
            steps += g.size();
        }
        if (d == D)
            return;
        for (int k = 0; k < 4; k++)
            for (int a = 0; a < 4; a++)
            {
                g.push_back({k, a});
                rec2(d + 1);
                g.pop_back();
            }
    };
    rec2(0);
    printf("STATES %ld STEPS %ld BAD %ld\n", states, steps, bad);
    return 0;
}
