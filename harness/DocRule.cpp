// Rules whose metadata come from the file named by MC_DOC: one record per rule, fields separated by \x1f, records by \x1e:
// name, category, since, description, example, suppress (0/1), attribute (- for the default), additional, file (- default), then threshold key/text pairs.
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>

#include "oclint/RuleBase.h"
#include "oclint/RuleSet.h"

using namespace oclint;

namespace
{
class DocRule : public RuleBase
{
    std::vector<std::string> _f;
public:
    explicit DocRule(const std::vector<std::string> &f) : _f(f) {}
    virtual void apply() override {}
    virtual const std::string name() const override { return _f[0]; }
    virtual int priority() const override { return 3; }
    virtual const std::string category() const override { return _f[1]; }
    virtual const std::string since() const override { return _f[2]; }
    virtual const std::string description() const override { return _f[3]; }
    virtual const std::string example() const override { return _f[4]; }
    virtual bool enableSuppress() const override { return _f[5] == "1"; }
    virtual const std::string attributeName() const override { return _f[6] == "-" ? RuleBase::attributeName() : _f[6]; }
    virtual const std::string additionalDocument() const override { return _f[7]; }
    virtual const std::string fileName() const override { return _f[8] == "-" ? RuleBase::fileName() : _f[8]; }
    virtual const std::map<std::string, std::string> thresholds() const override
    {
        std::map<std::string, std::string> m;
        for (size_t i = 9; i + 1 < _f.size(); i += 2)
            m[_f[i]] = _f[i + 1];
        return m;
    }
};

struct Loader
{
    Loader()
    {
        const char *p = getenv("MC_DOC");
        if (!p)
            return;
        std::ifstream in(p, std::ios::binary);
        std::stringstream ss;
        ss << in.rdbuf();
        std::string all = ss.str();
        size_t i = 0;
        while (i < all.size())
        {
            size_t e = all.find('\x1e', i);
            std::string rec = all.substr(i, e - i);
            std::vector<std::string> f;
            size_t k = 0;
            for (;;)
            {
                size_t u = rec.find('\x1f', k);
                f.push_back(rec.substr(k, u == std::string::npos ? u : u - k));
                if (u == std::string::npos)
                    break;
                k = u + 1;
            }
            new RuleSet(new DocRule(f));
            i = e + 1;
        }
    }
};
Loader loader;
}
