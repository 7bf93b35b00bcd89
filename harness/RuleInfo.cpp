// Loads rule libraries and prints what the rules they register say about themselves.
#include <dlfcn.h>
#include <cstdio>
#include "oclint/RuleBase.h"
#include "oclint/RuleSet.h"
int main(int argc, char **argv)
{
    for (int i = 1; i < argc; ++i)
    {
        int before = oclint::RuleSet::numberOfRules();
        if (!dlopen(argv[i], RTLD_LAZY | RTLD_GLOBAL))
        {
            fprintf(stderr, "%s\n", dlerror());
            return 1;
        }
        for (int k = before; k < oclint::RuleSet::numberOfRules(); ++k)
        {
            oclint::RuleBase *r = oclint::RuleSet::getRuleAtIndex(k);
            printf("%s\t%s\t%d\t%s\t%s\t%s\n", argv[i], r->name().c_str(), r->priority(), r->category().c_str(), r->identifier().c_str(), r->attributeName().c_str());
        }
    }
    return 0;
}
