// Probe rules of the verification harness: for every set of languages and every set of CUDA function kinds a visitor rule,
// and for every set of languages a matcher rule, that report every function definition they are shown.
#include <clang/AST/AST.h>
#include <clang/ASTMatchers/ASTMatchers.h>
#include "oclint/AbstractASTMatcherRule.h"
#include "oclint/AbstractASTVisitorRule.h"
#include "oclint/RuleSet.h"
using namespace oclint;
using namespace clang::ast_matchers;
#ifdef DOCGEN
#define DOCS const std::string since() const override { return ""; } const std::string description() const override { return ""; } const std::string example() const override { return ""; } \
    const std::string fileName() const override { return ""; }
#else
#define DOCS
#endif
namespace {
std::string label(const char *k, unsigned l, unsigned c) { return std::string(k) + char('0' + l) + char('0' + c); }
class ProbeVisitorRule : public AbstractASTVisitorRule<ProbeVisitorRule>
{
    unsigned _l, _c;
public:
    ProbeVisitorRule(unsigned l, unsigned c) : _l(l), _c(c) {}
    const std::string name() const override { return label("v", _l, _c); }
    const std::string category() const override { return "probe"; }
    int priority() const override { return 3; }
    unsigned int supportedLanguages() const override { return _l; }
    unsigned int supportedCUDAFunctionAttrs() const override { return _c; }
    DOCS
    bool VisitFunctionDecl(clang::FunctionDecl *d)
    {
        if (d->isThisDeclarationADefinition())
            addViolation(d, this);
        return true;
    }
};
class ProbeMatcherRule : public AbstractASTMatcherRule
{
    unsigned _l;
public:
    explicit ProbeMatcherRule(unsigned l) : _l(l) {}
    const std::string name() const override { return label("m", _l, 1); }
    const std::string category() const override { return "probe"; }
    int priority() const override { return 3; }
    unsigned int supportedLanguages() const override { return _l; }
    DOCS
    void setUpMatcher() override { addMatcher(functionDecl(isDefinition()).bind("f")); }
    void callback(const MatchFinder::MatchResult &r) override { addViolation(r.Nodes.getNodeAs<clang::FunctionDecl>("f"), this); }
};
struct Register
{
    Register()
    {
        for (unsigned l = 0; l < 8; l++)
        {
            for (unsigned c = 1; c < 4; c++)
                new RuleSet(new ProbeVisitorRule(l, c));
            new RuleSet(new ProbeMatcherRule(l));
        }
    }
} reg;
}
