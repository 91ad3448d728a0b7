// astscan: a clang plugin that walks the instantiated functions of the library and prints, as JSON
// on stdout, what a constant expression could not evaluate: functions that are not constexpr,
// calls of such functions, reinterpreting casts, goto, assembly, throw, static or thread-local
// variables, volatile objects - and everything that lets compile time and run time differ
// (if consteval, std::is_constant_evaluated, __builtin_constant_p).
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/Basic/Builtins.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendPluginRegistry.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <set>

using namespace clang;
using namespace llvm;

static std::string Prefix; // only functions of files below this directory

struct Visitor : RecursiveASTVisitor<Visitor>
{
    ASTContext& C;
    json::Array out;
    std::set<std::string> functions, seen;
    size_t statements = 0, bodies = 0;
    const FunctionDecl* cur = nullptr;

    explicit Visitor(ASTContext& c) : C(c) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return false; } // visited as call operators

    std::string pos(SourceLocation l)
    {
        auto p = C.getSourceManager().getPresumedLoc(C.getSourceManager().getExpansionLoc(l));
        if (p.isInvalid()) return "?";
        return std::string(p.getFilename()) + ":" + std::to_string(p.getLine());
    }
    void report(const char* kind, const std::string& what, SourceLocation at)
    {
        std::string k = std::string(kind) + what + pos(at);
        if (!seen.insert(k).second) return;
        out.push_back(json::Object {{"kind", kind}, {"what", what}, {"at", pos(at)}, {"function", cur ? cur->getQualifiedNameAsString() : ""},
                                    {"home", cur ? pos(cur->getLocation()) : "?"}});
    }
    static bool constant(const FunctionDecl* F)
    {
        if (F->isConstexpr()) return true;
        if (unsigned id = F->getBuiltinID())
        {
            auto& B = F->getASTContext().BuiltinInfo;
            return StringRef(F->getName()).starts_with("__builtin_") && (B.isConst(id) || B.isConstantEvaluated(id));
        }
        if (auto* D = dyn_cast<CXXDestructorDecl>(F)) return D->isTrivial() || D->isConstexpr();
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) return M->isTrivial();
        return false;
    }
    struct Body : RecursiveASTVisitor<Body>
    {
        Visitor& V;
        explicit Body(Visitor& v) : V(v) {}
        bool shouldVisitImplicitCode() const { return true; }
        bool shouldVisitLambdaBody() const { return false; }
        bool TraverseDecltypeTypeLoc(DecltypeTypeLoc) { return true; }
        bool TraverseUnaryExprOrTypeTraitExpr(UnaryExprOrTypeTraitExpr*) { return true; }
        bool TraverseCXXNoexceptExpr(CXXNoexceptExpr*) { return true; }
        bool TraverseConstantExpr(ConstantExpr*) { return true; } // already evaluated
        bool TraverseStaticAssertDecl(StaticAssertDecl*) { return true; }
        bool TraverseIfStmt(IfStmt* S)
        {
            if (S->isConsteval()) V.report("differs", "if consteval", S->getIfLoc());
            if (S->isConstexpr())
            {
                // only the branch that was chosen
                if (auto k = S->getNondiscardedCase(V.C))
                {
                    if (*k) return TraverseStmt(*k);
                    return true;
                }
            }
            return RecursiveASTVisitor::TraverseIfStmt(S);
        }
        bool VisitStmt(Stmt*)
        {
            ++V.statements;
            return true;
        }
        bool VisitCallExpr(CallExpr* E)
        {
            const FunctionDecl* F = E->getDirectCallee();
            if (!F)
            {
                return true;
            }
            std::string n = F->getQualifiedNameAsString();
            if (n == "std::is_constant_evaluated" || n == "__builtin_is_constant_evaluated" || n == "__builtin_constant_p")
                V.report("differs", n, E->getExprLoc());
            else if (!constant(F))
                V.report("call", n, E->getExprLoc());
            return true;
        }
        bool VisitCXXConstructExpr(CXXConstructExpr* E)
        {
            if (!E->getConstructor()->isConstexpr() && !E->getConstructor()->isTrivial())
                V.report("call", E->getConstructor()->getQualifiedNameAsString(), E->getExprLoc());
            return true;
        }
        bool VisitCastExpr(CastExpr* E)
        {
            switch (E->getCastKind())
            {
                case CK_IntegralToPointer:
                case CK_PointerToIntegral:
                case CK_LValueBitCast:
                case CK_ReinterpretMemberPointer: V.report("cast", E->getCastKindName(), E->getExprLoc()); break;
                case CK_BitCast:
                    if (isa<ExplicitCastExpr>(E)) V.report("cast", E->getCastKindName(), E->getExprLoc());
                    break;
                default: break;
            }
            return true;
        }
        bool VisitGotoStmt(GotoStmt* S)
        {
            V.report("construct", "goto", S->getGotoLoc());
            return true;
        }
        bool VisitAsmStmt(AsmStmt* S)
        {
            V.report("construct", "assembly", S->getAsmLoc());
            return true;
        }
        bool VisitCXXThrowExpr(CXXThrowExpr* S)
        {
            V.report("construct", "throw", S->getThrowLoc());
            return true;
        }
        bool VisitVarDecl(VarDecl* D)
        {
            if (!D->isLocalVarDecl()) return true;
            if ((D->isStaticLocal() && !D->isConstexpr()) || D->getTLSKind() != VarDecl::TLS_None)
                V.report("construct", "static variable " + D->getNameAsString(), D->getLocation());
            if (D->getType().isVolatileQualified()) V.report("construct", "volatile variable " + D->getNameAsString(), D->getLocation());
            if (!D->getType()->isDependentType() && !D->getType()->isReferenceType() && !D->getType()->isLiteralType(V.C))
                V.report("construct", "variable " + D->getNameAsString() + " of a type without constant evaluation", D->getLocation());
            return true;
        }
        bool VisitDeclRefExpr(DeclRefExpr* E)
        {
            if (auto* D = dyn_cast<VarDecl>(E->getDecl()); D && D->hasGlobalStorage() && !D->isStaticLocal() && !D->isUsableInConstantExpressions(V.C)
                                                           && !D->getType().isConstQualified() && !D->getType()->isReferenceType())
                V.report("construct", "mutable global " + D->getNameAsString(), E->getLocation());
            return true;
        }
    };

    bool VisitFunctionDecl(FunctionDecl* F)
    {
        if (F->isDependentContext() || !F->isThisDeclarationADefinition() || !F->doesThisDeclarationHaveABody()) return true;
        if (F->isDefaulted() || F->isDeleted()) return true;
        // only named for its type (decltype), or not at all: never evaluated
        if (!F->isUsed()) return true;
        std::string p = pos(F->getLocation());
        if (p.rfind(Prefix, 0) != 0) return true;
        cur = F;
        ++bodies;
        functions.insert(p);
        if (!constant(F)) report("function", F->getQualifiedNameAsString(), F->getLocation());
        Body B(*this);
        if (auto* K = dyn_cast<CXXConstructorDecl>(F))
            for (auto* I : K->inits())
                if (I->getInit()) B.TraverseStmt(I->getInit());
        B.TraverseStmt(F->getBody());
        cur = nullptr;
        return true;
    }
};

struct Consumer : ASTConsumer
{
    void HandleTranslationUnit(ASTContext& C) override
    {
        if (C.getDiagnostics().hasErrorOccurred()) return;
        Visitor V(C);
        V.TraverseDecl(C.getTranslationUnitDecl());
        json::Array fns;
        for (auto& f : V.functions) fns.push_back(f);
        outs() << formatv("{0}\n", json::Value(json::Object {{"bodies", (int64_t)V.bodies}, {"statements", (int64_t)V.statements},
                                                               {"definitions", std::move(fns)}, {"findings", std::move(V.out)}}));
        outs().flush();
    }
};
struct Action : PluginASTAction
{
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, StringRef) override { return std::make_unique<Consumer>(); }
    bool ParseArgs(const CompilerInstance&, const std::vector<std::string>& args) override
    {
        if (!args.empty()) Prefix = args[0];
        return true;
    }
};
static FrontendPluginRegistry::Add<Action> X("astscan", "constructs without constant evaluation");
