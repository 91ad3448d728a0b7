// irscan: effects of everything reachable from the functions named api_* of a bitcode file.
//
// Output: JSON on stdout: the number of functions, instructions and calls looked at, and a
// list of effects (calls of functions that are not part of the module, indirect calls, exception
// handling, accesses to mutable globals, growing or recursive stack use), each with the function,
// the source position and a call path from the root.  Nothing is executed.
#include <llvm/ADT/SCCIterator.h>
#include <llvm/Analysis/CallGraph.h>
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <map>
#include <queue>
#include <set>

using namespace llvm;

static std::string where(const Instruction& I)
{
    const DILocation* L = I.getDebugLoc().get();
    if (!L) return "?";
    SmallString<256> p(L->getDirectory());
    StringRef f = L->getFilename();
    return (f.starts_with("/") ? f.str() : (p + "/" + f).str()) + ":" + std::to_string(L->getLine());
}
static std::string home(const Function& F)
{
    auto* sp = F.getSubprogram();
    if (!sp) return "?";
    StringRef f = sp->getFilename();
    return (f.starts_with("/") ? f.str() : (sp->getDirectory() + "/" + f).str()) + ":" + std::to_string(sp->getLine());
}
static std::string name(const Function& F)
{
    std::string d = demangle(F.getName().str());
    return d.size() > 160 ? d.substr(0, 160) + "..." : d;
}

int main(int argc, char** argv)
{
    LLVMContext C;
    SMDiagnostic err;
    auto M = parseIRFile(argv[1], err, C);
    if (!M)
    {
        err.print("irscan", errs());
        return 2;
    }
    std::map<const Function*, const Instruction*> from; // reached through
    std::queue<const Function*> q;
    int roots = 0;
    for (auto& F : *M)
        if (!F.isDeclaration() && F.getName().starts_with("api_"))
        {
            from[&F] = nullptr;
            q.push(&F);
            ++roots;
        }
    json::Array effects;
    size_t instructions = 0, calls = 0, globalsSeen = 0, stores = 0;
    std::set<std::string> externals;
    auto path = [&](const Function* F) {
        json::Array a;
        for (int i = 0; F && i < 12; ++i)
        {
            const Instruction* I = from[F];
            if (!I) break;
            a.push_back(where(*I));
            F = I->getFunction();
        }
        return a;
    };
    auto report = [&](const std::string& kind, const std::string& what, const Function& F, const Instruction* I) {
        effects.push_back(json::Object {{"kind", kind}, {"what", what}, {"function", name(F)}, {"home", home(F)},
                                        {"at", I ? where(*I) : home(F)}, {"path", path(&F)}});
    };
    std::map<const Function*, std::set<const Function*>> edges;
    while (!q.empty())
    {
        const Function* F = q.front();
        q.pop();
        for (auto& I : *F)
            for (auto& J : I)
            {
                ++instructions;
                if (auto* a = dyn_cast<AllocaInst>(&J); a && !a->isStaticAlloca()) report("stack", "storage of variable size", *F, &J);
                if (isa<ResumeInst>(J) || isa<LandingPadInst>(J)) continue; // only matter if something throws
                if (isa<FenceInst>(J) || isa<AtomicRMWInst>(J) || isa<AtomicCmpXchgInst>(J)) report("state", "atomic access", *F, &J);
                const Value* ptr = nullptr;
                if (auto* l = dyn_cast<LoadInst>(&J)) ptr = l->getPointerOperand();
                if (auto* s = dyn_cast<StoreInst>(&J))
                {
                    ptr = s->getPointerOperand();
                    ++stores;
                }
                if (auto* l = dyn_cast<LoadInst>(&J); l && l->isAtomic()) report("state", "atomic access", *F, &J);
                if (ptr)
                {
                    const Value* o = getUnderlyingObject(ptr, 0);
                    if (auto* g = dyn_cast<GlobalVariable>(o))
                    {
                        ++globalsSeen;
                        if (isa<StoreInst>(J)) report("state", "writes the global " + demangle(g->getName().str()), *F, &J);
                        else if (!g->isConstant()) report("state", "reads the mutable global " + demangle(g->getName().str()), *F, &J);
                    }
                }
                else
                    for (const Use& u : J.operands())
                    {
                        if (!u->getType()->isPointerTy()) continue;
                        const Value* o = getUnderlyingObject(u.get(), 0);
                        if (auto* g = dyn_cast<GlobalVariable>(o); g && !g->isConstant() && !isa<CallBase>(J))
                            report("state", "uses the mutable global " + demangle(g->getName().str()), *F, &J);
                    }
                auto* cb = dyn_cast<CallBase>(&J);
                if (!cb) continue;
                ++calls;
                for (const Use& u : cb->args())
                    if (u->getType()->isPointerTy())
                        if (auto* g = dyn_cast<GlobalVariable>(getUnderlyingObject(u.get(), 0)); g && !g->isConstant())
                            report("state", "passes the mutable global " + demangle(g->getName().str()), *F, &J);
                if (cb->isInlineAsm())
                {
                    if (!cast<InlineAsm>(cb->getCalledOperand())->getAsmString().empty()) report("asm", "inline assembly", *F, &J);
                    continue;
                }
                const Function* callee = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
                if (!callee)
                {
                    report("indirect", "call through a pointer", *F, &J);
                    continue;
                }
                if (callee->isIntrinsic())
                {
                    auto id = callee->getIntrinsicID();
                    if (id == Intrinsic::threadlocal_address) report("state", "thread-local variable", *F, &J);
                    if (id == Intrinsic::stacksave) report("stack", "storage of variable size", *F, &J);
                    continue;
                }
                edges[F].insert(callee);
                if (callee->isDeclaration())
                {
                    externals.insert(callee->getName().str());
                    report("external", callee->getName().str(), *F, &J);
                    continue;
                }
                if (from.emplace(callee, &J).second) q.push(callee);
            }
    }
    // recursion: a function that can reach itself
    std::map<const Function*, int> state;
    std::vector<const Function*> stack;
    std::function<void(const Function*)> dfs = [&](const Function* F) {
        state[F] = 1;
        stack.push_back(F);
        for (auto* G : edges[F])
        {
            if (state[G] == 1) report("recursion", "calls itself through " + name(*G), *F, nullptr);
            else if (state[G] == 0 && !G->isDeclaration()) dfs(G);
        }
        stack.pop_back();
        state[F] = 2;
    };
    for (auto& kv : from)
        if (state[kv.first] == 0) dfs(kv.first);
    if (auto* ctors = M->getGlobalVariable("llvm.global_ctors"); ctors && ctors->hasInitializer())
        if (auto* arr = dyn_cast<ConstantArray>(ctors->getInitializer()))
            for (auto& op : arr->operands())
                if (auto* st = dyn_cast<ConstantStruct>(op))
                    if (auto* f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) report("state", "initialised before main", *f, nullptr);
    json::Array fns;
    std::set<std::string> homes;
    for (auto& kv : from) homes.insert(home(*kv.first));
    for (auto& h : homes) fns.push_back(h);
    json::Object out {{"roots", roots}, {"functions", (int64_t)from.size()}, {"instructions", (int64_t)instructions}, {"calls", (int64_t)calls},
                      {"stores", (int64_t)stores}, {"globals_read", (int64_t)globalsSeen}, {"effects", std::move(effects)}, {"definitions", std::move(fns)}};
    outs() << formatv("{0}\n", json::Value(std::move(out)));
    return 0;
}
