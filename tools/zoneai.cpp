// zoneai: abstract interpreter over LLVM IR (difference-bound matrices + byte sets + flag partitioning).
//
// Input : a bitcode file with entry functions named sa_entry_*.
// Output: JSON on stdout, one record per entry: every obligation found (reads of the input
//         buffer, sa_check() calls, calls to unmodelled functions), whether it is discharged,
//         and the source location chain of each.
//
// Nothing is executed: every entry function is inlined into one control-flow graph and a
// fixpoint over that graph is computed in an abstract domain; see DESIGN.md, "zoneai".
#include <llvm/Analysis/AssumptionCache.h>
#include <llvm/Analysis/ConstantFolding.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/IR/CFG.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/PassManager.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/AlwaysInliner.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/InstCombine/InstCombine.h>
#include <llvm/Transforms/Scalar/EarlyCSE.h>
#include <llvm/Transforms/Scalar/ADCE.h>
#include <llvm/Transforms/Scalar/LoopRotation.h>
#include <llvm/Transforms/Scalar/LoopUnrollPass.h>
#include <llvm/Transforms/Scalar/SCCP.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/Transforms/Utils/LoopSimplify.h>
#include <llvm/Transforms/Utils/LCSSA.h>
#include <algorithm>
#include <array>
#include <bitset>
#include <chrono>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <queue>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

static const int64_t INF = (int64_t)1 << 52;
static const int K = 4;   // input bytes tracked individually
static const int KP = K + 1; // and the one at sa_pivot(), wherever that is
static int OptMaxStates = 3000;
static bool OptExact = false; // keep all integer constants apart (bounded mode)
static int OptDepth = 0; // exact mode on inputs of any length: follow this many back edges
static long OptLen = -1;      // bounded mode: the length of the input
static int OptDelay = 3; // joins at a loop header before widening
static long OptSmall = -1; // keep the integer constants 0..N apart
static bool OptArith = false; // positions formed outside the input are obligations too
static bool OptStates = false; // debugging: print the states at every block
static double OptBudget = 120; // seconds per entry

// ------------------------------------------------------------------ DBM
struct DBM
{
    int n = 0;
    std::vector<int64_t> m;
    int64_t& at(int i, int j) { return m[i * n + j]; }
    int64_t at(int i, int j) const { return m[i * n + j]; }
    void init(int k)
    {
        n = k;
        m.assign(n * n, INF);
        for (int i = 0; i < n; ++i) at(i, i) = 0;
    }
    int addDim()
    {
        std::vector<int64_t> r((n + 1) * (n + 1), INF);
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j) r[i * (n + 1) + j] = m[i * n + j];
        ++n;
        r[(n - 1) * n + (n - 1)] = 0;
        m.swap(r);
        return n - 1;
    }
    static int64_t plus(int64_t a, int64_t b)
    {
        if (a >= INF || b >= INF) return INF;
        return a + b;
    }
    bool close()
    {
        for (int k = 0; k < n; ++k)
            for (int i = 0; i < n; ++i)
            {
                int64_t ik = at(i, k);
                if (ik >= INF) continue;
                for (int j = 0; j < n; ++j)
                {
                    int64_t v = plus(ik, at(k, j));
                    if (v < at(i, j)) at(i, j) = v;
                }
            }
        for (int i = 0; i < n; ++i)
            if (at(i, i) < 0) return false;
        return true;
    }
    // v_i - v_j <= c, keeping the matrix closed; false when empty
    bool add(int i, int j, int64_t c)
    {
        if (i == j) return c >= 0;
        if (c >= at(i, j)) return true;
        if (plus(at(j, i), c) < 0) return false;
        at(i, j) = c;
        for (int p = 0; p < n; ++p)
        {
            int64_t pi = at(p, i);
            if (pi >= INF) continue;
            int64_t x = pi + c;
            for (int q = 0; q < n; ++q)
            {
                int64_t v = plus(x, at(j, q));
                if (v < at(p, q)) at(p, q) = v;
            }
        }
        return true;
    }
};

// ------------------------------------------------------------------ abstract values
using Vec = std::array<int64_t, 256>;
struct AVal
{
    enum Kind { Top, Num, Obj, Byte, ObjByte } k = Top;
    int a = 0, b = 0;      // Num: v_a - v_b + c
    int64_t c = 0;         // Num / Obj offset
    const Value* base = nullptr; // Obj / ObjByte (null pointer: nullptr)
    int kidx = 0;          // Byte: which input byte
    std::shared_ptr<const Vec> vec;
    static AVal top() { return {}; }
    static AVal num(int a, int64_t c = 0)
    {
        AVal r;
        r.k = Num;
        r.a = a;
        r.c = c;
        return r;
    }
    static AVal cst(int64_t c) { return num(0, c); }
    static AVal obj(const Value* b, int64_t c)
    {
        AVal r;
        r.k    = Obj;
        r.base = b;
        r.c    = c;
        return r;
    }
    static AVal byte(int k, Vec v)
    {
        AVal r;
        r.k    = Byte;
        r.kidx = k;
        r.vec  = std::make_shared<const Vec>(v);
        return r;
    }
    bool isConst() const { return k == Num && a == b; }
};

struct Cell
{
    AVal v;
    unsigned size;
    unsigned width;
};
struct Range
{
    const Value* base;
    int64_t lo, hi;
    int byte;
    bool operator<(const Range& o) const { return std::tie(base, lo, hi, byte) < std::tie(o.base, o.lo, o.hi, o.byte); }
};

struct State
{
    DBM M;
    std::map<const Value*, AVal> env;
    std::map<std::pair<const Value*, int64_t>, Cell> mem;
    std::set<Range> ranges;
    std::array<std::bitset<256>, KP> S;
    int side   = 0;     // where the last byte read lies relative to sa_pivot()
    bool loose = false; // reached through a decision the domain could not express
    int depth  = 0;     // back edges taken so far (--depth)
};

static unsigned widthOf(Type* t, const DataLayout& DL)
{
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    return 0;
}

struct LocChain
{
    std::string file;
    unsigned line = 0;
    std::string func;
};
static std::vector<LocChain> chainOf(const Instruction* I)
{
    std::vector<LocChain> r;
    const DILocation* L = I->getDebugLoc().get();
    while (L)
    {
        LocChain c;
        SmallString<256> p(L->getDirectory());
        StringRef f = L->getFilename();
        if (f.starts_with("/"))
            c.file = f.str();
        else
            c.file = (p + "/" + f).str();
        c.line = L->getLine();
        if (auto* sp = L->getScope()->getSubprogram()) c.func = sp->getName().str();
        r.push_back(c);
        L = L->getInlinedAt();
    }
    return r;
}

struct Obligation
{
    std::string kind, label;
    const Instruction* I = nullptr;
    bool reached = false;
    bool failed  = false;
    unsigned states = 0, badStates = 0, looseStates = 0;
    std::string detail;
};

// ------------------------------------------------------------------ analysis of one function
struct Analyzer
{
    Function& F;
    const DataLayout& DL;
    std::map<const BasicBlock*, int> rpo;
    std::vector<BasicBlock*> order;
    std::set<const BasicBlock*> headers;
    std::map<const BasicBlock*, std::vector<const Value*>> liveIn;
    std::vector<int64_t> thresholds;
    std::set<const Value*> flags; // integers that only ever hold constants: control flags
    bool checking = false;
    std::map<std::pair<const Instruction*, std::string>, Obligation> obl;
    std::map<std::string, std::array<std::bitset<256>, KP>> byteRep;
    std::map<std::string, std::pair<int64_t, int64_t>> valRep;
    std::set<std::string> unknownCalls;
    int ghosts = 0;
    int pivot  = 0; // the dimension of sa_pivot(), 0 when it is not called
    size_t maxDisj = 0, execs = 0;
    bool blown = false;
    std::string blownWhy;
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();

    explicit Analyzer(Function& f) : F(f), DL(f.getParent()->getDataLayout()) {}

    bool timeUp()
    {
        if (blown) return true;
        double s = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
        if (s > OptBudget)
        {
            blown    = true;
            blownWhy = "time budget";
        }
        return blown;
    }

    // ---- numeric helpers
    // hi(x - y)
    static void terms(const AVal& x, const AVal& y, std::vector<int>& P, std::vector<int>& N, int64_t& c)
    {
        P = {x.a, y.b};
        N = {x.b, y.a};
        c = x.c - y.c;
        for (auto it = P.begin(); it != P.end();)
        {
            auto f = std::find(N.begin(), N.end(), *it);
            if (f != N.end())
            {
                N.erase(f);
                it = P.erase(it);
            }
            else
                ++it;
        }
    }
    static int64_t hiPN(const State& s, const std::vector<int>& P, const std::vector<int>& N)
    {
        if (P.empty()) return 0;
        if (P.size() == 1) return s.M.at(P[0], N[0]);
        int64_t v1 = DBM::plus(s.M.at(P[0], N[0]), s.M.at(P[1], N[1]));
        int64_t v2 = DBM::plus(s.M.at(P[0], N[1]), s.M.at(P[1], N[0]));
        return std::min(v1, v2);
    }
    static int64_t hiDiff(const State& s, const AVal& x, const AVal& y)
    {
        std::vector<int> P, N;
        int64_t c;
        terms(x, y, P, N, c);
        int64_t h = hiPN(s, P, N);
        return h >= INF ? INF : h + c;
    }
    static int64_t hi(const State& s, const AVal& x) { return hiDiff(s, x, AVal::cst(0)); }
    static int64_t lo(const State& s, const AVal& x)
    {
        int64_t h = hiDiff(s, AVal::cst(0), x);
        return h >= INF ? -INF : -h;
    }
    // constrain x - y <= k; false when infeasible
    static bool assumeLe(State& s, const AVal& x, const AVal& y, int64_t k)
    {
        std::vector<int> P, N;
        int64_t c;
        terms(x, y, P, N, c);
        for (auto it = P.begin(); it != P.end();) // what lies a constant distance apart cancels
        {
            auto f = std::find_if(N.begin(), N.end(), [&](int n) { return n != *it && s.M.at(*it, n) < INF && s.M.at(*it, n) == -s.M.at(n, *it); });
            if (f != N.end() && P.size() > 1)
            {
                c += s.M.at(*it, *f);
                N.erase(f);
                it = P.erase(it);
            }
            else
                ++it;
        }
        if (P.empty()) return c <= k;
        if (P.size() == 1) return s.M.add(P[0], N[0], k - c);
        int64_t h = hiPN(s, N, P); // -(x-y-c) upper bound => lower bound of x-y-c
        if (h < INF && -h + c > k) return false;
        h = hiPN(s, P, N);
        if (h >= INF || h + c > k) s.loose = true; // a relation the zones cannot hold
        return true;
    }
    static AVal fresh(State& s, int64_t l, int64_t h, bool loose = true)
    {
        int d = s.M.addDim();
        if (loose) s.loose = true;
        if (h < INF) s.M.add(d, 0, h);
        if (l > -INF) s.M.add(0, d, -l);
        return AVal::num(d);
    }
    static std::optional<int64_t> constOf(const State& s, const AVal& x)
    {
        if (x.k != AVal::Num) return std::nullopt;
        if (x.a == x.b) return x.c;
        int64_t h = hi(s, x), l = lo(s, x);
        if (h == l) return h;
        return std::nullopt;
    }
    static AVal linAdd(State& s, const AVal& x, const AVal& y, bool sub)
    {
        // x + y or x - y
        AVal yy = y;
        if (sub)
        {
            std::swap(yy.a, yy.b);
            yy.c = -yy.c;
        }
        std::vector<int> P = {x.a, yy.a}, N = {x.b, yy.b};
        int64_t extra = 0;
        for (auto it = P.begin(); it != P.end();)
        {
            auto f = std::find(N.begin(), N.end(), *it);
            if (f == N.end()) // a constant distance apart cancels too
                f = std::find_if(N.begin(), N.end(), [&](int n) { return s.M.at(*it, n) < INF && s.M.at(*it, n) == -s.M.at(n, *it); });
            if (f != N.end())
            {
                if (*f != *it) extra += s.M.at(*it, *f);
                N.erase(f);
                it = P.erase(it);
            }
            else
                ++it;
        }
        AVal r;
        r.k = AVal::Num;
        r.c = x.c + yy.c + extra;
        if (P.empty()) return r;
        // drop zero dimensions
        if (P.size() == 1)
        {
            r.a = P[0];
            r.b = N[0];
            return r;
        }
        int64_t h = hiPN(s, P, N), l = hiPN(s, N, P);
        s.loose   = true;
        return fresh(s, l >= INF ? -INF : -l + r.c, h >= INF ? INF : h + r.c);
    }

    // ---- value lookup
    AVal constVal(const Constant* C)
    {
        if (auto* ci = dyn_cast<ConstantInt>(C))
        {
            if (ci->getBitWidth() <= 64)
                return AVal::cst(ci->getBitWidth() == 1 ? (int64_t)ci->getZExtValue() : ci->getSExtValue());
            return AVal::top();
        }
        if (isa<ConstantPointerNull>(C)) return AVal::obj(nullptr, 0);
        if (isa<UndefValue>(C)) return AVal::top();
        if (auto* gv = dyn_cast<GlobalValue>(C)) return AVal::obj(gv, 0);
        if (auto* ce = dyn_cast<ConstantExpr>(C))
        {
            if (ce->getType()->isPointerTy())
            {
                APInt off(64, 0);
                const Value* b = ce->stripAndAccumulateConstantOffsets(DL, off, true);
                if (isa<GlobalValue>(b)) return AVal::obj(b, off.getSExtValue());
                if (isa<ConstantPointerNull>(b)) return AVal::obj(nullptr, off.getSExtValue());
            }
            if (ce->getOpcode() == Instruction::PtrToInt) return constVal(ce->getOperand(0));
        }
        return AVal::top();
    }
    AVal get(State& s, const Value* v)
    {
        if (auto* c = dyn_cast<Constant>(v)) return constVal(c);
        auto it = s.env.find(v);
        if (it == s.env.end()) return AVal::top();
        return it->second;
    }
    // as a number: a Top integer becomes a fresh dimension with the range of its width
    AVal getNum(State& s, const Value* v)
    {
        AVal x = get(s, v);
        if (x.k == AVal::Top && v->getType()->isIntegerTy())
        {
            s.loose = true;
            unsigned w = widthOf(v->getType(), DL);
            if (w >= 64)
                x = fresh(s, -INF, INF);
            else
                x = fresh(s, -((int64_t)1 << (w - 1)), ((int64_t)1 << w) - 1);
            // an unknown whose representation (signed or unsigned) is open: ranges cover both
            if (!isa<Constant>(v)) s.env[v] = x;
        }
        return x;
    }
    std::optional<AVal> asUnsigned(State& s, AVal x, unsigned w)
    {
        if (x.k != AVal::Num) return std::nullopt;
        int64_t l = lo(s, x), h = hi(s, x);
        if (l >= 0 && (w >= 63 || h < ((int64_t)1 << w))) return x;
        if (w < 63 && h < 0 && l >= -((int64_t)1 << (w - 1)))
        {
            x.c += (int64_t)1 << w;
            return x;
        }
        return std::nullopt;
    }
    std::optional<AVal> asSigned(State& s, AVal x, unsigned w)
    {
        if (x.k != AVal::Num) return std::nullopt;
        int64_t l = lo(s, x), h = hi(s, x);
        if (w >= 64) return x;
        if (l >= -((int64_t)1 << (w - 1)) && h < ((int64_t)1 << (w - 1))) return x;
        if (l >= ((int64_t)1 << (w - 1)) && h < ((int64_t)1 << w))
        {
            x.c -= (int64_t)1 << w;
            return x;
        }
        return std::nullopt;
    }
    AVal fit(State& s, AVal x, unsigned w)
    {
        if (x.k != AVal::Num || w >= 64) return x;
        int64_t l = lo(s, x), h = hi(s, x);
        if (l >= -((int64_t)1 << (w - 1)) && h < ((int64_t)1 << w)) return x;
        if (l == h)
        {
            uint64_t u = (uint64_t)l & (((uint64_t)1 << w) - 1);
            return AVal::cst(SignExtend64(u, w));
        }
        return AVal::top();
    }
    static int64_t wrap(int64_t v, unsigned w)
    {
        if (w >= 64) return v;
        if (w == 1) return v & 1;
        return SignExtend64((uint64_t)v, w);
    }

    // ---- obligations
    Obligation& ob(const Instruction* I, const std::string& kind, const std::string& label)
    {
        auto& o = obl[{I, kind + "|" + label}];
        o.kind  = kind;
        o.label = label;
        o.I     = I;
        return o;
    }
    // a failure; in a run without joins only a state free of imprecise decisions is a witness
    void bad(Obligation& o, const State& s)
    {
        o.reached = true;
        if (OptExact && s.loose)
            o.looseStates++;
        else
        {
            o.failed = true;
            o.badStates++;
        }
    }
    std::string show(State& s, const AVal& x)
    {
        if (x.k == AVal::Num)
        {
            auto f = [](int64_t v) { return v >= INF ? std::string("+inf") : v <= -INF ? std::string("-inf") : std::to_string(v); };
            std::string r = "offset in [" + f(lo(s, x)) + "," + f(hi(s, x)) + "]";
            r += ", offset-end in [" + f(-hiDiff(s, AVal::num(1), x)) + "," + f(hiDiff(s, x, AVal::num(1))) + "]";
            return r;
        }
        if (x.k == AVal::Obj && !x.base) return "null pointer";
        if (x.k == AVal::Obj) return "object+" + std::to_string(x.c);
        return "unknown pointer";
    }

    // ---- byte helpers
    bool byteOp(State& s, AVal x, AVal y, AVal& out, std::function<int64_t(int64_t, int64_t)> f)
    {
        if (x.k == AVal::Byte && y.k == AVal::Byte && x.kidx == y.kidx)
        {
            Vec v;
            for (int i = 0; i < 256; ++i) v[i] = f((*x.vec)[i], (*y.vec)[i]);
            out = AVal::byte(x.kidx, v);
            return true;
        }
        if (x.k == AVal::Byte)
        {
            auto c = constOf(s, y);
            if (!c) return false;
            Vec v;
            for (int i = 0; i < 256; ++i) v[i] = f((*x.vec)[i], *c);
            out = AVal::byte(x.kidx, v);
            return true;
        }
        if (y.k == AVal::Byte)
        {
            auto c = constOf(s, x);
            if (!c) return false;
            Vec v;
            for (int i = 0; i < 256; ++i) v[i] = f(*c, (*y.vec)[i]);
            out = AVal::byte(y.kidx, v);
            return true;
        }
        return false;
    }
    static int64_t zx(int64_t v, unsigned w) { return w >= 64 ? v : (int64_t)((uint64_t)v & (((uint64_t)1 << w) - 1)); }
    static bool evalPred(CmpInst::Predicate p, int64_t x, int64_t y, unsigned w)
    {
        uint64_t ux = w >= 64 ? (uint64_t)x : (uint64_t)zx(x, w), uy = w >= 64 ? (uint64_t)y : (uint64_t)zx(y, w);
        int64_t sx = w >= 64 ? x : SignExtend64(ux, w), sy = w >= 64 ? y : SignExtend64(uy, w);
        switch (p)
        {
            case CmpInst::ICMP_EQ: return ux == uy;
            case CmpInst::ICMP_NE: return ux != uy;
            case CmpInst::ICMP_UGT: return ux > uy;
            case CmpInst::ICMP_UGE: return ux >= uy;
            case CmpInst::ICMP_ULT: return ux < uy;
            case CmpInst::ICMP_ULE: return ux <= uy;
            case CmpInst::ICMP_SGT: return sx > sy;
            case CmpInst::ICMP_SGE: return sx >= sy;
            case CmpInst::ICMP_SLT: return sx < sy;
            case CmpInst::ICMP_SLE: return sx <= sy;
            default: return false;
        }
    }

    // A transfer step may fork: results go to `out` as states that have I bound.
    using Cont = std::vector<State>;

    void forkBool(State s, const Instruction* I, Cont& out, bool known = false)
    {
        if (!known) s.loose = true;
        State t = s;
        s.env[I] = AVal::cst(1);
        t.env[I] = AVal::cst(0);
        out.push_back(std::move(s));
        out.push_back(std::move(t));
    }
    // bind I to an i1 Byte value: split on it
    void forkByte(State s, const Instruction* I, const AVal& v, Cont& out)
    {
        std::bitset<256> on;
        for (int i = 0; i < 256; ++i)
            if ((*v.vec)[i] & 1) on.set(i);
        State t = s;
        s.S[v.kidx] &= on;
        t.S[v.kidx] &= ~on;
        if (s.S[v.kidx].any())
        {
            s.env[I] = AVal::cst(1);
            out.push_back(std::move(s));
        }
        if (t.S[v.kidx].any())
        {
            t.env[I] = AVal::cst(0);
            out.push_back(std::move(t));
        }
    }
    void leFork(State s, const Instruction* I, const AVal& x, const AVal& y, int64_t k, bool neg, Cont& out)
    {
        // result = (x - y <= k) xor neg
        {
            State t = s;
            if (assumeLe(t, x, y, k))
            {
                t.env[I] = AVal::cst(neg ? 0 : 1);
                out.push_back(std::move(t));
            }
        }
        if (assumeLe(s, y, x, -k - 1))
        {
            s.env[I] = AVal::cst(neg ? 1 : 0);
            out.push_back(std::move(s));
        }
    }
    void doICmp(State s, const ICmpInst* I, Cont& out)
    {
        const Value *l = I->getOperand(0), *r = I->getOperand(1);
        bool ptr   = l->getType()->isPointerTy();
        unsigned w = widthOf(l->getType(), DL);
        if (!w) return forkBool(std::move(s), I, out);
        auto p = I->getPredicate();
        AVal x = get(s, l), y = get(s, r);
        if (x.k == AVal::Byte || y.k == AVal::Byte)
        {
            AVal o;
            if (byteOp(s, x, y, o, [&](int64_t a, int64_t b) { return evalPred(p, a, b, w) ? 1 : 0; }))
                return forkByte(std::move(s), I, o, out);
            return forkBool(std::move(s), I, out);
        }
        if (x.k == AVal::Obj || y.k == AVal::Obj)
        {
            if (x.k == AVal::Obj && y.k == AVal::Obj)
            {
                if (x.base == y.base)
                {
                    s.env[I] = AVal::cst(evalPred(p, x.c, y.c, 64));
                    // offsets of one object compare as signed numbers
                    switch (p)
                    {
                        case CmpInst::ICMP_ULT: s.env[I] = AVal::cst(x.c < y.c); break;
                        case CmpInst::ICMP_ULE: s.env[I] = AVal::cst(x.c <= y.c); break;
                        case CmpInst::ICMP_UGT: s.env[I] = AVal::cst(x.c > y.c); break;
                        case CmpInst::ICMP_UGE: s.env[I] = AVal::cst(x.c >= y.c); break;
                        default: break;
                    }
                    out.push_back(std::move(s));
                    return;
                }
                if (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)
                {
                    s.env[I] = AVal::cst(p == CmpInst::ICMP_NE);
                    out.push_back(std::move(s));
                    return;
                }
            }
            else if ((x.k == AVal::Num || y.k == AVal::Num) && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE))
            {
                // null or a program object against a pointer into the input
                s.env[I] = AVal::cst(p == CmpInst::ICMP_NE);
                out.push_back(std::move(s));
                return;
            }
            return forkBool(std::move(s), I, out);
        }
        if (!ptr)
        {
            x = getNum(s, l);
            y = getNum(s, r);
        }
        if (x.k != AVal::Num || y.k != AVal::Num) return forkBool(std::move(s), I, out);
        bool uns = CmpInst::isUnsigned(p), sig = CmpInst::isSigned(p);
        if (!ptr)
        {
            std::optional<AVal> a, b;
            if (uns)
            {
                a = asUnsigned(s, x, w);
                b = asUnsigned(s, y, w);
            }
            else if (sig)
            {
                a = asSigned(s, x, w);
                b = asSigned(s, y, w);
            }
            else
            {
                a = asUnsigned(s, x, w);
                b = asUnsigned(s, y, w);
                if (!a || !b)
                {
                    a = asSigned(s, x, w);
                    b = asSigned(s, y, w);
                }
            }
            if (!a || !b) return forkBool(std::move(s), I, out);
            x = *a;
            y = *b;
        }
        switch (p)
        {
            case CmpInst::ICMP_ULE:
            case CmpInst::ICMP_SLE: return leFork(std::move(s), I, x, y, 0, false, out);
            case CmpInst::ICMP_ULT:
            case CmpInst::ICMP_SLT: return leFork(std::move(s), I, x, y, -1, false, out);
            case CmpInst::ICMP_UGT:
            case CmpInst::ICMP_SGT: return leFork(std::move(s), I, x, y, 0, true, out);
            case CmpInst::ICMP_UGE:
            case CmpInst::ICMP_SGE: return leFork(std::move(s), I, x, y, -1, true, out);
            default: break;
        }
        bool eq = p == CmpInst::ICMP_EQ;
        {
            State t = s;
            if (assumeLe(t, x, y, 0) && assumeLe(t, y, x, 0))
            {
                t.env[I] = AVal::cst(eq);
                out.push_back(std::move(t));
            }
        }
        {
            State t = s;
            if (assumeLe(t, x, y, -1))
            {
                t.env[I] = AVal::cst(!eq);
                out.push_back(std::move(t));
            }
        }
        if (assumeLe(s, y, x, -1))
        {
            s.env[I] = AVal::cst(!eq);
            out.push_back(std::move(s));
        }
    }

    // ---- memory
    static bool overlap(int64_t a, int64_t an, int64_t b, int64_t bn) { return a < b + bn && b < a + an; }
    void eraseMem(State& s, const Value* base, int64_t off, int64_t n)
    {
        auto it = s.mem.lower_bound({base, INT64_MIN});
        while (it != s.mem.end() && it->first.first == base)
        {
            if (overlap(it->first.second, it->second.size, off, n))
                it = s.mem.erase(it);
            else
                ++it;
        }
        std::set<Range> nr;
        for (auto& r : s.ranges)
        {
            if (r.base != base || !overlap(r.lo, r.hi - r.lo, off, n))
            {
                nr.insert(r);
                continue;
            }
            if (r.lo < off) nr.insert({base, r.lo, off, r.byte});
            if (r.hi > off + n) nr.insert({base, off + n, r.hi, r.byte});
        }
        s.ranges.swap(nr);
    }
    AVal loadMem(State& s, const Value* base, int64_t off, unsigned size, Type* ty)
    {
        auto it = s.mem.find({base, off});
        if (it != s.mem.end() && it->second.size == size) return it->second.v;
        for (auto i2 = s.mem.lower_bound({base, INT64_MIN}); i2 != s.mem.end() && i2->first.first == base; ++i2)
            if (overlap(i2->first.second, i2->second.size, off, size)) return AVal::top();
        for (auto& r : s.ranges)
            if (r.base == base && r.lo <= off && off + (int64_t)size <= r.hi)
            {
                if (r.byte == 0)
                {
                    if (ty->isPointerTy()) return AVal::obj(nullptr, 0);
                    return AVal::cst(0);
                }
                return AVal::top();
            }
        return AVal::top();
    }
    void copyMem(State& s, const Value* db, int64_t doff, const Value* sb, int64_t soff, int64_t n)
    {
        std::vector<std::pair<int64_t, Cell>> cells;
        for (auto it = s.mem.lower_bound({sb, INT64_MIN}); it != s.mem.end() && it->first.first == sb; ++it)
            if (it->first.second >= soff && it->first.second + it->second.size <= soff + n)
                cells.push_back({it->first.second - soff + doff, it->second});
        std::vector<Range> rs;
        for (auto& r : s.ranges)
            if (r.base == sb && overlap(r.lo, r.hi - r.lo, soff, n))
                rs.push_back({db, std::max(r.lo, soff) - soff + doff, std::min(r.hi, soff + n) - soff + doff, r.byte});
        eraseMem(s, db, doff, n);
        for (auto& c : cells) s.mem[{db, c.first}] = c.second;
        for (auto& r : rs) s.ranges.insert(r);
    }

    void checkRead(State& s, const Instruction* I, const AVal& p, const AVal& len, const char* what)
    {
        if (!checking) return;
        // p .. p+len within [0, E]
        auto& o   = ob(I, what, "");
        o.reached = true;
        o.states++;
        bool ok = p.k == AVal::Num && lo(s, p) >= 0;
        if (ok)
        {
            AVal q = p;
            // p + len - E <= 0
            std::vector<int> P = {p.a, len.a}, N = {p.b, len.b, 1};
            P.push_back(0);
            if (auto c = constOf(s, len))
            {
                q.c += *c;
                ok = hiDiff(s, q, AVal::num(1)) <= 0;
            }
            else
            {
                State t = s;
                AVal e  = linAdd(t, p, len, false);
                ok      = hiDiff(t, e, AVal::num(1)) <= 0;
            }
        }
        if (!ok)
        {
            bad(o, s);
            if (o.detail.empty()) o.detail = show(s, p);
        }
    }

    void doLoad(State s, const LoadInst* I, Cont& out)
    {
        AVal p      = get(s, I->getPointerOperand());
        Type* ty    = I->getType();
        unsigned sz = DL.getTypeStoreSize(ty);
        AVal v      = AVal::top();
        switch (p.k)
        {
            case AVal::Num:
            {
                checkRead(s, I, p, AVal::cst(sz), "read");
                auto c = constOf(s, p);
                int k  = c && *c >= 0 && *c < K ? (int)*c : -1;
                if (pivot && sz == 1)
                {
                    AVal v0   = AVal::num(pivot);
                    int64_t h = hiDiff(s, p, v0), l = hiDiff(s, v0, p);
                    if (h == 0 && l == 0)
                    {
                        k      = K;
                        s.side = 0;
                    }
                    else if (h < 0 || l < 0)
                        s.side = h < 0 ? -1 : 1;
                    else if (h >= 0 && l >= 0)
                    {
                        // below, at, or above the position tracked
                        for (int side = -1; side <= 1; ++side)
                        {
                            State t = s;
                            bool ok = side > 0 || assumeLe(t, p, v0, side < 0 ? -1 : 0);
                            ok      = ok && (side < 0 || assumeLe(t, v0, p, side > 0 ? -1 : 0));
                            if (ok) doLoad(std::move(t), I, out);
                        }
                        return;
                    }
                }
                if (k >= 0 && sz == 1 && ty->isIntegerTy(8))
                {
                    Vec id;
                    for (int i = 0; i < 256; ++i) id[i] = SignExtend64((uint64_t)i, 8);
                    v = AVal::byte(k, id);
                }
                break;
            }
            case AVal::Obj:
                if (!p.base)
                {
                    if (checking)
                    {
                        auto& o   = ob(I, "read", "");
                        bad(o, s);
                        o.states++;
                        o.detail = "null pointer dereferenced";
                    }
                }
                else if (auto* g = dyn_cast<GlobalVariable>(p.base); g && g->isConstant() && g->hasDefinitiveInitializer())
                {
                    uint64_t gs = DL.getTypeAllocSize(g->getValueType());
                    if (p.c < 0 || (uint64_t)p.c + sz > gs)
                    {
                        if (checking)
                        {
                            auto& o   = ob(I, "read", "");
                            bad(o, s);
                            o.states++;
                            o.detail = "constant object read outside its bounds";
                        }
                    }
                    else if (Constant* c = ConstantFoldLoadFromConstPtr(const_cast<GlobalVariable*>(g), ty, APInt(64, p.c), DL))
                        v = constVal(c);
                }
                else if (isa<AllocaInst>(p.base))
                {
                    auto* ai = cast<AllocaInst>(p.base);
                    auto as  = ai->getAllocationSize(DL);
                    if (p.c < 0 || (as && (uint64_t)p.c + sz > as->getFixedValue()))
                    {
                        if (checking)
                        {
                            auto& o   = ob(I, "read", "");
                            bad(o, s);
                            o.states++;
                            o.detail = "local object read outside its bounds";
                        }
                    }
                    else
                        v = loadMem(s, p.base, p.c, sz, ty);
                }
                break;
            case AVal::ObjByte:
                if (auto* g = dyn_cast<GlobalVariable>(p.base); g && g->isConstant() && g->hasDefinitiveInitializer())
                {
                    Vec r;
                    bool ok     = true;
                    uint64_t gs = DL.getTypeAllocSize(g->getValueType());
                    for (int i = 0; i < 256 && ok; ++i)
                    {
                        r[i] = 0;
                        if (!s.S[p.kidx][i]) continue;
                        int64_t o = (*p.vec)[i];
                        if (o < 0 || (uint64_t)o + sz > gs)
                        {
                            ok = false;
                            if (checking)
                            {
                                auto& ob_   = ob(I, "read", "");
                                bad(ob_, s);
                                ob_.states++;
                                ob_.detail = "table read outside its bounds";
                            }
                            break;
                        }
                        Constant* c = ConstantFoldLoadFromConstPtr(const_cast<GlobalVariable*>(g), ty, APInt(64, o), DL);
                        auto* ci    = c ? dyn_cast<ConstantInt>(c) : nullptr;
                        if (!ci)
                            ok = false;
                        else
                            r[i] = ci->getSExtValue();
                    }
                    if (ok) v = AVal::byte(p.kidx, r);
                }
                break;
            default:
                s.loose = true;
                if (checking)
                {
                    auto& o   = ob(I, "unresolved-read", "");
                    o.reached = true;
                    o.states++;
                    bad(o, s);
                }
        }
        s.env[I] = v;
        if (ty->isIntegerTy(1) && v.k == AVal::Top) return forkBool(std::move(s), I, out);
        if (ty->isIntegerTy(1) && v.k == AVal::Byte) return forkByte(std::move(s), I, v, out);
        out.push_back(std::move(s));
    }
    void doStore(State& s, const StoreInst* I)
    {
        AVal p      = get(s, I->getPointerOperand());
        Type* ty    = I->getValueOperand()->getType();
        unsigned sz = DL.getTypeStoreSize(ty);
        if (p.k == AVal::Obj && p.base && isa<AllocaInst>(p.base))
        {
            auto* ai = cast<AllocaInst>(p.base);
            auto as  = ai->getAllocationSize(DL);
            if (p.c < 0 || (as && (uint64_t)p.c + sz > as->getFixedValue()))
            {
                if (checking)
                {
                    auto& o   = ob(I, "write", "");
                    bad(o, s);
                    o.states++;
                    o.detail = "local object written outside its bounds";
                }
                return;
            }
            eraseMem(s, p.base, p.c, sz);
            if (ty->isIntegerTy() || ty->isPointerTy())
            {
                AVal v = get(s, I->getValueOperand());
                if (v.k != AVal::Top) s.mem[{p.base, p.c}] = {v, sz, widthOf(ty, DL)};
            }
            return;
        }
        if (checking)
        {
            auto& o   = ob(I, "write", "");
            bad(o, s);
            o.states++;
            o.detail = p.k == AVal::Num ? "store into the input" : p.k == AVal::Obj ? "store to a global or null" : "store through an unknown pointer";
        }
        if (p.k == AVal::Top || p.k == AVal::ObjByte)
        {
            s.mem.clear();
            s.ranges.clear();
        }
    }

    AVal gep(State& s, const GEPOperator* G)
    {
        AVal p = get(s, G->getPointerOperand());
        MapVector<Value*, APInt> vars;
        APInt c(64, 0);
        if (!G->collectOffset(DL, 64, vars, c)) return AVal::top();
        AVal off = AVal::cst(c.getSExtValue());
        for (auto& kv : vars)
        {
            AVal x  = get(s, kv.first);
            int64_t sc = kv.second.getSExtValue();
            unsigned w = widthOf(kv.first->getType(), DL);
            if (x.k == AVal::Byte)
            {
                AVal o;
                if (off.k == AVal::Num && off.isConst())
                {
                    Vec v;
                    for (int i = 0; i < 256; ++i) v[i] = off.c + (*x.vec)[i] * sc;
                    off = AVal::byte(x.kidx, v);
                    continue;
                }
                return AVal::top();
            }
            if (x.k != AVal::Num) return AVal::top();
            auto sg = asSigned(s, x, w);
            if (!sg) return AVal::top();
            x = *sg;
            if (off.k != AVal::Num) return AVal::top();
            if (auto k = constOf(s, x))
            {
                off.c += *k * sc;
                continue;
            }
            if (sc == 1)
                off = linAdd(s, off, x, false);
            else
                return AVal::top();
        }
        if (p.k == AVal::Num)
        {
            if (off.k != AVal::Num) return AVal::top();
            return linAdd(s, p, off, false);
        }
        if (p.k == AVal::Obj)
        {
            if (off.k == AVal::Byte)
            {
                Vec v;
                for (int i = 0; i < 256; ++i) v[i] = (*off.vec)[i] + p.c;
                AVal r = AVal::byte(off.kidx, v);
                r.k    = AVal::ObjByte;
                r.base = p.base;
                return r;
            }
            auto k = constOf(s, off);
            if (!k) return AVal::top();
            return AVal::obj(p.base, p.c + *k);
        }
        if (p.k == AVal::ObjByte && off.k == AVal::Num)
        {
            auto k = constOf(s, off);
            if (!k) return AVal::top();
            Vec v;
            for (int i = 0; i < 256; ++i) v[i] = (*p.vec)[i] + *k;
            AVal r = AVal::byte(p.kidx, v);
            r.k    = AVal::ObjByte;
            r.base = p.base;
            return r;
        }
        return AVal::top();
    }

    AVal binop(State& s, const BinaryOperator* I)
    {
        unsigned w = widthOf(I->getType(), DL);
        AVal x = get(s, I->getOperand(0)), y = get(s, I->getOperand(1));
        unsigned op = I->getOpcode();
        if (!w) return AVal::top();
        auto f = [&](int64_t a, int64_t b) -> int64_t {
            uint64_t ua = (uint64_t)zx(a, w), ub = (uint64_t)zx(b, w);
            switch (op)
            {
                case Instruction::Add: return wrap((int64_t)(ua + ub), w);
                case Instruction::Sub: return wrap((int64_t)(ua - ub), w);
                case Instruction::Mul: return wrap((int64_t)(ua * ub), w);
                case Instruction::And: return wrap((int64_t)(ua & ub), w);
                case Instruction::Or: return wrap((int64_t)(ua | ub), w);
                case Instruction::Xor: return wrap((int64_t)(ua ^ ub), w);
                case Instruction::Shl: return ub >= w ? 0 : wrap((int64_t)(ua << ub), w);
                case Instruction::LShr: return ub >= w ? 0 : wrap((int64_t)(ua >> ub), w);
                case Instruction::AShr: return ub >= w ? 0 : wrap(SignExtend64(ua, w) >> ub, w);
                case Instruction::UDiv: return ub ? wrap((int64_t)(ua / ub), w) : 0;
                case Instruction::URem: return ub ? wrap((int64_t)(ua % ub), w) : 0;
                case Instruction::SDiv: return ub ? wrap(SignExtend64(ua, w) / SignExtend64(ub, w), w) : 0;
                case Instruction::SRem: return ub ? wrap(SignExtend64(ua, w) % SignExtend64(ub, w), w) : 0;
                default: return 0;
            }
        };
        AVal o;
        if (byteOp(s, x, y, o, f)) return o;
        if (x.k == AVal::Obj && y.k == AVal::Obj && op == Instruction::Sub && x.base == y.base) return AVal::cst(x.c - y.c);
        if (x.k == AVal::Obj && y.k == AVal::Num && (op == Instruction::Add || op == Instruction::Sub))
            if (auto k = constOf(s, y)) return AVal::obj(x.base, op == Instruction::Add ? x.c + *k : x.c - *k);
        if (x.k != AVal::Num || y.k != AVal::Num) 
        {
            // unknown operands still give a bounded result for a mask
            if (op == Instruction::And)
            {
                auto cx = constOf(s, x), cy = constOf(s, y);
                auto c  = cx ? cx : cy;
                if (c && *c >= 0) return fresh(s, 0, *c);
            }
            return AVal::top();
        }
        auto cx = constOf(s, x), cy = constOf(s, y);
        if (cx && cy) return AVal::cst(f(*cx, *cy));
        switch (op)
        {
            case Instruction::Add:
            case Instruction::Sub:
            {
                AVal r = linAdd(s, x, y, op == Instruction::Sub);
                return fit(s, r, w);
            }
            case Instruction::And:
            {
                auto c = cx ? cx : cy;
                if (c && *c >= 0) return fresh(s, 0, *c);
                return AVal::top();
            }
            case Instruction::Or:
                if (cy && *cy == 0) return x;
                return AVal::top();
            case Instruction::Mul:
            case Instruction::Shl:
            {
                int64_t k;
                if (!cy && !cx) return AVal::top();
                if (op == Instruction::Shl)
                {
                    if (!cy || *cy > 20 || *cy < 0) return AVal::top();
                    k = (int64_t)1 << *cy;
                }
                else
                    k = cy ? *cy : *cx;
                AVal v  = (op == Instruction::Shl || cy) ? x : y;
                if (k == 0) return AVal::cst(0);
                if (k == 1) return v;
                int64_t l = lo(s, v), h = hi(s, v);
                if (k < 0 || l <= -INF / 1024 || h >= INF / 1024 || k > 1024) return AVal::top();
                return fit(s, fresh(s, l * k, h * k), w);
            }
            default: return AVal::top();
        }
    }

    static std::string strArg(const Value* v)
    {
        v = v->stripPointerCasts();
        StringRef r;
        if (getConstantStringInfo(v, r)) return r.str();
        return "?";
    }
    static std::bitset<256> allBytes()
    {
        std::bitset<256> b;
        b.set();
        return b;
    }

    // returns false when the path ends here
    bool doCall(State s, const CallBase* I, Cont& out)
    {
        const Function* cf = I->getCalledFunction();
        StringRef n        = cf ? cf->getName() : "";
        if (n.starts_with("llvm.dbg") || n.starts_with("llvm.lifetime.start") || n.starts_with("llvm.assume") || n.starts_with("llvm.experimental.noalias")
            || n.starts_with("llvm.invariant") || n.starts_with("llvm.prefetch"))
        {
            out.push_back(std::move(s));
            return true;
        }
        if (n.starts_with("llvm.lifetime.end"))
        {
            AVal p = get(s, I->getArgOperand(1));
            if (p.k == AVal::Obj && p.base) eraseMem(s, p.base, -((int64_t)1 << 40), (int64_t)1 << 41);
            out.push_back(std::move(s));
            return true;
        }
        if (n == "sa_begin")
        {
            s.env[I] = AVal::cst(0);
            out.push_back(std::move(s));
            return true;
        }
        if (n == "sa_end")
        {
            s.env[I] = AVal::num(1);
            out.push_back(std::move(s));
            return true;
        }
        if (n == "sa_const")
        {
            auto k   = constOf(s, get(s, I->getArgOperand(0)));
            s.env[I] = AVal::num(2 + (int)*k);
            out.push_back(std::move(s));
            return true;
        }
        if (n == "sa_arith")
        {
            AVal p = get(s, I->getArgOperand(0));
            if (checking && (p.k == AVal::Num || p.k == AVal::Top || (p.k == AVal::Obj && !p.base)))
            {
                auto& o   = ob(I, "arith", "");
                o.reached = true;
                o.states++;
                bool ok = p.k == AVal::Num ? lo(s, p) >= 0 && hiDiff(s, p, AVal::num(1)) <= 0 : p.k == AVal::Obj && p.c == 0;
                if (!ok)
                {
                    bad(o, s);
                    if (o.detail.empty()) o.detail = show(s, p);
                }
            }
            out.push_back(std::move(s));
            return true;
        }
        if (n == "sa_pivot")
        {
            s.env[I] = AVal::num(pivot);
            out.push_back(std::move(s));
            return true;
        }
        if (n == "sa_ptr" || n == "sa_long")
        {
            s.env[I] = fresh(s, -INF, INF, false);
            out.push_back(std::move(s));
            return true;
        }
        if (n == "sa_uint")
        {
            s.env[I] = fresh(s, 0, 4294967295LL, false);
            out.push_back(std::move(s));
            return true;
        }
        if (n == "sa_bool")
        {
            forkBool(std::move(s), I, out, true);
            return true;
        }
        if (n == "sa_assume" || n == "sa_check")
        {
            bool chk      = n == "sa_check";
            const Value* c = I->getArgOperand(chk ? 1 : 0);
            AVal v         = get(s, c);
            auto k         = constOf(s, v);
            if (chk)
            {
                if (checking)
                {
                    auto& o   = ob(I, "check", strArg(I->getArgOperand(0)));
                    o.reached = true;
                    o.states++;
                    if (!k) s.loose = true;
                    if (!k || *k == 0) bad(o, s);
                }
                out.push_back(std::move(s));
                return true;
            }
            if (k && *k == 0) return true;
            out.push_back(std::move(s));
            return true;
        }
        if (n == "sa_reach")
        {
            if (checking)
            {
                auto& o   = ob(I, "reach", strArg(I->getArgOperand(0)));
                o.reached = true;
                o.states++;
            }
            out.push_back(std::move(s));
            return true;
        }
        if (n == "sa_bytes")
        {
            if (checking)
            {
                auto& e = byteRep[strArg(I->getArgOperand(0))];
                for (int i = 0; i < KP; ++i) e[i] |= s.S[i];
            }
            out.push_back(std::move(s));
            return true;
        }
        if (n == "sa_value")
        {
            if (checking)
            {
                AVal v   = getNum(s, I->getArgOperand(1));
                int64_t l = -INF, h = INF;
                if (v.k == AVal::Num)
                {
                    l = lo(s, v);
                    h = hi(s, v);
                }
                std::string lab = strArg(I->getArgOperand(0));
                auto it         = valRep.find(lab);
                if (it == valRep.end())
                    valRep[lab] = {l, h};
                else
                {
                    it->second.first  = std::min(it->second.first, l);
                    it->second.second = std::max(it->second.second, h);
                }
            }
            out.push_back(std::move(s));
            return true;
        }
        if (auto* mc = dyn_cast<MemTransferInst>(I))
        {
            AVal d = get(s, mc->getRawDest()), sr = get(s, mc->getRawSource());
            auto len = constOf(s, get(s, mc->getLength()));
            if (d.k == AVal::Obj && d.base && isa<AllocaInst>(d.base) && len)
            {
                if (sr.k == AVal::Obj && sr.base && isa<AllocaInst>(sr.base))
                    copyMem(s, d.base, d.c, sr.base, sr.c, *len);
                else
                {
                    if (sr.k == AVal::Num) checkRead(s, I, sr, AVal::cst(*len), "read");
                    eraseMem(s, d.base, d.c, *len);
                    if (sr.k == AVal::Obj)
                        if (auto* g = dyn_cast_or_null<GlobalVariable>(sr.base); g && g->isConstant() && g->hasDefinitiveInitializer() && *len <= 256)
                            for (int64_t i = 0; i < *len; ++i)
                                if (Constant* c = ConstantFoldLoadFromConstPtr(const_cast<GlobalVariable*>(g), Type::getInt8Ty(F.getContext()), APInt(64, sr.c + i), DL))
                                    s.mem[{d.base, d.c + i}] = {constVal(c), 1, 8};
                }
            }
            else
            {
                s.loose = true;
                s.mem.clear();
                s.ranges.clear();
                if (checking && !(len && *len == 0))
                {
                    auto& o   = ob(I, "unresolved-read", "memcpy");
                    o.reached = o.failed = true;
                }
            }
            out.push_back(std::move(s));
            return true;
        }
        if (auto* ms = dyn_cast<MemSetInst>(I))
        {
            AVal d   = get(s, ms->getRawDest());
            auto len = constOf(s, get(s, ms->getLength()));
            auto val = constOf(s, get(s, ms->getValue()));
            if (d.k == AVal::Obj && d.base && len)
            {
                eraseMem(s, d.base, d.c, *len);
                if (val) s.ranges.insert({d.base, d.c, d.c + *len, (int)*val});
            }
            else
            {
                s.loose = true;
                s.mem.clear();
                s.ranges.clear();
            }
            out.push_back(std::move(s));
            return true;
        }
        if (n.starts_with("llvm.fsh") || n.starts_with("llvm.usub.sat") || n.starts_with("llvm.uadd.sat") || n.starts_with("llvm.abs")
            || n.starts_with("llvm.ctpop") || n.starts_with("llvm.bswap"))
        {
            // by value, where the operands are known or one character decides them
            unsigned w = widthOf(I->getType(), DL);
            bool one   = n.starts_with("llvm.abs") || n.starts_with("llvm.ctpop") || n.starts_with("llvm.bswap");
            AVal x = getNum(s, I->getArgOperand(0)), y = one ? AVal::cst(0) : getNum(s, I->getArgOperand(1)), o;
            auto amount = n.starts_with("llvm.fsh") ? constOf(s, get(s, I->getArgOperand(2))) : std::optional<int64_t>(0);
            auto f = [&](int64_t a, int64_t b) -> int64_t {
                APInt A(w, (uint64_t)zx(a, w)), B(w, (uint64_t)zx(b, w)), R(w, 0);
                if (n.starts_with("llvm.fsh"))
                {
                    unsigned k = (unsigned)(zx(*amount, w) % w);
                    if (n[8] == 'l')
                        R = k ? (A.shl(k) | B.lshr(w - k)) : A;
                    else
                        R = k ? (A.shl(w - k) | B.lshr(k)) : B;
                }
                else if (n.starts_with("llvm.usub.sat")) R = A.usub_sat(B);
                else if (n.starts_with("llvm.uadd.sat")) R = A.uadd_sat(B);
                else if (n.starts_with("llvm.abs")) R = A.abs();
                else if (n.starts_with("llvm.ctpop")) R = APInt(w, A.popcount());
                else R = A.byteSwap();
                return R.getSExtValue();
            };
            if (w && w <= 64 && amount && byteOp(s, x, y, o, f))
            {
                s.env[I] = o;
                out.push_back(std::move(s));
                return true;
            }
            if (n.starts_with("llvm.usub.sat"))
            {
                auto a = asUnsigned(s, x, w), b = asUnsigned(s, y, w);
                if (a && b)
                {
                    State t = s;
                    if (assumeLe(t, *a, *b, 0))
                    {
                        t.env[I] = AVal::cst(0);
                        out.push_back(std::move(t));
                    }
                    if (assumeLe(s, *b, *a, -1))
                    {
                        s.env[I] = linAdd(s, *a, *b, true);
                        out.push_back(std::move(s));
                    }
                    return true;
                }
            }
            s.loose  = true;
            s.env[I] = AVal::top();
            out.push_back(std::move(s));
            return true;
        }
        if (n.starts_with("llvm.expect"))
        {
            s.env[I] = get(s, I->getArgOperand(0));
            out.push_back(std::move(s));
            return true;
        }
        if (n.starts_with("llvm.is.constant"))
        {
            s.env[I] = AVal::cst(0);
            out.push_back(std::move(s));
            return true;
        }
        if (n.starts_with("llvm.umin") || n.starts_with("llvm.umax") || n.starts_with("llvm.smin") || n.starts_with("llvm.smax"))
        {
            unsigned w = widthOf(I->getType(), DL);
            AVal x = getNum(s, I->getArgOperand(0)), y = getNum(s, I->getArgOperand(1));
            bool u = n[5] == 'u', mn = n[7] == 'i';
            AVal o;
            if (byteOp(s, x, y, o, [&](int64_t a, int64_t b) {
                    bool less = evalPred(u ? CmpInst::ICMP_ULT : CmpInst::ICMP_SLT, a, b, w);
                    return (less == mn) ? a : b;
                }))
            {
                s.env[I] = o;
                out.push_back(std::move(s));
                return true;
            }
            auto a = u ? asUnsigned(s, x, w) : asSigned(s, x, w), b = u ? asUnsigned(s, y, w) : asSigned(s, y, w);
            if (a && b)
            {
                State t = s;
                if (assumeLe(t, *a, *b, 0))
                {
                    t.env[I] = mn ? x : y;
                    out.push_back(std::move(t));
                }
                if (assumeLe(s, *b, *a, -1))
                {
                    s.env[I] = mn ? y : x;
                    out.push_back(std::move(s));
                }
                return true;
            }
            s.env[I] = AVal::top();
            out.push_back(std::move(s));
            return true;
        }
        if (n == "memcmp" || n == "bcmp" || n == "strncmp" || n == "memchr")
        {
            for (int i = 0; i < (n == "memchr" ? 1 : 2); ++i)
            {
                AVal p = get(s, I->getArgOperand(i)), len = getNum(s, I->getArgOperand(2));
                if (p.k == AVal::Num && len.k == AVal::Num) checkRead(s, I, p, len, "read");
                else if (p.k != AVal::Obj && checking)
                {
                    auto& o   = ob(I, "unresolved-read", n.str());
                    o.reached = o.failed = true;
                }
            }
            s.env[I] = AVal::top();
            out.push_back(std::move(s));
            return true;
        }
        if (n == "strlen" && checking)
        {
            AVal p = get(s, I->getArgOperand(0));
            if (p.k != AVal::Obj || !p.base)
            {
                auto& o   = ob(I, "read", "strlen");
                o.reached = o.failed = true;
                o.detail  = "strlen reads up to a terminator the input need not have";
            }
        }
        if (n == "llvm.trap" || n == "abort" || n == "_ZSt9terminatev" || n == "__clang_call_terminate" || n.contains("glibcxx_assert"))
        {
            if (checking)
            {
                auto& o   = ob(I, "abort", n.str());
                o.reached = o.failed = true;
            }
            return true;
        }
        if (checking)
        {
            unknownCalls.insert(n.empty() ? "<indirect>" : n.str());
            auto& o   = ob(I, "unmodelled-call", n.str());
            o.reached = o.failed = true;
            o.states++;
        }
        s.loose = true;
        s.mem.clear();
        s.ranges.clear();
        if (I->getType()->isIntegerTy(1))
        {
            forkBool(std::move(s), I, out);
            return true;
        }
        s.env[I] = AVal::top();
        out.push_back(std::move(s));
        return true;
    }

    void step(State s, const Instruction* I, Cont& out)
    {
        if (auto* c = dyn_cast<ICmpInst>(I)) return doICmp(std::move(s), c, out);
        if (auto* l = dyn_cast<LoadInst>(I)) return doLoad(std::move(s), l, out);
        if (auto* st = dyn_cast<StoreInst>(I))
        {
            doStore(s, st);
            out.push_back(std::move(s));
            return;
        }
        if (auto* g = dyn_cast<GetElementPtrInst>(I))
        {
            AVal v   = gep(s, cast<GEPOperator>(g));
            s.env[I] = v;
            out.push_back(std::move(s));
            return;
        }
        if (isa<AllocaInst>(I))
        {
            s.env[I] = AVal::obj(I, 0);
            out.push_back(std::move(s));
            return;
        }
        if (auto* cb = dyn_cast<CallBase>(I))
        {
            doCall(std::move(s), cb, out);
            return;
        }
        if (auto* sel = dyn_cast<SelectInst>(I))
        {
            AVal c = get(s, sel->getCondition());
            auto k = constOf(s, c);
            auto bind = [&](State st, const Value* v) {
                AVal x    = get(st, v);
                st.env[I] = x;
                if (I->getType()->isIntegerTy(1) && x.k == AVal::Top)
                    forkBool(std::move(st), I, out);
                else
                    out.push_back(std::move(st));
            };
            if (k)
                bind(std::move(s), *k ? sel->getTrueValue() : sel->getFalseValue());
            else
            {
                bind(s, sel->getTrueValue());
                bind(std::move(s), sel->getFalseValue());
            }
            return;
        }
        if (auto* b = dyn_cast<BinaryOperator>(I))
        {
            AVal v = binop(s, b);
            if (I->getType()->isIntegerTy(1))
            {
                if (v.k == AVal::Byte) return forkByte(std::move(s), I, v, out);
                if (!constOf(s, v)) return forkBool(std::move(s), I, out);
            }
            s.env[I] = v;
            out.push_back(std::move(s));
            return;
        }
        if (auto* c = dyn_cast<CastInst>(I))
        {
            unsigned w1 = widthOf(c->getSrcTy(), DL), w2 = widthOf(c->getDestTy(), DL);
            AVal x = get(s, c->getOperand(0));
            AVal v = AVal::top();
            unsigned op = c->getOpcode();
            if (!w1 || !w2)
                ;
            else if (op == Instruction::PtrToInt || op == Instruction::IntToPtr || op == Instruction::BitCast)
                v = x;
            else if (x.k == AVal::Byte)
            {
                Vec r;
                for (int i = 0; i < 256; ++i)
                {
                    int64_t e = (*x.vec)[i];
                    r[i]      = op == Instruction::ZExt ? zx(e, w1) : op == Instruction::SExt ? SignExtend64((uint64_t)zx(e, w1), w1) : wrap(e, w2);
                }
                v = AVal::byte(x.kidx, r);
            }
            else
            {
                if (x.k == AVal::Top && c->getSrcTy()->isIntegerTy()) x = getNum(s, c->getOperand(0));
                if (x.k == AVal::Num)
                {
                    if (op == Instruction::ZExt)
                    {
                        if (auto u = asUnsigned(s, x, w1))
                            v = *u;
                        else if (w1 < 63)
                            v = fresh(s, 0, ((int64_t)1 << w1) - 1);
                    }
                    else if (op == Instruction::SExt)
                    {
                        if (w1 == 1)
                        {
                            if (auto k = constOf(s, x)) v = AVal::cst(*k ? -1 : 0);
                        }
                        else if (auto u = asSigned(s, x, w1))
                            v = *u;
                        else if (w1 < 63)
                            v = fresh(s, -((int64_t)1 << (w1 - 1)), ((int64_t)1 << (w1 - 1)) - 1);
                    }
                    else if (op == Instruction::Trunc)
                    {
                        if (auto k = constOf(s, x))
                            v = AVal::cst(wrap(*k, w2));
                        else
                            v = fit(s, x, w2);
                    }
                }
            }
            if (c->getDestTy()->isIntegerTy(1))
            {
                if (v.k == AVal::Byte) return forkByte(std::move(s), I, v, out);
                if (!constOf(s, v)) return forkBool(std::move(s), I, out);
            }
            s.env[I] = v;
            out.push_back(std::move(s));
            return;
        }
        if (isa<FreezeInst>(I))
        {
            AVal v   = get(s, I->getOperand(0));
            s.env[I] = v;
            if (I->getType()->isIntegerTy(1) && v.k == AVal::Top) return forkBool(std::move(s), I, out);
            out.push_back(std::move(s));
            return;
        }
        if (I->getType()->isIntegerTy(1)) return forkBool(std::move(s), I, out);
        s.env[I] = AVal::top();
        out.push_back(std::move(s));
    }

    // ---- canonical states at block boundaries
    struct Canon
    {
        State s;
        std::string key;
    };
    // project s onto live values of block b, phis already bound
    bool canon(State& s, const BasicBlock* b, Canon& out)
    {
        State r;
        r.S      = s.S;
        r.loose  = OptExact && s.loose;
        r.depth  = s.depth;
        r.ranges = s.ranges;
        std::vector<AVal> forms = {AVal::cst(0), AVal::num(1)};
        for (int g = 0; g < ghosts; ++g) forms.push_back(AVal::num(2 + g));
        std::string key;
        raw_string_ostream ks(key);
        int idx    = 0;
        auto add   = [&](const AVal& v, unsigned width, AVal& res, bool flag = false, bool isInt = false) {
            switch (v.k)
            {
                case AVal::Top: ks << "T;"; res = v; break;
                case AVal::Obj: ks << "O" << (const void*)v.base << "+" << v.c << ";"; res = v; break;
                case AVal::Byte:
                case AVal::ObjByte:
                {
                    ks << (v.k == AVal::Byte ? "B" : "P") << v.kidx << (const void*)v.base << ":";
                    uint64_t h = 1469598103934665603ULL;
                    for (int i = 0; i < 256; ++i) h = (h ^ (uint64_t)(*v.vec)[i]) * 1099511628211ULL;
                    ks << h << ";";
                    res = v;
                    break;
                }
                case AVal::Num:
                {
                    auto k = constOf(s, v);
                    if (k && (width <= 8 || OptExact || flag || (*k >= 0 && *k <= OptSmall)))
                    {
                        ks << "c" << *k << ";";
                        res = AVal::cst(*k);
                        break;
                    }
                    // what lies a constant distance from either end of the input is named by it
                    AVal w    = v;
                    auto pull = [&](int& d, int64_t sign) {
                        for (int f : {0, 1})
                            if (d != f && s.M.at(d, f) < INF && s.M.at(d, f) == -s.M.at(f, d))
                            {
                                w.c += sign * s.M.at(d, f);
                                d = f;
                            }
                    };
                    if (isInt)
                    {
                        pull(w.a, 1);
                        pull(w.b, -1);
                    }
                    if ((w.b != 0 && w.a != w.b) || (isInt && w.a == 1))
                    {
                        // a difference of two quantities (the size of a view): keep both; what is
                        // measured from a fixed end (the characters left) moves at the other
                        ks << "d;";
                        bool fixed = w.a <= 1 && w.b != 1;
                        forms.push_back(AVal::num(w.a, fixed ? 0 : w.c));
                        forms.push_back(AVal::num(w.b, fixed ? -w.c : 0));
                        res   = AVal::num((int)forms.size() - 2);
                        res.b = (int)forms.size() - 1;
                        break;
                    }
                    ks << "n;";
                    forms.push_back(w);
                    res = AVal::num((int)forms.size() - 1);
                    break;
                }
            }
            ++idx;
        };
        for (const Value* v : liveIn[b])
        {
            AVal res, x = get(s, v);
            add(x, widthOf(v->getType(), DL), res, flags.count(v), v->getType()->isIntegerTy());
            if (res.k != AVal::Top) r.env[v] = res;
        }
        for (auto& kv : s.mem)
        {
            AVal res;
            ks << (const void*)kv.first.first << "@" << kv.first.second << "/" << kv.second.size;
            add(kv.second.v, kv.second.width, res);
            r.mem[kv.first] = {res, kv.second.size, kv.second.width};
        }
        r.side = s.side;
        if (s.side) ks << "S" << s.side;
        for (auto& g : s.ranges) ks << "R" << (const void*)g.base << g.lo << "," << g.hi << "," << g.byte;
        ks.flush();
        int n = (int)forms.size();
        r.M.init(n);
        for (int i = 0; i < n; ++i)
            for (int j = 0; j < n; ++j)
            {
                if (i == j) continue;
                int64_t h = hiDiff(s, forms[i], forms[j]);
                r.M.at(i, j) = h;
            }
        if (OptExact)
        {
            // bounded mode: join nothing, two states are one only when they are equal
            if (!r.M.close()) return false;
            key += r.loose ? 'L' : 'E';
            for (auto v : r.M.m) key.append(reinterpret_cast<const char*>(&v), sizeof v);
            for (auto& b : r.S)
            {
                uint64_t h = 1469598103934665603ULL;
                for (int i = 0; i < 256; ++i) h = (h ^ (uint64_t)b[i]) * 1099511628211ULL;
                key.append(reinterpret_cast<const char*>(&h), sizeof h);
            }
        }
        out.s   = std::move(r);
        out.key = key;
        return true;
    }

    struct Entry
    {
        State s;
        DBM W; // unclosed matrix used for widening
        int visits = 0, joins = 0;
        bool dirty = true;
    };
    std::map<const BasicBlock*, std::map<std::string, Entry>> In;
    std::map<std::pair<const BasicBlock*, const BasicBlock*>, std::map<std::string, State>> edgeOut;

    static bool joinInto(State& d, const State& n)
    {
        bool ch = false;
        for (size_t i = 0; i < d.M.m.size(); ++i)
            if (n.M.m[i] > d.M.m[i])
            {
                d.M.m[i] = n.M.m[i];
                ch       = true;
            }
        for (int i = 0; i < KP; ++i)
        {
            auto u = d.S[i] | n.S[i];
            if (u != d.S[i])
            {
                d.S[i] = u;
                ch     = true;
            }
        }
        return ch;
    }
    int64_t widenUp(int64_t v)
    {
        auto it = std::lower_bound(thresholds.begin(), thresholds.end(), v);
        return it == thresholds.end() ? INF : *it;
    }

    void execBlock(const BasicBlock* B, const State& in, std::function<void(const BasicBlock*, Canon&)> emit)
    {
        ++execs;
        std::vector<State> cur = {in};
        const Instruction* I   = B->getFirstNonPHIOrDbg();
        for (; I && !I->isTerminator(); I = I->getNextNode())
        {
            if (isa<DbgInfoIntrinsic>(I)) continue;
            std::vector<State> nxt;
            for (auto& s : cur) step(std::move(s), I, nxt);
            cur.swap(nxt);
            if (cur.empty()) return;
            if ((int)cur.size() > OptMaxStates)
            {
                blown    = true;
                blownWhy = "too many states in a block";
                return;
            }
        }
        const Instruction* T = B->getTerminator();
        auto go              = [&](State s, const BasicBlock* S2) {
            // bind phis
            std::vector<std::pair<const PHINode*, AVal>> vals;
            std::vector<State> sts = {std::move(s)};
            for (auto& phi : S2->phis())
            {
                AVal v = get(sts[0], phi.getIncomingValueForBlock(B));
                vals.push_back({&phi, v});
            }
            State& st = sts[0];
            // an unknown i1 becomes two states
            std::vector<State> work = {st};
            for (auto& pv : vals)
            {
                std::vector<State> nw;
                for (auto& w : work)
                {
                    if (pv.second.k == AVal::Top && pv.first->getType()->isIntegerTy(1))
                    {
                        State t       = w;
                        t.env[pv.first] = AVal::cst(0);
                        w.env[pv.first] = AVal::cst(1);
                        nw.push_back(std::move(t));
                        nw.push_back(std::move(w));
                    }
                    else
                    {
                        w.env[pv.first] = pv.second;
                        nw.push_back(std::move(w));
                    }
                }
                work.swap(nw);
            }
            for (auto& w : work)
            {
                if (OptDepth > 0 && headers.count(S2) && rpo[S2] <= rpo[B] && ++w.depth > OptDepth) continue;
                Canon c;
                if (canon(w, S2, c)) emit(S2, c);
            }
        };
        if (auto* br = dyn_cast<BranchInst>(T))
        {
            for (auto& s : cur)
            {
                if (br->isUnconditional())
                {
                    go(s, br->getSuccessor(0));
                    continue;
                }
                auto k = constOf(s, get(s, br->getCondition()));
                if (!k || *k) go(s, br->getSuccessor(0));
                if (!k || !*k) go(s, br->getSuccessor(1));
            }
        }
        else if (auto* sw = dyn_cast<SwitchInst>(T))
        {
            unsigned w = widthOf(sw->getCondition()->getType(), DL);
            for (auto& s : cur)
            {
                AVal v = get(s, sw->getCondition());
                if (v.k == AVal::Byte)
                {
                    std::map<const BasicBlock*, std::bitset<256>> part;
                    for (int i = 0; i < 256; ++i)
                    {
                        if (!s.S[v.kidx][i]) continue;
                        const BasicBlock* d = sw->getDefaultDest();
                        for (auto& c : sw->cases())
                            if (zx(c.getCaseValue()->getSExtValue(), w) == zx((*v.vec)[i], w)) d = c.getCaseSuccessor();
                        part[d].set(i);
                    }
                    for (auto& p : part)
                    {
                        State t = s;
                        t.S[v.kidx] &= p.second;
                        go(t, p.first);
                    }
                    continue;
                }
                auto k = constOf(s, v);
                if (k)
                {
                    const BasicBlock* d = sw->getDefaultDest();
                    for (auto& c : sw->cases())
                        if (zx(c.getCaseValue()->getSExtValue(), w) == zx(*k, w)) d = c.getCaseSuccessor();
                    go(s, d);
                    continue;
                }
                // what remains for the default is not told apart from the cases
                if (v.k != AVal::Num) s.loose = true;
                bool some = false;
                for (auto& c : sw->cases())
                {
                    State t = s;
                    if (v.k == AVal::Num)
                    {
                        AVal cc = AVal::cst(c.getCaseValue()->getSExtValue());
                        if (lo(t, v) >= 0) cc = AVal::cst(zx(cc.c, w));
                        if (!assumeLe(t, v, cc, 0) || !assumeLe(t, cc, v, 0)) continue;
                    }
                    some = true;
                    go(t, c.getCaseSuccessor());
                }
                if (some) s.loose = true;
                go(s, sw->getDefaultDest());
            }
        }
        else if (auto* iv = dyn_cast<InvokeInst>(T))
        {
            for (auto& s : cur)
            {
                std::vector<State> nxt;
                doCall(s, iv, nxt);
                for (auto& t : nxt) go(t, iv->getNormalDest());
            }
        }
    }

    void liveness()
    {
        std::map<const BasicBlock*, std::set<const Value*>> li, lo_;
        bool ch = true;
        while (ch)
        {
            ch = false;
            for (auto it = order.rbegin(); it != order.rend(); ++it)
            {
                const BasicBlock* B = *it;
                std::set<const Value*> L;
                for (const BasicBlock* S2 : successors(B))
                {
                    for (auto* v : li[S2])
                    {
                        auto* p = dyn_cast<PHINode>(v);
                        if (p && p->getParent() == S2) continue;
                        L.insert(v);
                    }
                    for (auto& phi : S2->phis())
                    {
                        const Value* v = phi.getIncomingValueForBlock(B);
                        if (isa<Instruction>(v) || isa<Argument>(v)) L.insert(v);
                    }
                }
                for (auto i = B->rbegin(); i != B->rend(); ++i)
                {
                    const Instruction* I = &*i;
                    if (isa<PHINode>(I)) continue;
                    L.erase(I);
                    if (isa<DbgInfoIntrinsic>(I)) continue;
                    for (const Value* o : I->operands())
                        if (isa<Instruction>(o) || isa<Argument>(o)) L.insert(o);
                }
                // phis of B stay in live-in when they are used: compute use
                for (auto& phi : B->phis())
                {
                    (void)phi;
                }
                if (L != li[B])
                {
                    li[B] = L;
                    ch    = true;
                }
            }
        }
        for (auto* B : order)
        {
            auto& s = li[B];
            // deterministic order: by instruction position
            std::vector<const Value*> v(s.begin(), s.end());
            liveIn[B] = v;
        }
        std::map<const Value*, int> num;
        int k = 0;
        for (auto& B : F)
            for (auto& I : B) num[&I] = k++;
        for (auto& kv : liveIn) std::sort(kv.second.begin(), kv.second.end(), [&](const Value* a, const Value* b) { return num[a] < num[b]; });
    }

    void dumpState(const BasicBlock* B, State& s)
    {
        auto& O = errs();
        O << "block ";
        B->printAsOperand(O, false);
        O << "\n";
        std::map<int, std::string> nm = {{0, "0"}, {1, "E"}};
        auto one = [&](const std::string& n, const AVal& v) {
            if (v.k == AVal::Num)
            {
                if (v.a > 1) nm[v.a] = n;
                if (v.b > 1) nm[v.b] = n + "'";
                O << "   " << n << " = v" << v.a << " - v" << v.b << " + " << v.c << "\n";
            }
            else if (v.k == AVal::Obj && !v.base)
                O << "   " << n << " = null\n";
        };
        for (auto& kv : s.env)
        {
            std::string n;
            raw_string_ostream ss(n);
            kv.first->printAsOperand(ss, false);
            one(ss.str(), kv.second);
        }
        for (auto& kv : s.mem)
        {
            std::string n;
            raw_string_ostream ss(n);
            kv.first.first->printAsOperand(ss, false);
            one(ss.str() + "@" + std::to_string(kv.first.second), kv.second.v);
        }
        for (auto& a : nm)
            for (auto& b : nm)
                if (a.first != b.first && s.M.at(a.first, b.first) < INF / 2) O << "      " << a.second << " - " << b.second << " <= " << s.M.at(a.first, b.first) << "\n";
    }

    void findFlags()
    {
        std::set<const Value*> c;
        for (auto& B : F)
            for (auto& I : B)
                if ((isa<PHINode>(I) || isa<SelectInst>(I)) && I.getType()->isIntegerTy()) c.insert(&I);
        bool ch = true;
        while (ch)
        {
            ch = false;
            for (auto it = c.begin(); it != c.end();)
            {
                bool ok = true;
                unsigned first = isa<SelectInst>(*it) ? 1 : 0;
                auto* U        = cast<User>(*it);
                for (unsigned i = first; i < U->getNumOperands(); ++i)
                {
                    const Value* o = U->getOperand(i);
                    if (!isa<ConstantInt>(o) && !isa<UndefValue>(o) && !c.count(o)) ok = false;
                }
                if (!ok)
                {
                    it = c.erase(it);
                    ch = true;
                }
                else
                    ++it;
            }
        }
        flags = c;
    }

    void run()
    {
        // reverse post order
        {
            std::set<const BasicBlock*> seen;
            std::vector<BasicBlock*> post;
            std::set<const BasicBlock*> onstack;
            std::function<void(BasicBlock*)> dfs = [&](BasicBlock* b) {
                seen.insert(b);
                onstack.insert(b);
                for (BasicBlock* s : successors(b))
                {
                    if (onstack.count(s)) headers.insert(s);
                    if (!seen.count(s)) dfs(s);
                }
                onstack.erase(b);
                post.push_back(b);
            };
            dfs(&F.getEntryBlock());
            order.assign(post.rbegin(), post.rend());
            for (size_t i = 0; i < order.size(); ++i) rpo[order[i]] = (int)i;
        }
        std::set<int64_t> T = {-2, -1, 0, 1, 2};
        for (auto& B : F)
            for (auto& I : B)
                for (auto& o : I.operands())
                    if (auto* ci = dyn_cast<ConstantInt>(&*o))
                        if (ci->getBitWidth() <= 64)
                        {
                            int64_t v = ci->getSExtValue();
                            if (std::abs(v) <= ((int64_t)1 << 33))
                                for (int d = -1; d <= 1; ++d)
                                {
                                    T.insert(v + d);
                                    T.insert(-v + d);
                                }
                            int64_t z = zx(v, ci->getBitWidth());
                            if (ci->getBitWidth() < 64)
                                for (int d = -1; d <= 1; ++d)
                                {
                                    T.insert(z + d);
                                    T.insert(-z + d);
                                }
                        }
        thresholds.assign(T.begin(), T.end());
        findFlags();
        liveness();

        State init;
        // sa_const(k): arbitrary constants, the same at every call
        for (auto& B : F)
            for (auto& I : B)
                if (auto* cb = dyn_cast<CallBase>(&I))
                    if (auto* cf = cb->getCalledFunction(); cf && cf->getName() == "sa_const")
                        if (auto* ci = dyn_cast<ConstantInt>(cb->getArgOperand(0))) ghosts = std::max(ghosts, (int)ci->getZExtValue() + 1);
        for (auto& B : F)
            for (auto& I : B)
                if (auto* cb = dyn_cast<CallBase>(&I))
                    if (auto* cf = cb->getCalledFunction(); cf && cf->getName() == "sa_pivot" && !pivot) pivot = 2 + ghosts++;
        init.M.init(2 + ghosts);
        int64_t maxlen = ((int64_t)1 << 31) - 64;
        if (OptLen >= 0)
        {
            init.M.add(1, 0, OptLen);
            init.M.add(0, 1, -OptLen);
        }
        else
        {
            init.M.add(0, 1, 0);
            init.M.add(1, 0, maxlen);
        }
        for (auto& b : init.S) b = allBytes();
        BasicBlock* E = &F.getEntryBlock();
        {
            Canon c;
            canon(init, E, c);
            In[E][c.key].s = c.s;
            In[E][c.key].W = c.s.M;
        }
        std::set<int> wl = {0};
        checking = OptExact; // no state is ever joined: what fails now fails for good
        while (!wl.empty())
        {
            if (timeUp()) return;
            int bi = *wl.begin();
            wl.erase(wl.begin());
            const BasicBlock* B = order[bi];
            auto& ins           = In[B];
            maxDisj             = std::max(maxDisj, ins.size());
            if ((int)ins.size() > OptMaxStates)
            {
                blown    = true;
                blownWhy = "too many disjuncts";
                return;
            }
            std::vector<std::string> keys;
            for (auto& e : ins)
                if (e.second.dirty) keys.push_back(e.first);
            for (auto& k : keys)
            {
                if (timeUp()) return;
                auto& e = ins[k];
                e.dirty = false;
                State s = e.s;
                execBlock(B, s, [&](const BasicBlock* S2, Canon& c) {
                    auto& m = In[S2];
                    auto it = m.find(c.key);
                    if (it == m.end())
                    {
                        Entry ne;
                        ne.s = std::move(c.s);
                        ne.W = ne.s.M;
                        m[c.key] = std::move(ne);
                        wl.insert(rpo[S2]);
                        return;
                    }
                    Entry& en = it->second;
                    if (c.s.depth < en.s.depth) // the same state, found sooner
                    {
                        en.s.depth = c.s.depth;
                        en.dirty   = true;
                        wl.insert(rpo[S2]);
                    }
                    bool ch = false;
                    for (size_t i = 0; i < en.s.M.m.size(); ++i)
                        if (c.s.M.m[i] > en.s.M.m[i]) ch = true;
                    bool sch = false;
                    for (int i = 0; i < KP; ++i)
                    {
                        auto u = en.s.S[i] | c.s.S[i];
                        if (u != en.s.S[i])
                        {
                            en.s.S[i] = u;
                            sch       = true;
                        }
                    }
                    if (!ch)
                    {
                        if (sch)
                        {
                            en.dirty = true;
                            wl.insert(rpo[S2]);
                        }
                        return;
                    }
                    // every cycle holds an edge back to a loop header: widening there is enough
                    bool back = headers.count(S2) && rpo[S2] <= bi;
                    if (back) en.visits++;
                    en.joins++;
                    bool widen = (back && en.visits > OptDelay) || en.joins > 2000;
                    if (!widen)
                    {
                        for (size_t i = 0; i < en.s.M.m.size(); ++i)
                        {
                            en.s.M.m[i] = std::max(en.s.M.m[i], c.s.M.m[i]);
                            en.W.m[i]   = std::max(en.W.m[i], c.s.M.m[i]);
                        }
                    }
                    else
                    {
                        for (size_t i = 0; i < en.W.m.size(); ++i)
                            if (c.s.M.m[i] > en.W.m[i]) en.W.m[i] = en.visits > 400 ? INF : widenUp(c.s.M.m[i]);
                        en.s.M = en.W;
                        en.s.M.close();
                    }
                    en.dirty = true;
                    wl.insert(rpo[S2]);
                });
                if (blown) return;
            }
        }
        // descending sweeps
        auto sweep = [&](bool first) {
            for (auto* B : order)
            {
                if (timeUp()) return;
                if (!first)
                {
                    std::map<std::string, Entry> nin;
                    if (B == E)
                        for (auto& e : In[B])
                        {
                            nin[e.first] = e.second;
                        }
                    std::set<const BasicBlock*> done;
                    for (const BasicBlock* P : predecessors(B))
                    {
                        if (!done.insert(P).second) continue;
                        auto it = edgeOut.find({P, B});
                        if (it == edgeOut.end()) continue;
                        for (auto& kv : it->second)
                        {
                            auto f = nin.find(kv.first);
                            if (f == nin.end())
                                nin[kv.first].s = kv.second;
                            else
                                joinInto(f->second.s, kv.second);
                        }
                    }
                    In[B] = std::move(nin);
                }
                for (const BasicBlock* S2 : successors(B)) edgeOut[{B, S2}].clear();
                for (auto& e : In[B])
                    execBlock(B, e.second.s, [&](const BasicBlock* S2, Canon& c) {
                        auto& m = edgeOut[{B, S2}];
                        auto f  = m.find(c.key);
                        if (f == m.end())
                            m[c.key] = std::move(c.s);
                        else
                            joinInto(f->second, c.s);
                    });
            }
        };
        if (OptExact) return;
        bool loops = !headers.empty();
        if (loops)
        {
            sweep(true);
            for (int i = 0; i < 4 && !blown; ++i) sweep(false);
        }
        if (blown) return;
        checking = true;
        for (auto* B : order)
        {
            if (timeUp()) return;
            if (OptStates)
                for (auto& e : In[B]) dumpState(B, e.second.s);
            for (auto& e : In[B]) execBlock(B, e.second.s, [](const BasicBlock*, Canon&) {});
        }
    }
};

static void prepare(Module& M)
{
    for (Function& F : M)
    {
        if (F.isDeclaration()) continue;
        F.removeFnAttr(Attribute::NoInline);
        F.removeFnAttr(Attribute::OptimizeNone);
        if (F.getName().starts_with("sa_entry_"))
        {
            F.removeFnAttr(Attribute::AlwaysInline);
            continue;
        }
        F.addFnAttr(Attribute::AlwaysInline);
        F.setLinkage(GlobalValue::InternalLinkage);
        F.setComdat(nullptr);
    }
    for (GlobalVariable& G : M.globals())
        if (!G.isDeclaration())
        {
            G.setComdat(nullptr);
            if (!G.hasAppendingLinkage() && !G.getName().starts_with("llvm.")) G.setLinkage(GlobalValue::InternalLinkage);
        }
    PassBuilder PB;
    LoopAnalysisManager LAM;
    FunctionAnalysisManager FAM;
    CGSCCAnalysisManager CGAM;
    ModuleAnalysisManager MAM;
    PB.registerModuleAnalyses(MAM);
    PB.registerCGSCCAnalyses(CGAM);
    PB.registerFunctionAnalyses(FAM);
    PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    {
        ModulePassManager MPM;
        MPM.addPass(AlwaysInlinerPass(false));
        MPM.addPass(GlobalDCEPass());
        MPM.run(M, MAM);
    }
    // the variables of the harness (sa_ghost...) are local to each entry
    for (Function& F : M)
    {
        if (F.isDeclaration() || !F.getName().starts_with("sa_entry_")) continue;
        for (GlobalVariable& G : M.globals())
        {
            if (!G.getName().contains("sa_ghost")) continue;
            AllocaInst* a = nullptr;
            for (auto& B : F)
                for (auto& I : make_early_inc_range(B))
                    for (Use& u : I.operands())
                        if (u.get() == &G)
                        {
                            if (!a)
                            {
                                a = new AllocaInst(G.getValueType(), 0, nullptr, Align(8), "ghost", &*F.getEntryBlock().getFirstInsertionPt());
                            }
                            u.set(a);
                        }
        }
    }
    {
        ModulePassManager MPM;
        FunctionPassManager FPM;
        FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
        MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
        MPM.run(M, MAM);
    }
    // keep every read of the input: make it volatile
    for (Function& F : M)
        for (auto& B : F)
            for (auto& I : B)
                if (auto* l = dyn_cast<LoadInst>(&I))
                {
                    const Value* o = getUnderlyingObject(l->getPointerOperand(), 0);
                    if (isa<AllocaInst>(o) || isa<GlobalVariable>(o)) continue;
                    l->setVolatile(true);
                }
    if (OptArith)
    {
        // the same for every position computed from another one
        LLVMContext& C = M.getContext();
        FunctionCallee mark = M.getOrInsertFunction("sa_arith", Type::getVoidTy(C), PointerType::get(C, 0));
        std::vector<GetElementPtrInst*> geps;
        for (Function& F : M)
            for (auto& B : F)
                for (auto& I : B)
                    if (auto* g = dyn_cast<GetElementPtrInst>(&I))
                    {
                        const Value* o = getUnderlyingObject(g->getPointerOperand(), 0);
                        if (!g->isInBounds() || !g->getSourceElementType()->isIntegerTy(8) || isa<AllocaInst>(o) || isa<GlobalVariable>(o)) continue;
                        geps.push_back(g);
                    }
        for (auto* g : geps)
        {
            CallInst* c = CallInst::Create(mark, {g}, "", g->getNextNode());
            c->setDebugLoc(g->getDebugLoc());
            c->setOnlyAccessesInaccessibleMemory();
            c->setDoesNotThrow();
            c->addFnAttr(Attribute::WillReturn);
        }
    }
    {
        ModulePassManager MPM;
        FunctionPassManager FPM;
        FPM.addPass(EarlyCSEPass(true));
        FPM.addPass(SimplifyCFGPass(SimplifyCFGOptions().convertSwitchToLookupTable(false).hoistCommonInsts(false).sinkCommonInsts(false)));
        FPM.addPass(SCCPPass());
        FPM.addPass(LoopSimplifyPass());
        FPM.addPass(LCSSAPass());
        {
            LoopPassManager LPM;
            LPM.addPass(LoopRotatePass(true));
            LPM.addPass(LoopFullUnrollPass(3, false, true));
            FPM.addPass(createFunctionToLoopPassAdaptor(std::move(LPM)));
        }
        FPM.addPass(SROAPass(SROAOptions::ModifyCFG));
        FPM.addPass(SCCPPass());
        FPM.addPass(EarlyCSEPass(true));
        FPM.addPass(ADCEPass());
        FPM.addPass(SimplifyCFGPass(SimplifyCFGOptions().convertSwitchToLookupTable(false).hoistCommonInsts(false).sinkCommonInsts(false)));
        MPM.addPass(createModuleToFunctionPassAdaptor(std::move(FPM)));
        MPM.run(M, MAM);
    }
}

int main(int argc, char** argv)
{
    std::string in, dump;
    std::set<std::string> only;
    std::vector<long> lens;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        if (a == "--exact")
            OptExact = true;
        else if (a == "--arith")
            OptArith = true;
        else if (a.rfind("--small=", 0) == 0)
            OptSmall = std::stol(a.substr(8));
        else if (a.rfind("--depth=", 0) == 0)
            OptDepth = std::stoi(a.substr(8));
        else if (a.rfind("--delay=", 0) == 0)
            OptDelay = std::stoi(a.substr(8));
        else if (a == "--states")
            OptStates = true;
        else if (a.rfind("--lens=", 0) == 0) // lengths FROM-TO, one after the other
        {
            auto d = a.find('-', 7);
            for (long l = std::stol(a.substr(7)); l <= std::stol(a.substr(d + 1)); ++l) lens.push_back(l);
        }
        else if (a.rfind("--only=", 0) == 0) // entries, separated by commas
        {
            std::string rest = a.substr(7) + ",", one;
            for (char c : rest)
                if (c == ',')
                {
                    only.insert(one);
                    one.clear();
                }
                else
                    one += c;
        }
        else if (a.rfind("--budget=", 0) == 0)
            OptBudget = std::stod(a.substr(9));
        else if (a.rfind("--max-states=", 0) == 0)
            OptMaxStates = std::stoi(a.substr(13));
        else if (a.rfind("--dump=", 0) == 0)
            dump = a.substr(7);
        else
            in = a;
    }
    LLVMContext C;
    SMDiagnostic err;
    auto M = parseIRFile(in, err, C);
    if (!M)
    {
        err.print("zoneai", errs());
        return 2;
    }
    prepare(*M);
    if (!dump.empty())
    {
        std::error_code ec;
        raw_fd_ostream o(dump, ec);
        M->print(o, nullptr);
    }
    if (lens.empty()) lens.push_back(-1);
    json::OStream J(outs(), 1);
    J.arrayBegin();
    for (long len : lens)
    for (Function& F : *M)
    {
        if (F.isDeclaration() || !F.getName().starts_with("sa_entry_")) continue;
        if (!only.empty() && !only.count(F.getName().substr(9).str())) continue;
        OptLen = len;
        Analyzer A(F);
        A.run();
        J.object([&] {
            J.attribute("entry", F.getName().substr(9));
            J.attribute("len", (int64_t)len);
            J.attribute("blocks", (int64_t)A.order.size());
            size_t ni = 0;
            for (auto& B : F) ni += B.size();
            J.attribute("instructions", (int64_t)ni);
            J.attribute("loops", (int64_t)A.headers.size());
            J.attribute("max_disjuncts", (int64_t)A.maxDisj);
            J.attribute("block_transfers", (int64_t)A.execs);
            J.attribute("blown", A.blown);
            if (A.blown) J.attribute("blown_why", A.blownWhy);
            J.attributeArray("obligations", [&] {
                // count static sites, reached or not
                for (auto& B : F)
                    for (auto& I : B)
                        if (auto* cb = dyn_cast<CallBase>(&I))
                            if (auto* cf = cb->getCalledFunction())
                            {
                                if (cf->getName() == "sa_check") A.ob(&I, "check", A.strArg(cb->getArgOperand(0)));
                                if (cf->getName() == "sa_reach") A.ob(&I, "reach", A.strArg(cb->getArgOperand(0)));
                            }
                for (auto& kv : A.obl)
                {
                    auto& o = kv.second;
                    J.object([&] {
                        J.attribute("kind", o.kind);
                        J.attribute("label", o.label);
                        J.attribute("reached", o.reached);
                        J.attribute("ok", !o.failed);
                        if (o.looseStates) J.attribute("loose_states", (int64_t)o.looseStates);
                        J.attribute("states", (int64_t)o.states);
                        if (o.failed)
                        {
                            J.attribute("bad_states", (int64_t)o.badStates);
                            J.attribute("detail", o.detail);
                        }
                        J.attributeArray("at", [&] {
                            for (auto& c : chainOf(o.I))
                                J.value(c.file + ":" + std::to_string(c.line) + ":" + c.func.substr(0, c.func.find('<', 1)));
                        });
                    });
                }
            });
            J.attributeObject("bytes", [&] {
                for (auto& kv : A.byteRep)
                    J.attributeArray(kv.first, [&] {
                        for (int i = 0; i < K; ++i)
                        {
                            std::string h;
                            for (int b = 0; b < 256; ++b) h += kv.second[i][b] ? '1' : '0';
                            J.value(h);
                        }
                    });
            });
            J.attributeObject("values", [&] {
                for (auto& kv : A.valRep)
                    J.attributeArray(kv.first, [&] {
                        J.value(kv.second.first);
                        J.value(kv.second.second);
                    });
            });
        });
    }
    J.arrayEnd();
    outs() << "\n";
    return 0;
}
