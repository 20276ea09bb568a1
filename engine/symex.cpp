// Symbolic executor for LLVM 18 IR.
//
// Executes one entry function of a linked bitcode module. Inputs obtained through lib/sym.h are
// symbolic; every branch, address and obligation that depends on them is decided by Z3. A path
// splits by fork(2): each process carries exactly one path, so the set of processes is the set of
// feasible paths. Integers are bit-vectors of the source width; floating-point values are rationals
// (exact arithmetic, see DESIGN.md).
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/SmallVector.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/DerivedTypes.h"
#include "llvm/IR/Function.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/GlobalVariable.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Intrinsics.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <atomic>
#include <cfenv>
#include <cmath>
#include <cstring>
#include <deque>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <signal.h>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <z3++.h>

using namespace llvm;
typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef uint8_t u8;

// ------------------------------------------------------------------------------------------------
// shared statistics
// ------------------------------------------------------------------------------------------------
enum { MAXW = 256, MAXCOV = 65536 };
struct Shared
{
    std::atomic<int> running, stop, lock, nw;
    std::atomic<long> paths, pathsAssumed, pathsTerminated, queries, queryNs, asserts, assertsTrivial, forks, insts,
        violations, incomplete, unknowns, concretised, schedChoices, accesses, traces, procs, races;
    char wname[MAXW][96];
    std::atomic<long> wcount[MAXW];
    u8 cov[MAXCOV];
};
static Shared* SH;

struct Options
{
    std::string file, entry, out;
    long maxSteps = 40000000;
    int jobs = 4;
    double timeout = 300;
    unsigned rlimit = 60000000;
    long maxViol = 1;
    int maxTraces = 3;
    bool verbose = false, traceForks = false;
    std::string repoPrefix = "/repo/";
    long maxPaths = 400000;
} OPT;
static double nowS()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
static double T0;

static std::string jsonEsc(const std::string& s)
{
    std::string r;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}
static void emitLine(const std::string& s)
{
    int fd = open(OPT.out.c_str(), O_WRONLY | O_APPEND | O_CREAT, 0644);
    if (fd < 0) return;
    std::string t = s + "\n";
    (void)!write(fd, t.data(), t.size());
    close(fd);
}
static void witness(const char* name)
{
    while (SH->lock.exchange(1)) {}
    int n = SH->nw.load(), i = 0;
    for (; i < n; i++)
        if (!strncmp(SH->wname[i], name, 95)) break;
    if (i == n && n < MAXW)
    {
        strncpy(SH->wname[n], name, 95);
        SH->nw++;
    }
    if (i < MAXW) SH->wcount[i]++;
    SH->lock.store(0);
}

// ------------------------------------------------------------------------------------------------
// values
// ------------------------------------------------------------------------------------------------
static z3::context* Z;
static std::deque<z3::expr>* ARENA; // keeps expressions alive

struct Val
{
    enum K : u8 { UN, CI, SB, SR, AG } k = UN;
    u8 fp = 0;      // CI produced by a floating-point operation (only informative)
    uint16_t w = 0; // width in bits
    union
    {
        u64 c;
        const z3::expr* e;
        std::vector<Val>* a;
    };
    Val() : c(0) {}
    static Val I(u64 v, unsigned w)
    {
        Val r;
        r.k = CI;
        r.w = w;
        r.c = w >= 64 ? v : (v & ((1ull << w) - 1));
        return r;
    }
    static Val U(unsigned w)
    {
        Val r;
        r.k = UN;
        r.w = w;
        return r;
    }
};
static const z3::expr* keep(const z3::expr& e)
{
    ARENA->push_back(e);
    return &ARENA->back();
}

static inline double asD(u64 b) { double d; memcpy(&d, &b, 8); return d; }
static inline u64 fromD(double d) { u64 b; memcpy(&b, &d, 8); return b; }
static inline float asF(u64 b) { u32 t = (u32)b; float f; memcpy(&f, &t, 4); return f; }
static inline u64 fromF(float f) { u32 b; memcpy(&b, &f, 4); return b; }

// an error that ends the path: what the engine cannot decide
struct Incomplete { std::string why; };
struct PathEnd { int how; }; // 0 normal 1 assumption false 2 expected termination 3 violation

static std::unordered_map<u64, z3::expr>* dcache;
static z3::expr realOfDouble(double d)
{
    if (!std::isfinite(d)) throw Incomplete{"non-finite constant meets a symbolic real"};
    u64 key = fromD(d);
    auto it = dcache->find(key);
    if (it != dcache->end()) return it->second;
    int ex;
    double m = frexp(d, &ex);
    i64 mi = (i64)ldexp(m, 53);
    ex -= 53;
    while (mi != 0 && (mi & 1) == 0) { mi >>= 1; ex++; }
    z3::expr r = Z->real_val(std::to_string(mi).c_str());
    if (mi != 0 && ex != 0)
    {
        // 2^|ex| as decimal string
        std::string p = "1";
        int n = ex < 0 ? -ex : ex;
        for (int i = 0; i < n; i++)
        {
            int carry = 0;
            for (int j = (int)p.size() - 1; j >= 0; j--)
            {
                int t = (p[j] - '0') * 2 + carry;
                p[j] = '0' + t % 10;
                carry = t / 10;
            }
            if (carry) p.insert(p.begin(), '0' + carry);
        }
        if (ex > 0) r = (r * Z->real_val(p.c_str())).simplify();
        else r = Z->real_val((std::to_string(mi) + "/" + p).c_str());
    }
    dcache->emplace(key, r);
    return r;
}
// a real numeral that a double holds exactly becomes a concrete value again
static bool numeralToDouble(const z3::expr& e, double& out)
{
    i64 n, d;
    if (!Z3_get_numeral_small(*Z, e, &n, &d)) return false;
    if (d <= 0 || (d & (d - 1))) return false;
    if (n > (1ll << 53) || n < -(1ll << 53)) return false;
    out = (double)n / (double)d;
    return true;
}
static Val mkReal(const z3::expr& e0, unsigned w)
{
    const z3::expr e = e0.is_numeral() ? e0 : e0.simplify();
    double d;
    if (e.is_numeral() && numeralToDouble(e, d))
    {
        if (w == 64) { Val v = Val::I(fromD(d), 64); v.fp = 1; return v; }
        if ((double)(float)d == d) { Val v = Val::I(fromF((float)d), 32); v.fp = 1; return v; }
    }
    Val r;
    r.k = Val::SR;
    r.w = w;
    r.e = keep(e);
    return r;
}
static Val mkBV(const z3::expr& e0, unsigned w)
{
    z3::expr e = e0.is_numeral() ? e0 : e0.simplify();
    if (w == 1)
    {
        if (e.is_true()) return Val::I(1, 1);
        if (e.is_false()) return Val::I(0, 1);
    }
    else if (e.is_numeral() && w <= 64)
    {
        return Val::I(e.get_numeral_uint64(), w);
    }
    Val r;
    r.k = Val::SB;
    r.w = w;
    r.e = keep(e);
    return r;
}
static z3::expr bvNum(u64 c, unsigned w) { return Z->bv_val((uint64_t)c, w); }

static Val freshBV(unsigned w, const char* tag);
static z3::expr bvOf(const Val& v)
{
    if (v.k == Val::CI) return v.w == 1 ? Z->bool_val(v.c != 0) : bvNum(v.c, v.w);
    if (v.k == Val::SB) return *v.e;
    if (v.k == Val::UN) return *freshBV(v.w, "undef").e;
    if (v.k == Val::SR) throw Incomplete{"integer operation on a symbolic real"};
    throw Incomplete{"integer operation on an aggregate"};
}
static z3::expr asBV1(const z3::expr& b) { return z3::ite(b, bvNum(1, 1), bvNum(0, 1)); }
static z3::expr vecOf(const Val& v) // always a bit-vector, also for i1
{
    z3::expr e = bvOf(v);
    return v.w == 1 ? asBV1(e) : e;
}
static int freshCount = 0;
static Val freshBV(unsigned w, const char* tag)
{
    std::string n = std::string("!") + tag + std::to_string(freshCount++);
    Val r;
    r.k = Val::SB;
    r.w = w;
    r.e = keep(w == 1 ? Z->bool_const(n.c_str()) : Z->bv_const(n.c_str(), w));
    return r;
}
static Val freshReal(unsigned w, const char* tag)
{
    std::string n = std::string("!") + tag + std::to_string(freshCount++);
    Val r;
    r.k = Val::SR;
    r.w = w;
    r.e = keep(Z->real_const(n.c_str()));
    return r;
}
static z3::expr realOf(const Val& v)
{
    if (v.k == Val::SR) return *v.e;
    if (v.k == Val::CI) return realOfDouble(v.w == 32 ? (double)asF(v.c) : asD(v.c));
    if (v.k == Val::UN) return *freshReal(v.w, "undefr").e;
    throw Incomplete{"real operation on symbolic integer bits"};
}

// ------------------------------------------------------------------------------------------------
// path condition and solver
// ------------------------------------------------------------------------------------------------
typedef std::vector<unsigned> VarSet; // sorted ids of uninterpreted constants
static std::unordered_map<unsigned, std::shared_ptr<VarSet>>* vcache;
static std::shared_ptr<VarSet> varsOf(const z3::expr& e)
{
    unsigned id = Z3_get_ast_id(*Z, e);
    auto it = vcache->find(id);
    if (it != vcache->end()) return it->second;
    auto r = std::make_shared<VarSet>();
    if (e.is_app())
    {
        unsigned n = e.num_args();
        if (n == 0)
        {
            if (!e.is_numeral() && e.decl().decl_kind() == Z3_OP_UNINTERPRETED) r->push_back(id);
        }
        else
        {
            for (unsigned i = 0; i < n; i++)
            {
                auto s = varsOf(e.arg(i));
                VarSet m;
                std::set_union(r->begin(), r->end(), s->begin(), s->end(), std::back_inserter(m));
                r->swap(m);
            }
        }
    }
    keep(e);
    (*vcache)[id] = r;
    return r;
}
struct Cons
{
    z3::expr e;
    std::shared_ptr<VarSet> vs;
};
static std::vector<Cons>* PC;
static std::unordered_map<unsigned, u64>* fixedBV; // variable ast id -> concrete value
static z3::expr_vector* substFrom;
static z3::expr_vector* substTo;
static std::unordered_map<unsigned, z3::expr>* substCache;
static std::unordered_map<u64, int>* qcache;
static bool shareVar(const VarSet& a, const VarSet& b)
{
    size_t i = 0, j = 0;
    while (i < a.size() && j < b.size())
    {
        if (a[i] == b[j]) return true;
        if (a[i] < b[j]) i++;
        else j++;
    }
    return false;
}
static z3::expr applySubst(const z3::expr& e)
{
    if (substFrom->size() == 0) return e;
    auto vs = varsOf(e);
    bool any = false;
    for (unsigned v : *vs)
        if (fixedBV->count(v)) { any = true; break; }
    if (!any) return e;
    unsigned id = Z3_get_ast_id(*Z, e);
    auto it = substCache->find(id);
    if (it != substCache->end()) return it->second;
    z3::expr t = e;
    z3::expr r = t.substitute(*substFrom, *substTo).simplify();
    keep(e);
    substCache->emplace(id, r);
    return r;
}
static std::vector<size_t> relevant(const z3::expr& q)
{
    VarSet vs = *varsOf(q);
    std::vector<size_t> sel;
    std::vector<char> in(PC->size(), 0);
    bool ch = true;
    while (ch)
    {
        ch = false;
        for (size_t i = 0; i < PC->size(); i++)
        {
            if (in[i] || !shareVar((*PC)[i].vs ? *(*PC)[i].vs : VarSet(), vs)) continue;
            in[i] = 1;
            ch = true;
            VarSet m;
            std::set_union(vs.begin(), vs.end(), (*PC)[i].vs->begin(), (*PC)[i].vs->end(), std::back_inserter(m));
            vs.swap(m);
        }
    }
    for (size_t i = 0; i < PC->size(); i++)
        if (in[i]) sel.push_back(i);
    return sel;
}
// A satisfying assignment of the whole path condition, kept up to date so that most feasibility
// questions are answered by evaluation. Every "infeasible" and every obligation is the solver's.
static std::unordered_map<unsigned, z3::expr>* asg;
static bool asgValid = true;
struct Pending { unsigned q = 0; std::vector<std::pair<z3::expr, z3::expr>> vals; };
static std::vector<Pending>* pend;
static std::unordered_map<unsigned, z3::expr>* varById; // ast id -> constant
static void noteVars(const z3::expr& e)
{
    if (!e.is_app()) return;
    unsigned id = Z3_get_ast_id(*Z, e);
    static std::set<unsigned>* seen = new std::set<unsigned>;
    if (!seen->insert(id).second) return;
    keep(e);
    unsigned n = e.num_args();
    if (n == 0)
    {
        if (!e.is_numeral() && e.decl().decl_kind() == Z3_OP_UNINTERPRETED) varById->emplace(id, e);
    }
    else
        for (unsigned i = 0; i < n; i++) noteVars(e.arg(i));
}
static z3::expr defaultFor(const z3::expr& v)
{
    if (v.is_bool()) return Z->bool_val(false);
    if (v.is_bv()) return Z->bv_val(0, v.get_sort().bv_size());
    return Z->real_val(0);
}
static z3::expr evalAsg(const z3::expr& e0, const std::vector<std::pair<z3::expr, z3::expr>>* over = nullptr)
{
    z3::expr e = e0;
    auto vs = varsOf(e);
    if (vs->empty()) return e.simplify();
    noteVars(e);
    z3::expr_vector f(*Z), t(*Z);
    for (unsigned v : *vs)
    {
        z3::expr x = varById->at(v);
        f.push_back(x);
        bool done = false;
        if (over)
            for (auto& o : *over)
                if (Z3_get_ast_id(*Z, o.first) == v) { t.push_back(o.second); done = true; break; }
        if (done) continue;
        auto it = asg->find(v);
        t.push_back(it == asg->end() ? defaultFor(x) : it->second);
    }
    return e.substitute(f, t).simplify();
}
// 1 sat, 0 unsat, -1 unknown
static int solve(const z3::expr& q, z3::model** model = nullptr, bool whole = false)
{
    if (q.is_false()) return 0;
    std::vector<size_t> sel;
    if (whole)
        for (size_t i = 0; i < PC->size(); i++) sel.push_back(i);
    else
    {
        if (q.is_true() && !model) return 1;
        sel = relevant(q);
    }
    u64 key = 1469598103934665603ull;
    auto mix = [&](u64 x) { key = (key ^ x) * 1099511628211ull; };
    for (size_t i : sel) mix(Z3_get_ast_id(*Z, (*PC)[i].e));
    mix(0xffff + (u64)Z3_get_ast_id(*Z, q));
    if (!model)
    {
        auto it = qcache->find(key);
        if (it != qcache->end()) return it->second;
    }
    if (!model && asgValid && evalAsg(q).is_true()) return 1;
    double t = nowS();
    z3::solver s(*Z);
    z3::params p(*Z);
    p.set("rlimit", OPT.rlimit);
    s.set(p);
    for (size_t i : sel) s.add((*PC)[i].e);
    s.add(q);
    int r;
    try
    {
        auto c = s.check();
        r = c == z3::sat ? 1 : c == z3::unsat ? 0 : -1;
    }
    catch (z3::exception& ex)
    {
        r = -1;
    }
    SH->queries++;
    double dt = nowS() - t;
    SH->queryNs += (long)(dt * 1e9);
    if (OPT.verbose && dt > 1.0) fprintf(stderr, "[slow query %.1fs r=%d n=%zu]\n", dt, r, sel.size());
    if (r == 1)
    {
        z3::model m = s.get_model();
        if (model) *model = new z3::model(m);
        Pending pd;
        pd.q = Z3_get_ast_id(*Z, q);
        VarSet all = *varsOf(q);
        noteVars(q);
        for (size_t i : sel)
        {
            noteVars((*PC)[i].e);
            VarSet u;
            std::set_union(all.begin(), all.end(), (*PC)[i].vs->begin(), (*PC)[i].vs->end(), std::back_inserter(u));
            all.swap(u);
        }
        bool ok = true;
        for (unsigned v : all)
        {
            z3::expr x = varById->at(v);
            z3::expr val = m.eval(x, true);
            if (Z3_is_algebraic_number(*Z, val) || !(val.is_numeral() || val.is_true() || val.is_false())) { ok = false; break; }
            keep(val);
            pd.vals.push_back({x, val});
        }
        if (ok)
        {
            if (whole)
            {
                for (auto& p2 : pd.vals) { asg->erase(Z3_get_ast_id(*Z, p2.first)); asg->emplace(Z3_get_ast_id(*Z, p2.first), p2.second); }
                if (!asgValid)
                {
                    asgValid = true;
                    for (auto& c : *PC) if (!evalAsg(c.e).is_true()) { asgValid = false; break; }
                }
            }
            pend->push_back(pd);
            if (pend->size() > 8) pend->erase(pend->begin());
            keep(q);
        }
    }
    if (r == -1) SH->unknowns++;
    if (!model)
    {
        (*qcache)[key] = r;
        keep(q);
    }
    return r;
}
static void addPC(const z3::expr& c0)
{
    z3::expr c = c0.simplify();
    if (c.is_true()) return;
    if (c.is_app() && c.decl().decl_kind() == Z3_OP_AND)
    {
        for (unsigned i = 0; i < c.num_args(); i++) addPC(c.arg(i));
        return;
    }
    // var == numeral: remember for substitution
    if (c.is_app() && c.decl().decl_kind() == Z3_OP_EQ)
    {
        z3::expr a = c.arg(0), b = c.arg(1);
        if (a.is_numeral()) std::swap(a, b);
        if (b.is_numeral() && a.is_bv() && a.is_const() && !a.is_numeral() && a.get_sort().bv_size() <= 64)
        {
            unsigned id = Z3_get_ast_id(*Z, a);
            if (!fixedBV->count(id))
            {
                (*fixedBV)[id] = b.get_numeral_uint64();
                substFrom->push_back(a);
                substTo->push_back(b);
                substCache->clear();
            }
        }
    }
    if (asgValid && !evalAsg(c).is_true())
    {
        bool fixed = false;
        for (size_t i = pend->size(); i-- > 0 && !fixed;)
        {
            auto& pd = (*pend)[i];
            if (!evalAsg(c, &pd.vals).is_true()) continue;
            auto saved = *asg;
            for (auto& p2 : pd.vals) { asg->erase(Z3_get_ast_id(*Z, p2.first)); asg->emplace(Z3_get_ast_id(*Z, p2.first), p2.second); }
            fixed = true;
            for (auto& k : *PC) if (!evalAsg(k.e).is_true()) { fixed = false; break; }
            if (!fixed) *asg = saved;
        }
        if (!fixed) asgValid = false;
    }
    PC->push_back({c, varsOf(c)});
}
static void setAsg(const z3::expr& v, const z3::expr& val)
{
    noteVars(v);
    keep(val);
    unsigned id = Z3_get_ast_id(*Z, v);
    asg->erase(id);
    asg->emplace(id, val);
}

// ------------------------------------------------------------------------------------------------
// inputs (in creation order) for counterexamples
// ------------------------------------------------------------------------------------------------
struct Input
{
    std::string name;
    char kind; // i or f
    z3::expr e;
};
static std::vector<Input>* INPUTS;
static std::vector<int>* SCHED; // scheduling choices in order
static std::vector<std::pair<std::string, Val>>* OBS;

static std::string realStr(const z3::expr& v)
{
    // as a decimal double
    char b[64];
    if (v.is_numeral())
    {
        double d;
        if (numeralToDouble(v, d)) { snprintf(b, 64, "%.17g", d); return b; }
        std::string s = Z3_get_numeral_string(*Z, v);
        size_t at = s.find('/');
        long double r = strtold(s.c_str(), nullptr);
        if (at != std::string::npos) r /= strtold(s.c_str() + at + 1, nullptr);
        snprintf(b, 64, "%.17g", (double)r);
        return b;
    }
    if (Z3_is_algebraic_number(*Z, v))
    {
        z3::expr lo(*Z, Z3_get_algebraic_number_lower(*Z, v, 30));
        std::string s = Z3_get_numeral_decimal_string(*Z, lo, 40);
        snprintf(b, 64, "%.17g", strtod(s.c_str(), nullptr));
        return b;
    }
    return "0";
}
static std::string inputsJson(z3::model& m)
{
    std::string s = "[";
    for (size_t i = 0; i < INPUTS->size(); i++)
    {
        auto& in = (*INPUTS)[i];
        if (i) s += ",";
        s += "{\"n\":\"" + jsonEsc(in.name) + "\",";
        z3::expr v = m.eval(in.e, true);
        if (in.kind == 'i')
        {
            i64 x = (i64)v.get_numeral_uint64();
            s += "\"i\":" + std::to_string(x) + "}";
        }
        else s += "\"f\":" + realStr(v) + "}";
    }
    return s + "]";
}
static std::string schedJson()
{
    std::string s = "[";
    for (size_t i = 0; i < SCHED->size(); i++) s += (i ? "," : "") + std::to_string((*SCHED)[i]);
    return s + "]";
}
static std::string locStr();
static std::string stackStr();

// values rounded to single precision: (exact value, rounded value); see f32Val
static std::vector<std::pair<z3::expr, z3::expr>>* ROUNDED;
// every rounded value is one whose rounding is known, so that a counterexample with it is one of the real code
static bool roundedModel(const z3::expr& q, z3::model** m)
{
    if (ROUNDED->empty() || ROUNDED->size() > 24) return false;
    z3::expr_vector all(*Z);
    for (auto& [x, r] : *ROUNDED)
    {
        z3::expr_vector any(*Z);
        for (double d : {0.1, 16777217.0, -0.3, 0.0, 1.0, -1.0, 0.25, 2.0})
            any.push_back(x == realOfDouble(d) && r == realOfDouble((double)(float)d));
        all.push_back(z3::mk_or(any));
    }
    if (solve(q && z3::mk_and(all), m, true) == 1) return true;
    return false;
}
// prefer small, well separated values so that the native replay shows the difference
static bool niceModel(const z3::expr& q, z3::model** m)
{
    if (roundedModel(q, m)) return true;
    z3::expr_vector pref(*Z);
    for (auto& in : *INPUTS)
        if (in.kind == 'f')
        {
            pref.push_back(in.e <= 16 && in.e >= -16);
        }
    z3::expr c = z3::mk_and(pref);
    if (pref.size())
    {
        int r = solve(q && c, m, true);
        if (r == 1) return true;
    }
    return solve(q, m, true) == 1;
}
static void report(const char* kind, const std::string& msg, z3::model* m)
{
    SH->violations++;
    std::string ins = m ? inputsJson(*m) : "[]";
    emitLine(
        std::string("{\"t\":\"violation\",\"kind\":\"") + kind + "\",\"msg\":\"" + jsonEsc(msg) + "\",\"where\":\""
        + jsonEsc(locStr()) + "\",\"stack\":\"" + jsonEsc(stackStr()) + "\",\"inputs\":" + ins + ",\"sched\":" + schedJson() + "}"
    );
    if (SH->violations >= OPT.maxViol) SH->stop = 1;
}
// the path itself is the counterexample
[[noreturn]] static void violationHere(const char* kind, const std::string& msg)
{
    z3::model* m = nullptr;
    niceModel(Z->bool_val(true), &m);
    report(kind, msg, m);
    throw PathEnd{3};
}

// ------------------------------------------------------------------------------------------------
// forking
// ------------------------------------------------------------------------------------------------
static std::vector<pid_t> kids;
static bool iAmChild = false;
static void checkLimits()
{
    if (SH->stop) throw PathEnd{4};
    if (nowS() - T0 > OPT.timeout) throw Incomplete{"time limit"};
    if (SH->procs > OPT.maxPaths) throw Incomplete{"path limit"};
}
// returns true in the child
static std::string locStr();
static bool split()
{
    checkLimits();
    if (OPT.traceForks) fprintf(stderr, "FORK %s\n", locStr().c_str());
    SH->forks++;
    SH->procs++;
    bool parallel = SH->running.fetch_add(1) < OPT.jobs;
    if (!parallel) SH->running--;
    fflush(stderr);
    pid_t p = fork();
    if (p < 0)
    {
        if (parallel) SH->running--;
        throw Incomplete{"fork failed"};
    }
    if (p == 0)
    {
        kids.clear();
        iAmChild = true;
        alarm((unsigned)std::max(1.0, OPT.timeout + 20 - (nowS() - T0))); // a solver call that does not return
        // a sequential child borrows its parent's slot
        extern bool ownSlot;
        ownSlot = parallel;
        return true;
    }
    if (parallel) kids.push_back(p);
    else
    {
        int st;
        waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
        {
            SH->incomplete++;
            emitLine("{\"t\":\"incomplete\",\"why\":\"a path process died\"}");
        }
    }
    return false;
}
bool ownSlot = false;

static bool branchOn(const z3::expr& c0)
{
    z3::expr c = applySubst(c0).simplify();
    if (c.is_true()) return true;
    if (c.is_false()) return false;
    int t = solve(c);
    if (t == 0) { return false; }
    int f = solve(!c);
    if (f == 0) { return true; }
    if (t < 0 || f < 0) { /* explore both: superset of the feasible paths */ }
    if (split())
    {
        addPC(c);
        return true;
    }
    addPC(!c);
    return false;
}
static int chooseN(int n) // nondeterministic engine choice
{
    for (int i = 0; i + 1 < n; i++)
        if (split()) return i;
    return n - 1;
}
static u64 concretise(const Val& v, const char* why)
{
    if (v.k == Val::CI) return v.c;
    if (v.k == Val::UN) throw Incomplete{std::string("uninitialised value used as ") + why};
    if (v.k == Val::SR) throw Incomplete{std::string("symbolic real used as ") + why};
    z3::expr e = v.w == 1 ? asBV1(*v.e) : *v.e;
    e = applySubst(e).simplify();
    for (int guard = 0; guard < 4096; guard++)
    {
        if (e.is_numeral()) return e.get_numeral_uint64();
        z3::expr val = asgValid ? evalAsg(e) : e;
        if (!val.is_numeral())
        {
            z3::model* m = nullptr;
            int r = solve(Z->bool_val(true) && (e == e), &m, true);
            if (r == 0) throw PathEnd{1};
            if (r < 0) throw Incomplete{"solver gave up while concretising"};
            val = m->eval(e, true);
            delete m;
        }
        SH->concretised++;
        z3::expr eq = (e == val);
        int other = solve(!eq);
        if (other == 0)
        {
            addPC(eq);
            return val.get_numeral_uint64();
        }
        if (split())
        {
            addPC(eq);
            return val.get_numeral_uint64();
        }
        addPC(!eq);
        e = applySubst(e).simplify();
    }
    throw Incomplete{std::string("too many values for ") + why};
}

// ------------------------------------------------------------------------------------------------
// memory
// ------------------------------------------------------------------------------------------------
struct Obj
{
    u64 base = 0, size = 0;
    std::vector<u8> b;  // concrete bytes
    std::vector<u8> st; // 0 uninitialised, 1 concrete, 2 part of a symbolic cell
    std::map<u64, Val> cells;
    u8 kind = 0; // 0 global 1 stack 2 heap(new/malloc) 3 kokkos 4 exception
    u8 space = 0;
    bool ro = false, live = true;
    const char* name = "";
};
static std::map<u64, std::unique_ptr<Obj>>* OBJS;
static u64 brk_ = 0x100000000ull;
static Obj* lastObj = nullptr;
static Obj* newObj(u64 size, u64 align, u8 kind, const char* name)
{
    if (size > (1ull << 26)) throw Incomplete{"allocation of " + std::to_string(size) + " bytes"};
    if (align < 16) align = 16;
    brk_ = (brk_ + 32 + align - 1) / align * align;
    auto o = std::make_unique<Obj>();
    o->base = brk_;
    o->size = size;
    o->b.resize(size);
    o->st.assign(size, 0);
    o->kind = kind;
    o->name = name;
    brk_ += size ? size : 1;
    Obj* r = o.get();
    OBJS->emplace(r->base, std::move(o));
    return r;
}
static Obj* findObj(u64 a)
{
    if (lastObj && a >= lastObj->base && a < lastObj->base + lastObj->size) return lastObj;
    auto it = OBJS->upper_bound(a);
    if (it == OBJS->begin()) return nullptr;
    --it;
    Obj* o = it->second.get();
    if (a >= o->base && (a < o->base + o->size || (o->size == 0 && a == o->base))) { lastObj = o; return o; }
    return nullptr;
}
static std::string describeAddr(u64 a)
{
    char b[128];
    if (a < 4096) { snprintf(b, 128, "null pointer (address %llu)", (unsigned long long)a); return b; }
    auto it = OBJS->upper_bound(a);
    if (it != OBJS->begin())
    {
        --it;
        Obj* o = it->second.get();
        if (a - o->base < o->size + 4096)
        {
            snprintf(b, 128, "offset %lld of a %llu-byte object (%s)", (long long)(a - o->base),
                     (unsigned long long)o->size, o->live ? "live" : "freed");
            return b;
        }
    }
    snprintf(b, 128, "address 0x%llx", (unsigned long long)a);
    return b;
}

// --- parallel regions: race detection
struct Acc { int tid; bool write, atomic; };
static bool inPar = false;
static int parSpace = 0;
static u64 parBase = 0; // objects below existed before the parallel region
static int curTid = -1;
static int inAtomic = 0;
static std::unordered_map<u64, std::vector<Acc>>* ACC;
static bool memSpaceMode = false;
static int raceBusy = 0;
static int guardBusy = 0; // initialising a local static
static void noteSymConflicts(Obj* o, const z3::expr& p, u64 n, bool write);
static bool haveSymAcc();
static void noteAccess(u64 a, u64 n, bool write, Obj* o)
{
    if (memSpaceMode && o->kind == 3 && !raceBusy)
    {
        bool onDevice = inPar && (parSpace & 15) == 2;
        if (o->space == 1 && !onDevice) violationHere("memspace", "host code accesses device memory");
    }
    if (memSpaceMode && inPar && (parSpace & 15) == 2 && !raceBusy)
    {
        if ((o->kind == 2) || (o->kind == 3 && o->space == 0) || (o->kind == 1 && o->base < parBase))
            violationHere("memspace", "device code accesses host memory");
    }
    if (!inPar || curTid < 0 || o->ro || guardBusy) return;
    SH->accesses++;
    if (haveSymAcc()) noteSymConflicts(o, bvNum(a, 64), n, write);
    for (u64 i = 0; i < n; i++)
    {
        auto& v = (*ACC)[a + i];
        // two iterations of each kind of access suffice to meet any conflict
        bool known = false;
        int kept = 0;
        for (auto& x : v)
        {
            if (x.write == write && x.atomic == (inAtomic > 0)) kept++;
            if (x.tid == curTid)
            {
                if (x.write == write && x.atomic == (inAtomic > 0)) known = true;
                continue;
            }
            if ((x.write || write) && !(x.atomic && inAtomic > 0))
            {
                SH->races++;
                violationHere(
                    "race", "iterations " + std::to_string(x.tid) + " and " + std::to_string(curTid)
                                + " access the same location without synchronisation"
                );
            }
        }
        if (!known && kept < 2) v.push_back({curTid, write, inAtomic > 0});
    }
}

static Obj* checkAccess(u64 a, u64 n, bool write)
{
    Obj* o = findObj(a);
    if (!o || a + n > o->base + o->size)
        violationHere("memory", std::string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes at " + describeAddr(a));
    if (!o->live) violationHere("memory", std::string(write ? "write to" : "read of") + " freed memory, " + describeAddr(a));
    if (write && o->ro) violationHere("memory", "write to constant memory " + std::string(o->name));
    noteAccess(a, n, write, o);
    return o;
}
static Val extractBits(const Val& v, unsigned offBytes, unsigned nBytes)
{
    unsigned w = nBytes * 8;
    if (v.k == Val::CI) return Val::I(v.c >> (8 * offBytes), w);
    if (v.k == Val::UN) return Val::U(w);
    if (v.k == Val::SR) throw Incomplete{"partial access to a symbolic real"};
    return mkBV(vecOf(v).extract(offBytes * 8 + w - 1, offBytes * 8), w);
}
// break a symbolic cell into bytes
static void explode(Obj* o, std::map<u64, Val>::iterator it, bool overwritten = false)
{
    u64 off = it->first;
    Val v = it->second;
    o->cells.erase(it);
    unsigned n = v.w / 8;
    if (overwritten && v.k == Val::SR)
    { // what is left of a partly overwritten real is arbitrary
        for (unsigned i = 0; i < n; i++) o->st[off + i] = 0;
        return;
    }
    for (unsigned i = 0; i < n; i++)
    {
        Val x = extractBits(v, i, 1);
        if (x.k == Val::CI) { o->b[off + i] = x.c; o->st[off + i] = 1; }
        else if (x.k == Val::UN) o->st[off + i] = 0;
        else { o->cells[off + i] = x; o->st[off + i] = 2; }
    }
}
static void clearRange(Obj* o, u64 off, u64 n)
{
    if (o->cells.empty()) return;
    auto it = o->cells.lower_bound(off);
    if (it != o->cells.begin())
    {
        auto p = std::prev(it);
        if (p->first + p->second.w / 8 > off)
        {
            explode(o, p, true);
            it = o->cells.lower_bound(off);
        }
    }
    while (it != o->cells.end() && it->first < off + n)
    {
        if (it->first + it->second.w / 8 > off + n)
        {
            u64 k = it->first;
            explode(o, it, true);
            it = o->cells.lower_bound(k);
            continue;
        }
        it = o->cells.erase(it);
    }
}
static void storeRaw(Obj* o, u64 off, const Val& v, u64 nbytes)
{
    clearRange(o, off, nbytes);
    if (v.k == Val::CI)
    {
        for (u64 i = 0; i < nbytes; i++) { o->b[off + i] = i < 8 ? (u8)(v.c >> (8 * i)) : 0; o->st[off + i] = 1; }
    }
    else if (v.k == Val::UN)
    {
        for (u64 i = 0; i < nbytes; i++) o->st[off + i] = 0;
    }
    else
    {
        Val x = v;
        if (v.k == Val::SB && v.w != nbytes * 8)
        {
            x = mkBV(z3::zext(vecOf(v), nbytes * 8 - v.w), nbytes * 8);
            if (x.k == Val::CI) { storeRaw(o, off, x, nbytes); return; }
        }
        o->cells[off] = x;
        for (u64 i = 0; i < nbytes; i++) o->st[off + i] = 2;
    }
}
static Val loadRaw(Obj* o, u64 off, u64 nbytes, unsigned w)
{
    if (nbytes <= 8)
    {
        bool all = true, none = true;
        for (u64 i = 0; i < nbytes; i++)
        {
            u8 s = o->st[off + i];
            if (s != 1) all = false;
            if (s != 0) none = false;
        }
        if (all)
        {
            u64 c = 0;
            memcpy(&c, &o->b[off], nbytes);
            return Val::I(c, w);
        }
        if (none) return Val::U(w);
    }
    auto it = o->cells.find(off);
    if (it != o->cells.end() && it->second.w == nbytes * 8)
    {
        Val v = it->second;
        if (v.k == Val::SB)
        {
            z3::expr s = applySubst(*v.e);
            if (s.is_numeral()) { v = mkBV(s, v.w); }
            if (w == v.w) return v;
            if (v.k == Val::CI) return Val::I(v.c, w);
            if (w == 1) return mkBV(vecOf(v).extract(0, 0) == bvNum(1, 1), 1);
            return mkBV(vecOf(v).extract(w - 1, 0), w);
        }
        if (v.k == Val::SR && w == v.w) return v;
    }
    // mixture: assemble from bytes
    z3::expr acc(*Z);
    bool first = true;
    u64 i = nbytes;
    std::vector<z3::expr> parts;
    for (u64 k = 0; k < nbytes;)
    {
        u8 s = o->st[off + k];
        if (s == 1) { parts.push_back(bvNum(o->b[off + k], 8)); k++; }
        else if (s == 0) { parts.push_back(*freshBV(8, "undef").e); k++; }
        else
        {
            auto c = o->cells.upper_bound(off + k);
            --c;
            u64 within = off + k - c->first;
            u64 avail = c->second.w / 8 - within;
            u64 take = std::min(avail, nbytes - k);
            parts.push_back(vecOf(extractBits(c->second, within, take)));
            k += take;
        }
    }
    (void)i;
    for (auto& p : parts)
    {
        if (first) { acc = p; first = false; }
        else acc = z3::concat(p, acc);
    }
    acc = applySubst(acc);
    if (w == 1) return mkBV(acc.extract(0, 0) == bvNum(1, 1), 1);
    if (w < nbytes * 8) acc = acc.extract(w - 1, 0);
    return mkBV(acc, w);
}
static void copyMem(Obj* d, u64 doff, Obj* s, u64 soff, u64 n)
{
    if (n == 0) return;
    std::vector<u8> b(s->b.begin() + soff, s->b.begin() + soff + n);
    std::vector<u8> st(s->st.begin() + soff, s->st.begin() + soff + n);
    std::vector<std::pair<u64, Val>> cs;
    auto it = s->cells.lower_bound(soff);
    if (it != s->cells.begin())
    {
        auto p = std::prev(it);
        u64 end = p->first + p->second.w / 8;
        if (end > soff)
        {
            u64 take = std::min(end, soff + n) - soff;
            cs.push_back({0, extractBits(p->second, soff - p->first, take)});
        }
    }
    for (; it != s->cells.end() && it->first < soff + n; ++it)
    {
        u64 end = it->first + it->second.w / 8;
        if (end <= soff + n) cs.push_back({it->first - soff, it->second});
        else cs.push_back({it->first - soff, extractBits(it->second, 0, soff + n - it->first)});
    }
    clearRange(d, doff, n);
    std::copy(b.begin(), b.end(), d->b.begin() + doff);
    std::copy(st.begin(), st.end(), d->st.begin() + doff);
    for (auto& c : cs) storeRaw(d, doff + c.first, c.second, c.second.w / 8);
}

// ------------------------------------------------------------------------------------------------
// module
// ------------------------------------------------------------------------------------------------
static Module* M;
static const DataLayout* DL;
static DenseMap<const GlobalValue*, u64>* gaddr;
static std::unordered_map<u64, Function*>* faddr;
static u64 fbrk = 0x10000;

static u64 addrOf(const GlobalValue* g);
static Val constVal(const Constant* c);
static unsigned widthOf(Type* t)
{
    if (t->isPointerTy()) return 64;
    if (t->isIntegerTy()) return t->getIntegerBitWidth();
    if (t->isDoubleTy()) return 64;
    if (t->isFloatTy()) return 32;
    if (t->isX86_FP80Ty()) return 80;
    if (t->isVoidTy()) return 0;
    return 0;
}
static void storeTyped(Obj* o, u64 off, Type* t, const Val& v)
{
    if (auto* st = dyn_cast<StructType>(t))
    {
        auto* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++)
            storeTyped(o, off + sl->getElementOffset(i), st->getElementType(i), v.k == Val::AG ? (*v.a)[i] : Val::U(0));
        return;
    }
    if (auto* at = dyn_cast<ArrayType>(t))
    {
        u64 es = DL->getTypeAllocSize(at->getElementType());
        for (u64 i = 0; i < at->getNumElements(); i++)
            storeTyped(o, off + i * es, at->getElementType(), v.k == Val::AG ? (*v.a)[i] : Val::U(0));
        return;
    }
    if (auto* vt = dyn_cast<FixedVectorType>(t))
    {
        u64 es = DL->getTypeStoreSize(vt->getElementType());
        for (u64 i = 0; i < vt->getNumElements(); i++)
            storeTyped(o, off + i * es, vt->getElementType(), v.k == Val::AG ? (*v.a)[i] : Val::U(0));
        return;
    }
    u64 n = DL->getTypeStoreSize(t);
    storeRaw(o, off, v.k == Val::UN ? Val::U(widthOf(t)) : v, n);
}
static Val mkAgg(std::vector<Val> v)
{
    Val r;
    r.k = Val::AG;
    r.a = new std::vector<Val>(std::move(v));
    return r;
}
static Val loadTyped(Obj* o, u64 off, Type* t)
{
    if (auto* st = dyn_cast<StructType>(t))
    {
        auto* sl = DL->getStructLayout(st);
        std::vector<Val> r;
        for (unsigned i = 0; i < st->getNumElements(); i++)
            r.push_back(loadTyped(o, off + sl->getElementOffset(i), st->getElementType(i)));
        return mkAgg(std::move(r));
    }
    if (isa<ArrayType>(t) || isa<FixedVectorType>(t))
    {
        Type* et = isa<ArrayType>(t) ? cast<ArrayType>(t)->getElementType() : cast<FixedVectorType>(t)->getElementType();
        u64 n = isa<ArrayType>(t) ? cast<ArrayType>(t)->getNumElements() : cast<FixedVectorType>(t)->getNumElements();
        u64 es = isa<ArrayType>(t) ? DL->getTypeAllocSize(et) : DL->getTypeStoreSize(et);
        std::vector<Val> r;
        for (u64 i = 0; i < n; i++) r.push_back(loadTyped(o, off + i * es, et));
        return mkAgg(std::move(r));
    }
    u64 n = DL->getTypeStoreSize(t);
    return loadRaw(o, off, n, widthOf(t));
}
static void initMem(Obj* o, u64 off, const Constant* c)
{
    Type* t = c->getType();
    if (isa<UndefValue>(c)) return;
    if (isa<ConstantAggregateZero>(c) || c->isNullValue())
    {
        u64 n = DL->getTypeAllocSize(t);
        if (off + n > o->size) n = o->size - off;
        for (u64 i = 0; i < n; i++) { o->b[off + i] = 0; o->st[off + i] = 1; }
        return;
    }
    if (auto* ca = dyn_cast<ConstantDataSequential>(c))
    {
        u64 es = DL->getTypeAllocSize(ca->getElementType());
        StringRef raw = ca->getRawDataValues();
        if (raw.size() == es * ca->getNumElements())
        {
            for (u64 i = 0; i < raw.size(); i++) { o->b[off + i] = raw[i]; o->st[off + i] = 1; }
            return;
        }
        for (unsigned i = 0; i < ca->getNumElements(); i++) initMem(o, off + i * es, ca->getElementAsConstant(i));
        return;
    }
    if (auto* st = dyn_cast<StructType>(t))
    {
        auto* sl = DL->getStructLayout(st);
        for (unsigned i = 0; i < st->getNumElements(); i++)
            initMem(o, off + sl->getElementOffset(i), c->getAggregateElement(i));
        // padding reads as zero
        for (u64 i = off; i < off + DL->getTypeAllocSize(t) && i < o->size; i++)
            if (o->st[i] == 0) { o->b[i] = 0; o->st[i] = 1; }
        return;
    }
    if (auto* at = dyn_cast<ArrayType>(t))
    {
        u64 es = DL->getTypeAllocSize(at->getElementType());
        for (u64 i = 0; i < at->getNumElements(); i++) initMem(o, off + i * es, c->getAggregateElement(i));
        return;
    }
    storeTyped(o, off, t, constVal(c));
}
static u64 addrOf(const GlobalValue* g)
{
    auto it = gaddr->find(g);
    if (it != gaddr->end()) return it->second;
    if (auto* f = dyn_cast<Function>(g))
    {
        u64 a = fbrk;
        fbrk += 16;
        (*gaddr)[g] = a;
        (*faddr)[a] = const_cast<Function*>(f);
        return a;
    }
    if (auto* al = dyn_cast<GlobalAlias>(g))
    {
        Val v = constVal(al->getAliasee());
        (*gaddr)[g] = v.c;
        return v.c;
    }
    auto* gv = cast<GlobalVariable>(g);
    Type* t = gv->getValueType();
    u64 sz = t->isSized() ? (u64)DL->getTypeAllocSize(t) : 8;
    if (!gv->hasInitializer() && sz < 256) sz = 256;
    char* nm = strdup(gv->getName().str().c_str());
    Obj* o = newObj(sz, std::max<u64>(16, gv->getAlign() ? gv->getAlign()->value() : 16), 0, nm);
    u64 base = o->base;
    (*gaddr)[g] = base;
    if (gv->hasInitializer())
    {
        initMem(o, 0, gv->getInitializer());
        o = OBJS->find(base)->second.get();
        if (gv->isConstant()) o->ro = true;
    }
    else
    {
        for (u64 i = 0; i < sz; i++) { o->b[i] = 0; o->st[i] = 1; }
        std::string gn = gv->getName().str();
        if (gn.rfind("_ZTI", 0) == 0)
        { // type_info of a fundamental type: {vtable, name}
            std::string tn = gn.substr(4);
            Obj* so = newObj(tn.size() + 1, 16, 0, nm);
            u64 sb = so->base;
            for (u64 i = 0; i <= tn.size(); i++) { so->b[i] = i < tn.size() ? tn[i] : 0; so->st[i] = 1; }
            so->ro = true;
            o = OBJS->find(base)->second.get();
            for (u64 i = 0; i < 8; i++) { o->b[8 + i] = (unsigned char)(sb >> (8 * i)); o->b[i] = 0x5a; }
        }
    }
    return base;
}
// thread-local variables: the threads of an interleaved region (schedule mode 3) have their own
static bool ownThreads = false;
static std::map<std::pair<int, u64>, u64>* TLS;
static u64 threadLocal(u64 a)
{
    if (!inPar || curTid < 0 || !ownThreads) return a;
    if (!TLS) TLS = new std::map<std::pair<int, u64>, u64>;
    auto it = TLS->find({curTid, a});
    if (it != TLS->end()) return it->second;
    const GlobalVariable* g = nullptr;
    for (auto& kv : *gaddr)
        if (kv.second == a && (g = dyn_cast<GlobalVariable>(kv.first))) break;
    if (!g) return a;
    u64 sz = DL->getTypeAllocSize(g->getValueType());
    Obj* o = newObj(sz, std::max<u64>(16, g->getAlign() ? g->getAlign()->value() : 16), 0, "thread-local");
    u64 base = o->base;
    if (g->hasInitializer()) initMem(o, 0, g->getInitializer());
    else for (u64 i = 0; i < sz; i++) { o->b[i] = 0; o->st[i] = 1; }
    (*TLS)[{curTid, a}] = base;
    return base;
}
static u64 gepConst(const GEPOperator* g, const std::function<Val(const Value*)>& ev, z3::expr* sym, bool& isSym);
static Val castOp(unsigned opc, const Val& v, Type* from, Type* to);
static Val f32Val(const Val& v);
static Val binOp(unsigned opc, const Val& a, const Val& b);
static Val icmpOp(CmpInst::Predicate p, Val a, Val b);
static Val gepVal(const GEPOperator* g, const std::function<Val(const Value*)>& ev)
{
    Val base = ev(g->getPointerOperand());
    i64 off = 0;
    Val so;
    bool hasSym = false;
    for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it)
    {
        const Value* idx = it.getOperand();
        if (StructType* st = it.getStructTypeOrNull())
        {
            off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
            continue;
        }
        u64 es = DL->getTypeAllocSize(it.getIndexedType());
        Val v = ev(idx);
        if (v.k == Val::CI)
        {
            i64 x = v.w == 64 ? (i64)v.c : ((i64)(v.c << (64 - v.w)) >> (64 - v.w));
            off += x * (i64)es;
        }
        else
        {
            z3::expr x = vecOf(v);
            if (v.w < 64) x = z3::sext(x, 64 - v.w);
            x = x * bvNum(es, 64);
            so = hasSym ? mkBV(bvOf(so) + x, 64) : mkBV(x, 64);
            hasSym = true;
        }
    }
    if (!hasSym && base.k == Val::CI) return Val::I(base.c + off, 64);
    if (base.k == Val::UN) return base;
    z3::expr r = bvOf(base) + bvNum((u64)off, 64);
    if (hasSym) r = r + bvOf(so);
    return mkBV(r, 64);
}
static Val constVal(const Constant* c)
{
    Type* t = c->getType();
    if (auto* ci = dyn_cast<ConstantInt>(c))
    {
        if (ci->getBitWidth() <= 64) return Val::I(ci->getZExtValue(), ci->getBitWidth());
        Val r;
        r.k = Val::SB;
        r.w = ci->getBitWidth();
        SmallVector<char, 64> s;
        ci->getValue().toStringUnsigned(s, 10);
        r.e = keep(Z->bv_val(std::string(s.begin(), s.end()).c_str(), r.w));
        return r;
    }
    if (auto* cf = dyn_cast<ConstantFP>(c))
    {
        Val v;
        if (t->isX86_FP80Ty())
        {
            APFloat f = cf->getValueAPF();
            bool li;
            f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
            v = Val::I(f.bitcastToAPInt().getZExtValue(), 64);
        }
        else v = Val::I(cf->getValueAPF().bitcastToAPInt().getZExtValue(), widthOf(t));
        v.fp = 1;
        return v;
    }
    if (isa<ConstantPointerNull>(c)) return Val::I(0, 64);
    if (isa<UndefValue>(c))
    {
        if (t->isStructTy() || t->isArrayTy() || t->isVectorTy())
        {
            std::vector<Val> r;
            unsigned n = t->isStructTy() ? t->getStructNumElements()
                         : t->isArrayTy() ? t->getArrayNumElements()
                                          : cast<FixedVectorType>(t)->getNumElements();
            for (unsigned i = 0; i < n; i++) r.push_back(constVal(c->getAggregateElement(i)));
            return mkAgg(std::move(r));
        }
        return Val::U(widthOf(t));
    }
    if (auto* g = dyn_cast<GlobalValue>(c)) return Val::I(addrOf(g), 64);
    if (t->isStructTy() || t->isArrayTy() || t->isVectorTy())
    {
        std::vector<Val> r;
        unsigned n = t->isStructTy() ? t->getStructNumElements()
                     : t->isArrayTy() ? t->getArrayNumElements()
                                      : cast<FixedVectorType>(t)->getNumElements();
        for (unsigned i = 0; i < n; i++) r.push_back(constVal(c->getAggregateElement(i)));
        return mkAgg(std::move(r));
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c))
    {
        auto ev = [](const Value* v) { return constVal(cast<Constant>(v)); };
        if (auto* g = dyn_cast<GEPOperator>(ce)) return gepVal(g, ev);
        if (ce->isCast()) return castOp(ce->getOpcode(), constVal(ce->getOperand(0)), ce->getOperand(0)->getType(), t);
        if (Instruction::isBinaryOp(ce->getOpcode()))
            return binOp(ce->getOpcode(), constVal(ce->getOperand(0)), constVal(ce->getOperand(1)));
        if (ce->isCompare())
            return icmpOp((CmpInst::Predicate)ce->getPredicate(), constVal(ce->getOperand(0)), constVal(ce->getOperand(1)));
    }
    std::string s;
    raw_string_ostream os(s);
    c->print(os);
    throw Incomplete{"constant " + os.str().substr(0, 80)};
}

// ------------------------------------------------------------------------------------------------
// operations
// ------------------------------------------------------------------------------------------------
static i64 sx(u64 c, unsigned w) { return w >= 64 ? (i64)c : ((i64)(c << (64 - w)) >> (64 - w)); }
static Val realBin(unsigned opc, const Val& a, const Val& b, unsigned w);

static Val fbin(unsigned opc, const Val& a, const Val& b)
{
    unsigned w = a.w ? a.w : b.w;
    if (a.k == Val::CI && b.k == Val::CI)
    {
        if (w == 32)
        {
            float x = asF(a.c), y = asF(b.c), r = 0;
            switch (opc)
            {
            case Instruction::FAdd: r = x + y; break;
            case Instruction::FSub: r = x - y; break;
            case Instruction::FMul: r = x * y; break;
            case Instruction::FDiv: r = x / y; break;
            default: r = fmodf(x, y);
            }
            Val v = Val::I(fromF(r), 32);
            v.fp = 1;
            return v;
        }
        double x = asD(a.c), y = asD(b.c), r = 0;
        bool exact = false;
        if (opc == Instruction::FSub) { y = -y; opc = Instruction::FAdd; }
        switch (opc)
        {
        case Instruction::FAdd:
        {
            r = x + y;
            double bb = r - x, err = (x - (r - bb)) + (y - bb);
            exact = err == 0;
            break;
        }
        case Instruction::FMul:
            r = x * y;
            exact = (x == 0 || y == 0) || (std::fabs(r) > 1e-280 && std::fma(x, y, -r) == 0);
            break;
        case Instruction::FDiv:
            r = x / y;
            exact = y == 0 || x == 0 || (std::fabs(r) > 1e-280 && std::fma(r, y, -x) == 0);
            break;
        default: r = fmod(x, y); exact = true;
        }
        if (!std::isfinite(x) || !std::isfinite(y) || !std::isfinite(r)) exact = true;
        if (exact)
        {
            Val v = Val::I(fromD(r), 64);
            v.fp = 1;
            return v;
        }
        return realBin(opc, a, opc == Instruction::FAdd ? Val::I(fromD(y), 64) : b, w);
    }
    return realBin(opc, a, b, w);
}
static bool isZeroNum(const z3::expr& e) { return e.is_numeral() && std::string(Z3_get_numeral_string(*Z, e)) == "0"; }
static Val realBin(unsigned opc, const Val& a, const Val& b, unsigned w)
{
    // infinities with symbolic reals
    z3::expr x = realOf(a), y = realOf(b);
    switch (opc)
    {
    case Instruction::FAdd: return mkReal(x + y, w);
    case Instruction::FSub: return mkReal(x - y, w);
    case Instruction::FMul: return mkReal(x * y, w);
    case Instruction::FDiv:
        if (!y.is_numeral())
        {
            if (branchOn(y == 0)) return freshReal(w, "div0_");
        }
        else if (isZeroNum(y)) return freshReal(w, "div0_");
        return mkReal(x / y, w);
    }
    throw Incomplete{"floating-point remainder"};
}
static Val fneg(const Val& a)
{
    if (a.k == Val::CI)
    {
        Val v = a.w == 32 ? Val::I(fromF(-asF(a.c)), 32) : Val::I(fromD(-asD(a.c)), 64);
        v.fp = 1;
        return v;
    }
    return mkReal(-realOf(a), a.w);
}
static Val boolVal(const z3::expr& e) { return mkBV(e, 1); }
static Val fcmp(CmpInst::Predicate p, const Val& a, const Val& b)
{
    if (p == CmpInst::FCMP_TRUE) return Val::I(1, 1);
    if (p == CmpInst::FCMP_FALSE) return Val::I(0, 1);
    bool ca = a.k == Val::CI, cb = b.k == Val::CI;
    double x = ca ? (a.w == 32 ? asF(a.c) : asD(a.c)) : 0, y = cb ? (b.w == 32 ? asF(b.c) : asD(b.c)) : 0;
    if ((ca && std::isnan(x)) || (cb && std::isnan(y))) return Val::I(p >= CmpInst::FCMP_UNO, 1);
    if (p == CmpInst::FCMP_ORD) return Val::I(1, 1);
    if (p == CmpInst::FCMP_UNO) return Val::I(0, 1);
    int rel = 0; // 1 eq 2 gt 3 ge 4 lt 5 le 6 ne
    switch (p)
    {
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: rel = 1; break;
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: rel = 2; break;
    case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: rel = 3; break;
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: rel = 4; break;
    case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: rel = 5; break;
    default: rel = 6;
    }
    if (ca && !std::isfinite(x) && !cb) { cb = true; y = 0; }
    if (cb && !std::isfinite(y) && !ca) { ca = true; x = 0; }
    if (ca && cb)
    {
        bool r = rel == 1 ? x == y : rel == 2 ? x > y : rel == 3 ? x >= y : rel == 4 ? x < y : rel == 5 ? x <= y : x != y;
        return Val::I(r, 1);
    }
    z3::expr u = realOf(a), v = realOf(b);
    switch (rel)
    {
    case 1: return boolVal(u == v);
    case 2: return boolVal(u > v);
    case 3: return boolVal(u >= v);
    case 4: return boolVal(u < v);
    case 5: return boolVal(u <= v);
    }
    return boolVal(u != v);
}
static Val realIte(const z3::expr& c, const Val& a, const Val& b) { return mkReal(z3::ite(c, realOf(a), realOf(b)), a.w ? a.w : b.w); }

static Val mapAgg2(const Val& a, const Val& b, const std::function<Val(const Val&, const Val&)>& f)
{
    std::vector<Val> r;
    for (size_t i = 0; i < a.a->size(); i++) r.push_back(f((*a.a)[i], (*b.a)[i]));
    return mkAgg(std::move(r));
}
static Val binOp(unsigned opc, const Val& a, const Val& b)
{
    if (a.k == Val::AG && b.k == Val::AG) return mapAgg2(a, b, [&](const Val& x, const Val& y) { return binOp(opc, x, y); });
    switch (opc)
    {
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
        return fbin(opc, a, b);
    }
    unsigned w = a.w;
    if (a.k == Val::CI && b.k == Val::CI && w <= 64)
    {
        u64 x = a.c, y = b.c;
        i64 sxx = sx(x, w), syy = sx(y, w);
        switch (opc)
        {
        case Instruction::Add: return Val::I(x + y, w);
        case Instruction::Sub: return Val::I(x - y, w);
        case Instruction::Mul: return Val::I(x * y, w);
        case Instruction::UDiv: if (y == 0) violationHere("arith", "integer division by zero"); return Val::I(x / y, w);
        case Instruction::URem: if (y == 0) violationHere("arith", "integer division by zero"); return Val::I(x % y, w);
        case Instruction::SDiv:
            if (y == 0) violationHere("arith", "integer division by zero");
            if (syy == -1) return Val::I(-x, w);
            return Val::I(sxx / syy, w);
        case Instruction::SRem:
            if (y == 0) violationHere("arith", "integer division by zero");
            if (syy == -1) return Val::I(0, w);
            return Val::I(sxx % syy, w);
        case Instruction::Shl: return y >= w ? Val::U(w) : Val::I(x << y, w);
        case Instruction::LShr: return y >= w ? Val::U(w) : Val::I(x >> y, w);
        case Instruction::AShr: return y >= w ? Val::U(w) : Val::I(sxx >> y, w);
        case Instruction::And: return Val::I(x & y, w);
        case Instruction::Or: return Val::I(x | y, w);
        case Instruction::Xor: return Val::I(x ^ y, w);
        }
    }
    // absorbing operands keep undefined inputs harmless
    if (a.k == Val::CI || b.k == Val::CI)
    {
        u64 c = a.k == Val::CI ? a.c : b.c;
        if (opc == Instruction::And && c == 0) return Val::I(0, w);
        if (opc == Instruction::Mul && c == 0) return Val::I(0, w);
    }
    // sign-bit tricks on the bits of a symbolic real
    if ((a.k == Val::SR || b.k == Val::SR) && w == 64 && (a.k == Val::CI || b.k == Val::CI))
    {
        const Val& r = a.k == Val::SR ? a : b;
        u64 c = a.k == Val::SR ? b.c : a.c;
        if (opc == Instruction::And && c == 0x7fffffffffffffffull)
            return mkReal(z3::ite(*r.e >= 0, *r.e, -*r.e), 64);
        if (opc == Instruction::Xor && c == 0x8000000000000000ull) return mkReal(-*r.e, 64);
    }
    if (w == 1)
    {
        z3::expr x = bvOf(a), y = bvOf(b);
        switch (opc)
        {
        case Instruction::And: return boolVal(x && y);
        case Instruction::Or: return boolVal(x || y);
        case Instruction::Xor: case Instruction::Add: case Instruction::Sub: return boolVal(x != y);
        case Instruction::Mul: return boolVal(x && y);
        }
        throw Incomplete{"i1 arithmetic"};
    }
    z3::expr x = vecOf(a), y = vecOf(b);
    switch (opc)
    {
    case Instruction::Add: return mkBV(x + y, w);
    case Instruction::Sub: return mkBV(x - y, w);
    case Instruction::Mul: return mkBV(x * y, w);
    case Instruction::UDiv: case Instruction::URem: case Instruction::SDiv: case Instruction::SRem:
        if (branchOn(y == bvNum(0, w))) violationHere("arith", "integer division by zero");
        switch (opc)
        {
        case Instruction::UDiv: return mkBV(z3::udiv(x, y), w);
        case Instruction::URem: return mkBV(z3::urem(x, y), w);
        case Instruction::SDiv: return mkBV(x / y, w);
        default: return mkBV(z3::srem(x, y), w);
        }
    case Instruction::Shl: return mkBV(z3::shl(x, y), w);
    case Instruction::LShr: return mkBV(z3::lshr(x, y), w);
    case Instruction::AShr: return mkBV(z3::ashr(x, y), w);
    case Instruction::And: return mkBV(x & y, w);
    case Instruction::Or: return mkBV(x | y, w);
    case Instruction::Xor: return mkBV(x ^ y, w);
    }
    throw Incomplete{"binary operator"};
}
static Val icmpOp(CmpInst::Predicate p, Val a, Val b)
{
    if (a.k == Val::AG) return mapAgg2(a, b, [&](const Val& x, const Val& y) { return icmpOp(p, x, y); });
    unsigned w = a.w;
    if (a.k == Val::CI && b.k == Val::CI && w <= 64)
    {
        u64 x = a.c, y = b.c;
        i64 sa = sx(x, w), sb = sx(y, w);
        bool r = false;
        switch (p)
        {
        case CmpInst::ICMP_EQ: r = x == y; break;
        case CmpInst::ICMP_NE: r = x != y; break;
        case CmpInst::ICMP_UGT: r = x > y; break;
        case CmpInst::ICMP_UGE: r = x >= y; break;
        case CmpInst::ICMP_ULT: r = x < y; break;
        case CmpInst::ICMP_ULE: r = x <= y; break;
        case CmpInst::ICMP_SGT: r = sa > sb; break;
        case CmpInst::ICMP_SGE: r = sa >= sb; break;
        case CmpInst::ICMP_SLT: r = sa < sb; break;
        case CmpInst::ICMP_SLE: r = sa <= sb; break;
        default: break;
        }
        return Val::I(r, 1);
    }
    // comparing the bits of reals for equality, or testing the sign
    if (a.k == Val::SR || b.k == Val::SR)
    {
        if (p == CmpInst::ICMP_EQ) return boolVal(realOf(a) == realOf(b));
        if (p == CmpInst::ICMP_NE) return boolVal(realOf(a) != realOf(b));
        if (p == CmpInst::ICMP_SLT && b.k == Val::CI && b.c == 0) return boolVal(realOf(a) < 0);
        if (p == CmpInst::ICMP_SGT && b.k == Val::CI && (i64)b.c == -1) return boolVal(realOf(a) >= 0);
    }
    if (w == 1)
    {
        z3::expr x = bvOf(a), y = bvOf(b);
        if (p == CmpInst::ICMP_EQ) return boolVal(x == y);
        if (p == CmpInst::ICMP_NE) return boolVal(x != y);
        x = asBV1(x);
        y = asBV1(y);
        switch (p)
        {
        case CmpInst::ICMP_UGT: return boolVal(z3::ugt(x, y));
        case CmpInst::ICMP_UGE: return boolVal(z3::uge(x, y));
        case CmpInst::ICMP_ULT: return boolVal(z3::ult(x, y));
        default: return boolVal(z3::ule(x, y));
        }
    }
    z3::expr x = vecOf(a), y = vecOf(b);
    switch (p)
    {
    case CmpInst::ICMP_EQ: return boolVal(x == y);
    case CmpInst::ICMP_NE: return boolVal(x != y);
    case CmpInst::ICMP_UGT: return boolVal(z3::ugt(x, y));
    case CmpInst::ICMP_UGE: return boolVal(z3::uge(x, y));
    case CmpInst::ICMP_ULT: return boolVal(z3::ult(x, y));
    case CmpInst::ICMP_ULE: return boolVal(z3::ule(x, y));
    case CmpInst::ICMP_SGT: return boolVal(x > y);
    case CmpInst::ICMP_SGE: return boolVal(x >= y);
    case CmpInst::ICMP_SLT: return boolVal(x < y);
    default: return boolVal(x <= y);
    }
}
static Val castOp(unsigned opc, const Val& v, Type* from, Type* to)
{
    if (v.k == Val::AG)
    {
        if (opc == Instruction::BitCast) throw Incomplete{"vector bitcast"};
        Type* ft = cast<FixedVectorType>(from)->getElementType();
        Type* tt = cast<FixedVectorType>(to)->getElementType();
        std::vector<Val> r;
        for (auto& x : *v.a) r.push_back(castOp(opc, x, ft, tt));
        return mkAgg(std::move(r));
    }
    unsigned w = widthOf(to);
    if (to->isVectorTy()) throw Incomplete{"cast to vector"};
    switch (opc)
    {
    case Instruction::BitCast:
    case Instruction::AddrSpaceCast: return v.w == w ? v : Val::U(w);
    case Instruction::PtrToInt:
    case Instruction::IntToPtr:
    case Instruction::Trunc:
    case Instruction::ZExt:
    {
        if (v.k == Val::UN) return opc == Instruction::ZExt && v.w < w ? mkBV(z3::zext(vecOf(v), w - v.w), w) : Val::U(w);
        if (v.w == w) return v;
        if (v.k == Val::CI && w <= 64) return Val::I(v.c, w);
        if (w < v.w)
        {
            z3::expr x = vecOf(v).extract(w - 1, 0);
            return w == 1 ? boolVal(x == bvNum(1, 1)) : mkBV(x, w);
        }
        return mkBV(z3::zext(vecOf(v), w - v.w), w);
    }
    case Instruction::SExt:
        if (v.k == Val::CI && w <= 64) return Val::I(sx(v.c, v.w), w);
        return mkBV(z3::sext(vecOf(v), w - v.w), w);
    case Instruction::FPExt:
    case Instruction::FPTrunc:
        if (v.k == Val::CI)
        {
            Val r = v;
            if (v.w == 32 && w == 64) r = Val::I(fromD(asF(v.c)), 64);
            else if (v.w == 64 && w == 32) r = Val::I(fromF((float)asD(v.c)), 32);
            else r.w = 64; // x87 values are kept as doubles
            r.fp = 1;
            return r;
        }
        else
        {
            if (w == 32 && v.k == Val::SR && v.w != 32) return f32Val(v);
            Val r = v;
            r.w = w == 80 ? 64 : w;
            return r;
        }
    case Instruction::SIToFP:
    case Instruction::UIToFP:
    {
        u64 c = v.k == Val::CI ? v.c : concretise(v, "an integer converted to floating point");
        if (w == 32)
        {
            Val r = Val::I(fromF(opc == Instruction::SIToFP ? (float)sx(c, v.w) : (float)c), 32);
            r.fp = 1;
            return r;
        }
        double d = opc == Instruction::SIToFP ? (double)sx(c, v.w) : (double)c;
        bool exact = opc == Instruction::SIToFP ? (i64)d == sx(c, v.w) : (d < 1.8e19 && (u64)d == c);
        if (!exact && w == 64)
            return mkReal(Z->real_val((opc == Instruction::SIToFP ? std::to_string(sx(c, v.w)) : std::to_string(c)).c_str()), 64);
        Val r = Val::I(fromD(d), 64);
        r.fp = 1;
        return r;
    }
    case Instruction::FPToSI:
    case Instruction::FPToUI:
    {
        if (v.k == Val::CI)
        {
            double d = v.w == 32 ? asF(v.c) : asD(v.c);
            return Val::I(opc == Instruction::FPToSI ? (u64)(i64)d : (u64)d, w);
        }
        z3::expr e = realOf(v);
        if (e.is_numeral())
        {
            std::string s = Z3_get_numeral_decimal_string(*Z, e, 20);
            return Val::I((u64)(i64)strtod(s.c_str(), nullptr), w);
        }
        // truncation toward zero of a symbolic real
        z3::expr t = z3::ite(e >= 0, z3::expr(*Z, Z3_mk_real2int(*Z, e)), -z3::expr(*Z, Z3_mk_real2int(*Z, -e)));
        return mkBV(z3::expr(*Z, Z3_mk_int2bv(*Z, w, t)), w);
    }
    }
    throw Incomplete{"cast"};
}

// ------------------------------------------------------------------------------------------------
// decoded code
// ------------------------------------------------------------------------------------------------
struct DOp { int slot = -1; Val v; bool late = false; const Constant* c = nullptr; };
struct DBlock;
struct DInst
{
    Instruction* I;
    unsigned opc;
    int dst = -1;
    std::vector<DOp> ops;
    DBlock* succ[2] = {nullptr, nullptr};
    struct Builtin* bi = nullptr;
    Function* callee = nullptr;
};
struct DPhi { int dst; std::vector<std::pair<DBlock*, DOp>> in; };
struct DBlock
{
    BasicBlock* bb;
    std::vector<DPhi> phis;
    std::vector<DInst> insts;
    bool seen = false;
};
struct DFunc
{
    Function* F;
    unsigned nslots = 0;
    std::vector<std::unique_ptr<DBlock>> blocks;
    DenseMap<const Value*, int> slots;
};
static std::unordered_map<Function*, std::unique_ptr<DFunc>>* DF;
struct Frame
{
    DFunc* f = nullptr;
    DBlock* bb = nullptr;
    unsigned pc = 0;
    std::vector<Val> r;
    std::vector<u64> allocas;
    bool discard = false;
    u64 excPtr = 0;
    int excSel = 0;
    std::vector<Val> varargs;
};
struct Thread
{
    std::vector<std::unique_ptr<Frame>> st;
    Val ret;
    int tid = -1;
    bool granted = false;
    u64 pending = 0; // address of the atomic operation it waits for
    bool done = false;
};
static const u64 anyAddr = ~0ull; // a symbolic address
static Thread* CUR = nullptr;
static std::vector<Thread*>* THREADSTACK;

static DOp mkOp(DFunc* f, const Value* v)
{
    DOp o;
    if (auto* c = dyn_cast<Constant>(v))
    {
        o.slot = -1;
        o.c = c;
        o.late = true;
        return o;
    }
    if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) return o;
    o.slot = f->slots.lookup(v);
    return o;
}
static DFunc* decode(Function* F)
{
    auto& p = (*DF)[F];
    if (p) return p.get();
    p = std::make_unique<DFunc>();
    DFunc* f = p.get();
    f->F = F;
    int n = 0;
    for (auto& a : F->args()) f->slots[&a] = n++;
    for (auto& bb : *F)
        for (auto& i : bb)
            if (!i.getType()->isVoidTy()) f->slots[&i] = n++;
    f->nslots = n;
    DenseMap<BasicBlock*, DBlock*> bm;
    for (auto& bb : *F)
    {
        auto b = std::make_unique<DBlock>();
        b->bb = &bb;
        bm[&bb] = b.get();
        f->blocks.push_back(std::move(b));
    }
    for (auto& b : f->blocks)
    {
        for (auto& i : *b->bb)
        {
            if (auto* ph = dyn_cast<PHINode>(&i))
            {
                DPhi d;
                d.dst = f->slots[ph];
                for (unsigned k = 0; k < ph->getNumIncomingValues(); k++)
                    d.in.push_back({bm[ph->getIncomingBlock(k)], mkOp(f, ph->getIncomingValue(k))});
                b->phis.push_back(std::move(d));
                continue;
            }
            if (isa<DbgInfoIntrinsic>(&i)) continue;
            DInst d;
            d.I = &i;
            d.opc = i.getOpcode();
            if (!i.getType()->isVoidTy()) d.dst = f->slots[&i];
            for (auto& o : i.operands()) d.ops.push_back(mkOp(f, o.get()));
            if (auto* br = dyn_cast<BranchInst>(&i))
                for (unsigned k = 0; k < br->getNumSuccessors(); k++) d.succ[k] = bm[br->getSuccessor(k)];
            if (auto* iv = dyn_cast<InvokeInst>(&i))
            {
                d.succ[0] = bm[iv->getNormalDest()];
                d.succ[1] = bm[iv->getUnwindDest()];
            }
            if (auto* cb = dyn_cast<CallBase>(&i)) d.callee = cb->getCalledFunction();
            b->insts.push_back(std::move(d));
        }
    }
    return f;
}
static DBlock* blockOf(DFunc* f, BasicBlock* bb)
{
    for (auto& b : f->blocks)
        if (b->bb == bb) return b.get();
    return nullptr;
}
// --- coverage by debug information: which source functions were executed
static DenseMap<const DISubprogram*, int>* covId;
static std::vector<const DISubprogram*>* covSP;
static void coverBlock(DBlock* b)
{
    b->seen = true;
    for (auto& i : b->insts)
    {
        const DILocation* L = i.I->getDebugLoc();
        while (L)
        {
            auto* sp = L->getScope()->getSubprogram();
            auto it = covId->find(sp);
            if (it != covId->end()) SH->cov[it->second] = 1;
            L = L->getInlinedAt();
        }
    }
}
static std::string locOf(const Instruction* I)
{
    if (!I) return "?";
    const DILocation* L = I->getDebugLoc();
    std::string s;
    while (L)
    {
        std::string f = L->getFilename().str();
        if (!s.empty()) s += " < ";
        s += f + ":" + std::to_string(L->getLine());
        L = L->getInlinedAt();
    }
    return s;
}
static std::string locStr()
{
    if (!CUR || CUR->st.empty()) return "";
    auto& f = *CUR->st.back();
    if (!f.bb || f.pc >= f.bb->insts.size()) return "";
    return locOf(f.bb->insts[f.pc].I);
}
static std::string stackStr()
{
    std::string s;
    if (!CUR) return s;
    int n = 0;
    for (int i = (int)CUR->st.size() - 1; i >= 0 && n < 14; i--, n++)
    {
        auto& f = *CUR->st[i];
        std::string nm = demangle(f.f->F->getName().str());
        if (nm.size() > 140) nm = nm.substr(0, 140) + "...";
        std::string loc = f.bb && f.pc < f.bb->insts.size() ? locOf(f.bb->insts[f.pc].I) : "";
        if (loc.size() > 300) loc = loc.substr(0, 300);
        s += nm + " @ " + loc + " | ";
    }
    return s;
}

static inline Val getOp(Frame& f, DOp& o)
{
    if (o.slot >= 0) return f.r[o.slot];
    if (o.late)
    {
        o.v = constVal(o.c);
        o.late = false;
    }
    return o.v;
}
static void jump(Frame& f, DBlock* to)
{
    if (!to->phis.empty())
    {
        SmallVector<Val, 8> tmp;
        for (auto& p : to->phis)
        {
            bool ok = false;
            for (auto& in : p.in)
                if (in.first == f.bb)
                {
                    tmp.push_back(getOp(f, in.second));
                    ok = true;
                    break;
                }
            if (!ok) throw Incomplete{"phi without incoming edge"};
        }
        for (size_t i = 0; i < to->phis.size(); i++) f.r[to->phis[i].dst] = tmp[i];
    }
    f.bb = to;
    f.pc = 0;
    if (!to->seen) coverBlock(to);
}

static void pushFrame(Thread& t, Function* F, const std::vector<Val>& args)
{
    if (t.st.size() > 2000) violationHere("stack", "call depth exceeds 2000 frames");
    DFunc* d = decode(F);
    auto fr = std::make_unique<Frame>();
    fr->f = d;
    fr->r.resize(d->nslots);
    unsigned na = F->arg_size();
    for (unsigned i = 0; i < na && i < args.size(); i++)
    {
        Val v = args[i];
        if (F->getArg(i)->hasByValAttr())
        {
            Type* bt = F->getArg(i)->getParamByValType();
            u64 n = DL->getTypeAllocSize(bt);
            u64 a = concretise(v, "a by-value argument address");
            Obj* so = checkAccess(a, n, false);
            Obj* o = newObj(n, 16, 1, "byval");
            so = findObj(a);
            copyMem(o, 0, so, a - so->base, n);
            fr->allocas.push_back(o->base);
            v = Val::I(o->base, 64);
        }
        fr->r[i] = v;
    }
    for (size_t i = na; i < args.size(); i++) fr->varargs.push_back(args[i]);
    fr->bb = d->blocks[0].get();
    if (!fr->bb->seen) coverBlock(fr->bb);
    t.st.push_back(std::move(fr));
}
static void popFrame(Thread& t)
{
    Frame& f = *t.st.back();
    for (u64 a : f.allocas) OBJS->erase(a);
    if (!f.allocas.empty()) lastObj = nullptr;
    t.st.pop_back();
}

// ------------------------------------------------------------------------------------------------
// exceptions and type information
// ------------------------------------------------------------------------------------------------
struct Exc { u64 obj, ti, dtor; int handlers; u64 adj; };
static std::map<u64, Exc>* EXC;
static std::vector<u64>* CAUGHT;
static std::unordered_map<u64, const GlobalVariable*>* tiByAddr;
static std::unordered_map<u64, int>* tiSel;

static const GlobalVariable* tiGlobal(u64 a)
{
    auto it = tiByAddr->find(a);
    if (it != tiByAddr->end()) return it->second;
    for (auto& kv : *gaddr)
        if (kv.second == a)
            if (auto* g = dyn_cast<GlobalVariable>(kv.first))
            {
                (*tiByAddr)[a] = g;
                return g;
            }
    return nullptr;
}
// bases of a class type_info: (address, offset)
static std::vector<std::pair<u64, i64>> tiBases(u64 a)
{
    std::vector<std::pair<u64, i64>> r;
    const GlobalVariable* g = tiGlobal(a);
    if (!g) return r;
    if (!g->hasInitializer())
    {
        return r;
    }
    auto* cs = dyn_cast<ConstantStruct>(g->getInitializer());
    if (!cs || cs->getNumOperands() < 3) return r;
    Type* t2 = cs->getOperand(2)->getType();
    if (t2->isPointerTy()) { r.push_back({constVal(cs->getOperand(2)).c, 0}); return r; }
    for (unsigned i = 4; i + 1 < cs->getNumOperands(); i += 2)
    {
        i64 fl = (i64)constVal(cs->getOperand(i + 1)).c;
        if (fl & 1) throw Incomplete{"virtual base in a dynamic type query"};
        r.push_back({constVal(cs->getOperand(i)).c, fl >> 8});
    }
    return r;
}
static std::string tiName(u64 a)
{
    const GlobalVariable* g = tiGlobal(a);
    return g ? g->getName().str() : "?";
}
static bool sameTi(u64 a, u64 b) { return a == b || (tiName(a) == tiName(b) && tiName(a) != "?"); }
static bool derives(u64 from, u64 to, i64& off)
{
    if (sameTi(from, to)) { off = 0; return true; }
    std::string n = tiName(from);
    if (n.rfind("_ZTIP", 0) == 0) return false;
    for (auto& b : tiBases(from))
    {
        i64 o;
        if (derives(b.first, to, o)) { off = o + b.second; return true; }
    }
    return false;
}
static int selOf(u64 ti)
{
    for (auto& kv : *tiSel)
        if (sameTi(kv.first, ti)) return kv.second;
    int n = (int)tiSel->size() + 1;
    (*tiSel)[ti] = n;
    return n;
}
static std::string excWhat(u64 ti) { return demangle(tiName(ti)); }
static int termExpected = 0;
static std::string termWitness;
[[noreturn]] static void terminated(const std::string& how)
{
    if (termExpected)
    {
        witness(termWitness.c_str());
        throw PathEnd{2};
    }
    violationHere("termination", "the process terminates: " + how);
}
static void unwind(Thread& t, u64 obj)
{
    Exc& x = (*EXC)[obj];
    while (!t.st.empty())
    {
        Frame& f = *t.st.back();
        if (f.discard)
        { /* frame entered by the runtime: propagate */
        }
        if (f.pc < f.bb->insts.size())
        {
            DInst& d = f.bb->insts[f.pc];
            if (d.opc == Instruction::Invoke)
            {
                auto* iv = cast<InvokeInst>(d.I);
                LandingPadInst* lp = iv->getLandingPadInst();
                bool take = lp->isCleanup();
                int sel = 0;
                for (unsigned i = 0; i < lp->getNumClauses() && sel == 0; i++)
                {
                    if (lp->isCatch(i))
                    {
                        Val c = constVal(lp->getClause(i));
                        if (c.c == 0) { sel = selOf(0); take = true; x.adj = 0; break; }
                        i64 off;
                        if (derives(x.ti, c.c, off))
                        {
                            sel = selOf(c.c);
                            x.adj = off;
                            take = true;
                        }
                    }
                    else
                    {
                        take = true; // filter: treat as violated exception specification
                        sel = -1;
                    }
                }
                if (take)
                {
                    f.excPtr = obj;
                    f.excSel = sel;
                    jump(f, d.succ[1]);
                    return;
                }
            }
        }
        popFrame(t);
    }
    // nobody catches it
    std::string why = "uncaught exception of type " + excWhat(x.ti);
    if (inPar) violationHere("exception", why + " leaves a parallel kernel");
    terminated(why);
}

// ------------------------------------------------------------------------------------------------
// builtins
// ------------------------------------------------------------------------------------------------
struct Ctx
{
    Thread& t;
    Frame& f;
    DInst& d;
    std::vector<Val>& a;
    Val ret;
    bool advance = true; // continue after the call
};
struct Builtin
{
    std::function<void(Ctx&)> fn;
};
static std::unordered_map<std::string, Builtin*>* BI;
static std::unordered_map<Function*, Builtin*>* biCache;
static std::set<std::string>* strs;

static std::string readStr(u64 a)
{
    std::string s;
    for (int i = 0; i < 4096; i++)
    {
        Obj* o = findObj(a + i);
        if (!o) violationHere("memory", "unterminated string at " + describeAddr(a));
        Val v = loadRaw(o, a + i - o->base, 1, 8);
        if (v.k == Val::SB) { s += '?'; continue; }
        if (v.k != Val::CI) throw Incomplete{"uninitialised string"};
        if (v.c == 0) break;
        s += (char)v.c;
    }
    return s;
}
static u64 A(Ctx& c, unsigned i, const char* why = "an argument") { return concretise(c.a[i], why); }
static void run(Thread& t, size_t base);
static int schedMode = 0;
static int hashMode = -1;
static bool inMain = false;

static Val cmpMem(u64 a, u64 b, u64 n, bool stopAtNul)
{
    std::vector<std::pair<Val, Val>> v;
    bool conc = true;
    for (u64 i = 0; i < n; i++)
    {
        Obj* oa = checkAccess(a + i, 1, false);
        Val x = loadRaw(oa, a + i - oa->base, 1, 8);
        Obj* ob = checkAccess(b + i, 1, false);
        Val y = loadRaw(ob, b + i - ob->base, 1, 8);
        if (x.k != Val::CI || y.k != Val::CI) conc = false;
        else if (conc && x.c != y.c) return Val::I(x.c < y.c ? (u32)-1 : 1, 32);
        v.push_back({x, y});
        if (stopAtNul && x.k == Val::CI && x.c == 0) break;
        if (stopAtNul && x.k != Val::CI)
        {
            // decide whether the string ends here
            if (branchOn(vecOf(x) == bvNum(0, 8))) { v.back().first = Val::I(0, 8); break; }
        }
    }
    if (conc) return Val::I(0, 32);
    z3::expr r = bvNum(0, 32);
    for (size_t i = v.size(); i-- > 0;)
    {
        z3::expr x = vecOf(v[i].first), y = vecOf(v[i].second);
        r = z3::ite(x == y, r, z3::ite(z3::ult(x, y), bvNum((u32)-1, 32), bvNum(1, 32)));
    }
    return mkBV(r, 32);
}
static std::unordered_map<std::string, Val>* ufMemo;
static Val uf(const std::string& key, unsigned w)
{
    auto it = ufMemo->find(key);
    if (it != ufMemo->end()) return it->second;
    Val v = freshReal(w, "uf");
    (*ufMemo)[key] = v;
    return v;
}
static Val sqrtVal(const Val& v)
{
    if (v.k == Val::CI)
    {
        double d = v.w == 32 ? asF(v.c) : asD(v.c), r = std::sqrt(d);
        if (v.w == 32) { Val q = Val::I(fromF((float)r), 32); q.fp = 1; return q; }
        if (!(d > 0) || std::fma(r, r, -d) == 0) { Val q = Val::I(fromD(r), 64); q.fp = 1; return q; }
    }
    z3::expr x = realOf(v).simplify();
    if (x.is_app())
    { // the root of a square
        bool mul = x.decl().decl_kind() == Z3_OP_MUL && x.num_args() == 2 && z3::eq(x.arg(0), x.arg(1));
        bool pw = x.decl().decl_kind() == Z3_OP_POWER && x.arg(1).is_numeral() && x.arg(1).get_decimal_string(0) == "2";
        if (mul || pw)
        {
            z3::expr y = x.arg(0);
            return mkReal(z3::ite(y >= 0, y, -y), v.w);
        }
    }
    std::string key = "sqrt" + std::to_string(Z3_get_ast_id(*Z, x));
    auto it = ufMemo->find(key);
    if (it != ufMemo->end()) return it->second;
    keep(x);
    Val r = freshReal(v.w, "sqrt");
    if (branchOn(x >= 0)) addPC(*r.e >= 0 && (*r.e) * (*r.e) == x);
    (*ufMemo)[key] = r;
    return r;
}
// rounding a symbolic value to single precision: some value near it, the same for the same value
static Val f32Val(const Val& v)
{
    z3::expr x = realOf(v).simplify();
    double d0;
    if (x.is_numeral() && numeralToDouble(x, d0))
    {
        Val q = Val::I(fromF((float)d0), 32);
        q.fp = 1;
        return q;
    }
    std::string key = "f32_" + std::to_string(Z3_get_ast_id(*Z, x));
    auto it = ufMemo->find(key);
    if (it != ufMemo->end()) return it->second;
    keep(x);
    Val r = freshReal(32, "f32_");
    z3::expr d = *r.e - x, unit = Z->real_val(1, 1 << 24);
    addPC(z3::ite(x >= 0, d <= x * unit && -d <= x * unit, d <= -x * unit && -d <= -x * unit));
    (*ufMemo)[key] = r;
    (*ufMemo)["f32_" + std::to_string(Z3_get_ast_id(*Z, *r.e))] = r; // rounding twice changes nothing
    ROUNDED->push_back({x, *r.e});
    return r;
}
static Val fabsVal(const Val& v)
{
    if (v.k == Val::CI)
    {
        Val r = v.w == 32 ? Val::I(v.c & 0x7fffffff, 32) : Val::I(v.c & 0x7fffffffffffffffull, 64);
        r.fp = 1;
        return r;
    }
    z3::expr x = realOf(v);
    return branchOn(x >= 0) ? v : mkReal(-x, v.w);
}
static Val minmaxVal(const Val& a, const Val& b, bool mx)
{
    Val lt = fcmp(CmpInst::FCMP_OLT, a, b);
    bool l = lt.k == Val::CI ? lt.c : branchOn(bvOf(lt));
    return (l == mx) ? b : a;
}
static Val mathFn(const char* name, const std::vector<Val>& a, double (*f1)(double), double (*f2)(double, double))
{
    bool conc = true;
    for (auto& x : a)
        if (x.k != Val::CI) conc = false;
    if (conc)
    {
        double r = f1 ? f1(asD(a[0].c)) : f2(asD(a[0].c), asD(a[1].c));
        Val v = Val::I(fromD(r), 64);
        v.fp = 1;
        return v;
    }
    std::string key = name;
    for (auto& x : a)
    {
        z3::expr e = realOf(x).simplify();
        keep(e);
        key += "," + std::to_string(Z3_get_ast_id(*Z, e));
    }
    return uf(key, 64);
}
static std::string fmtVal(const Val& v)
{
    char b[64];
    if (v.k == Val::CI) { snprintf(b, 64, "%.17g", asD(v.c)); return b; }
    return "?";
}
static Val evalIn(z3::model& m, const Val& v)
{
    if (v.k == Val::SB) return mkBV(m.eval(v.w == 1 ? asBV1(*v.e) : *v.e, true), v.w);
    return v;
}
static void emitTrace(int how)
{
    if (SH->traces >= OPT.maxTraces) return;
    if (SH->traces.fetch_add(1) >= OPT.maxTraces) return;
    z3::model* m = nullptr;
    if (ROUNDED->empty() ? !niceModel(Z->bool_val(true), &m) : !roundedModel(Z->bool_val(true), &m)) return;
    std::string s = "{\"t\":\"trace\",\"how\":" + std::to_string(how) + ",\"inputs\":" + inputsJson(*m) + ",\"sched\":" + schedJson() + ",\"obs\":[";
    bool first = true;
    for (auto& o : *OBS)
    {
        if (!first) s += ",";
        first = false;
        Val v = o.second;
        s += "{\"n\":\"" + jsonEsc(o.first) + "\",";
        if (v.k == Val::SR) s += "\"f\":" + realStr(m->eval(*v.e, true)) + "}";
        else if (v.fp)
        {
            char b[64];
            snprintf(b, 64, "%.17g", asD(v.c));
            std::string t = b;
            if (t.find("inf") != std::string::npos || t.find("nan") != std::string::npos) t = "\"" + t + "\"";
            s += "\"f\":" + t + "}";
        }
        else
        {
            Val x = v.k == Val::UN ? Val::I(0, 64) : evalIn(*m, v);
            s += "\"i\":" + std::to_string((i64)x.c) + "}";
        }
    }
    emitLine(s + "]}");
    delete m;
}
static z3::expr somSimplify(const z3::expr& e)
{
    z3::params p(*Z);
    p.set("som", true);
    p.set("som_blowup", 100000u);
    p.set("flat", true);
    return e.simplify(p);
}
static void obligation(const z3::expr& cond, const std::string& msg, const z3::expr* strong = nullptr)
{
    SH->asserts++;
    z3::expr c = applySubst(cond).simplify();
    if (c.is_true()) { SH->assertsTrivial++; return; }
    z3::expr neg = !c;
    int r = solve(neg);
    if (r == 0) return;
    if (r < 0)
    {
        SH->incomplete++;
        emitLine("{\"t\":\"incomplete\",\"why\":\"solver gave up on: " + jsonEsc(msg) + "\"}");
        return;
    }
    z3::model* m = nullptr;
    bool ok = false;
    if (roundedModel(neg, &m))
    {
        report("assert", msg, m);
        throw PathEnd{3};
    }
    if (strong) ok = solve(*strong, &m, true) == 1 || false;
    if (strong && ok)
    {
        delete m;
        m = nullptr;
        ok = niceModel(*strong, &m);
    }
    if (!ok) ok = niceModel(neg, &m);
    if (!ok)
    {
        SH->incomplete++;
        emitLine("{\"t\":\"incomplete\",\"why\":\"no model for violated: " + jsonEsc(msg) + "\"}");
        return;
    }
    report("assert", msg, m);
    throw PathEnd{3};
}
static void realOb(Ctx& c, bool eq)
{
    std::string msg = readStr(A(c, 2));
    Val &a = c.a[0], &b = c.a[1];
    if (a.k == Val::CI && b.k == Val::CI)
    {
        SH->asserts++;
        SH->assertsTrivial++;
        double x = asD(a.c), y = asD(b.c);
        bool ok = eq ? x == y : x <= y;
        if (!ok)
        {
            z3::model* m = nullptr;
            niceModel(Z->bool_val(true), &m);
            report("assert", msg + " (" + fmtVal(a) + " vs " + fmtVal(b) + ")", m);
            throw PathEnd{3};
        }
        return;
    }
    if (a.k == Val::UN || b.k == Val::UN)
    {
        if (a.k == Val::UN && b.k == Val::UN) throw Incomplete{"comparison of two uninitialised values"};
    }
    z3::expr x = realOf(a), y = realOf(b);
    z3::expr d = somSimplify(x - y);
    if (eq)
    {
        z3::expr strong = d >= Z->real_val("1/8") || d <= Z->real_val("-1/8");
        obligation(d == 0, msg, &strong);
    }
    else
    {
        z3::expr strong = d >= Z->real_val("1/8");
        obligation(d <= 0, msg, &strong);
    }
}
static std::map<std::string, int>* nameCount;
static z3::expr inputVar(const std::string& n, bool real)
{
    int k = (*nameCount)[n]++;
    std::string u = n + (k ? "#" + std::to_string(k) : "");
    return real ? Z->real_const(u.c_str()) : Z->bv_const(u.c_str(), 64);
}
static void clearSymAcc();
static bool splitFixed = false;
// may the function perform an atomic operation? Iterations without one commute (any other conflict
// is reported as a race), so one order of them stands for all.
static bool mayAtomic(Function* F)
{
    static std::unordered_map<Function*, bool> memo;
    auto it = memo.find(F);
    if (it != memo.end()) return it->second;
    std::vector<Function*> work {F};
    std::set<Function*> seen {F};
    bool r = false;
    while (!work.empty() && !r)
    {
        Function* f = work.back();
        work.pop_back();
        for (auto& B : *f)
            for (auto& I : B)
            {
                if (isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) r = true;
                if (auto* L = dyn_cast<LoadInst>(&I)) r |= L->isAtomic();
                if (auto* S = dyn_cast<StoreInst>(&I)) r |= S->isAtomic();
                if (auto* C = dyn_cast<CallBase>(&I))
                {
                    Function* g = C->getCalledFunction();
                    if (!g) { if (!C->isInlineAsm()) r = true; }
                    else if (g->getName() == "nfk_atomic_begin") r = true;
                    else if (seen.insert(g).second) work.push_back(g);
                }
            }
    }
    return memo[F] = r;
}
static void parfor(Ctx& c)
{
    u64 fn = A(c, 0), ctx = A(c, 1);
    u64 b = A(c, 2, "a loop bound"), e = A(c, 3, "a loop bound"), space = A(c, 4);
    if (inPar) throw Incomplete{"nested parallel region"};
    auto fi = faddr->find(fn);
    if (fi == faddr->end()) violationHere("memory", "parallel kernel is not a function");
    u64 n = e - b;
    if (n > 70000) throw Incomplete{"parallel region with " + std::to_string(n) + " iterations"};
    std::vector<u64> order;
    int mode = schedMode;
    for (u64 i = 0; i < n; i++) order.push_back(i);
    bool ordered = n > 1 && (mode == 1 || mode == 2) && mayAtomic(fi->second);
    if (n > 1 && mode == 1)
    {
        if (ordered) SH->schedChoices++;
        int k = ordered ? chooseN(2) : 0;
        SCHED->push_back(k);
        if (k == 1) std::reverse(order.begin(), order.end());
    }
    std::vector<Thread*> ts;
    for (u64 i = 0; i < n; i++)
    {
        auto* t = new Thread;
        t->tid = (int)i;
        pushFrame(*t, fi->second, {Val::I(ctx, 64), Val::I(b + i, 64)});
        ts.push_back(t);
    }
    inPar = true;
    ownThreads = mode == 3;
    if (TLS) TLS->clear();
    parBase = brk_;
    parSpace = (int)space;
    ACC->clear();
    clearSymAcc();
    Thread* prevCur = CUR;
    int prevTid = curTid;
    auto runT = [&](Thread& t)
    {
        curTid = t.tid;
        CUR = &t;
        run(t, 0);
    };
    if (mode <= 1)
    {
        for (u64 i : order) { ts[i]->granted = true; runT(*ts[i]); }
    }
    else if (mode == 2)
    {
        std::vector<u64> left = order;
        while (!left.empty())
        {
            int k = 0;
            if (left.size() > 1)
            {
                if (ordered) SH->schedChoices++;
                k = ordered ? chooseN((int)left.size()) : 0;
                SCHED->push_back(k);
            }
            u64 i = left[k];
            left.erase(left.begin() + k);
            ts[i]->granted = true;
            runT(*ts[i]);
        }
    }
    else
    {
        for (u64 i = 0; i < n; i++) runT(*ts[i]); // up to the first atomic operation
        int lastT = -1;
        u64 lastA = 0;
        for (;;)
        {
            std::vector<u64> en;
            bool any = false;
            for (u64 i = 0; i < n; i++)
                if (!ts[i]->done)
                {
                    any = true;
                    // out-of-order adjacent independent steps repeat another interleaving
                    if (lastT >= 0 && (int)i < lastT && ts[i]->pending != lastA && ts[i]->pending != anyAddr && lastA != anyAddr) continue;
                    en.push_back(i);
                }
            if (!any) break;
            if (en.empty()) throw PathEnd{5};
            int k = 0;
            if (en.size() > 1)
            {
                SH->schedChoices++;
                k = chooseN((int)en.size());
            }
            u64 i = en[k];
            SCHED->push_back((int)i);
            lastT = (int)i;
            lastA = ts[i]->pending;
            ts[i]->granted = true;
            runT(*ts[i]);
        }
    }
    inPar = false;
    ownThreads = false;
    curTid = prevTid;
    CUR = prevCur;
    for (auto* t : ts) delete t;
    ACC->clear();
    clearSymAcc();
}

// ------------------------------------------------------------------------------------------------
// accesses through a symbolic address: one object, several possible elements
// ------------------------------------------------------------------------------------------------
struct SymPlace
{
    Obj* o = nullptr;
    z3::expr p;
    std::vector<u64> offs;
    SymPlace() : p(*Z) {}
};
static bool symIndex = true;
struct SymAcc { z3::expr p; u64 n; int tid; bool write, atomic; Obj* o; };
static std::vector<SymAcc>* SACC;
static bool haveSymAcc() { return SACC && !SACC->empty(); }
// conflicts of a new access with symbolic ones of other iterations
static void noteSymConflicts(Obj* o, const z3::expr& p, u64 n, bool write)
{
    if (!inPar || curTid < 0 || !SACC) return;
    for (auto& x : *SACC)
    {
        if (x.o != o || x.tid == curTid || !(x.write || write) || (x.atomic && inAtomic > 0)) continue;
        z3::expr hit = (z3::ult(p, x.p + bvNum(x.n, 64)) && z3::ult(x.p, p + bvNum(n, 64)));
        hit = applySubst(hit).simplify();
        if (hit.is_false() || solve(hit) == 0) continue;
        addPC(hit);
        SH->races++;
        violationHere("race", "iterations " + std::to_string(x.tid) + " and " + std::to_string(curTid)
                                  + " access the same location without synchronisation");
    }
}
static void clearSymAcc() { if (SACC) SACC->clear(); }
static bool symPlace(const Val& pv, u64 n, bool write, SymPlace& s)
{
    if (!symIndex || pv.k != Val::SB || pv.w != 64) return false;
    if (n != 1 && n != 2 && n != 4 && n != 8) return false;
    z3::expr p = applySubst(*pv.e).simplify();
    if (p.is_numeral()) return false;
    z3::expr v0 = asgValid ? evalAsg(p) : p;
    if (!v0.is_numeral())
    {
        z3::model* m = nullptr;
        if (solve(Z->bool_val(true) && (p == p), &m, true) != 1) return false;
        v0 = m->eval(p, true);
        delete m;
        if (!v0.is_numeral()) return false;
    }
    Obj* o = findObj(v0.get_numeral_uint64());
    if (!o || !o->live || o->size < n || o->size / n > 96 || (write && o->ro)) return false;
    if (memSpaceMode && o->kind >= 2) return false;
    if (solve(!(z3::uge(p, bvNum(o->base, 64)) && z3::ule(p, bvNum(o->base + o->size - n, 64)))) != 0) return false;
    u64 r = (v0.get_numeral_uint64() - o->base) & (n - 1);
    if (n > 1 && solve((p & bvNum(n - 1, 64)) != bvNum((o->base + r) & (n - 1), 64)) != 0) return false;
    bool many = o->size / n > 24;
    for (u64 off = r; off + n <= o->size; off += n)
    {
        z3::expr q = applySubst(p == bvNum(o->base + off, 64)).simplify();
        if (q.is_false() || (many && solve(q) == 0)) continue;
        s.offs.push_back(off);
    }
    if (s.offs.size() < 2) return false;
    s.o = o;
    s.p = p;
    return true;
}
static void noteSym(SymPlace& s, u64 n, bool write)
{
    if (!inPar || curTid < 0 || s.o->ro) return;
    SH->accesses++;
    for (u64 off : s.offs)
        for (u64 i = 0; i < n; i++)
        {
            auto it = ACC->find(s.o->base + off + i);
            if (it == ACC->end()) continue;
            for (auto& x : it->second)
                if (x.tid != curTid && (x.write || write) && !(x.atomic && inAtomic > 0)
                    && solve(applySubst(s.p == bvNum(s.o->base + off, 64)).simplify()) != 0)
                {
                    addPC(s.p == bvNum(s.o->base + off, 64));
                    SH->races++;
                    violationHere("race", "iterations " + std::to_string(x.tid) + " and " + std::to_string(curTid)
                                              + " access the same location without synchronisation");
                }
        }
    noteSymConflicts(s.o, s.p, n, write);
    if (!SACC) SACC = new std::vector<SymAcc>;
    SACC->push_back({s.p, n, curTid, write, inAtomic > 0, s.o});
}
static bool iteVal(const z3::expr& c, const Val& a, const Val& b, bool isF, Val& out)
{
    if (a.k == Val::AG || b.k == Val::AG) return false;
    if (a.k == Val::CI && b.k == Val::CI && a.c == b.c && a.w == b.w) { out = a; return true; }
    if (a.k == Val::SR || b.k == Val::SR || isF)
    {
        if ((a.k != Val::SR && a.k != Val::CI) || (b.k != Val::SR && b.k != Val::CI)) return false;
        for (auto* x : {&a, &b})
            if (x->k == Val::CI && !std::isfinite(x->w == 32 ? (double)asF(x->c) : asD(x->c))) return false;
        out = realIte(c, a, b);
        return true;
    }
    if (a.k == Val::UN || b.k == Val::UN) return false;
    if (a.w != b.w) return false;
    out = a.w == 1 ? mkBV(z3::ite(c, bvOf(a), bvOf(b)), 1) : mkBV(z3::ite(c, vecOf(a), vecOf(b)), a.w);
    return true;
}
static bool symLoad(const Val& p, u64 n, Type* t, Val& out)
{
    SymPlace s;
    if (!(t->isIntegerTy() || t->isPointerTy() || t->isDoubleTy() || t->isFloatTy())) return false;
    if (!symPlace(p, n, false, s)) return false;
    bool isF = t->isFloatingPointTy();
    Val acc;
    bool first = true;
    for (size_t i = s.offs.size(); i-- > 0;)
    {
        Val v = loadTyped(s.o, s.offs[i], t);
        if (v.k == Val::UN)
        {
            if (solve(applySubst(s.p == bvNum(s.o->base + s.offs[i], 64)).simplify()) != 0) return false;
            s.offs.erase(s.offs.begin() + i);
            continue;
        }
        if (first) { acc = v; first = false; continue; }
        Val r;
        if (!iteVal(s.p == bvNum(s.o->base + s.offs[i], 64), v, acc, isF, r)) return false;
        acc = r;
    }
    if (first) return false;
    noteSym(s, n, false);
    out = acc;
    return true;
}
static bool symStore(const Val& p, u64 n, Type* t, const Val& v)
{
    SymPlace s;
    if (!(t->isIntegerTy() || t->isDoubleTy() || t->isFloatTy()) || v.k == Val::UN || v.k == Val::AG) return false;
    if (!symPlace(p, n, true, s)) return false;
    bool isF = t->isFloatingPointTy();
    std::vector<Val> nv;
    for (u64 off : s.offs)
    {
        Val old = loadTyped(s.o, off, t), r;
        if (old.k == Val::UN) old = isF || v.k == Val::SR ? freshReal(widthOf(t), "undefr") : freshBV(widthOf(t), "undef");
        if (!iteVal(s.p == bvNum(s.o->base + off, 64), v, old, isF, r)) return false;
        nv.push_back(r);
    }
    noteSym(s, n, true);
    for (size_t i = 0; i < nv.size(); i++) storeTyped(s.o, s.offs[i], t, nv[i]);
    return true;
}

static Val loadAddr(u64 a, u64 n, unsigned w)
{
    Obj* o = checkAccess(a, n, false);
    return loadRaw(o, a - o->base, n, w);
}
static void storeAddr(u64 a, const Val& v, u64 n)
{
    Obj* o = checkAccess(a, n, true);
    storeRaw(o, a - o->base, v, n);
}
static u64 loadPtr(u64 a) { return concretise(loadAddr(a, 8, 64), "a pointer"); }
static void memCopy(u64 d, u64 s, u64 n)
{
    if (n == 0) return;
    if (n > (1ull << 26)) violationHere("memory", "copy of " + std::to_string(n) + " bytes");
    checkAccess(s, n, false);
    Obj* od = checkAccess(d, n, true);
    Obj* os = findObj(s);
    copyMem(od, d - od->base, os, s - os->base, n);
}
static void freeAddr(u64 a, int kind, int space)
{
    if (a == 0) return;
    auto it = OBJS->find(a);
    if (it == OBJS->end()) violationHere("memory", "freeing " + describeAddr(a) + ", which is not the start of an allocation");
    Obj* o = it->second.get();
    if (!o->live) violationHere("memory", "double free");
    if (o->kind != kind) violationHere("memory", "freeing memory of another allocator");
    if (kind == 3 && o->space != space) violationHere("memory", "freeing memory of another memory space");
    noteAccess(o->base, o->size, true, o);
    o->live = false;
    // keep a stub so that later uses are recognised
    o->b.assign(o->size, 0);
    o->cells.clear();
}
static void defineBuiltins()
{
    auto& B = *BI;
    auto def = [&](std::initializer_list<const char*> names, std::function<void(Ctx&)> f)
    {
        auto* b = new Builtin{f};
        for (auto n : names) B[n] = b;
    };
    auto alloc = [](u64 n, int kind, int space) { return Val::I([&] { Obj* o = newObj(n, 16, kind, "heap"); o->space = space; return o->base; }(), 64); };
    def({"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"},
        [=](Ctx& c) { c.ret = alloc(A(c, 0, "an allocation size"), 2, 0); });
    def({"calloc"}, [=](Ctx& c)
        {
            u64 n = A(c, 0) * A(c, 1);
            c.ret = alloc(n, 2, 0);
            Obj* o = findObj(c.ret.c);
            if (o) o->st.assign(o->size, 1);
        });
    def({"free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"},
        [](Ctx& c) { freeAddr(A(c, 0), 2, 0); });
    def({"nfk_malloc"}, [=](Ctx& c) { c.ret = alloc(A(c, 0, "an allocation size"), 3, (int)A(c, 1)); });
    def({"nfk_free"}, [](Ctx& c)
        {
            // returning memory is the host's business in either space (but it is an access for the race check)
            bool m = memSpaceMode;
            memSpaceMode = false;
            freeAddr(A(c, 0), 3, (int)A(c, 1));
            memSpaceMode = m;
        });
    def({"nfk_size"}, [](Ctx& c)
        {
            auto it = OBJS->find(A(c, 0));
            if (it == OBJS->end() || !it->second->live) violationHere("memory", "size of memory that is not allocated");
            c.ret = Val::I(it->second->size, 64);
        });
    def({"nfk_live"}, [](Ctx& c)
        {
            u64 n = 0;
            for (auto& kv : *OBJS) n += kv.second->live && kv.second->kind == 3;
            c.ret = Val::I(n, 64);
        });
    def({"nfk_memcpy"}, [](Ctx& c)
        {
            raceBusy++;
            memCopy(A(c, 0), A(c, 1), A(c, 2));
            raceBusy--;
        });
    def({"nfk_copy"}, [](Ctx& c)
        {
            u64 d = A(c, 0), s = A(c, 2), n = A(c, 4);
            int ds = (int)A(c, 1), ss = (int)A(c, 3);
            if (memSpaceMode && n)
            {
                auto where = [](u64 a) { Obj* o = findObj(a); return o && o->kind == 3 && o->space == 1 ? 1 : 0; };
                if (where(d) != ds || where(s) != ss) violationHere("memspace", "a copy between memory spaces is told the wrong space of its source or destination");
            }
            raceBusy++;
            memCopy(d, s, n);
            raceBusy--;
        });
    def({"memcpy", "memmove"}, [](Ctx& c) { memCopy(A(c, 0), A(c, 1), A(c, 2, "a copy length")); c.ret = c.a[0]; });
    def({"memset"}, [](Ctx& c)
        {
            u64 d = A(c, 0), n = A(c, 2, "a fill length");
            c.ret = c.a[0];
            if (n == 0) return;
            Obj* o = checkAccess(d, n, true);
            u64 off = d - o->base;
            if (c.a[1].k == Val::CI)
            {
                clearRange(o, off, n);
                for (u64 i = 0; i < n; i++) { o->b[off + i] = (u8)c.a[1].c; o->st[off + i] = 1; }
            }
            else
                for (u64 i = 0; i < n; i++) storeRaw(o, off + i, castOp(Instruction::Trunc, c.a[1], c.d.ops[1].c ? c.d.ops[1].c->getType() : c.d.I->getOperand(1)->getType(), Type::getInt8Ty(M->getContext())), 1);
        });
    def({"memcmp", "bcmp"}, [](Ctx& c) { c.ret = cmpMem(A(c, 0), A(c, 1), A(c, 2, "a comparison length"), false); });
    def({"strcmp"}, [](Ctx& c) { c.ret = cmpMem(A(c, 0), A(c, 1), 1 << 20, true); });
    def({"strncmp"}, [](Ctx& c) { c.ret = cmpMem(A(c, 0), A(c, 1), A(c, 2), true); });
    def({"strlen"}, [](Ctx& c)
        {
            u64 a = A(c, 0), n = 0;
            for (;; n++)
            {
                Val v = loadAddr(a + n, 1, 8);
                if (v.k == Val::CI) { if (v.c == 0) break; }
                else if (branchOn(vecOf(v) == bvNum(0, 8))) break;
            }
            c.ret = Val::I(n, 64);
        });
    def({"memchr"}, [](Ctx& c)
        {
            u64 a = A(c, 0), n = A(c, 2);
            u64 ch = A(c, 1) & 255;
            c.ret = Val::I(0, 64);
            for (u64 i = 0; i < n; i++)
            {
                Val v = loadAddr(a + i, 1, 8);
                bool hit = v.k == Val::CI ? v.c == ch : branchOn(vecOf(v) == bvNum(ch, 8));
                if (hit) { c.ret = Val::I(a + i, 64); break; }
            }
        });
    def({"abort", "_ZSt9terminatev", "__clang_call_terminate"}, [](Ctx& c) { terminated("abort"); });
    def({"exit", "_exit", "_Exit", "quick_exit"}, [](Ctx& c)
        {
            if (termExpected == 2 && (A(c, 0) & 255) == 0) violationHere("termination", "the process ends with a success status");
            terminated("exit");
        });
    def({"__cxa_pure_virtual"}, [](Ctx& c) { violationHere("memory", "pure virtual call"); });
    def({"__cxa_atexit", "__cxa_thread_atexit", "atexit"}, [](Ctx& c) { c.ret = Val::I(0, 32); });
    def({"__cxa_guard_acquire"}, [](Ctx& c)
        {
            u64 a = A(c, 0);
            Val v = loadAddr(a, 1, 8);
            bool first = !(v.k == Val::CI && v.c);
            if (first) guardBusy++; // initialisation of a static is synchronised
            c.ret = Val::I(first ? 1 : 0, 32);
        });
    def({"__cxa_guard_release"}, [](Ctx& c)
        {
            storeAddr(A(c, 0), Val::I(1, 8), 1);
            if (guardBusy) guardBusy--;
        });
    def({"__cxa_guard_abort"}, [](Ctx& c) { if (guardBusy) guardBusy--; });
    def({"__cxa_guard_abort"}, [](Ctx& c) {});
    def({"__cxa_allocate_exception"}, [](Ctx& c) { c.ret = Val::I(newObj(A(c, 0), 16, 4, "exception")->base, 64); });
    def({"__cxa_free_exception"}, [](Ctx& c) {});
    def({"__cxa_throw"}, [](Ctx& c)
        {
            u64 o = A(c, 0);
            (*EXC)[o] = {o, A(c, 1), A(c, 2), 0, 0};
            if (!inMain) throw Incomplete{"exception during initialisation"};
            unwind(c.t, o);
            c.advance = false;
        });
    def({"__cxa_begin_catch"}, [](Ctx& c)
        {
            u64 o = A(c, 0);
            auto it = EXC->find(o);
            if (it == EXC->end()) throw Incomplete{"foreign exception"};
            it->second.handlers++;
            CAUGHT->push_back(o);
            std::string n = tiName(it->second.ti);
            if (n.rfind("_ZTIP", 0) == 0) c.ret = loadAddr(o, 8, 64);
            else c.ret = Val::I(o + it->second.adj, 64);
        });
    def({"__cxa_get_exception_ptr"}, [](Ctx& c) { c.ret = c.a[0]; });
    def({"__cxa_end_catch"}, [](Ctx& c)
        {
            if (CAUGHT->empty()) return;
            u64 o = CAUGHT->back();
            CAUGHT->pop_back();
            Exc& x = (*EXC)[o];
            if (--x.handlers <= 0 && x.dtor)
            {
                Function* F = (*faddr)[x.dtor];
                if (F && !F->isDeclaration())
                {
                    // continue after this call once the destructor returns
                    if (c.d.opc == Instruction::Invoke) jump(c.f, c.d.succ[0]);
                    else c.f.pc++;
                    pushFrame(c.t, F, {Val::I(o, 64)});
                    c.t.st.back()->discard = true;
                    c.advance = false;
                }
            }
        });
    def({"__cxa_rethrow"}, [](Ctx& c)
        {
            if (CAUGHT->empty()) terminated("rethrow without exception");
            u64 o = CAUGHT->back();
            (*EXC)[o].handlers++;
            unwind(c.t, o);
            c.advance = false;
        });
    def({"_ZSt19uncaught_exceptionsv", "_ZSt18uncaught_exceptionv"}, [](Ctx& c) { c.ret = Val::I(0, widthOf(c.d.I->getType())); });
    def({"__dynamic_cast"}, [](Ctx& c)
        {
            u64 p = A(c, 0), dst = A(c, 2);
            if (p == 0) { c.ret = Val::I(0, 64); return; }
            u64 vt = loadPtr(p);
            u64 ti = loadPtr(vt - 8);
            i64 top = (i64)loadPtr(vt - 16);
            i64 off;
            if (derives(ti, dst, off)) c.ret = Val::I(p + top + off, 64);
            else c.ret = Val::I(0, 64);
        });
    def({"__errno_location"}, [](Ctx& c)
        {
            static u64 e = 0;
            if (!e)
            {
                Obj* o = newObj(8, 16, 0, "errno");
                o->st.assign(8, 1);
                e = o->base;
            }
            c.ret = Val::I(e, 64);
        });
    def({"puts", "printf", "fprintf", "fwrite", "putchar", "fputs", "fputc", "fflush", "vprintf", "vfprintf", "setvbuf"}, [](Ctx& c) { c.ret = Val::I(0, widthOf(c.d.I->getType())); });
    def({"sym_fmt"}, [](Ctx& c)
        {
            // sym_fmt(buffer, capacity, kind, bits): text of a number; "?" for a symbolic one
            u64 buf = A(c, 0), cap = A(c, 1), kind = A(c, 2);
            Val v = c.a[3];
            char t[64];
            if (v.k != Val::CI) strcpy(t, "?");
            else if (kind == 0) snprintf(t, 64, "%lld", (long long)v.c);
            else if (kind == 1) snprintf(t, 64, "%llu", (unsigned long long)v.c);
            else snprintf(t, 64, "%g", asD(v.c));
            u64 n = strlen(t);
            if (n > cap) n = cap;
            for (u64 i = 0; i < n; i++) storeAddr(buf + i, Val::I((u8)t[i], 8), 1);
            c.ret = Val::I(n, 64);
        });
    def({"snprintf", "sprintf"}, [](Ctx& c)
        {
            // formats as the C library does; a symbolic number becomes "?"
            bool sized = c.d.callee && c.d.callee->getName() == "snprintf";
            u64 buf = A(c, 0), cap = sized ? A(c, 1) : (u64)1 << 32;
            unsigned k = sized ? 2 : 1;
            std::string f = readStr(A(c, k++));
            std::vector<Val> out;
            auto put = [&](const std::string& t) { for (char ch : t) out.push_back(Val::I((u8)ch, 8)); };
            for (size_t i = 0; i < f.size(); i++)
            {
                if (f[i] != '%') { out.push_back(Val::I((u8)f[i], 8)); continue; }
                std::string spec = "%";
                int longs = 0;
                for (i++; i < f.size() && strchr("-+ #0123456789.*lhzjtL", f[i]); i++)
                {
                    if (f[i] == '*') { spec += std::to_string((int)A(c, k++)); continue; }
                    if (f[i] == 'l' || f[i] == 'z' || f[i] == 'j' || f[i] == 't') longs = 1;
                    if (strchr("lhzjtL", f[i])) continue;
                    spec += f[i];
                }
                if (i >= f.size()) break;
                char cv = f[i];
                if (cv == '%') { put("%"); continue; }
                if (k >= c.a.size()) throw Incomplete{"arguments of snprintf"};
                Val v = c.a[k++];
                if (cv == 's')
                {
                    size_t dot = spec.find('.');
                    u64 lim = dot == std::string::npos ? ~0ull : (u64)atoi(spec.c_str() + dot + 1);
                    u64 a = (v.k == Val::CI) ? v.c : concretise(v, "an address");
                    for (u64 n = 0; n < lim; n++)
                    {
                        Val ch = loadAddr(a + n, 1, 8);
                        if (!(ch.k == Val::CI) ? branchOn(vecOf(ch) == bvNum(0, 8)) : ch.c == 0) break;
                        out.push_back(ch);
                    }
                    continue;
                }
                if (v.k != Val::CI) { put("?"); continue; }
                char t[256];
                if (strchr("dic", cv)) { spec += cv == 'c' ? "c" : "lld"; if (cv == 'c') snprintf(t, 256, spec.c_str(), (int)v.c); else snprintf(t, 256, spec.c_str(), longs ? (long long)v.c : (long long)(int)v.c); }
                else if (strchr("uxXo", cv)) { spec += "ll"; spec += cv; snprintf(t, 256, spec.c_str(), longs ? (unsigned long long)v.c : (unsigned long long)(unsigned)v.c); }
                else if (strchr("fFeEgG", cv)) { spec += cv; snprintf(t, 256, spec.c_str(), asD(v.c)); }
                else if (cv == 'p') snprintf(t, 256, "0x%llx", (unsigned long long)v.c);
                else throw Incomplete{"format of snprintf"};
                put(t);
            }
            for (u64 i = 0; i < out.size() && i + 1 < cap; i++) storeAddr(buf + i, out[i], 1);
            if (cap) storeAddr(buf + std::min<u64>(out.size(), cap - 1), Val::I(0, 8), 1);
            c.ret = Val::I(out.size(), 32);
        });
    def({"vsnprintf"}, [](Ctx& c)
        {
            u64 buf = A(c, 0), cap = A(c, 1);
            const char* t = "?";
            u64 n = 1;
            if (cap) { storeAddr(buf, Val::I((u8)t[0], 8), 1); if (cap > 1) storeAddr(buf + 1, Val::I(0, 8), 1); }
            c.ret = Val::I(n, 32);
        });
    def({"getenv"}, [](Ctx& c) { c.ret = Val::I(0, 64); });
    // --- mathematics
    def({"sqrt", "sqrtf"}, [](Ctx& c) { c.ret = sqrtVal(c.a[0]); });
    def({"fabs", "fabsf"}, [](Ctx& c) { c.ret = fabsVal(c.a[0]); });
    def({"fmax"}, [](Ctx& c) { c.ret = minmaxVal(c.a[0], c.a[1], true); });
    def({"fmin"}, [](Ctx& c) { c.ret = minmaxVal(c.a[0], c.a[1], false); });
#define M1(n) def({#n}, [](Ctx& c) { c.ret = mathFn(#n, c.a, (double (*)(double)) ::n, nullptr); });
    M1(exp) M1(log) M1(sin) M1(cos) M1(tan) M1(floor) M1(ceil) M1(trunc) M1(round) M1(cbrt) M1(tanh) M1(atan) M1(acos) M1(asin) M1(log10) M1(log2) M1(exp2)
#define M2(n) def({#n}, [](Ctx& c) { c.ret = mathFn(#n, c.a, nullptr, (double (*)(double, double)) ::n); });
    M2(atan2) M2(hypot) M2(fmod)
    auto powf = [](Ctx& c)
    {
        if (c.a[1].k == Val::CI && c.a[0].k != Val::CI)
        {
            double e = asD(c.a[1].c);
            if (e == std::floor(e) && std::fabs(e) <= 8)
            {
                int n = (int)std::fabs(e);
                Val r = Val::I(fromD(1.0), 64);
                r.fp = 1;
                for (int i = 0; i < n; i++) r = fbin(Instruction::FMul, r, c.a[0]);
                Val one = Val::I(fromD(1.0), 64);
                if (e < 0) r = fbin(Instruction::FDiv, one, r);
                c.ret = r;
                return;
            }
            if (e == 0.5) { c.ret = sqrtVal(c.a[0]); return; }
        }
        c.ret = mathFn("pow", c.a, nullptr, (double (*)(double, double)) ::pow);
    };
    def({"pow"}, powf);
    // --- hashing
    def({"_ZSt11_Hash_bytesPKvmm"}, [](Ctx& c)
        {
            u64 a = A(c, 0), n = A(c, 1);
            if (hashMode == 0) { c.ret = Val::I(42, 64); return; }
            bool conc = true;
            u64 h = 1469598103934665603ull;
            std::string key = "hash";
            std::vector<Val> bytes;
            for (u64 i = 0; i < n; i++)
            {
                Val v = loadAddr(a + i, 1, 8);
                bytes.push_back(v);
                if (v.k != Val::CI) { conc = false; z3::expr e = vecOf(v); keep(e); key += "s" + std::to_string(Z3_get_ast_id(*Z, e)); }
                else { h = (h ^ v.c) * 1099511628211ull; key += "c" + std::to_string(v.c) + ","; }
            }
            if (hashMode == 1)
            {
                auto it = ufMemo->find(key);
                if (it == ufMemo->end())
                {
                    z3::expr e = inputVar("hash", false);
                    INPUTS->push_back({"hash", 'i', e});
                    it = ufMemo->emplace(key, mkBV(e, 64)).first;
                    // equal texts have equal hashes
                    struct Seen { std::vector<Val> b; bool conc; z3::expr h; };
                    static std::vector<Seen> seen;
                    std::vector<z3::expr> laws;
                    for (auto& o : seen)
                    {
                        if (o.b.size() != bytes.size() || (o.conc && conc)) continue;
                        z3::expr same = Z->bool_val(true);
                        for (size_t i = 0; i < bytes.size(); i++) same = same && vecOf(o.b[i]) == vecOf(bytes[i]);
                        same = same.simplify();
                        if (same.is_false()) continue;
                        if (asgValid && evalAsg(same).is_true()) setAsg(e, evalAsg(o.h));
                        laws.push_back(!same || o.h == e);
                    }
                    keep(e);
                    seen.push_back({bytes, conc, e});
                    for (auto& l : laws) addPC(l);
                }
                c.ret = it->second;
                return;
            }
            if (!conc) throw Incomplete{"hash of symbolic bytes"};
            c.ret = Val::I(h, 64);
        });
    // --- harness interface
    def({"sym_i64", "sym_choose"}, [](Ctx& c)
        {
            std::string n = readStr(A(c, 0));
            i64 lo = (i64)A(c, 1), hi = (i64)A(c, 2);
            if (lo > hi) throw PathEnd{1};
            z3::expr e = inputVar(n, false);
            INPUTS->push_back({n, 'i', e});
            setAsg(e, bvNum((u64)lo, 64));
            addPC(e >= bvNum((u64)lo, 64) && e <= bvNum((u64)hi, 64));
            c.ret = mkBV(e, 64);
            if (lo == hi) { addPC(e == bvNum((u64)lo, 64)); c.ret = Val::I(lo, 64); }
            else if (c.d.callee->getName() == "sym_choose")
            { // a fresh variable: every value is feasible, no query needed
                i64 v = lo + chooseN((int)(hi - lo + 1));
                setAsg(e, bvNum((u64)v, 64));
                addPC(e == bvNum((u64)v, 64));
                c.ret = Val::I(v, 64);
            }
        });
    def({"sym_f64"}, [](Ctx& c)
        {
            std::string n = readStr(A(c, 0));
            z3::expr e = inputVar(n, true);
            INPUTS->push_back({n, 'f', e});
            Val r;
            r.k = Val::SR;
            r.w = 64;
            r.e = keep(e);
            c.ret = r;
        });
    def({"sym_assume"}, [](Ctx& c)
        {
            Val v = c.a[0];
            if (v.k == Val::CI) { if (!v.c) throw PathEnd{1}; return; }
            z3::expr e = applySubst(bvOf(v)).simplify();
            if (solve(e) == 0) throw PathEnd{1};
            addPC(e);
        });
    def({"sym_assert"}, [](Ctx& c)
        {
            std::string msg = readStr(A(c, 1));
            Val v = c.a[0];
            if (v.k == Val::CI)
            {
                SH->asserts++;
                SH->assertsTrivial++;
                if (v.c) return;
                violationHere("assert", msg);
            }
            obligation(bvOf(v), msg);
        });
    def({"sym_assert_eq"}, [](Ctx& c) { realOb(c, true); });
    def({"sym_assert_le"}, [](Ctx& c) { realOb(c, false); });
    def({"sym_reach"}, [](Ctx& c) { witness(readStr(A(c, 0)).c_str()); });
    def({"sym_observe_i", "sym_observe_f"}, [](Ctx& c)
        {
            Val v = c.a[1];
            v.fp = c.d.callee->getName() == "sym_observe_f";
            if (v.k == Val::UN) return;
            OBS->push_back({readStr(A(c, 0)), v});
        });
    def({"sym_expect_termination"}, [](Ctx& c) { termExpected = (int)A(c, 0); termWitness = termExpected ? readStr(A(c, 1)) : ""; });
    def({"sym_sched_mode"}, [](Ctx& c) { int m = (int)A(c, 0); schedMode = m & 15; splitFixed = m & 16; });
    def({"sym_hash_mode"}, [](Ctx& c) { hashMode = (int)A(c, 0); });
    def({"sym_mem_space_mode"}, [](Ctx& c) { memSpaceMode = A(c, 0); });
    def({"sym_native"}, [](Ctx& c) { c.ret = Val::I(0, 32); });
    def({"nfk_parfor"}, parfor);
    def({"sym_index_mode"}, [](Ctx& c) { symIndex = A(c, 0) != 0; });
    def({"nfk_atomic_begin"}, [](Ctx& c)
        {
            if (inAtomic > 0) { inAtomic++; return; } // inside of a critical section
            if (inPar && schedMode == 3 && !c.t.granted)
            {
                c.t.pending = c.a[0].k == Val::CI ? c.a[0].c : anyAddr;
                c.advance = false; // yield
                return;
            }
            if (schedMode == 3) c.t.granted = false;
            inAtomic++;
        });
    def({"nfk_atomic_end"}, [](Ctx& c) { inAtomic--; });
    def({"nfk_split"}, [](Ctx& c)
        {
            u64 lo = A(c, 0), hi = A(c, 1);
            if (splitFixed || (schedMode == 0 && hi - lo > 1)) { c.ret = Val::I(lo + (hi - lo) / 2, 64); SCHED->push_back((int)((hi - lo) / 2)); return; }
            int k = chooseN((int)(hi - lo + 1));
            SH->schedChoices++;
            SCHED->push_back(k);
            c.ret = Val::I(lo + k, 64);
        });
}
static Val fshl(const Val& a, const Val& b, const Val& s, bool left)
{
    unsigned w = a.w;
    u64 n = concretise(s, "a funnel shift amount") % w;
    if (n == 0) return left ? a : b;
    z3::expr x = z3::concat(vecOf(a), vecOf(b));
    unsigned lo = left ? w - n : n;
    return mkBV(x.extract(lo + w - 1, lo), w);
}
static bool intrinsic(Ctx& c, Intrinsic::ID id)
{
    auto& a = c.a;
    unsigned w = widthOf(c.d.I->getType());
    auto sel = [&](CmpInst::Predicate p)
    {
        Val k = icmpOp(p, a[0], a[1]);
        if (k.k == Val::CI) return k.c ? a[0] : a[1];
        return mkBV(z3::ite(bvOf(k), vecOf(a[0]), vecOf(a[1])), a[0].w);
    };
    auto ovf = [&](unsigned opc, bool sg)
    {
        Val r = binOp(opc, a[0], a[1]);
        unsigned n = a[0].w;
        Val o;
        if (a[0].k == Val::CI && a[1].k == Val::CI)
        {
            __int128 x = sg ? (__int128)sx(a[0].c, n) : (__int128)a[0].c, y = sg ? (__int128)sx(a[1].c, n) : (__int128)a[1].c;
            __int128 z = opc == Instruction::Add ? x + y : opc == Instruction::Sub ? x - y : x * y;
            __int128 back = sg ? (__int128)sx(r.c, n) : (__int128)r.c;
            o = Val::I(z != back, 1);
        }
        else
        {
            z3::expr x = sg ? z3::sext(vecOf(a[0]), n) : z3::zext(vecOf(a[0]), n);
            z3::expr y = sg ? z3::sext(vecOf(a[1]), n) : z3::zext(vecOf(a[1]), n);
            z3::expr z = opc == Instruction::Add ? x + y : opc == Instruction::Sub ? x - y : x * y;
            z3::expr back = sg ? z3::sext(vecOf(r), n) : z3::zext(vecOf(r), n);
            o = boolVal(z != back);
        }
        return mkAgg({r, o});
    };
    switch (id)
    {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value:
    case Intrinsic::dbg_label: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch:
    case Intrinsic::var_annotation: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::sideeffect:
        return true;
    case Intrinsic::assume: return true;
    case Intrinsic::invariant_start: case Intrinsic::stacksave: c.ret = Val::I(0, 64); return true;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group:
    case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: case Intrinsic::annotation: case Intrinsic::ssa_copy:
        c.ret = a[0];
        return true;
    case Intrinsic::threadlocal_address:
        c.ret = a[0].k == Val::CI ? Val::I(threadLocal(a[0].c), 64) : a[0];
        return true;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline:
        memCopy(A(c, 0), A(c, 1), A(c, 2, "a copy length"));
        return true;
    case Intrinsic::memset: case Intrinsic::memset_inline: (*BI)["memset"]->fn(c); return true;
    case Intrinsic::umax: c.ret = sel(CmpInst::ICMP_UGT); return true;
    case Intrinsic::umin: c.ret = sel(CmpInst::ICMP_ULT); return true;
    case Intrinsic::smax: c.ret = sel(CmpInst::ICMP_SGT); return true;
    case Intrinsic::smin: c.ret = sel(CmpInst::ICMP_SLT); return true;
    case Intrinsic::abs:
        if (a[0].k == Val::CI) c.ret = Val::I(sx(a[0].c, w) < 0 ? -a[0].c : a[0].c, w);
        else c.ret = mkBV(z3::ite(vecOf(a[0]) < bvNum(0, w), -vecOf(a[0]), vecOf(a[0])), w);
        return true;
    case Intrinsic::uadd_with_overflow: c.ret = ovf(Instruction::Add, false); return true;
    case Intrinsic::sadd_with_overflow: c.ret = ovf(Instruction::Add, true); return true;
    case Intrinsic::usub_with_overflow: c.ret = ovf(Instruction::Sub, false); return true;
    case Intrinsic::ssub_with_overflow: c.ret = ovf(Instruction::Sub, true); return true;
    case Intrinsic::umul_with_overflow: c.ret = ovf(Instruction::Mul, false); return true;
    case Intrinsic::smul_with_overflow: c.ret = ovf(Instruction::Mul, true); return true;
    case Intrinsic::usub_sat:
        if (a[0].k == Val::CI && a[1].k == Val::CI) c.ret = Val::I(a[0].c > a[1].c ? a[0].c - a[1].c : 0, w);
        else c.ret = mkBV(z3::ite(z3::ugt(vecOf(a[0]), vecOf(a[1])), vecOf(a[0]) - vecOf(a[1]), bvNum(0, w)), w);
        return true;
    case Intrinsic::uadd_sat:
    {
        Val r = ovf(Instruction::Add, false);
        if ((*r.a)[1].k == Val::CI) c.ret = (*r.a)[1].c ? Val::I(~0ull, w) : (*r.a)[0];
        else c.ret = mkBV(z3::ite(bvOf((*r.a)[1]), bvNum(~0ull >> (64 - w), w), vecOf((*r.a)[0])), w);
        return true;
    }
    case Intrinsic::ctpop: c.ret = Val::I(__builtin_popcountll(A(c, 0)), w); return true;
    case Intrinsic::ctlz:
    {
        u64 x = A(c, 0);
        c.ret = Val::I(x ? __builtin_clzll(x) - (64 - w) : w, w);
        return true;
    }
    case Intrinsic::cttz:
    {
        u64 x = A(c, 0);
        c.ret = Val::I(x ? __builtin_ctzll(x) : w, w);
        return true;
    }
    case Intrinsic::bswap:
        if (w == 64) c.ret = Val::I(__builtin_bswap64(A(c, 0)), 64);
        else if (w == 32) c.ret = Val::I(__builtin_bswap32(A(c, 0)), 32);
        else c.ret = Val::I(__builtin_bswap16(A(c, 0)), 16);
        return true;
    case Intrinsic::fshl: c.ret = fshl(a[0], a[1], a[2], true); return true;
    case Intrinsic::fshr: c.ret = fshl(a[0], a[1], a[2], false); return true;
    case Intrinsic::fabs: c.ret = fabsVal(a[0]); return true;
    case Intrinsic::sqrt: c.ret = sqrtVal(a[0]); return true;
    case Intrinsic::maxnum: case Intrinsic::maximum: c.ret = minmaxVal(a[0], a[1], true); return true;
    case Intrinsic::minnum: case Intrinsic::minimum: c.ret = minmaxVal(a[0], a[1], false); return true;
    case Intrinsic::fma: case Intrinsic::fmuladd: c.ret = fbin(Instruction::FAdd, fbin(Instruction::FMul, a[0], a[1]), a[2]); return true;
    case Intrinsic::pow: (*BI)["pow"]->fn(c); return true;
    case Intrinsic::powi:
    {
        i64 n = (int)A(c, 1);
        Val r = Val::I(fromD(1), 64);
        r.fp = 1;
        for (i64 i = 0; i < std::abs(n); i++) r = fbin(Instruction::FMul, r, a[0]);
        if (n < 0) r = fbin(Instruction::FDiv, Val::I(fromD(1), 64), r);
        c.ret = r;
        return true;
    }
    case Intrinsic::floor: (*BI)["floor"]->fn(c); return true;
    case Intrinsic::ceil: (*BI)["ceil"]->fn(c); return true;
    case Intrinsic::trunc: (*BI)["trunc"]->fn(c); return true;
    case Intrinsic::round: (*BI)["round"]->fn(c); return true;
    case Intrinsic::exp: (*BI)["exp"]->fn(c); return true;
    case Intrinsic::log: (*BI)["log"]->fn(c); return true;
    case Intrinsic::sin: (*BI)["sin"]->fn(c); return true;
    case Intrinsic::cos: (*BI)["cos"]->fn(c); return true;
    case Intrinsic::copysign:
    {
        Val m = fabsVal(a[0]);
        bool neg = a[1].k == Val::CI ? std::signbit(asD(a[1].c)) : branchOn(realOf(a[1]) < 0);
        c.ret = neg ? fneg(m) : m;
        return true;
    }
    case Intrinsic::is_fpclass:
    {
        u64 mask = A(c, 1);
        if (a[0].k != Val::CI) { c.ret = Val::I((mask & 0x1f8) == 0x1f8, 1); return true; } // a real is finite
        double x = a[0].w == 32 ? asF(a[0].c) : asD(a[0].c);
        bool r = false;
        if (std::isnan(x)) r = mask & 3;
        else if (std::isinf(x)) r = mask & (x < 0 ? 4 : 0x200);
        else if (x == 0) r = mask & (std::signbit(x) ? 0x20 : 0x40);
        else r = mask & (x < 0 ? 0x18 : 0x180);
        c.ret = Val::I(r, 1);
        return true;
    }
    case Intrinsic::eh_typeid_for: c.ret = Val::I(selOf(A(c, 0)), 32); return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: violationHere("trap", "trap instruction reached"); return true;
    case Intrinsic::objectsize: c.ret = Val::I(~0ull, w); return true;
    case Intrinsic::is_constant: c.ret = Val::I(0, 1); return true;
    case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy: return true;
    case Intrinsic::ptrmask: c.ret = binOp(Instruction::And, a[0], a[1]); return true;
    default: return false;
    }
}

// ------------------------------------------------------------------------------------------------
// interpreter
// ------------------------------------------------------------------------------------------------
static long steps = 0;
static void doReturn(Thread& t, const Val& v)
{
    bool disc = t.st.back()->discard;
    popFrame(t);
    if (t.st.empty()) { t.ret = v; t.done = true; return; }
    if (disc) return;
    Frame& f = *t.st.back();
    DInst& d = f.bb->insts[f.pc];
    if (d.dst >= 0) f.r[d.dst] = v;
    if (d.opc == Instruction::Invoke) jump(f, d.succ[0]);
    else f.pc++;
}
static bool truth(const Val& v)
{
    if (v.k == Val::CI) return v.c & 1;
    if (v.k == Val::SB)
    {
        return branchOn(v.w == 1 ? *v.e : (vecOf(v) != bvNum(0, v.w)));
    }
    if (v.k == Val::UN) return branchOn(*freshBV(1, "undef").e);
    throw Incomplete{"branch on a non-integer"};
}
static void atomicRMW(Frame& f, DInst& d)
{
    auto* I = cast<AtomicRMWInst>(d.I);
    Val pv = getOp(f, d.ops[0]);
    Val x = getOp(f, d.ops[1]);
    u64 n = DL->getTypeStoreSize(I->getType());
    inAtomic++;
    Val old;
    u64 a = 0;
    bool sym = pv.k != Val::CI && symLoad(pv, n, I->getType(), old);
    if (!sym)
    {
        a = concretise(pv, "an address");
        old = loadAddr(a, n, widthOf(I->getType()));
    }
    Val nv;
    switch (I->getOperation())
    {
    case AtomicRMWInst::Xchg: nv = x; break;
    case AtomicRMWInst::Add: nv = binOp(Instruction::Add, old, x); break;
    case AtomicRMWInst::Sub: nv = binOp(Instruction::Sub, old, x); break;
    case AtomicRMWInst::And: nv = binOp(Instruction::And, old, x); break;
    case AtomicRMWInst::Or: nv = binOp(Instruction::Or, old, x); break;
    case AtomicRMWInst::Xor: nv = binOp(Instruction::Xor, old, x); break;
    case AtomicRMWInst::FAdd: nv = fbin(Instruction::FAdd, old, x); break;
    case AtomicRMWInst::FSub: nv = fbin(Instruction::FSub, old, x); break;
    default: throw Incomplete{"atomic operation"};
    }
    if (!sym || !symStore(pv, n, I->getType(), nv))
    {
        if (sym) a = concretise(pv, "an address");
        storeAddr(a, nv, n);
    }
    inAtomic--;
    f.r[d.dst] = old;
}
static Val freezeV(const Val& v)
{
    return v;
}
static void callInst(Thread& t, Frame& f, DInst& d)
{
    auto* cb = cast<CallBase>(d.I);
    std::vector<Val> args;
    unsigned na = cb->arg_size();
    args.reserve(na);
    for (unsigned i = 0; i < na; i++) args.push_back(getOp(f, d.ops[i]));
    Function* F = d.callee;
    if (!F)
    {
        if (cb->isInlineAsm())
        {
            if (cb->getType()->isVoidTy()) { if (d.opc == Instruction::Invoke) jump(f, d.succ[0]); else f.pc++; return; }
            throw Incomplete{"inline assembly"};
        }
        Val fv = getOp(f, d.ops[cb->arg_size() + (d.opc == Instruction::Invoke ? 2 : 0)]);
        // the callee is the last operand
        fv = getOp(f, d.ops.back());
        u64 fa = concretise(fv, "a function pointer");
        auto it = faddr->find(fa);
        if (it == faddr->end()) violationHere("memory", "call through an invalid function pointer, " + describeAddr(fa));
        F = it->second;
    }
    auto finish = [&](Ctx& c)
    {
        if (!c.advance) return;
        if (d.dst >= 0) f.r[d.dst] = c.ret.w || c.ret.k == Val::AG ? c.ret : Val::U(widthOf(d.I->getType()));
        if (d.opc == Instruction::Invoke) jump(f, d.succ[0]);
        else f.pc++;
    };
    Function* saved = d.callee;
    auto bc = biCache->find(F);
    Builtin* b = nullptr;
    if (bc == biCache->end())
    {
        auto it = BI->find(F->getName().str());
        b = it == BI->end() ? nullptr : it->second;
        (*biCache)[F] = b;
    }
    else b = bc->second;
    Ctx c{t, f, d, args, Val(), true};
    if (F->isIntrinsic())
    {
        if (!intrinsic(c, F->getIntrinsicID())) throw Incomplete{"intrinsic " + F->getName().str()};
        finish(c);
        return;
    }
    if (b)
    {
        d.callee = F;
        b->fn(c);
        d.callee = saved;
        finish(c);
        return;
    }
    if (F->isDeclaration())
    {
        throw Incomplete{"call of external function " + demangle(F->getName().str()) + " [" + F->getName().str() + "]"};
    }
    pushFrame(t, F, args);
}
static void run(Thread& t, size_t base)
{
    while (t.st.size() > base)
    {
        Frame& f = *t.st.back();
        DInst& d = f.bb->insts[f.pc];
        if (((++steps) & 0xfff) == 0)
        {
            if (SH->stop) throw PathEnd{4};
            if (nowS() - T0 > OPT.timeout) throw Incomplete{"time limit"};
            if (steps > OPT.maxSteps) violationHere("steps", "no termination within " + std::to_string(OPT.maxSteps) + " instructions");
        }
        switch (d.opc)
        {
        case Instruction::Br:
            if (d.succ[1] == nullptr) { jump(f, d.succ[0]); break; }
            {
                Val c = getOp(f, d.ops[0]);
                bool b = truth(c);
                jump(f, b ? d.succ[0] : d.succ[1]);
            }
            break;
        case Instruction::Switch:
        {
            auto* sw = cast<SwitchInst>(d.I);
            Val c = getOp(f, d.ops[0]);
            BasicBlock* to = nullptr;
            if (c.k == Val::CI)
            {
                to = sw->getDefaultDest();
                for (auto& cs : sw->cases())
                    if (cs.getCaseValue()->getZExtValue() == c.c) { to = cs.getCaseSuccessor(); break; }
            }
            else
            {
                z3::expr e = applySubst(vecOf(c));
                to = sw->getDefaultDest();
                for (auto& cs : sw->cases())
                {
                    if (branchOn(e == bvNum(cs.getCaseValue()->getZExtValue(), c.w))) { to = cs.getCaseSuccessor(); break; }
                }
            }
            jump(f, blockOf(f.f, to));
            break;
        }
        case Instruction::Ret:
            doReturn(t, d.ops.empty() ? Val() : getOp(f, d.ops[0]));
            break;
        case Instruction::Unreachable:
            violationHere("unreachable", "control reaches undefined behaviour");
        case Instruction::Alloca:
        {
            auto* ai = cast<AllocaInst>(d.I);
            u64 n = concretise(getOp(f, d.ops[0]), "an allocation count");
            u64 sz = n * DL->getTypeAllocSize(ai->getAllocatedType());
            Obj* o = newObj(sz, ai->getAlign().value(), 1, "stack");
            f.allocas.push_back(o->base);
            f.r[d.dst] = Val::I(o->base, 64);
            f.pc++;
            break;
        }
        case Instruction::Load:
        {
            Val p = getOp(f, d.ops[0]);
            Type* ty = d.I->getType();
            u64 n = DL->getTypeStoreSize(ty);
            bool at = cast<LoadInst>(d.I)->isAtomic();
            if (p.k != Val::CI)
            {
                Val r;
                if (at) inAtomic++;
                bool ok = symLoad(p, n, ty, r);
                if (at) inAtomic--;
                if (ok) { f.r[d.dst] = r; f.pc++; break; }
            }
            u64 a = concretise(p, "an address");
            if (at) inAtomic++;
            Obj* o = checkAccess(a, n, false);
            if (at) inAtomic--;
            f.r[d.dst] = loadTyped(o, a - o->base, ty);
            f.pc++;
            break;
        }
        case Instruction::Store:
        {
            Val v = getOp(f, d.ops[0]);
            Val p = getOp(f, d.ops[1]);
            Type* ty = cast<StoreInst>(d.I)->getValueOperand()->getType();
            u64 n = DL->getTypeStoreSize(ty);
            bool at = cast<StoreInst>(d.I)->isAtomic();
            if (p.k != Val::CI)
            {
                if (at) inAtomic++;
                bool ok = symStore(p, n, ty, v);
                if (at) inAtomic--;
                if (ok) { f.pc++; break; }
            }
            u64 a = concretise(p, "an address");
            if (at) inAtomic++;
            Obj* o = checkAccess(a, n, true);
            if (at) inAtomic--;
            storeTyped(o, a - o->base, ty, v);
            f.pc++;
            break;
        }
        case Instruction::GetElementPtr:
        {
            auto* g = cast<GEPOperator>(d.I);
            unsigned k = 0;
            (void)k;
            f.r[d.dst] = gepVal(g, [&](const Value* v) -> Val
                                {
                                    for (unsigned i = 0; i < d.ops.size(); i++)
                                        if (d.I->getOperand(i) == v) return getOp(f, d.ops[i]);
                                    throw Incomplete{"gep"};
                                });
            f.pc++;
            break;
        }
        case Instruction::ICmp:
            f.r[d.dst] = icmpOp(cast<CmpInst>(d.I)->getPredicate(), getOp(f, d.ops[0]), getOp(f, d.ops[1]));
            f.pc++;
            break;
        case Instruction::FCmp:
        {
            Val a = getOp(f, d.ops[0]), b = getOp(f, d.ops[1]);
            f.r[d.dst] = fcmp(cast<CmpInst>(d.I)->getPredicate(), a, b);
            f.pc++;
            break;
        }
        case Instruction::FNeg: f.r[d.dst] = fneg(getOp(f, d.ops[0])); f.pc++; break;
        case Instruction::Select:
        {
            Val c = getOp(f, d.ops[0]);
            if (c.k == Val::AG) throw Incomplete{"vector select"};
            Val a = getOp(f, d.ops[1]), b = getOp(f, d.ops[2]);
            if (c.k == Val::CI) f.r[d.dst] = c.c & 1 ? a : b;
            else
            {
                Type* ty = d.I->getType();
                bool ints = ty->isIntegerTy() && (a.k == Val::CI || a.k == Val::SB) && (b.k == Val::CI || b.k == Val::SB);
                if (ints && c.k == Val::SB)
                {
                    if (a.w == 1) f.r[d.dst] = boolVal(z3::ite(bvOf(c), bvOf(a), bvOf(b)));
                    else f.r[d.dst] = mkBV(z3::ite(bvOf(c), vecOf(a), vecOf(b)), a.w);
                }
                else f.r[d.dst] = truth(c) ? a : b;
            }
            f.pc++;
            break;
        }
        case Instruction::Call:
        case Instruction::Invoke:
        {
            DInst* before = &d;
            size_t depth = t.st.size();
            callInst(t, f, d);
            if (inPar && schedMode == 3 && t.tid >= 0 && t.st.size() == depth && &t.st.back()->bb->insts[t.st.back()->pc] == before
                && d.callee && d.callee->getName() == "nfk_atomic_begin")
                return; // yielded before an atomic operation
            break;
        }
        case Instruction::LandingPad:
            f.r[d.dst] = mkAgg({Val::I(f.excPtr, 64), Val::I((u32)f.excSel, 32)});
            f.pc++;
            break;
        case Instruction::Resume:
        {
            Val v = getOp(f, d.ops[0]);
            u64 o = (*v.a)[0].c;
            popFrame(t);
            unwind(t, o);
            break;
        }
        case Instruction::ExtractValue:
        {
            Val v = getOp(f, d.ops[0]);
            for (unsigned i : cast<ExtractValueInst>(d.I)->indices())
            {
                if (v.k != Val::AG) { v = Val::U(widthOf(d.I->getType())); break; }
                v = (*v.a)[i];
            }
            f.r[d.dst] = v;
            f.pc++;
            break;
        }
        case Instruction::InsertValue:
        {
            Val v = getOp(f, d.ops[0]);
            auto idx = cast<InsertValueInst>(d.I)->getIndices();
            Val nv = getOp(f, d.ops[1]);
            std::function<Val(const Val&, unsigned)> ins = [&](const Val& cur, unsigned k) -> Val
            {
                if (k == idx.size()) return nv;
                std::vector<Val> e = *cur.a;
                e[idx[k]] = ins(e[idx[k]], k + 1);
                return mkAgg(std::move(e));
            };
            if (v.k != Val::AG) throw Incomplete{"insertvalue"};
            f.r[d.dst] = ins(v, 0);
            f.pc++;
            break;
        }
        case Instruction::ExtractElement:
        {
            Val v = getOp(f, d.ops[0]);
            u64 i = concretise(getOp(f, d.ops[1]), "a vector index");
            f.r[d.dst] = v.k == Val::AG ? (*v.a)[i] : Val::U(widthOf(d.I->getType()));
            f.pc++;
            break;
        }
        case Instruction::InsertElement:
        {
            Val v = getOp(f, d.ops[0]);
            u64 i = concretise(getOp(f, d.ops[2]), "a vector index");
            std::vector<Val> e = *v.a;
            e[i] = getOp(f, d.ops[1]);
            f.r[d.dst] = mkAgg(std::move(e));
            f.pc++;
            break;
        }
        case Instruction::ShuffleVector:
        {
            Val a = getOp(f, d.ops[0]), b = getOp(f, d.ops[1]);
            std::vector<Val> r;
            auto* sv = cast<ShuffleVectorInst>(d.I);
            for (int m : sv->getShuffleMask())
                r.push_back(m < 0 ? Val::U(widthOf(cast<VectorType>(sv->getType())->getElementType()))
                            : m < (int)a.a->size() ? (*a.a)[m] : (*b.a)[m - a.a->size()]);
            f.r[d.dst] = mkAgg(std::move(r));
            f.pc++;
            break;
        }
        case Instruction::Freeze: f.r[d.dst] = freezeV(getOp(f, d.ops[0])); f.pc++; break;
        case Instruction::AtomicRMW: atomicRMW(f, d); f.pc++; break;
        case Instruction::AtomicCmpXchg:
        {
            u64 a = concretise(getOp(f, d.ops[0]), "an address");
            Val cmp = getOp(f, d.ops[1]), nv = getOp(f, d.ops[2]);
            Type* ty = cast<AtomicCmpXchgInst>(d.I)->getNewValOperand()->getType();
            u64 n = DL->getTypeStoreSize(ty);
            inAtomic++;
            Val old = loadAddr(a, n, widthOf(ty));
            bool eq = truth(icmpOp(CmpInst::ICMP_EQ, old, cmp));
            if (eq) storeAddr(a, nv, n);
            inAtomic--;
            f.r[d.dst] = mkAgg({old, Val::I(eq, 1)});
            f.pc++;
            break;
        }
        case Instruction::Fence: f.pc++; break;
        default:
            if (d.I->isBinaryOp())
            {
                f.r[d.dst] = binOp(d.opc, getOp(f, d.ops[0]), getOp(f, d.ops[1]));
                f.pc++;
            }
            else if (d.I->isCast())
            {
                f.r[d.dst] = castOp(d.opc, getOp(f, d.ops[0]), d.I->getOperand(0)->getType(), d.I->getType());
                f.pc++;
            }
            else throw Incomplete{std::string("instruction ") + d.I->getOpcodeName()};
        }
    }
}
static void runFunction(Function* F)
{
    Thread& t = *new Thread; // not unwound: the location of an abandoned path is still reported
    Thread* prev = CUR;
    CUR = &t;
    pushFrame(t, F, {});
    run(t, 0);
    CUR = prev;
    delete &t;
}
static void runCtors()
{
    auto* gc = M->getGlobalVariable("llvm.global_ctors");
    if (!gc || !gc->hasInitializer()) return;
    auto* arr = dyn_cast<ConstantArray>(gc->getInitializer());
    if (!arr) return;
    std::vector<std::pair<u64, Function*>> fs;
    for (auto& o : arr->operands())
    {
        auto* cs = cast<ConstantStruct>(o.get());
        auto* F = dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts());
        if (F) fs.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(), F});
    }
    std::stable_sort(fs.begin(), fs.end(), [](auto& a, auto& b) { return a.first < b.first; });
    for (auto& p : fs) runFunction(p.second);
}

#include <execinfo.h>
static void crashed(int s)
{
    void* a[60];
    int n = backtrace(a, 60);
    dprintf(2, "engine crash: signal %d\n", s);
    backtrace_symbols_fd(a, n, 2);
    signal(s, SIG_DFL);
    raise(s);
}
int main(int argc, char** argv)
{
    {
        stack_t ss {};
        ss.ss_size = 1 << 16;
        ss.ss_sp = malloc(ss.ss_size);
        sigaltstack(&ss, nullptr);
        struct sigaction sa {};
        sa.sa_handler = crashed;
        sa.sa_flags = SA_ONSTACK;
        for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
    }
    for (int i = 1; i < argc; i++)
    {
        std::string a = argv[i];
        auto next = [&] { return std::string(argv[++i]); };
        if (a == "--entry") OPT.entry = next();
        else if (a == "--out") OPT.out = next();
        else if (a == "--jobs") OPT.jobs = atoi(next().c_str());
        else if (a == "--timeout") OPT.timeout = atof(next().c_str());
        else if (a == "--rlimit") OPT.rlimit = atol(next().c_str());
        else if (a == "--max-steps") OPT.maxSteps = atol(next().c_str());
        else if (a == "--max-paths") OPT.maxPaths = atol(next().c_str());
        else if (a == "--max-viol") OPT.maxViol = atol(next().c_str());
        else if (a == "--traces") OPT.maxTraces = atoi(next().c_str());
        else if (a == "-v") OPT.verbose = true;
        else if (a == "--trace-forks") OPT.traceForks = true;
        else if (a == "--hash") hashMode = atoi(next().c_str());
        else OPT.file = a;
    }
    rlimit rl{512ul << 20, 512ul << 20};
    setrlimit(RLIMIT_STACK, &rl);
    SH = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset((void*)SH, 0, sizeof(Shared));
    unlink(OPT.out.c_str());
    T0 = nowS();
    Z = new z3::context;
    ARENA = new std::deque<z3::expr>;
    dcache = new std::unordered_map<u64, z3::expr>;
    vcache = new std::unordered_map<unsigned, std::shared_ptr<VarSet>>;
    PC = new std::vector<Cons>;
    fixedBV = new std::unordered_map<unsigned, u64>;
    substFrom = new z3::expr_vector(*Z);
    substTo = new z3::expr_vector(*Z);
    substCache = new std::unordered_map<unsigned, z3::expr>;
    qcache = new std::unordered_map<u64, int>;
    INPUTS = new std::vector<Input>;
    SCHED = new std::vector<int>;
    asg = new std::unordered_map<unsigned, z3::expr>;
    pend = new std::vector<Pending>;
    varById = new std::unordered_map<unsigned, z3::expr>;
    OBS = new std::vector<std::pair<std::string, Val>>;
    OBJS = new std::map<u64, std::unique_ptr<Obj>>;
    ACC = new std::unordered_map<u64, std::vector<Acc>>;
    gaddr = new DenseMap<const GlobalValue*, u64>;
    faddr = new std::unordered_map<u64, Function*>;
    DF = new std::unordered_map<Function*, std::unique_ptr<DFunc>>;
    covId = new DenseMap<const DISubprogram*, int>;
    covSP = new std::vector<const DISubprogram*>;
    EXC = new std::map<u64, Exc>;
    CAUGHT = new std::vector<u64>;
    tiByAddr = new std::unordered_map<u64, const GlobalVariable*>;
    tiSel = new std::unordered_map<u64, int>;
    BI = new std::unordered_map<std::string, Builtin*>;
    biCache = new std::unordered_map<Function*, Builtin*>;
    ufMemo = new std::unordered_map<std::string, Val>;
    ROUNDED = new std::vector<std::pair<z3::expr, z3::expr>>;
    nameCount = new std::map<std::string, int>;
    auto* LC = new LLVMContext;
    SMDiagnostic err;
    auto mod = parseIRFile(OPT.file, err, *LC);
    if (!mod)
    {
        err.print("symex", errs());
        return 2;
    }
    M = mod.release();
    DL = &M->getDataLayout();
    for (auto& F : *M)
        for (auto& I : instructions(F))
        {
            const DILocation* L = I.getDebugLoc();
            while (L)
            {
                auto* sp = L->getScope()->getSubprogram();
                std::string fn = sp->getFilename().str();
                std::string full = fn.rfind("/", 0) == 0 ? fn : sp->getDirectory().str() + "/" + fn;
                if (full.rfind(OPT.repoPrefix, 0) == 0 && !covId->count(sp) && (int)covSP->size() < MAXCOV)
                {
                    (*covId)[sp] = (int)covSP->size();
                    covSP->push_back(sp);
                }
                L = L->getInlinedAt();
            }
        }
    defineBuiltins();
    Function* E = M->getFunction(OPT.entry);
    if (!E || E->isDeclaration())
    {
        fprintf(stderr, "no entry %s\n", OPT.entry.c_str());
        return 2;
    }
    SH->running = 1;
    SH->procs = 1;
    pid_t root = fork();
    if (root == 0)
    {
        ownSlot = true;
        alarm((unsigned)OPT.timeout + 20);
        try
        {
            inMain = true;
            runCtors();
            steps = 0;
            runFunction(E);
            SH->paths++;
            emitTrace(0);
        }
        catch (PathEnd& e)
        {
            if (e.how == 1) SH->pathsAssumed++;
            else if (e.how == 2) { SH->pathsTerminated++; SH->paths++; emitTrace(2); }
            else if (e.how == 3) SH->paths++;
        }
        catch (Incomplete& e)
        {
            SH->incomplete++;
            emitLine("{\"t\":\"incomplete\",\"why\":\"" + jsonEsc(e.why) + "\",\"where\":\"" + jsonEsc(locStr()) + "\",\"stack\":\"" + jsonEsc(stackStr()) + "\"}");
        }
        catch (z3::exception& e)
        {
            SH->incomplete++;
            emitLine(std::string("{\"t\":\"incomplete\",\"why\":\"z3: ") + jsonEsc(e.msg()) + "\",\"where\":\"" + jsonEsc(locStr()) + "\",\"stack\":\"" + jsonEsc(stackStr()) + "\"}");
        }
        catch (std::exception& e)
        {
            SH->incomplete++;
            emitLine(std::string("{\"t\":\"incomplete\",\"why\":\"internal: ") + jsonEsc(e.what()) + "\",\"where\":\"" + jsonEsc(locStr()) + "\",\"stack\":\"" + jsonEsc(stackStr()) + "\"}");
        }
        SH->insts += steps;
        if (ownSlot) SH->running--;
        for (pid_t k : kids)
        {
            int st;
            waitpid(k, &st, 0);
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
            {
                SH->incomplete++;
                emitLine("{\"t\":\"incomplete\",\"why\":\"a path process died\"}");
            }
        }
        _exit(0);
    }
    int st;
    waitpid(root, &st, 0);
    bool died = !WIFEXITED(st) || WEXITSTATUS(st) != 0;
    std::string s = "{\"t\":\"summary\",\"entry\":\"" + OPT.entry + "\"";
    auto add = [&](const char* k, long v) { s += std::string(",\"") + k + "\":" + std::to_string(v); };
    add("paths", SH->paths);
    add("assumed_away", SH->pathsAssumed);
    add("terminated", SH->pathsTerminated);
    add("queries", SH->queries);
    s += ",\"solver_s\":" + std::to_string(SH->queryNs * 1e-9);
    add("asserts", SH->asserts);
    add("asserts_trivial", SH->assertsTrivial);
    add("forks", SH->forks);
    add("insts", SH->insts);
    add("violations", SH->violations);
    add("incomplete", SH->incomplete + (died ? 1 : 0));
    add("unknowns", SH->unknowns);
    add("concretised", SH->concretised);
    add("sched_choices", SH->schedChoices);
    add("race_checked_accesses", SH->accesses);
    s += ",\"wall_s\":" + std::to_string(nowS() - T0);
    s += ",\"reach\":{";
    for (int i = 0; i < SH->nw; i++) s += (i ? ",\"" : "\"") + jsonEsc(SH->wname[i]) + "\":" + std::to_string(SH->wcount[i]);
    s += "},\"functions\":[";
    std::set<std::string> fs;
    for (size_t i = 0; i < covSP->size(); i++)
        if (SH->cov[i])
        {
            auto* sp = (*covSP)[i];
            std::string nm = sp->getLinkageName().empty() ? sp->getName().str() : sp->getName().str();
            std::string fn = sp->getFilename().str();
            if (fn.rfind(OPT.repoPrefix, 0) == 0) fn = fn.substr(OPT.repoPrefix.size());
            fs.insert(fn + "::" + nm);
        }
    bool first = true;
    for (auto& x : fs)
    {
        s += (first ? "\"" : ",\"") + jsonEsc(x) + "\"";
        first = false;
    }
    s += "]}";
    emitLine(s);
    printf("%s\n", s.c_str());
    return 0;
}
