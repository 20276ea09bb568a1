// Model of the Ginkgo parts that the Ginkgo back end uses (documented behaviour): executors, arrays
// that own or view memory, matrices made of arrays, configuration trees, and a solver whose answer
// is the harness'.
#pragma once
#include <Kokkos_Core.hpp>
#include <cstdint>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
#include "sym.h"
namespace gko
{
using size_type = size_t;
template<size_t N> struct dim
{
    size_t d[N];
    dim(size_t a, size_t b) : d {a, b} {}
    size_t operator[](size_t i) const { return d[i]; }
};
class Executor
{
public:
    explicit Executor(int s) : space(s) {}
    virtual ~Executor() = default;
    int space; // 0 host, 1 device
};
struct ReferenceExecutor : Executor
{
    ReferenceExecutor() : Executor(0) {}
    static std::shared_ptr<ReferenceExecutor> create() { return std::make_shared<ReferenceExecutor>(); }
};
struct OmpExecutor : Executor
{
    OmpExecutor() : Executor(0) {}
    static std::shared_ptr<OmpExecutor> create() { return std::make_shared<OmpExecutor>(); }
};
struct CudaExecutor : Executor
{
    CudaExecutor() : Executor(1) {}
    static std::shared_ptr<CudaExecutor> create(int, std::shared_ptr<Executor>) { return std::make_shared<CudaExecutor>(); }
};
struct HipExecutor : Executor
{
    HipExecutor() : Executor(1) {}
    static std::shared_ptr<HipExecutor> create(int, std::shared_ptr<Executor>) { return std::make_shared<HipExecutor>(); }
};
using ExecPtr = std::shared_ptr<const Executor>;
template<class T> class array;
namespace detail
{
template<class T> class const_array_view
{
public:
    const_array_view(ExecPtr e, size_t n, const T* p) : e_(e), n_(n), p_(p) {}
    array<T> copy_to_array() const;
    size_t get_size() const { return n_; }
    const T* get_const_data() const { return p_; }

private:
    ExecPtr e_;
    size_t n_;
    const T* p_;
};
}
// owns its memory, or is a view of memory of somebody else; copies always own
template<class T> class array
{
public:
    array(ExecPtr e) : e_(e) {}
    array(ExecPtr e, size_t n) : e_(e), n_(n), own_(true) { p_ = alloc(n); }
    array(const array& o) : e_(o.e_), n_(o.n_), own_(true)
    {
        p_ = alloc(n_);
        if (n_) nfk_copy(p_, space(), o.p_, o.space(), n_ * sizeof(T));
    }
    array(array&& o) : e_(o.e_), n_(o.n_), p_(o.p_), own_(o.own_) { o.p_ = nullptr; o.n_ = 0; o.own_ = false; }
    array& operator=(const array&) = delete;
    ~array() { if (own_ && p_) nfk_free(p_, space()); }
    static array view(ExecPtr e, size_t n, T* p)
    {
        array a(e);
        a.n_ = n;
        a.p_ = p;
        return a;
    }
    static detail::const_array_view<T> const_view(ExecPtr e, size_t n, const T* p) { return {e, n, p}; }
    size_t get_size() const { return n_; }
    size_t get_num_elems() const { return n_; }
    T* get_data() { return p_; }
    const T* get_const_data() const { return p_; }
    bool is_owning() const { return own_; }
    int space() const { return e_->space; }
    ExecPtr get_executor() const { return e_; }
    std::vector<T> values() const
    {
        std::vector<T> r(n_);
        if (n_) nfk_copy(r.data(), 0, p_, space(), n_ * sizeof(T));
        return r;
    }
    // the memory lives in the given executor
    array(ExecPtr e, array&& o) : e_(e), n_(o.n_)
    {
        if (e == o.e_) { p_ = o.p_; own_ = o.own_; o.p_ = nullptr; o.n_ = 0; o.own_ = false; }
        else
        {
            own_ = true;
            p_ = alloc(n_);
            if (n_) nfk_copy(p_, space(), o.p_, o.space(), n_ * sizeof(T));
        }
    }

private:
    T* alloc(size_t n) { return n ? static_cast<T*>(nfk_malloc(n * sizeof(T), space())) : nullptr; }
    ExecPtr e_;
    size_t n_ = 0;
    T* p_ = nullptr;
    bool own_ = false;
};
template<class T> array<T> detail::const_array_view<T>::copy_to_array() const
{
    array<T> v = array<T>::view(e_, n_, const_cast<T*>(p_));
    return array<T>(static_cast<const array<T>&>(v));
}
template<class T> array<T> make_array_view(ExecPtr e, size_t n, T* p) { return array<T>::view(e, n, p); }
template<class T> detail::const_array_view<T> make_const_array_view(ExecPtr e, size_t n, const T* p) { return {e, n, p}; }
template<class P> std::shared_ptr<typename std::remove_reference_t<P>::element_type> share(P&& p) { return std::shared_ptr<typename std::remove_reference_t<P>::element_type>(std::move(p)); }
class LinOp
{
public:
    LinOp(ExecPtr e, dim<2> s) : e_(e), s_(s) {}
    virtual ~LinOp() = default;
    dim<2> get_size() const { return s_; }
    ExecPtr get_executor() const { return e_; }
    template<class B, class X> LinOp* apply(const B& b, const X& x) { applyTo(*b, *x); return this; }
    template<class B, class X> const LinOp* apply(const B& b, const X& x) const { const_cast<LinOp*>(this)->applyTo(*b, *x); return this; }
    virtual void applyTo(const LinOp&, LinOp&) { throw std::runtime_error("not implemented"); }

private:
    ExecPtr e_;
    dim<2> s_;
};
namespace matrix
{
template<class V, class I> class Csr : public LinOp
{
public:
    array<V> values;
    array<I> cols, rows;
    Csr(ExecPtr e, dim<2> s, array<V> v, array<I> c, array<I> r)
        : LinOp(e, s), values(e, std::move(v)), cols(e, std::move(c)), rows(e, std::move(r))
    {
        if (values.get_size() != cols.get_size() || rows.get_size() != s[0] + 1) throw std::runtime_error("sizes of a matrix differ");
    }
    static std::unique_ptr<Csr> create(ExecPtr e, dim<2> s, array<V> v, array<I> c, array<I> r)
    {
        return std::make_unique<Csr>(e, s, std::move(v), std::move(c), std::move(r));
    }
};
template<class V> class Dense : public LinOp
{
public:
    array<V> values;
    size_t stride;
    Dense(ExecPtr e, dim<2> s, array<V> v, size_t st) : LinOp(e, s), values(e, std::move(v)), stride(st)
    {
        if (s[0] > 0 && values.get_size() < (s[0] - 1) * stride + s[1]) throw std::runtime_error("sizes of a vector differ");
    }
    static std::unique_ptr<Dense> create(ExecPtr e, dim<2> s, array<V> v, size_t st) { return std::make_unique<Dense>(e, s, std::move(v), st); }
};
}
namespace config
{
class pnode
{
public:
    enum class tag_t { empty, array, boolean, integer, real, string, map };
    using array_type = std::vector<pnode>;
    using map_type = std::map<std::string, pnode>;
    pnode() = default;
    explicit pnode(const std::string& s) : tag(tag_t::string), str(s) {}
    explicit pnode(const char* s) : tag(tag_t::string), str(s) {}
    explicit pnode(bool b) : tag(tag_t::boolean), num(b) {}
    template<class T, std::enable_if_t<std::is_integral_v<T>>* = nullptr> explicit pnode(T v) : tag(tag_t::integer), num((int64_t)v) {}
    template<class T, std::enable_if_t<std::is_floating_point_v<T>>* = nullptr> explicit pnode(T v) : tag(tag_t::real), real((double)v) {}
    explicit pnode(const array_type& a) : tag(tag_t::array), arr(a) {}
    explicit pnode(const map_type& m) : tag(tag_t::map), map(std::make_shared<map_type>(m)) {}
    explicit operator bool() const { return tag != tag_t::empty; }
    tag_t get_tag() const { return tag; }
    tag_t tag = tag_t::empty;
    std::string str;
    int64_t num = 0;
    double real = 0;
    array_type arr;
    std::shared_ptr<map_type> map;
};
class registry {};
struct type_descriptor {};
template<class V, class I = int, class G = int> type_descriptor make_type_descriptor() { return {}; }
}
// what was solved, and the answer to give
struct NfGinkgo
{
    int made = 0, solves = 0;
    config::pnode config;
    size_t rows = 0, cols = 0, count = 0;
    std::vector<double> values, b, guess, answer;
    std::vector<int> colIdx, rowPtr;
};
inline NfGinkgo nfGinkgo;
class NfSolver : public LinOp
{
public:
    NfSolver(ExecPtr e, std::shared_ptr<const LinOp> m) : LinOp(e, m->get_size()), m_(m) {}
    void applyTo(const LinOp& b, LinOp& x) override
    {
        auto* a = dynamic_cast<const matrix::Csr<double, int>*>(m_.get());
        auto* vb = dynamic_cast<const matrix::Dense<double>*>(&b);
        auto* vx = dynamic_cast<matrix::Dense<double>*>(&x);
        sym_assert(a && vb && vx, "a system of reals is solved");
        sym_assert(vb->stride == 1 && vx->stride == 1 && vb->get_size()[1] == 1 && vx->get_size()[1] == 1, "one right-hand side is solved");
        sym_assert(vb->get_size()[0] == a->get_size()[0] && vx->get_size()[0] == a->get_size()[1], "sizes of a system agree");
        nfGinkgo.solves++;
        nfGinkgo.rows = a->get_size()[0];
        nfGinkgo.cols = a->get_size()[1];
        nfGinkgo.values = a->values.values();
        nfGinkgo.colIdx = a->cols.values();
        nfGinkgo.rowPtr = a->rows.values();
        nfGinkgo.b = vb->values.values();
        nfGinkgo.guess = vx->values.values();
        sym_assert(nfGinkgo.answer.size() == vx->get_size()[0], "the answer has the size of the system");
        if (nfGinkgo.answer.size()) nfk_copy(vx->values.get_data(), vx->values.space(), nfGinkgo.answer.data(), 0, nfGinkgo.answer.size() * sizeof(double));
    }

private:
    std::shared_ptr<const LinOp> m_;
};
class LinOpFactory
{
public:
    explicit LinOpFactory(ExecPtr e) : e_(e) {}
    template<class M> std::unique_ptr<LinOp> generate(std::shared_ptr<M> m) const
    {
        sym_assert(m->get_executor() == e_, "matrix and solver share an executor");
        return std::make_unique<NfSolver>(e_, std::shared_ptr<const LinOp>(m));
    }

private:
    ExecPtr e_;
};
namespace config
{
struct deferred
{
    std::unique_ptr<LinOpFactory> on(ExecPtr e) const { return std::make_unique<LinOpFactory>(e); }
};
inline deferred parse(const pnode& p, const registry&, const type_descriptor& = {})
{
    nfGinkgo.config = p;
    nfGinkgo.made++;
    return {};
}
}
}
