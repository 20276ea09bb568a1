// The compiled (non-template) part of the C++ library that the lowered code needs, written out so
// that the symbolic executor can run it like any other code.
#include <exception>
#include <functional>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <ostream>
#include <stdexcept>
#include <string>
#include <typeinfo>
#include <unordered_map>
#include <chrono>
#include <cstdlib>
#include <cstring>

namespace std
{
ostream cout(false), cerr(false), clog(false);

// declared "extern template" by the library headers
template void basic_string<char>::_M_replace_cold(char*, size_type, const char*, const size_type, const size_type);
template ostream& operator<< <char, char_traits<char>, allocator<char>>(ostream&, const string&);

exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char* bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
type_info::~type_info() {}

static const char* nfDup(const char* s, size_t n)
{
    char* p = static_cast<char*>(malloc(n + 1));
    memcpy(p, s, n);
    p[n] = 0;
    return p;
}
__cow_string::__cow_string() : _M_p("") {}
__cow_string::__cow_string(const std::string& s) : _M_p(nfDup(s.data(), s.size())) {}
__cow_string::__cow_string(const char* s, size_t n) : _M_p(nfDup(s, n)) {}
__cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(o._M_p) {}
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) {}
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = o._M_p; return *this; }

logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(logic_error&& o) noexcept : _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(runtime_error&& o) noexcept : _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
#define NF_EXC(T, B)                                                                               \
    T::T(const string& s) : B(s) {}                                                                \
    T::T(const char* s) : B(s) {}                                                                  \
    T::~T() noexcept {}
NF_EXC(domain_error, logic_error)
NF_EXC(invalid_argument, logic_error)
NF_EXC(length_error, logic_error)
NF_EXC(out_of_range, logic_error)
NF_EXC(range_error, runtime_error)
NF_EXC(overflow_error, runtime_error)
NF_EXC(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }

// Associative containers: a search tree without rebalancing (balance is not observable).
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw()
{
    if (x->_M_right != 0)
    {
        x = x->_M_right;
        while (x->_M_left != 0) x = x->_M_left;
    }
    else
    {
        _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_right) { x = y; y = y->_M_parent; }
        if (x->_M_right != y) x = y;
    }
    return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw()
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left != 0)
    {
        _Rb_tree_node_base* y = x->_M_left;
        while (y->_M_right != 0) y = y->_M_right;
        x = y;
    }
    else
    {
        _Rb_tree_node_base* y = x->_M_parent;
        while (x == y->_M_left) { x = y; y = y->_M_parent; }
        x = y;
    }
    return x;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw()
{
    x->_M_parent = p;
    x->_M_left = 0;
    x->_M_right = 0;
    x->_M_color = _S_black;
    if (left)
    {
        p->_M_left = x;
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    }
    else
    {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw()
{
    _Rb_tree_node_base* leftmost = z == h._M_left ? _Rb_tree_increment(z) : h._M_left;
    _Rb_tree_node_base* rightmost = z == h._M_right ? _Rb_tree_decrement(z) : h._M_right;
    auto replace = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b)
    {
        if (h._M_parent == a) h._M_parent = b;
        else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b;
        else a->_M_parent->_M_right = b;
        if (b) b->_M_parent = a->_M_parent;
    };
    if (z->_M_left == 0) replace(z, z->_M_right);
    else if (z->_M_right == 0) replace(z, z->_M_left);
    else
    {
        _Rb_tree_node_base* y = z->_M_right;
        while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z)
        {
            replace(y, y->_M_right);
            y->_M_right = z->_M_right;
            y->_M_right->_M_parent = y;
        }
        replace(z, y);
        y->_M_left = z->_M_left;
        y->_M_left->_M_parent = y;
    }
    if (h._M_parent == 0) { h._M_left = &h; h._M_right = &h; }
    else { h._M_left = leftmost; h._M_right = rightmost; }
    return z;
}
namespace __detail
{
void _List_node_base::_M_hook(_List_node_base* const p) noexcept
{
    _M_next = p;
    _M_prev = p->_M_prev;
    p->_M_prev->_M_next = this;
    p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
    _M_next->_M_prev = _M_prev;
    _M_prev->_M_next = _M_next;
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
{
    if (this != last)
    {
        last->_M_prev->_M_next = this;
        first->_M_prev->_M_next = last;
        this->_M_prev->_M_next = first;
        _List_node_base* const tmp = this->_M_prev;
        this->_M_prev = last->_M_prev;
        last->_M_prev = first->_M_prev;
        first->_M_prev = tmp;
    }
}
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
    static const size_t primes[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 7517, 15173, 30727};
    for (size_t p : primes)
        if (p >= n) { _M_next_resize = p; return p; }
    _M_next_resize = n | 1;
    return n | 1;
}
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const
{
    if (ne + ni > _M_next_resize || nb < ne + ni) return {true, _M_next_bkt(ne + ni > 2 * nb ? ne + ni : 2 * nb)};
    return {false, 0};
}
}
namespace chrono
{
inline namespace _V2
{
static long nfTick = 0;
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(nfTick += 1000)); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(nfTick += 1000)); }
}
}
}
extern "C"
{
    char* __cxa_demangle(const char* s, char*, size_t*, int* status)
    {
        if (status) *status = 0;
        size_t n = strlen(s);
        char* p = static_cast<char*>(malloc(n + 1));
        memcpy(p, s, n + 1);
        return p;
    }
    void __cxa_bad_cast() { throw std::bad_cast(); }
    void __cxa_bad_typeid() { throw std::bad_typeid(); }
    void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
    void __cxa_throw_bad_array_length() { throw std::bad_array_new_length(); }
    int pthread_mutex_lock(pthread_mutex_t*) noexcept { return 0; }
    int pthread_mutex_unlock(pthread_mutex_t*) noexcept { return 0; }
}
