// Minimal model of the standard text streams, used only when code is lowered for the symbolic
// executor: output is collected as text, numbers with a symbolic value print as "?".
// (The native replay uses the real library.)
#pragma once
#include <cstdint>
#include <iosfwd>
#include <exception>
#include <stdexcept>
#include <system_error>
#include <memory>
#include <string>
#include <string_view>
#include <type_traits>
#include <iterator>

extern "C" size_t sym_fmt(char* buf, size_t cap, int kind, uint64_t bits);

namespace std
{
typedef ptrdiff_t streamsize;
typedef long streamoff;
class ios_base
{
public:
    typedef int fmtflags;
    typedef int iostate;
    typedef int openmode;
    typedef int seekdir;
    static constexpr fmtflags fixed = 1, scientific = 2, left = 4, right = 8, hex = 16, dec = 32, boolalpha = 64,
        skipws = 128, showpoint = 256, floatfield = 3, adjustfield = 12, basefield = 48, showbase = 512, uppercase = 1024,
        showpos = 2048, internal = 4096, oct = 8192, unitbuf = 16384;
    static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;
    static constexpr openmode in = 1, out = 2, app = 4, ate = 8, trunc = 16, binary = 32;
    static constexpr seekdir beg = 0, cur = 1, end = 2;
    class Init { public: Init() {} };
    fmtflags flags() const { return f_; }
    fmtflags flags(fmtflags f) { auto o = f_; f_ = f; return o; }
    fmtflags setf(fmtflags f) { auto o = f_; f_ |= f; return o; }
    fmtflags setf(fmtflags f, fmtflags m) { auto o = f_; f_ = (f_ & ~m) | f; return o; }
    void unsetf(fmtflags f) { f_ &= ~f; }
    streamsize precision() const { return p_; }
    streamsize precision(streamsize p) { auto o = p_; p_ = p; return o; }
    streamsize width() const { return w_; }
    streamsize width(streamsize w) { auto o = w_; w_ = w; return o; }
    static bool sync_with_stdio(bool = true) { return true; }
protected:
    fmtflags f_ = 0;
    streamsize p_ = 6, w_ = 0;
};
template<class C, class T> class basic_ios : public ios_base
{
public:
    typedef C char_type;
    typedef T traits_type;
    explicit operator bool() const { return st_ == 0; }
    bool operator!() const { return st_ != 0; }
    bool good() const { return st_ == 0; }
    bool fail() const { return st_ & (badbit | failbit); }
    bool bad() const { return st_ & badbit; }
    bool eof() const { return st_ & eofbit; }
    void clear(iostate s = goodbit) { st_ = s; }
    void setstate(iostate s) { st_ |= s; }
    iostate rdstate() const { return st_; }
    C fill() const { return C(' '); }
    C fill(C) { return C(' '); }
protected:
    iostate st_ = goodbit;
};
template<class C, class T> class basic_ostream : virtual public basic_ios<C, T>
{
public:
    typedef C char_type;
    typedef T traits_type;
    basic_ostream() = default;
    explicit basic_ostream(bool keep) : keep_(keep) {}
    virtual ~basic_ostream() {}
    basic_ostream& nfPut(const C* s, size_t n)
    {
        if (keep_) text_.append(s, n);
        return *this;
    }
    template<class V> basic_ostream& nfNum(int kind, V v)
    {
        if (!keep_) return *this;
        char b[64];
        uint64_t bits;
        if constexpr (std::is_floating_point_v<V>) { double d = v; __builtin_memcpy(&bits, &d, 8); }
        else bits = (uint64_t)(int64_t)v;
        size_t n = sym_fmt(b, 64, kind, bits);
        for (size_t i = 0; i < n; i++) text_.push_back(C(b[i]));
        return *this;
    }
    basic_ostream& operator<<(bool v) { return nfNum(0, (long)v); }
    basic_ostream& operator<<(short v) { return nfNum(0, (long)v); }
    basic_ostream& operator<<(unsigned short v) { return nfNum(1, (unsigned long)v); }
    basic_ostream& operator<<(int v) { return nfNum(0, (long)v); }
    basic_ostream& operator<<(unsigned v) { return nfNum(1, (unsigned long)v); }
    basic_ostream& operator<<(long v) { return nfNum(0, v); }
    basic_ostream& operator<<(unsigned long v) { return nfNum(1, v); }
    basic_ostream& operator<<(long long v) { return nfNum(0, v); }
    basic_ostream& operator<<(unsigned long long v) { return nfNum(1, v); }
    basic_ostream& operator<<(float v) { return nfNum(2, (double)v); }
    basic_ostream& operator<<(double v) { return nfNum(2, v); }
    basic_ostream& operator<<(long double v) { return nfNum(2, (double)v); }
    basic_ostream& operator<<(const void*) { C c = C('p'); return nfPut(&c, 1); }
    basic_ostream& operator<<(decltype(nullptr)) { C c = C('p'); return nfPut(&c, 1); }
    basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
    basic_ostream& operator<<(basic_ios<C, T>& (*f)(basic_ios<C, T>&)) { f(*this); return *this; }
    basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
    basic_ostream& put(C c) { return nfPut(&c, 1); }
    basic_ostream& write(const C* s, streamsize n) { return nfPut(s, n); }
    basic_ostream& flush() { return *this; }
    streamoff tellp() const { return (streamoff)text_.size(); }
    basic_ostream& seekp(streamoff n) { text_.resize((size_t)n); return *this; }
    void* rdbuf() const { return nullptr; }
protected:
    basic_string<C, T> text_;
    bool keep_ = true;
};
template<class C, class T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, C c) { return o.nfPut(&c, 1); }
template<class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, char c) { return o.nfPut(&c, 1); }
template<class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, signed char c) { char x = c; return o.nfPut(&x, 1); }
template<class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, unsigned char c) { char x = c; return o.nfPut(&x, 1); }
template<class C, class T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, const C* s) { return o.nfPut(s, T::length(s)); }
template<class T> basic_ostream<char, T>& operator<<(basic_ostream<char, T>& o, const char* s) { return o.nfPut(s, T::length(s)); }
template<class O, class V>
    requires (!std::is_lvalue_reference_v<O>) && std::is_base_of_v<ios_base, O> && requires(O& o, const V& v) { o << v; }
O&& operator<<(O&& o, const V& v) { o << v; return std::move(o); }
template<class C, class T> basic_ostream<C, T>& endl(basic_ostream<C, T>& o) { return o.put(C('\n')); }
template<class C, class T> basic_ostream<C, T>& ends(basic_ostream<C, T>& o) { return o.put(C(0)); }
template<class C, class T> basic_ostream<C, T>& flush(basic_ostream<C, T>& o) { return o; }
inline ios_base& fixed(ios_base& b) { return b; }
inline ios_base& scientific(ios_base& b) { return b; }
inline ios_base& boolalpha(ios_base& b) { return b; }
inline ios_base& noboolalpha(ios_base& b) { return b; }
inline ios_base& hex(ios_base& b) { return b; }
inline ios_base& dec(ios_base& b) { return b; }
inline ios_base& unitbuf(ios_base& b) { return b; }
inline ios_base& nounitbuf(ios_base& b) { return b; }
inline ios_base& internal(ios_base& b) { return b; }
inline ios_base& showpos(ios_base& b) { return b; }
inline ios_base& showpoint(ios_base& b) { return b; }
inline ios_base& skipws(ios_base& b) { return b; }
inline ios_base& defaultfloat(ios_base& b) { return b; }
inline ios_base& left(ios_base& b) { return b; }
inline ios_base& right(ios_base& b) { return b; }
template<class C, class T> class basic_istream : virtual public basic_ios<C, T>
{
public:
    typedef C char_type;
    typedef T traits_type;
    virtual ~basic_istream() {}
    // the text to read; streams without one are at their end
    virtual const basic_string<C, T>* nfText() const { return nullptr; }
    bool nfMore() const { return nfText() && at_ < nfText()->size(); }
    C nfPeek() const { return (*nfText())[at_]; }
    void nfEnd(bool failed) { this->setstate(ios_base::eofbit | (failed ? ios_base::failbit : 0)); }
    void nfBlanks() { while (nfMore() && (nfPeek() == C(' ') || nfPeek() == C('\n') || nfPeek() == C('\t'))) at_++; }
    basic_istream& operator>>(basic_string<C, T>& w)
    {
        w.clear();
        nfBlanks();
        if (!nfMore()) { nfEnd(true); return *this; }
        while (nfMore() && nfPeek() != C(' ') && nfPeek() != C('\n') && nfPeek() != C('\t')) w.push_back((*nfText())[at_++]);
        if (!nfMore()) nfEnd(false);
        return *this;
    }
    basic_istream& operator>>(C& c)
    {
        nfBlanks();
        if (!nfMore()) nfEnd(true); else c = (*nfText())[at_++];
        return *this;
    }
    template<class V> requires (std::is_integral_v<V> && sizeof(V) > 1) basic_istream& operator>>(V& v)
    {
        nfBlanks();
        bool minus = nfMore() && nfPeek() == C('-'), any = false;
        if (minus) at_++;
        v = 0;
        for (; nfMore() && nfPeek() >= C('0') && nfPeek() <= C('9'); at_++, any = true) v = V(v * 10 + (nfPeek() - C('0')));
        if (minus) v = V(0 - v);
        if (!any) this->setstate(ios_base::failbit);
        if (!nfMore()) nfEnd(false);
        return *this;
    }
    template<class V> basic_istream& operator>>(V&) { this->setstate(ios_base::failbit); return *this; }
    int get() { if (!nfMore()) { nfEnd(true); return -1; } return (unsigned char)(*nfText())[at_++]; }
    int peek() { return nfMore() ? (unsigned char)nfPeek() : -1; }
    basic_istream& get(C& c) { if (!nfMore()) nfEnd(true); else c = (*nfText())[at_++]; return *this; }
    size_t at_ = 0;
};
template<class C, class T> basic_istream<C, T>& getline(basic_istream<C, T>& i, basic_string<C, T>& l, C d = C('\n'))
{
    l.clear();
    if (!i.nfMore()) { i.nfEnd(true); return i; }
    while (i.nfMore() && i.nfPeek() != d) { l.push_back(i.nfPeek()); i.at_++; }
    if (i.nfMore()) i.at_++; else i.nfEnd(false);
    return i;
}
template<class C, class T> class basic_iostream : public basic_istream<C, T>, public basic_ostream<C, T> {};
namespace __cxx11
{
template<class C, class T, class A> class basic_ostringstream : public basic_ostream<C, T>
{
public:
    basic_ostringstream() = default;
    explicit basic_ostringstream(ios_base::openmode) {}
    explicit basic_ostringstream(const basic_string<C, T, A>& s, ios_base::openmode = ios_base::out) { this->text_ = s; }
    basic_string<C, T, A> str() const { return this->text_; }
    void str(const basic_string<C, T, A>& s) { this->text_ = s; }
    basic_string_view<C, T> view() const { return this->text_; }
    void swap(basic_ostringstream& o) { this->text_.swap(o.text_); }
};
template<class C, class T, class A> class basic_istringstream : public basic_istream<C, T>
{
public:
    basic_istringstream() = default;
    explicit basic_istringstream(const basic_string<C, T, A>& s, ios_base::openmode = ios_base::in) : in_(s) {}
    const basic_string<C, T>* nfText() const override { return &in_; }
    basic_string<C, T, A> str() const { return in_; }
    void str(const basic_string<C, T, A>& s) { in_ = s; this->at_ = 0; }
private:
    basic_string<C, T, A> in_;
};
template<class C, class T, class A> class basic_stringstream : public basic_iostream<C, T>
{
public:
    basic_stringstream() = default;
    explicit basic_stringstream(ios_base::openmode) {}
    explicit basic_stringstream(const basic_string<C, T, A>& s, ios_base::openmode = ios_base::in | ios_base::out) { this->text_ = s; }
    const basic_string<C, T>* nfText() const override { return &this->text_; }
    basic_string<C, T, A> str() const { return this->text_; }
    void str(const basic_string<C, T, A>& s) { this->text_ = s; this->at_ = 0; }
    basic_string_view<C, T> view() const { return this->text_; }
    void swap(basic_stringstream& o) { this->text_.swap(o.text_); std::swap(this->at_, o.at_); }
};
}
template<class V, class C = char, class T = char_traits<C>> class ostream_iterator
{
public:
    typedef output_iterator_tag iterator_category;
    typedef void value_type;
    typedef ptrdiff_t difference_type;
    typedef void pointer;
    typedef void reference;
    typedef C char_type;
    typedef T traits_type;
    typedef basic_ostream<C, T> ostream_type;
    ostream_iterator(ostream_type& o, const C* d = nullptr) : o_(&o), d_(d) {}
    ostream_iterator& operator=(const V& v) { *o_ << v; if (d_) *o_ << d_; return *this; }
    ostream_iterator& operator*() { return *this; }
    ostream_iterator& operator++() { return *this; }
    ostream_iterator& operator++(int) { return *this; }
private:
    ostream_type* o_;
    const C* d_;
};
inline string quoted(const string& s, char d = '"', char e = '\\')
{
    string r(1, d);
    for (char c : s) { if (c == d || c == e) r.push_back(e); r.push_back(c); }
    r.push_back(d);
    return r;
}
extern ostream cout, cerr, clog;
struct nfManip {};
inline nfManip setw(int) { return {}; }
inline nfManip setprecision(int) { return {}; }
inline nfManip setfill(char) { return {}; }
template<class C, class T> basic_ostream<C, T>& operator<<(basic_ostream<C, T>& o, nfManip) { return o; }
}
