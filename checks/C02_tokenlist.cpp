// TokenList: an indexed sequence of typed values with a sequential reading position; Input.
#include "inc/util.hpp"
#include "inc/zoo.hpp"
#include "NeoFOAM/core/input.hpp"
using NeoFOAM::TokenList;
using NeoFOAM::Dictionary;

namespace
{
struct Tok { int type; int v; double f; }; // 0 int, 1 double, 2 text of one character
struct Model { std::vector<Tok> t; size_t pos = 0; };
int val(const char* n) { return (int)sym_i64(n, 0, 127); }
Tok symTok()
{
    Tok t {(int)sym_choose("type", 0, 2), 0, 0};
    if (t.type == 1) t.f = sym_f64("f");
    else t.v = val("v");
    return t;
}
std::any mk(const Tok& t)
{
    if (t.type == 0) return std::any(t.v);
    if (t.type == 1) return std::any(t.f);
    return std::any(std::string(1, (char)t.v));
}
template<class L> void checkElem(L& l, size_t i, const Tok* t)
{
    int r = 99;
    int want = !t ? 1 : t->type == 0 ? 0 : 2;
    sym_assert(thrown([&] { r = l.template get<int>(i); }) == want, "an element is readable exactly as its type and inside the list");
    if (want == 0) sym_assert(r == t->v, "the stored int comes back");
    double f = 0;
    want = !t ? 1 : t->type == 1 ? 0 : 2;
    sym_assert(thrown([&] { f = l.template get<double>(i); }) == want, "an element is readable exactly as its type and inside the list");
    if (want == 0) sym_assert_eq(f, t->f, "the stored double comes back");
    std::string s;
    want = !t ? 1 : t->type == 2 ? 0 : 2;
    sym_assert(thrown([&] { s = l.template get<std::string>(i); }) == want, "an element is readable exactly as its type and inside the list");
    if (want == 0) sym_assert(s.size() == 1 && s[0] == (char)t->v, "the stored text comes back");
}
void checkList(TokenList& l, Model& m)
{
    const TokenList& c = l;
    sym_assert(l.size() == m.t.size(), "size");
    sym_assert(l.empty() == m.t.empty(), "empty");
    sym_assert(l.tokens().size() == m.t.size(), "raw tokens");
    for (size_t i = 0; i < m.t.size() + 2; i++)
    {
        const Tok* t = i < m.t.size() ? &m.t[i] : nullptr;
        checkElem(l, i, t);
        checkElem(c, i, t);
        sym_assert(thrown([&] { (void)l[i]; }) == (t ? 0 : 1), "an element outside the list is reported");
        if (t) sym_assert(std::any_cast<int>(&l[i]) == (t->type == 0 ? &l.get<int>(i) : nullptr), "the subscript refers to the same element");
    }
    // the rest is read in sequence, each element once, then the end is reported
    for (size_t i = m.pos; i < m.t.size(); i++)
    {
        int want = m.t[i].type;
        if (want != 0) sym_assert(thrown([&] { (void)c.next<int>(); }) == 2, "a sequential read of another type is refused");
        if (want != 2) sym_assert(thrown([&] { (void)l.next<std::string>(); }) == 2, "a sequential read of another type is refused");
        int v = -1;
        double f = 0;
        std::string s;
        int e = want == 0 ? thrown([&] { v = i % 2 ? l.next<int>() : c.next<int>(); })
              : want == 1 ? thrown([&] { f = i % 2 ? l.next<double>() : c.next<double>(); })
                          : thrown([&] { s = i % 2 ? l.next<std::string>() : c.next<std::string>(); });
        sym_assert(e == 0, "the next element is readable");
        if (want == 0) sym_assert(v == m.t[i].v, "sequential reading returns the elements in order");
        if (want == 1) sym_assert_eq(f, m.t[i].f, "sequential reading returns the elements in order");
        if (want == 2) sym_assert(s.size() == 1 && s[0] == (char)m.t[i].v, "sequential reading returns the elements in order");
    }
    sym_assert(thrown([&] { (void)l.next<int>(); }) == 1, "reading past the end is reported");
    sym_assert(thrown([&] { (void)c.next<int>(); }) == 1, "reading past the end is reported");
    sym_assert(l.size() == m.t.size(), "reading does not change the list");
}
void step(TokenList& l, Model& m)
{
    switch (sym_choose("op", 0, 5))
    {
    case 0:
    {
        Tok t = symTok();
        l.insert(mk(t));
        m.t.push_back(t);
        break;
    }
    case 1: // removal of an existing element
    {
        if (m.t.empty()) break;
        size_t i = (size_t)sym_choose("at", 0, (int)m.t.size() - 1);
        l.remove(i);
        m.t.erase(m.t.begin() + (long)i);
        break;
    }
    case 2: // sequential read as int
    {
        int r = -1;
        int want = m.pos >= m.t.size() ? 1 : m.t[m.pos].type == 0 ? 0 : 2;
        bool viaConst = sym_choose("const", 0, 1);
        const TokenList& c = l;
        sym_assert(thrown([&] { r = viaConst ? c.next<int>() : l.next<int>(); }) == want, "a sequential read succeeds exactly on a matching element");
        if (want == 0) { sym_assert(r == m.t[m.pos].v, "sequential value"); m.pos++; }
        break;
    }
    case 3: // take the first element
    {
        int r = -1;
        int want = m.t.empty() ? 1 : m.t[0].type == 0 ? 0 : 2;
        sym_assert(thrown([&] { r = l.popFront<int>(); }) == want, "popFront succeeds exactly on a matching first element");
        if (want == 0) { sym_assert(r == m.t[0].v, "popFront value"); m.t.erase(m.t.begin()); }
        break;
    }
    case 4: // write through a typed reference
    {
        if (m.t.empty()) break;
        size_t i = m.t.size() - 1;
        int v = val("w");
        int want = m.t[i].type == 0 ? 0 : 2;
        sym_assert(thrown([&] { l.get<int>(i) = v; }) == want, "typed access to an element");
        if (want == 0) m.t[i].v = v;
        break;
    }
    case 5: // a copy takes over the contents and the position, and is independent
    {
        TokenList c(l);
        l.insert(std::any(0));
        l = c;
        break;
    }
    }
}
Tok small(int i)
{
    Tok t {i % 2 ? 2 : 0, 0, 0};
    t.v = val("v");
    return t;
}
}
// assignment and move, in both directions, between lists at any positions
ENTRY(c02_assign)
{
    TokenList l[2];
    Model m[2];
    for (int k = 0; k < 2; k++)
    {
        int n = (int)sym_choose("n", 0, TIER(2, 4));
        std::vector<std::any> v;
        for (int i = 0; i < n; i++)
        {
            m[k].t.push_back(small(i + k));
            v.push_back(mk(m[k].t.back()));
        }
        m[k].pos = (size_t)sym_choose("pos", 0, n);
        l[k] = TokenList(v, m[k].pos);
    }
    int how = (int)sym_choose("how", 0, 3);
    if (how == 0) l[0] = l[1];
    if (how == 1)
    {
        TokenList t(std::move(l[1]));
        l[0] = std::move(t);
        l[1] = l[0];
    }
    if (how == 2) std::swap(l[0], l[1]);
    if (how == 3) { const TokenList& r = l[0]; l[0] = r; }
    if (how == 2) std::swap(m[0], m[1]);
    else if (how < 2) m[0] = m[1];
    // changes of one do not reach the other
    bool read = sym_choose("read", 0, 1);
    if (m[0].pos < m[0].t.size() && read)
    {
        (void)(m[0].t[m[0].pos].type == 0 ? (void)l[0].next<int>() : (void)l[0].next<std::string>());
        m[0].pos++;
    }
    else
    {
        l[0].insert(std::any(5));
        m[0].t.push_back(Tok {0, 5, 0});
    }
    checkList(l[1], m[1]);
    checkList(l[0], m[0]);
    sym_reach("end");
}

ENTRY(c02_history)
{
    TokenList l;
    Model m;
    int n = TIER(4, 5);
    for (int i = 0; i < n; i++) step(l, m);
    TokenList copy(l);
    Model mc = m;
    checkList(l, m);
    checkList(copy, mc);
    sym_observe_i("size", (int64_t)l.size());
    sym_reach("end");
}
ENTRY(c02_construct)
{
    Tok a = symTok(), b = symTok(), c = symTok();
    Model m;
    m.t = {a, b, c};
    if (sym_choose("how", 0, 1))
    {
        TokenList l {mk(a), mk(b), mk(c)};
        checkList(l, m);
        sym_reach("list");
    }
    else
    {
        m.pos = (size_t)sym_choose("start", 0, 4);
        std::vector<std::any> v {mk(a), mk(b), mk(c)};
        if (m.pos == 0 && sym_choose("default", 0, 1))
        {
            TokenList l(v);
            checkList(l, m);
        }
        TokenList l(v, m.pos);
        v.clear();
        checkList(l, m);
        sym_reach("vector");
    }
    TokenList e;
    Model me;
    checkList(e, me);
    sym_reach("end");
}
namespace
{
struct Data
{
    int n;
    double x;
    std::string s;
    bool fromDict;
    static Data read(const Dictionary& d) { return {d.get<int>("n"), d.get<double>("x"), d.get<std::string>("s"), true}; }
    static Data read(const TokenList& t)
    {
        int n = t.next<int>();
        double x = t.next<double>();
        return {n, x, t.next<std::string>(), false};
    }
};
}
// an input is read through the alternative it holds, whichever that is; the source is not consumed
ENTRY(c02_input)
{
    int n = val("n");
    double x = sym_f64("x");
    std::string s(1, (char)val("c"));
    Dictionary d {{"n", std::any(n)}, {"x", std::any(x)}, {"s", std::any(s)}};
    TokenList t {std::any(n), std::any(x), std::any(s)};
    bool dict = sym_choose("dict", 0, 1);
    NeoFOAM::Input in = dict ? NeoFOAM::Input(d) : NeoFOAM::Input(t);
    for (int i = 0; i < 2; i++)
    {
        Data r = NeoFOAM::read<Data>(in);
        sym_assert(r.fromDict == dict, "the held alternative is used");
        sym_assert(r.n == n && r.s == s, "values read from an input");
        sym_assert_eq(r.x, x, "values read from an input");
    }
    NeoFOAM::Input broken = dict ? NeoFOAM::Input(Dictionary {{"n", std::any(n)}}) : NeoFOAM::Input(TokenList {std::any(n), std::any(x)});
    sym_assert(thrown([&] { (void)NeoFOAM::read<Data>(broken); }) == 1, "an incomplete input is reported");
    sym_reach("end");
}
// long lists: positions beyond the first few behave the same
ENTRY(c02_long)
{
    TokenList l;
    Model m;
    int n = TIER(18, 40);
    for (int i = 0; i < n; i++)
    {
        Tok t {i % 3, (i * 7) % 100, i * 0.5};
        m.t.push_back(t);
        l.insert(mk(t));
    }
    int taken = (int)sym_choose("taken", 0, n);
    for (int i = 0; i < taken; i++)
    {
        if (m.t[(size_t)i].type == 0) (void)l.next<int>();
        else if (m.t[(size_t)i].type == 1) (void)l.next<double>();
        else (void)l.next<std::string>();
    }
    m.pos = (size_t)taken;
    size_t at = (size_t)sym_choose("at", 0, n - 1);
    switch (sym_choose("op", 0, 3))
    {
    case 0:
        l.remove(at);
        m.t.erase(m.t.begin() + (long)at);
        break;
    case 1:
    {
        Tok t {0, val("w"), 0};
        l[at] = mk(t);
        m.t[at] = t;
        break;
    }
    case 2:
        sym_assert(l.popFront<int>() == 0, "the first element is taken");
        m.t.erase(m.t.begin());
        break;
    case 3:
    {
        TokenList c(l);
        l = TokenList();
        sym_assert(l.empty(), "an empty list");
        l = c;
        break;
    }
    }
    checkList(l, m);
    sym_reach("end");
}

// elements of every type, the empty value and lists included
ENTRY(c02_types)
{
    auto x = zoo::symValue("type");
    int how = (int)sym_choose("how", 0, 2);
    TokenList l;
    if (how == 0) { l.insert(x.any()); l.insert(std::any(7)); }
    if (how == 1) l = TokenList {x.any(), std::any(7)};
    if (how == 2) l = TokenList(std::vector<std::any> {x.any(), std::any(7)}, 0);
    const TokenList& c = l;
    sym_assert(l.size() == 2 && !l.empty() && l.tokens().size() == 2, "an element is one element, whatever its type");
    zoo::readable([&]<class T>(std::type_identity<T>) -> T& { return l.get<T>(0); }, x);
    zoo::readable([&]<class T>(std::type_identity<T>) -> const T& { return c.get<T>(0); }, x);
    sym_assert(l[0].has_value() == (x.type != zoo::N), "the empty value is an element");
    TokenList again(l), front(l);
    // every wrong sequential read fails and stays where it is, the right one moves on
    bool viaConst = sym_choose("const", 0, 1);
    zoo::allTypes([&]<class T>(int i, std::type_identity<T>)
        {
            if (i != x.type) sym_assert(thrown([&] { if (viaConst) (void)c.next<T>(); else (void)l.next<T>(); }) == 2, "a sequential read of another type is refused");
            if (i != x.type) sym_assert(thrown([&] { (void)front.popFront<T>(); }) == 2, "a first element of another type is not taken");
        });
    sym_assert(front.size() == 2, "a refused first element stays");
    zoo::withType(x.type, [&]<class T>(std::type_identity<T>)
        {
            T want = zoo::make<T>(x.v, x.f);
            sym_assert(thrown([&]
                {
                    bool ok = viaConst ? zoo::same<T>(const_cast<T&>(c.next<T>()), want) : zoo::same<T>(l.next<T>(), want);
                    sym_assert(ok, "the stored value comes back");
                }) == 0, "the next element is readable");
            sym_assert(l.next<int>() == 7, "the element after it");
            T taken = front.popFront<T>();
            sym_assert(zoo::same<T>(taken, want), "the first element is taken");
            sym_assert(front.size() == 1 && front.get<int>(0) == 7 && front.next<int>() == 7, "the rest stays in order");
            // taking an element of a copy leaves the other list alone
            T here = zoo::make<T>(x.v, x.f);
            sym_assert(zoo::same<T>(again.get<T>(0), here), "a copy is independent");
        });
    sym_reach("end");
}
// a reading position beyond the end waits until there are enough elements
ENTRY(c02_beyond)
{
    int n = (int)sym_choose("n", 0, 2);
    size_t pos = (size_t)sym_choose("start", 0, 5);
    Model m;
    std::vector<std::any> v;
    for (int i = 0; i < n; i++)
    {
        m.t.push_back(Tok {0, val("v"), 0});
        v.push_back(mk(m.t.back()));
    }
    TokenList l(v, pos);
    for (int i = 0; i < TIER(4, 6); i++)
    {
        int op = (int)sym_choose("op", 0, 3);
        if (op == 0)
        {
            m.t.push_back(Tok {0, val("v"), 0});
            l.insert(mk(m.t.back()));
        }
        if (op == 1)
        {
            int r = -1;
            sym_assert(thrown([&] { r = l.next<int>(); }) == (pos < m.t.size() ? 0 : 1), "reading succeeds exactly within the list");
            if (pos < m.t.size()) sym_assert(r == m.t[pos++].v, "reading goes on at its position");
        }
        if (op == 2 && !m.t.empty())
        {
            sym_assert(l.popFront<int>() == m.t[0].v, "the first element is taken");
            m.t.erase(m.t.begin());
        }
        if (op == 3) { TokenList c(l); l = c; }
    }
    m.pos = pos < m.t.size() ? pos : m.t.size();
    checkList(l, m);
    sym_reach("end");
}
// elements of the list itself as arguments
ENTRY(c02_alias)
{
    TokenList l;
    Model m;
    for (int i = 0; i < 2; i++)
    {
        m.t.push_back(small(i));
        l.insert(mk(m.t.back()));
    }
    int what = (int)sym_choose("what", 0, 2), k = (int)sym_choose("which", 0, 1);
    if (what == 0)
        for (int i = 0; i < 20; i++)
        {
            l.insert(l[(size_t)k]);
            m.t.push_back(m.t[(size_t)k]);
        }
    if (what == 1)
    {
        l[0] = l[1];
        m.t[0] = m.t[1];
    }
    if (what == 2)
    {
        l.insert(std::any(l));
        sym_assert(l.get<TokenList>(2).size() == 2 && l.size() == 3, "a list inside itself is a copy");
        sym_assert(l.get<TokenList>(2).next<int>() == m.t[0].v, "a list inside itself is a copy");
        l.remove(2);
    }
    checkList(l, m);
    sym_reach("end");
}
// text tokens of any content
ENTRY(c02_texts)
{
    auto t = sym_bytes_of("text", TIER(8, 16));
    TokenList l {std::any(t), std::any(t)};
    const TokenList& c = l;
    int how = (int)sym_choose("how", 0, 3);
    if (how == 0) zoo::readableText([&]<class T>(std::type_identity<T>) -> T& { return l.get<T>(1); }, t);
    if (how == 1) zoo::readableText([&]<class T>(std::type_identity<T>) -> const T& { return c.get<T>(1); }, t);
    if (how == 2 || how == 3)
    {
        zoo::allTypes([&]<class T>(int i, std::type_identity<T>)
            {
                if (i == 2) return;
                int e = thrown([&] { if (how == 3) (void)c.next<T>(); else (void)l.next<T>(); });
                int f = thrown([&] { (void)l.popFront<T>(); });
                sym_assert(e == 2 && f == 2, "a text is readable exactly as a text");
            });
        sym_assert((how == 3 ? c.next<std::string>() : l.next<std::string>()) == t, "the next text");
    }
    sym_assert(l.size() == 2 && l.get<std::string>(0) == t && l.get<std::string>(1) == t, "the texts stay as they are");
    sym_assert(l.popFront<std::string>() == t && l.size() == 1, "the first text");
    sym_reach("end");
}
namespace
{
// what an input is read as
struct Seen
{
    int kind;
    size_t n;
    static Seen read(const Dictionary& d) { return {1, d.keys().size()}; }
    static Seen read(const TokenList& l) { return {2, TokenList(l).size()}; }
};
}
// an input is what it holds, whatever that holds
ENTRY(c02_holds)
{
    int n = (int)sym_choose("n", 0, 2);
    bool dict = sym_choose("dict", 0, 1);
    int what = (int)sym_choose("what", 0, 3);
    auto value = [&](int)
    {
        Dictionary d {{"x", std::any(1)}, {"y", std::any(2)}, {"z", std::any(3)}};
        TokenList l {std::any(1), std::any(2), std::any(3)};
        if (what == 0) return std::any(d);
        if (what == 1) return std::any(l);
        if (what == 2) return std::any(val("v"));
        return std::any(std::string("text"));
    };
    Dictionary d;
    TokenList l;
    for (int i = 0; i < n; i++)
    {
        d.insert("k" + std::to_string(i), value(i));
        l.insert(value(i));
    }
    NeoFOAM::Input in = dict ? NeoFOAM::Input(d) : NeoFOAM::Input(l);
    for (int round = 0; round < 2; round++)
    {
        auto s = NeoFOAM::read<Seen>(in);
        sym_assert(s.kind == (dict ? 1 : 2) && s.n == (size_t)n, "an input is read through what it holds");
    }
    auto moved = NeoFOAM::read<Seen>(std::move(in));
    sym_assert(moved.kind == (dict ? 1 : 2) && moved.n == (size_t)n, "an input is read through what it holds");
    sym_reach("end");
}
// long lists are read to their end
ENTRY(c02_hundreds)
{
    const int n = 300;
    TokenList l;
    int a = val("a"), b = val("b");
    auto at = [&](int i) { return i == 3 ? a : i == 260 ? b : i; };
    for (int i = 0; i < n; i++) l.insert(at(i));
    const TokenList& c = l;
    bool viaConst = sym_choose("const", 0, 1);
    int how = (int)sym_choose("how", 0, 2);
    for (int i = 0; i < n; i++)
    {
        int r = -1;
        if (how == 0) r = viaConst ? c.next<int>() : l.next<int>();
        if (how == 1) r = viaConst ? c.get<int>((size_t)i) : l.get<int>((size_t)i);
        if (how == 2) r = l.popFront<int>();
        sym_assert(r == at(i), "every element in order");
    }
    sym_assert(thrown([&] { if (viaConst) (void)c.next<int>(); else (void)l.next<int>(); }) == (how == 1 ? 0 : 1), "after the last element there is none");
    sym_assert(l.size() == (how == 2 ? 0u : (size_t)n), "number of elements");
    if (how == 1) for (size_t q : {size_t(n), size_t(n + 1), size_t(512), size_t(65536), size_t(65536 + 3), (size_t(1) << 32) + 3, ~size_t(0)}) sym_assert(thrown([&] { (void)l.get<int>(q); }) == 1 && thrown([&] { (void)c.get<int>(q); }) == 1 && thrown([&] { (void)l[q]; }) == 1, "positions outside are refused");
    sym_reach("end");
}
// any position
ENTRY(c02_position)
{
    int n = (int)sym_choose("n", 0, 3);
    TokenList l;
    std::vector<int> v;
    for (int i = 0; i < n; i++)
    {
        v.push_back(val("v"));
        l.insert(v.back());
    }
    size_t q = (size_t)sym_i64("position", INT64_MIN, INT64_MAX);
    bool in = q < (size_t)n;
    const TokenList& c = l;
    int r = -1, e;
    switch (sym_choose("how", 0, 2))
    {
    case 0: e = thrown([&] { r = l.get<int>(q); }); break;
    case 1: e = thrown([&] { r = c.get<int>(q); }); break;
    default: e = thrown([&] { r = std::any_cast<int>(l[q]); }); break;
    }
    sym_assert(e == (in ? 0 : 1), "exactly the positions inside are read");
    if (in) for (size_t i = 0; i < v.size(); i++) if (i == q) sym_assert(r == v[i], "the element of that position");
    sym_assert(l.size() == (size_t)n, "reading changes nothing");
    sym_reach(in ? "inside" : "outside");
}
// failed accesses leave every element and the reading position
ENTRY(c02_failures)
{
    const int n = (int)sym_choose("size", 0, TIER(3, 5)) * 9;
    TokenList l;
    std::vector<int> v;
    for (int i = 0; i < n; i++)
    {
        v.push_back(i % 7 == 3 ? val("v") : i);
        l.insert(v.back());
    }
    const TokenList& c = l;
    int pos = n ? (int)sym_choose("read", 0, 2) : 0;
    for (int i = 0; i < pos; i++) sym_assert(l.next<int>() == v[(size_t)i], "the next element");
    for (int round = 0; round < 2; round++)
        switch (sym_choose("failure", 0, 6))
        {
        case 0: sym_assert(thrown([&] { (void)l[(size_t)n]; }) == 1, "outside"); break;
        case 1: sym_assert(thrown([&] { (void)l.get<int>((size_t)n); }) == 1, "outside"); break;
        case 2: sym_assert(thrown([&] { (void)c.get<int>((size_t)n + 1); }) == 1, "outside"); break;
        case 3: sym_assert(thrown([&] { (void)l.next<double>(); }) == (n ? 2 : 1), "another type"); break;
        case 4: sym_assert(thrown([&] { (void)c.next<std::string>(); }) == (n ? 2 : 1), "another type"); break;
        case 5: sym_assert(thrown([&] { (void)l.popFront<double>(); }) == (n ? 2 : 1), "another type"); break;
        case 6: sym_assert(thrown([&] { (void)c.get<double>(0); }) == (n ? 2 : 1), "another type"); break;
        }
    sym_assert((int)l.size() == n, "failed accesses leave the elements");
    for (int i = 0; i < n; i++) sym_assert(l.get<int>((size_t)i) == v[(size_t)i], "failed accesses leave the elements");
    for (int i = pos; i < n; i++) sym_assert(l.next<int>() == v[(size_t)i], "failed accesses leave the reading position");
    sym_assert(thrown([&] { (void)l.next<int>(); }) == 1, "after the last element there is none");
    sym_reach("end");
}
