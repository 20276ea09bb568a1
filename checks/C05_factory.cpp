// RuntimeSelectionFactory: selection of implementations by name.
#include "inc/util.hpp"
#include "NeoFOAM/core/runtimeSelectionFactory.hpp"
#include <sstream>
#include <algorithm>
using namespace NeoFOAM;
namespace
{
int log_ = 0;
}
class Shape : public RuntimeSelectionFactory<Shape, Parameters<int, const double&>>
{
public:
    Shape(int n, const double& x) : n_(n), x_(x) {}
    virtual int kind() const = 0;
    static std::string name() { return "Shape"; }
    int n_;
    double x_;
};
#define SHAPE(T, N, K)                                                                             \
    class T : public Shape::Register<T>                                                            \
    {                                                                                              \
    public:                                                                                        \
        T(int n, const double& x) : Shape::Register<T>(n, x) { log_ = log_ * 10 + K; }             \
        int kind() const override { return K; }                                                    \
        static std::string name() { return N; }                                                    \
        static std::string doc() { return "doc of " N; }                                           \
        static std::string schema() { return "schema of " N; }                                     \
    };                                                                                             \
    template class RuntimeSelectionFactory<Shape, Parameters<int, const double&>>::Register<T>;
SHAPE(A, "a", 1)
SHAPE(B, "ab", 2)
SHAPE(C, "", 3)
SHAPE(D, "a name longer than the small buffer", 4)
// implementations with names that differ in one place only
class Longs : public RuntimeSelectionFactory<Longs, Parameters<>>
{
public:
    virtual int kind() const = 0;
    static std::string name() { return "Longs"; }
};
template<int I> class Long : public Longs::Register<Long<I>>
{
public:
    int kind() const override { return I; }
    static std::string name()
    {
        std::string s(300, 'n');
        s[(size_t)I] = 'm';
        return s;
    }
    static std::string doc() { return "doc" + std::to_string(I); }
    static std::string schema() { return "schema" + std::to_string(I); }
};
class Alone : public RuntimeSelectionFactory<Alone, Parameters<>>
{
public:
    virtual int kind() const = 0;
    static std::string name() { return "Alone"; }
};
class One : public Alone::Register<One>
{
public:
    int kind() const override { return 9; }
    static std::string name() { return "a"; }
    static std::string doc() { return "d"; }
    static std::string schema() { return "s"; }
};
template class RuntimeSelectionFactory<Alone, Parameters<>>::Register<One>;

namespace
{
const std::vector<std::string> NAMES = {"a", "ab", "", "a name longer than the small buffer"};
int which(const std::string& k)
{
    for (size_t i = 0; i < NAMES.size(); i++) if (NAMES[i] == k) return (int)i;
    return -1;
}
}
// any text: a registered name builds exactly that implementation with the given arguments, any
// other text ends the program with an error
ENTRY(c05_create)
{
    std::string key = symText("len", 2);
    int n = (int)sym_i64("n", -1000, 1000);
    double x = sym_f64("x");
    int w = which(key);
    if (w < 0) sym_expect_termination(2, "refused");
    log_ = 0;
    std::unique_ptr<Shape> p;
    try { p = Shape::create(key, n, x); }
    catch (...) { sym_assert(false, "an unknown name ends the program"); }
    sym_assert(w >= 0, "an unknown name is refused");
    sym_assert(p != nullptr && p->kind() == w + 1, "the implementation of that name is built");
    sym_assert(log_ == w + 1, "exactly one object is built");
    sym_assert(p->n_ == n, "constructor arguments arrive");
    sym_assert_eq(p->x_, x, "constructor arguments arrive");
    auto q = Shape::create(key, n + 1, x);
    sym_assert(q.get() != p.get() && q->n_ == n + 1 && p->n_ == n, "every call builds a new object");
    sym_reach("built");
}
ENTRY(c05_table)
{
    sym_assert(Shape::size() == 4 && Alone::size() == 1, "every implementation is registered once, per base class");
    auto e = Shape::entries();
    sym_assert(e.size() == 4, "entries");
    int k = (int)sym_choose("which", 0, 3);
    int n = 0;
    for (auto& x : e) n += x == NAMES[k];
    sym_assert(n == 1, "every implementation is listed once");
    sym_assert(Shape::doc(NAMES[k]) == "doc of " + NAMES[k] && Shape::schema(NAMES[k]) == "schema of " + NAMES[k], "documentation belongs to the implementation");
    sym_assert(BaseClassDocumentation::doc("Shape", NAMES[k]) == Shape::doc(NAMES[k]), "documentation through the base name");
    sym_assert(BaseClassDocumentation::schema("Shape", NAMES[k]) == Shape::schema(NAMES[k]), "schema through the base name");
    std::ostringstream os;
    Shape::print(os);
    std::string text = os.str();
    sym_assert(text.find("Shape 4") == 0, "the list starts with the base class and the number of implementations");
    sym_assert(text.find(" - " + NAMES[k] + "\n") != std::string::npos, "the list names every implementation");
    sym_assert(std::count(text.begin(), text.end(), '\n') == 5, "the list names nothing else");
    auto b = BaseClassDocumentation::entries("Shape");
    sym_assert(b.size() == 4, "entries through the base name");
    sym_assert(BaseClassDocumentation::doc("Alone", "a") == "d", "base classes are kept apart");
    sym_assert(Alone::create("a")->kind() == 9, "base classes are kept apart");
    std::string key = symText("len", 2);
    int want = which(key) >= 0 ? 0 : 1;
    sym_assert(thrown([&] { (void)Shape::doc(key); }) == want && thrown([&] { (void)Shape::schema(key); }) == want, "documentation of unknown names is refused");
    sym_assert(thrown([&] { (void)BaseClassDocumentation::doc(key, "a"); }) == 1, "unknown base classes are refused");
    sym_assert(Shape::size() == 4, "failed lookups do not register anything");
    sym_assert(A::REGISTERED && B::REGISTERED && C::REGISTERED && D::REGISTERED && One::REGISTERED, "every implementation counts as registered");
    sym_assert(A::addSubType() && D::addSubType() && Shape::size() == 4, "registering again is a success without effect");
    { auto p = Shape::create(NAMES[k], 1, 2.0); }
    sym_assert(Shape::size() == 4 && Shape::create(NAMES[k], 1, 2.0)->kind() == k + 1, "destroying an object keeps its registration");
    sym_assert(A::REGISTERED && B::REGISTERED && C::REGISTERED && D::REGISTERED, "destroying an object keeps its registration");
    sym_reach("end");
}

namespace
{
// many implementations; arguments that are moved, referred to or copied
struct Counted
{
    static inline int copies = 0;
    int v = 0;
    Counted() = default;
    Counted(const Counted& o) : v(o.v) { copies++; }
    Counted(Counted&& o) noexcept : v(o.v) { o.v = -1; }
};
}
class Many : public RuntimeSelectionFactory<Many, Parameters<int&, std::unique_ptr<int>, const std::string&, Counted>>
{
public:
    Many(int& r, std::unique_ptr<int> p, const std::string& s, Counted c) : r_(&r), p_(std::move(p)), s_(&s), c_(std::move(c)) {}
    virtual int kind() const = 0;
    static std::string name() { return "Many"; }
    int* r_;
    std::unique_ptr<int> p_;
    const std::string* s_;
    Counted c_;
};
template<int I> class Impl : public Many::Register<Impl<I>>
{
public:
    Impl(int& r, std::unique_ptr<int> p, const std::string& s, Counted c) : Many::Register<Impl<I>>(r, std::move(p), s, std::move(c)) {}
    int kind() const override { return I; }
    static std::string name() { return "impl" + std::to_string(I); }
    static std::string doc() { return "doc" + std::to_string(I); }
    static std::string schema() { return "schema" + std::to_string(I); }
};
namespace
{
const int COUNT = 70;
template<int... I> bool all(std::integer_sequence<int, I...>) { return (Impl<I>::REGISTERED && ...); }
}
ENTRY(c05_many)
{
    sym_assert(all(std::make_integer_sequence<int, COUNT> {}), "every implementation counts as registered");
    sym_assert(Many::size() == (size_t)COUNT && Many::entries().size() == (size_t)COUNT && BaseClassDocumentation::entries("Many").size() == (size_t)COUNT, "every implementation is listed once");
    int i = (int)sym_choose("which", 0, COUNT - 1), v = (int)sym_i64("v", 0, 1000), r = 3;
    std::string name = "impl" + std::to_string(i), text = "text";
    Counted c;
    c.v = v;
    Counted::copies = 0;
    auto m = Many::create(name, r, std::make_unique<int>(v), text, std::move(c));
    sym_assert(m->kind() == i, "the implementation of that name is built");
    sym_assert(m->r_ == &r && m->s_ == &text && *m->p_ == v && m->c_.v == v, "constructor arguments arrive");
    auto e = Many::entries();
    sym_assert(std::count(e.begin(), e.end(), name) == 1, "every implementation is listed once");
    sym_assert(Many::doc(name) == "doc" + std::to_string(i) && Many::schema(name) == "schema" + std::to_string(i), "documentation belongs to the implementation");
    sym_assert(BaseClassDocumentation::doc("Many", name) == Many::doc(name) && BaseClassDocumentation::schema("Many", name) == Many::schema(name), "documentation through the base name");
    Counted c2;
    int r2 = 4;
    auto m2 = Many::create("impl" + std::to_string((i + 1) % COUNT), r2, std::make_unique<int>(v + 1), name, c2);
    sym_assert(m2->kind() == (i + 1) % COUNT && m2->r_ == &r2 && m2->s_ == &name && *m2->p_ == v + 1 && m2->c_.v == 0 && m->kind() == i && *m->p_ == v, "every call builds a new object");
    m.reset();
    sym_assert(Many::size() == (size_t)COUNT && Shape::size() == 4, "destroying an object keeps its registration");
    sym_reach("end");
}
// names that begin or end like a registered one, in other letters or with blanks
ENTRY(c05_near)
{
    std::string near[] = {"impl", "impl07", "impl70", "impl1 ", " impl1", "Impl1", "IMPL1", "impl1\n", "impl11x", "mpl1", std::string("impl1") + '\0', "impl-1", std::string(300, 'a'), "Many", "a", "default", "none"};
    std::string key = near[sym_choose("near", 0, 16)], text;
    int r = 0;
    sym_assert(thrown([&] { (void)Many::doc(key); }) == 1 && thrown([&] { (void)Many::schema(key); }) == 1, "documentation of unknown names is refused");
    sym_assert(thrown([&] { (void)BaseClassDocumentation::doc("Many", key); }) == 1 && thrown([&] { (void)BaseClassDocumentation::schema(key + "?", "impl1"); }) == 1, "documentation of unknown names is refused");
    sym_assert(Many::size() == (size_t)COUNT, "failed lookups do not register anything");
    sym_expect_termination(2, "refused");
    try { (void)Many::create(key, r, nullptr, text, Counted {}); }
    catch (...) { }
    sym_assert(false, "an unknown name ends the program");
}
// names of any content
ENTRY(c05_words)
{
    auto key = sym_bytes_of("name", TIER(9, 16));
    int w = which(key);
    int want = w >= 0 ? 0 : 1;
    switch (sym_choose("what", 0, 2))
    {
    case 0:
        sym_assert(thrown([&] { (void)Shape::doc(key); }) == want && thrown([&] { (void)Shape::schema(key); }) == want, "documentation of unknown names is refused");
        sym_assert(thrown([&] { (void)BaseClassDocumentation::doc("Shape", key); }) == want && thrown([&] { (void)BaseClassDocumentation::schema("Shape", key); }) == want, "documentation of unknown names is refused");
        sym_assert(Shape::size() == 4 && Alone::size() == 1, "failed lookups do not register anything");
        break;
    case 1:
    {
        bool base = false;
        for (auto& x : BaseClassDocumentation::docTable()) base = base || x.first == key;
        sym_assert(thrown([&] { (void)BaseClassDocumentation::entries(key); }) == (base ? 0 : 1), "unknown base classes are refused");
        if (!base) sym_assert(thrown([&] { (void)BaseClassDocumentation::doc(key, "a"); }) == 1 && thrown([&] { (void)BaseClassDocumentation::schema(key, "a"); }) == 1, "unknown base classes are refused");
        break;
    }
    case 2:
    {
        if (w < 0) sym_expect_termination(2, "refused");
        std::unique_ptr<Shape> p;
        try { p = Shape::create(key, 1, 2.0); }
        catch (...) { sym_assert(false, "an unknown name ends the program"); }
        sym_assert(w >= 0 && p->kind() == w + 1, "exactly the implementation of that name is built");
        break;
    }
    }
    sym_reach("end");
}
// names of one base class in another one
ENTRY(c05_apart)
{
    struct { const char* base; std::vector<std::string> entries; } all[] = {{"Shape", Shape::entries()}, {"Alone", Alone::entries()}, {"Many", Many::entries()}};
    int i = (int)sym_choose("base", 0, 2), j = (int)sym_choose("other", 0, 2);
    for (auto& n : all[j].entries)
    {
        bool in = false;
        for (auto& x : all[i].entries) in = in || x == n;
        int want = in ? 0 : 1;
        sym_assert(thrown([&] { (void)BaseClassDocumentation::doc(all[i].base, n); }) == want && thrown([&] { (void)BaseClassDocumentation::schema(all[i].base, n); }) == want, "base classes do not see each other's implementations");
        if (i == 0) sym_assert(thrown([&] { (void)Shape::doc(n); }) == want && thrown([&] { (void)Shape::schema(n); }) == want, "base classes do not see each other's implementations");
        if (i == 1) sym_assert(thrown([&] { (void)Alone::doc(n); }) == want && thrown([&] { (void)Alone::schema(n); }) == want, "base classes do not see each other's implementations");
        if (i == 2) sym_assert(thrown([&] { (void)Many::doc(n); }) == want && thrown([&] { (void)Many::schema(n); }) == want, "base classes do not see each other's implementations");
    }
    // objects come and go
    for (int n = 0; n < 2; n++)
    {
        { auto p = Alone::create("a"); }
        { auto p = Shape::create("ab", 1, 2.0); }
        sym_assert(Alone::size() == 1 && Alone::entries().size() == 1 && Alone::doc("a") == "d" && Alone::schema("a") == "s" && One::REGISTERED, "destroying an object keeps its registration");
        sym_assert(Shape::size() == 4 && Shape::doc("ab") == "doc of ab" && B::REGISTERED, "destroying an object keeps its registration");
        sym_assert(BaseClassDocumentation::doc("Alone", "a") == "d" && BaseClassDocumentation::entries("Shape").size() == 4, "destroying an object keeps its documentation");
    }
    sym_reach("end");
}
namespace
{
constexpr int places[] = {0, 1, 7, 15, 16, 23, 24, 31, 32, 63, 64, 100, 127, 128, 200, 254, 255, 256, 298, 299};
constexpr int at[] = {0, 1, 7, 15, 16, 31, 32, 63, 64, 100, 127, 128, 254, 255, 256, 299};
template<size_t... I> bool longs(std::index_sequence<I...>) { return (Long<at[I]>::REGISTERED && ...); }
}
// names that are long and alike
ENTRY(c05_long)
{
    sym_assert(longs(std::make_index_sequence<16> {}) && Longs::size() == 16 && Longs::entries().size() == 16, "every implementation is listed once");
    int i = at[sym_choose("which", 0, 15)], q = places[sym_choose("place", 0, 19)];
    std::string name(300, 'n');
    name[(size_t)i] = 'm';
    sym_assert(Longs::create(name)->kind() == i, "exactly the implementation of that name is built");
    sym_assert(Longs::doc(name) == "doc" + std::to_string(i) && BaseClassDocumentation::schema("Longs", name) == "schema" + std::to_string(i), "documentation belongs to the implementation");
    name[(size_t)q] = (char)sym_i64("ch", 0, 255);
    int k = -1;
    for (int x : at)
    {
        std::string o(300, 'n');
        o[(size_t)x] = 'm';
        if (o == name) k = x;
    }
    sym_assert(thrown([&] { (void)Longs::doc(name); }) == (k < 0 ? 1 : 0), "documentation of unknown names is refused");
    if (k < 0) sym_expect_termination(2, "refused");
    auto p = Longs::create(name);
    sym_assert(k >= 0 && p->kind() == k, "an unknown name is refused");
    sym_reach("built");
}
