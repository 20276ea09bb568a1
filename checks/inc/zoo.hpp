// Values of many types, and what a typed container has to do with them.
#pragma once
#include "util.hpp"
#include "NeoFOAM/core/tokenList.hpp"
#include "NeoFOAM/core/dictionary.hpp"
#include <array>
#include <cstdint>
#include <memory>
#include <tuple>
#include <type_traits>
namespace zoo
{
struct Own
{
    int v;
    double x[5];
    bool operator==(const Own& o) const { return v == o.v && x[0] == o.x[0] && x[4] == o.x[4]; }
};
struct Derived : NeoFOAM::Dictionary {};
// something else with a similar name
struct MyDictionary { int v; bool operator==(const MyDictionary&) const = default; };
using Types = std::tuple<int, double, std::string, NeoFOAM::Dictionary, NeoFOAM::TokenList, float, bool, char, unsigned, std::int64_t, std::size_t, const char*, std::vector<double>, std::shared_ptr<int>, Own, Derived,
    std::array<double, 3>, unsigned char, MyDictionary>;
inline constexpr int N = (int)std::tuple_size_v<Types>; // number N is the empty value
inline const char* text(int v) { static const char* t[] = {"", "text", "another text that is long"}; return t[v % 3]; }
template<class T> T make(int v, double f)
{
    if constexpr (std::is_same_v<T, std::string>) return v & 1 ? std::string(1, (char)v) : std::string();
    else if constexpr (std::is_same_v<T, const char*>) return text(v & 1);
    else if constexpr (std::is_same_v<T, double>) return f;
    else if constexpr (std::is_same_v<T, float>) return v & 1 ? 0.5f : 2.0f;
    else if constexpr (std::is_same_v<T, bool>) return v & 1;
    else if constexpr (std::is_arithmetic_v<T>) return (T)v;
    else if constexpr (std::is_same_v<T, std::vector<double>>) return v & 1 ? std::vector<double> {f} : std::vector<double>();
    else if constexpr (std::is_same_v<T, std::array<double, 3>>) return {f, 0, f};
    else if constexpr (std::is_same_v<T, std::shared_ptr<int>>) return v & 1 ? std::make_shared<int>(v) : nullptr;
    else if constexpr (std::is_same_v<T, MyDictionary>) return MyDictionary {v};
    else if constexpr (std::is_same_v<T, Own>) return Own {v, {f, 0, 0, 0, f}};
    else if constexpr (std::is_same_v<T, NeoFOAM::TokenList>)
    {
        T t;
        if (v & 1) t.insert(v);
        return t;
    }
    else
    {
        T d;
        if (v & 1) d.insert("v", v);
        return d;
    }
}
template<class T> bool same(T& a, T& b)
{
    if constexpr (std::is_same_v<T, NeoFOAM::TokenList>) return a.size() == b.size() && (a.size() == 0 || (a.size() == 1 && a.template get<int>(0) == b.template get<int>(0)));
    else if constexpr (std::is_base_of_v<NeoFOAM::Dictionary, T>) return a.keys().size() == b.keys().size() && (a.empty() || (a.keys().size() == 1 && a.template get<int>("v") == b.template get<int>("v")));
    else if constexpr (std::is_same_v<T, std::shared_ptr<int>>) return !a == !b && (!a || *a == *b);
    else return a == b;
}
template<int I = 0, class F> void withType(int i, F&& f)
{
    if constexpr (I < N)
    {
        if (i == I) f(std::type_identity<std::tuple_element_t<(size_t)I, Types>> {});
        else withType<I + 1>(i, f);
    }
}
template<int I = 0, class F> void allTypes(F&& f)
{
    if constexpr (I < N)
    {
        f(I, std::type_identity<std::tuple_element_t<(size_t)I, Types>> {});
        allTypes<I + 1>(f);
    }
}
struct Value
{
    int type, v;
    double f;
    std::any any() const
    {
        std::any a;
        withType(type, [&]<class T>(std::type_identity<T>) { a = make<T>(v, f); });
        return a;
    }
};
inline Value symValue(const char* nm, int last = N)
{
    Value x {(int)sym_choose(nm, 0, last), 0, 0};
    x.v = (int)sym_i64("value", 0, 127);
    x.f = sym_f64("number");
    if (sym_choose("odd", 0, 1)) sym_assume((x.v & 1) == 1);
    else sym_assume((x.v & 1) == 0);
    return x;
}
// a text is nothing but that text, whatever it says
template<class G> void readableText(G&& get, const std::string& text)
{
    allTypes([&]<class T>(int i, std::type_identity<T>)
        {
            int e = thrown([&] { (void)get(std::type_identity<T> {}); });
            sym_assert(e == (i == 2 ? 0 : 2), "a text is readable exactly as a text");
        });
    std::string now;
    sym_assert(thrown([&] { now = get(std::type_identity<std::string> {}); }) == 0 && now == text, "the stored text comes back");
}
// get is asked for a reference to every type: it succeeds exactly for the stored one
template<class G> void readable(G&& get, const Value& x)
{
    allTypes([&]<class T>(int i, std::type_identity<T>)
        {
            bool ok = true;
            int e = thrown([&]
                {
                    auto& r = get(std::type_identity<T> {});
                    T want = make<T>(x.v, x.f);
                    ok = i != x.type || same<T>(const_cast<T&>(r), want);
                });
            sym_assert(e == (i == x.type ? 0 : 2), "a value is readable exactly as the stored type");
            sym_assert(ok, "the stored value comes back");
        });
}
}
