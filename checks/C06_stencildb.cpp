// StencilDataBase: typed values under text keys that are computed once.
#include "inc/util.hpp"
#include "inc/zoo.hpp"
#include "NeoFOAM/finiteVolume/cellCentred/stencil/stencilDataBase.hpp"
#include <memory>
using NeoFOAM::StencilDataBase;
namespace
{
int val(const char* n) { return (int)sym_i64(n, 0, 127); }
}
ENTRY(c06_history)
{
    StencilDataBase db;
    const StencilDataBase& c = db;
    const std::vector<std::string> names = {"Stencil", "", "a key that does not fit into the small buffer"};
    int type[3] = {-1, -1, -1}, v[3] = {};
    double f[3] = {};
    int n = TIER(3, 5);
    for (int i = 0; i < n; i++)
    {
        int k = (int)sym_choose("key", 0, TIER(2, 1)), x = val("v");
        switch (sym_choose("op", 0, 2))
        {
        case 0:
            db.insert(names[k], x);
            if (type[k] < 0) { type[k] = 0; v[k] = x; }
            break;
        case 1:
        {
            double y = sym_f64("f");
            db.insert(names[k], y);
            if (type[k] < 0) { type[k] = 1; f[k] = y; }
            break;
        }
        case 2:
            sym_assert(thrown([&] { db.get<int>(names[k]) = x; }) == (type[k] < 0 ? 1 : type[k] == 0 ? 0 : 2), "typed access");
            if (type[k] == 0) v[k] = x;
            break;
        }
    }
    for (int k = 0; k < 3; k++)
    {
        int t = type[k];
        sym_assert(c.contains(names[k]) == (t >= 0), "contains");
        int r = 0;
        double y = 0;
        int wi = t < 0 ? 1 : t == 0 ? 0 : 2, wf = t < 0 ? 1 : t == 1 ? 0 : 2;
        sym_assert(thrown([&] { r = db.get<int>(names[k]); }) == wi, "read as int");
        if (wi == 0) sym_assert(r == v[k], "the first inserted value stays until it is assigned");
        sym_assert(thrown([&] { r = c.get<int>(names[k]); }) == wi, "read as int from a const store");
        if (wi == 0) sym_assert(r == v[k], "the first inserted value stays until it is assigned");
        sym_assert(thrown([&] { y = c.get<double>(names[k]); }) == wf, "read as double");
        if (wf == 0) sym_assert_eq(y, f[k], "the first inserted value stays until it is assigned");
        sym_assert(thrown([&] { (void)db[names[k]]; }) == (t < 0 ? 1 : 0) && thrown([&] { (void)c[names[k]]; }) == (t < 0 ? 1 : 0), "subscript needs an existing key");
        sym_assert(c.contains(names[k]) == (t >= 0), "reading never creates a key");
        if (t == 0) { db[names[k]] = std::any(std::string("x")); sym_assert(db.get<std::string>(names[k]) == "x", "assignment through the subscript"); }
    }
    sym_reach("end");
}
ENTRY(c06_keys)
{
    std::string k1 = symText("len1", 2), k2 = symText("len2", 1), k3 = symText("len3", 1, false);
    StencilDataBase db;
    int a = val("a"), b = val("b");
    db.insert(k1, a);
    db.insert(k2, b);
    sym_assert(db.get<int>(k1) == a, "first value");
    sym_assert(db.get<int>(k2) == (k1 == k2 ? a : b), "an existing entry is not replaced");
    sym_assert(db.contains(k3) == (k3 == k1 || k3 == k2), "contains exactly the inserted keys");
    auto shared = std::make_shared<int>(a);
    db.insert("shared", shared);
    sym_assert(db.get<std::shared_ptr<int>>("shared").get() == shared.get(), "a stored shared object is the same object");
    sym_reach("end");
}
// many keys: nothing is lost or mixed up when the table grows
ENTRY(c06_growth)
{
    StencilDataBase db;
    int n = TIER(20, 60);
    int v = val("v"), o = (int)sym_choose("written", 0, n - 1);
    for (int i = 0; i < n; i++)
    {
        sym_assert(!db.contains("key" + std::to_string(i)), "not there before the insertion");
        db.insert("key" + std::to_string(i), i == o ? v : i);
    }
    db.insert("key" + std::to_string(o), 500);
    int a = (int)sym_choose("assigned", 0, n - 1), w = val("w");
    db.get<int>("key" + std::to_string(a)) = w;
    for (int i = 0; i < n; i++)
    {
        std::string k = "key" + std::to_string(i);
        sym_assert(db.contains(k), "contains");
        sym_assert(db.get<int>(k) == (i == a ? w : i == o ? v : i), "every key keeps its value");
    }
    sym_reach("end");
}

// values of every type; a later one of any type changes nothing
ENTRY(c06_types)
{
    auto x = zoo::symValue("type", zoo::N - 1);
    auto y = zoo::symValue("later", TIER(4, zoo::N - 1));
    StencilDataBase db;
    const StencilDataBase& c = db;
    auto put = [&](const char* k, const zoo::Value& v)
    { zoo::withType(v.type, [&]<class T>(std::type_identity<T>) { db.insert(k, zoo::make<T>(v.v, v.f)); }); };
    put("k", x);
    put("k", y);
    put("other", y);
    auto check = [&](const StencilDataBase& b, const char* k, const zoo::Value& v)
    {
        zoo::readable([&]<class T>(std::type_identity<T>) -> const T& { return b.get<T>(k); }, v);
        zoo::readable([&]<class T>(std::type_identity<T>) -> T& { return const_cast<StencilDataBase&>(b).get<T>(k); }, v);
    };
    check(c, "k", x);
    check(c, "other", y);
    StencilDataBase copy(db);
    db["k"] = std::any(17);
    sym_assert(db.get<int>("k") == 17, "assignment through the subscript");
    put("k", x);
    sym_assert(db.get<int>("k") == 17, "the assigned value stays");
    check(copy, "k", x);
    db["k"] = std::any();
    sym_assert(db.contains("k"), "an emptied entry is an entry");
    put("k", x);
    sym_assert(!c["k"].has_value() && thrown([&] { (void)c.get<int>("k"); }) == 2, "an emptied entry is not filled by an insertion");
    sym_reach("end");
}
// hundreds of keys and long keys
ENTRY(c06_many)
{
    StencilDataBase db;
    const int n = TIER(300, 1100);
    int l = (int)sym_choose("length", 0, 3) * 100, v = val("v");
    auto key = [&](int i) { return std::string((size_t)l, 'k') + std::to_string(i); };
    int& first = (db.insert(key(-1), v), db.get<int>(key(-1)));
    for (int i = 0; i < n; i++) db.insert(key(i), i);
    for (int i = 0; i < n; i++) db.insert(key(i), -1);
    for (int i = 0; i < n; i++) sym_assert(db.contains(key(i)) && db.get<int>(key(i)) == i, "every key keeps its value");
    sym_assert(!db.contains(key(n)) && first == v && &first == &db.get<int>(key(-1)), "a value stays where it is");
    sym_reach("end");
}

// keys close to a stored one
ENTRY(c06_near)
{
    StencilDataBase db;
    const StencilDataBase& c = db;
    std::string k = sym_choose("key", 0, 1) ? "CellToFaceStencil" : "geometry_scheme";
    auto others = nearTexts(k);
    std::string o = others[(size_t)sym_choose("near", 0, (int)others.size() - 1)];
    int a = val("a"), b = val("b");
    db.insert(k, a);
    sym_assert(!c.contains(o), "contains exactly the inserted keys");
    sym_assert(thrown([&] { (void)db.get<int>(o); }) == 1 && thrown([&] { (void)c.get<int>(o); }) == 1, "a missing key is reported");
    sym_assert(thrown([&] { (void)db[o]; }) == 1 && thrown([&] { (void)c[o]; }) == 1, "a missing key is reported");
    sym_assert(!c.contains(o), "reading never creates a key");
    db.insert(o, b);
    sym_assert(db.get<int>(k) == a && db.get<int>(o) == b, "every key has its own value");
    sym_reach("end");
}
// keys of any content
ENTRY(c06_words)
{
    auto k = sym_bytes_of("stored", TIER(12, 18)), q = sym_bytes_of("asked", TIER(12, 18));
    bool same = k == q;
    StencilDataBase db;
    const StencilDataBase& c = db;
    int v = val("v"), w = val("w");
    db.insert(k, v);
    sym_assert(c.contains(q) == same, "contains exactly the inserted keys");
    sym_assert(thrown([&] { (void)db.get<int>(q); }) == (same ? 0 : 1) && thrown([&] { (void)c.get<int>(q); }) == (same ? 0 : 1), "exactly the inserted keys are read");
    sym_assert(thrown([&] { (void)db[q]; }) == (same ? 0 : 1) && thrown([&] { (void)c[q]; }) == (same ? 0 : 1), "exactly the inserted keys are read");
    sym_assert(c.contains(q) == same && db.get<int>(k) == v, "no read creates an entry");
    db.insert(q, w);
    sym_assert(db.get<int>(k) == v && db.get<int>(q) == (same ? v : w), "an existing entry is not replaced");
    sym_reach(same ? "same" : "different");
}
// text values of any content
ENTRY(c06_texts)
{
    auto t = sym_bytes_of("text", TIER(8, 16));
    StencilDataBase db;
    db.insert("k", t);
    const StencilDataBase& c = db;
    if (sym_choose("const", 0, 1)) zoo::readableText([&]<class T>(std::type_identity<T>) -> const T& { return c.get<T>("k"); }, t);
    else zoo::readableText([&]<class T>(std::type_identity<T>) -> T& { return db.get<T>("k"); }, t);
    zoo::readableText([&]<class T>(std::type_identity<T>) -> T& { return db.get<T>("k"); }, t);
    sym_reach("end");
}
// failed accesses leave every entry
ENTRY(c06_failures)
{
    const int n = (int)sym_choose("size", 0, TIER(3, 5)) * 9;
    StencilDataBase db;
    const StencilDataBase& c = db;
    std::vector<int> v;
    for (int i = 0; i < n; i++)
    {
        v.push_back(i % 7 == 3 ? val("v") : i);
        db.insert("key" + std::to_string(i), v.back());
    }
    for (int round = 0; round < 2; round++)
        switch (sym_choose("failure", 0, 6))
        {
        case 0: sym_assert(thrown([&] { (void)db["none"]; }) == 1, "a missing key"); break;
        case 1: sym_assert(thrown([&] { (void)c["none"]; }) == 1, "a missing key"); break;
        case 2: sym_assert(thrown([&] { (void)db.get<int>("none"); }) == 1, "a missing key"); break;
        case 3: sym_assert(thrown([&] { (void)c.get<double>("none"); }) == 1, "a missing key"); break;
        case 4: if (n) sym_assert(thrown([&] { (void)db.get<double>("key3"); }) == 2, "another type"); break;
        case 5: if (n) sym_assert(thrown([&] { (void)c.get<std::string>("key5"); }) == 2, "another type"); break;
        case 6: if (n) db.insert("key5", 2.5); break;
        }
    sym_assert(!c.contains("none"), "no read creates an entry");
    for (int i = 0; i < n; i++) sym_assert(c.contains("key" + std::to_string(i)) && db.get<int>("key" + std::to_string(i)) == v[(size_t)i], "failed accesses leave the entries");
    sym_reach("end");
}
