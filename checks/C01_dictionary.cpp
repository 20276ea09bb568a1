// Dictionary: a finite map from text to typed values, checked against a plain list of entries.
#include "inc/util.hpp"
#include "inc/zoo.hpp"
#include "NeoFOAM/core/dictionary.hpp"
#include <initializer_list>
#include <unordered_map>
using NeoFOAM::Dictionary;

namespace
{
int val(const char* n) { return (int)sym_i64(n, 0, 127); }
// type tags: 0 int, 1 double, 2 string, 3 Dictionary holding {"v": int}
struct Item { std::string key; int type; int val; double f; };
struct Model
{
    std::vector<Item> e;
    Item* find(const std::string& k)
    {
        for (auto& x : e) if (x.key == k) return &x;
        return nullptr;
    }
    void set(const std::string& k, int t, int v, double f = 0)
    {
        if (Item* x = find(k)) { x->type = t; x->val = v; x->f = f; return; }
        e.push_back({k, t, v, f});
    }
    void del(const std::string& k)
    {
        for (size_t i = 0; i < e.size(); i++) if (e[i].key == k) { e.erase(e.begin() + (long)i); return; }
    }
};
std::any mk(int t, int v, double f)
{
    if (t == 0) return std::any(v);
    if (t == 1) return std::any(f);
    if (t == 2) return std::any(std::string(1, (char)v));
    Dictionary d;
    d.insert("v", v);
    return std::any(d);
}
template<class D> void checkTyped(D& d, const Item& x)
{
    int v = 0;
    int want = 2;
    want = x.type == 0 ? 0 : 2;
    sym_assert(thrown([&] { v = d.template get<int>(x.key); }) == want, "an int is readable exactly as the stored type");
    if (want == 0) sym_assert(v == x.val, "stored int comes back");
    double f = 0;
    want = x.type == 1 ? 0 : 2;
    sym_assert(thrown([&] { f = d.template get<double>(x.key); }) == want, "a double is readable exactly as the stored type");
    if (want == 0) sym_assert_eq(f, x.f, "stored double comes back");
    std::string s;
    want = x.type == 2 ? 0 : 2;
    sym_assert(thrown([&] { s = d.template get<std::string>(x.key); }) == want, "a text is readable exactly as the stored type");
    if (want == 0) sym_assert(s.size() == 1 && s[0] == (char)x.val, "stored text comes back");
    want = x.type == 3 ? 0 : 2;
    sym_assert(thrown([&] { v = d.subDict(x.key).template get<int>("v"); }) == want, "a nested dictionary is readable exactly as one");
    if (want == 0) sym_assert(v == x.val, "stored nested value comes back");
    sym_assert(d.isDict(x.key) == (x.type == 3), "isDict tells whether the entry is a dictionary");
    sym_assert(d.contains(x.key), "a stored key is contained");
}
void checkAll(Dictionary& d, Model& m, const std::vector<std::string>& keys)
{
    const Dictionary& c = d;
    for (auto& k : keys)
    {
        Item* x = m.find(k);
        sym_assert(d.contains(k) == (x != nullptr), "a key is contained exactly when it was stored and not removed");
        if (x) { checkTyped(d, *x); checkTyped(c, *x); }
        else
        {
            sym_assert(thrown([&] { (void)d.get<int>(k); }) == 1, "reading a missing key reports out-of-range");
            sym_assert(thrown([&] { (void)c.get<double>(k); }) == 1, "reading a missing key of a const dictionary reports out-of-range");
            sym_assert(thrown([&] { (void)d[k]; }) == 1, "subscripting a missing key reports out-of-range");
            sym_assert(thrown([&] { (void)c[k]; }) == 1, "subscripting a missing key of a const dictionary reports out-of-range");
            sym_assert(thrown([&] { (void)d.subDict(k); }) == 1, "missing sub-dictionary reports out-of-range");
            sym_assert(thrown([&] { (void)c.subDict(k); }) == 1, "missing sub-dictionary of a const dictionary reports out-of-range");
            sym_assert(!d.isDict(k), "a missing key is not a dictionary");
            sym_assert(!d.contains(k), "a failed read does not create the key");
        }
    }
    auto ks = d.keys();
    sym_assert(ks.size() == m.e.size(), "keys() lists every key once");
    for (auto& x : m.e)
    {
        int n = 0;
        for (auto& k : ks) n += k == x.key;
        sym_assert(n == 1, "keys() contains each stored key exactly once");
    }
    sym_assert(d.empty() == m.e.empty(), "empty() tells whether there are entries");
    sym_assert(d.getMap().size() == m.e.size() && c.getMap().size() == m.e.size(), "the raw map has the same entries");
}
void step(Dictionary& d, Model& m, const std::string& k)
{
    int t = 0, v = 0;
    double f = 0;
    switch (sym_choose("op", 0, 3))
    {
    case 0:
        t = (int)sym_choose("type", 0, 3);
        if (t == 1) f = sym_f64("f");
        else v = val("v");
        d.insert(k, mk(t, v, f));
        m.set(k, t, v, f);
        break;
    case 1:
        d.remove(k);
        m.del(k);
        break;
    case 2: // assignment through the subscript
    {
        Item* x = m.find(k);
        t = (int)sym_choose("type", 0, 1);
        if (t == 1) f = sym_f64("f");
        else v = val("v");
        sym_assert(thrown([&] { d[k] = mk(t, v, f); }) == (x ? 0 : 1), "subscript assignment needs an existing key");
        if (x) { x->type = t; x->val = v; x->f = f; }
        break;
    }
    case 3: // assignment through a typed reference
    {
        Item* x = m.find(k);
        v = val("v");
        sym_assert(thrown([&] { d.get<int>(k) = v; }) == (!x ? 1 : x->type == 0 ? 0 : 2), "typed assignment needs an existing key of that type");
        if (x && x->type == 0) x->val = v;
        break;
    }
    }
}
}

// arbitrary histories over two different fixed keys and all value types
ENTRY(c01_history)
{
    const std::vector<std::string> keys = {"a", "", "unrelated and long enough to leave the small buffer"};
    Dictionary d;
    Model m;
    int n = TIER(3, 4);
    for (int i = 0; i < n; i++)
    {
        int k = (int)sym_choose("key", 0, TIER(1, 1));
        step(d, m, keys[k]);
    }
    checkAll(d, m, keys);
    sym_observe_i("size", (int64_t)d.keys().size());
    sym_reach("end");
}
// arbitrary key contents
ENTRY(c01_keys)
{
    std::string k1 = symText("len1", TIER(1, 2)), k2 = symText("len2", TIER(2, 2)), k3 = symText("len3", 1, TIER(false, true));
    Dictionary d;
    Model m;
    int v1 = val("v1");
    double v2 = sym_f64("v2");
    d.insert(k1, v1);
    m.set(k1, 0, v1);
    d.insert(k2, v2);
    m.set(k2, 1, 0, v2);
    if (sym_choose("rem", 0, 1)) { d.remove(k3); m.del(k3); }
    checkAll(d, m, {k1, k2, k3});
    if (k1 == k2) sym_reach("same");
    else sym_reach("different");
    sym_reach("end");
}
// longer histories of insertion and removal of few keys
ENTRY(c01_long)
{
    const std::vector<std::string> keys = {"x", "xy"};
    Dictionary d;
    Model m;
    int n = TIER(5, 8);
    for (int i = 0; i < n; i++)
    {
        int k = (int)sym_choose("key", 0, 1);
        int v = val("v");
        if (sym_choose("op", 0, 1)) { d.insert(keys[k], v); m.set(keys[k], 0, v); }
        else { d.remove(keys[k]); m.del(keys[k]); }
    }
    checkAll(d, m, keys);
    sym_reach("end");
}
// many keys: the table grows and is rehashed without losing anything
ENTRY(c01_growth)
{
    Dictionary d;
    int n = TIER(24, 60);
    for (int i = 0; i < n; i++) d.insert("key" + std::to_string(i), i);
    int v = val("v"), r = (int)sym_choose("removed", 0, n - 1), o = (int)sym_choose("overwritten", 0, n - 1);
    d.insert("key" + std::to_string(o), v + 1000);
    d.remove("key" + std::to_string(r));
    for (int i = 0; i < n; i++)
    {
        std::string k = "key" + std::to_string(i);
        sym_assert(d.contains(k) == (i != r), "exactly the removed key is gone");
        if (i != r) sym_assert(d.get<int>(k) == (i == o ? v + 1000 : i), "every other key keeps its value");
    }
    sym_assert((int)d.keys().size() == n - 1, "number of keys");
    sym_reach("end");
}
// construction from a list or a map; copies are independent
ENTRY(c01_construct)
{
    std::string k1 = symText("len1", 1, false), k2 = symText("len2", 1, false);
    int v1 = val("v1"), v2 = val("v2");
    double v3 = sym_f64("v3");
    Model m;
    int how = (int)sym_choose("how", 0, 1);
    if (how == 0)
    {
        Dictionary d {{k1, std::any(v1)}, {k2, std::any(v2)}};
        m.set(k1, 0, v1);
        if (!m.find(k2)) m.set(k2, 0, v2); // the first of equal keys counts
        checkAll(d, m, {k1, k2});
        Dictionary e = d;
        e.insert(k1, v3);
        checkAll(d, m, {k1, k2});
        d = e;
        m.set(k1, 1, 0, v3);
        checkAll(d, m, {k1, k2});
        sym_reach("list");
    }
    else
    {
        std::unordered_map<std::string, std::any> mp;
        mp[k1] = v1;
        mp[k2] = std::string(1, (char)v2);
        m.set(k1, 0, v1);
        m.set(k2, 2, v2);
        Dictionary d(mp);
        mp.clear();
        checkAll(d, m, {k1, k2});
        d.getMap()["another"] = 5;
        sym_assert(d.get<int>("another") == 5, "the raw map is the dictionary's own");
        sym_reach("map");
    }
    Dictionary empty;
    sym_assert(empty.empty() && empty.keys().empty() && !empty.contains(k1), "a new dictionary is empty");
    sym_reach("end");
}
// nested dictionaries: references reach the stored object, copies do not
ENTRY(c01_nested)
{
    int a = val("a"), b = val("b"), c = val("c");
    Dictionary inner;
    inner.insert("x", a);
    Dictionary mid;
    mid.insert("inner", inner);
    Dictionary d;
    d.insert("mid", mid);
    inner.insert("x", -1);
    mid.insert("inner", 3);
    sym_assert(d.isDict("mid") && d.subDict("mid").isDict("inner"), "nesting is kept");
    sym_assert(d.subDict("mid").subDict("inner").get<int>("x") == a, "stored copy is independent of the original");
    d.subDict("mid").subDict("inner").insert("y", b);
    d.get<Dictionary>("mid").get<Dictionary>("inner").get<int>("x") = c;
    const Dictionary& cd = d;
    sym_assert(cd.subDict("mid").subDict("inner").get<int>("y") == b, "changes through sub-dictionary references are kept");
    sym_assert(cd.subDict("mid").subDict("inner").get<int>("x") == c, "changes through typed references are kept");
    Dictionary copy = d;
    d.subDict("mid").subDict("inner").remove("x");
    sym_assert(copy.subDict("mid").subDict("inner").get<int>("x") == c, "a copy is deep");
    sym_assert(!d.subDict("mid").subDict("inner").contains("x"), "removal inside a nested dictionary");
    sym_reach("end");
}

namespace
{
void readableAt(Dictionary& d, const std::string& k, const zoo::Value& x)
{
    const Dictionary& c = d;
    zoo::readable([&]<class T>(std::type_identity<T>) -> T& { return d.get<T>(k); }, x);
    zoo::readable([&]<class T>(std::type_identity<T>) -> const T& { return c.get<T>(k); }, x);
    bool dict = x.type == 3;
    sym_assert(d.contains(k) && d.isDict(k) == dict, "what kind of entry a key has");
    sym_assert(thrown([&] { (void)d.subDict(k); }) == (dict ? 0 : 2) && thrown([&] { (void)c.subDict(k); }) == (dict ? 0 : 2), "a nested dictionary is readable exactly as one");
    sym_assert(d[k].has_value() == (x.type != zoo::N) && c[k].has_value() == (x.type != zoo::N), "what kind of entry a key has");
}
void only(const Dictionary& d, size_t n)
{
    sym_assert(d.keys().size() == n && d.getMap().size() == n && d.empty() == (n == 0), "exactly the stored keys");
}
}
// values of every type, the empty value included
ENTRY(c01_types)
{
    auto x = zoo::symValue("type");
    int how = (int)sym_choose("how", 0, 2);
    Dictionary d;
    if (how == 0) d.insert("k", x.any());
    if (how == 1) d = Dictionary {{"k", x.any()}};
    if (how == 2)
    {
        std::unordered_map<std::string, std::any> m;
        m["k"] = x.any();
        d = Dictionary(m);
    }
    readableAt(d, "k", x);
    only(d, 1);
    Dictionary c(d), e;
    e = c;
    Dictionary moved(std::move(c));
    d.remove("k");
    only(d, 0);
    sym_assert(!d.contains("k"), "a removed key is gone");
    readableAt(e, "k", x);
    readableAt(moved, "k", x);
    only(e, 1);
    only(moved, 1);
    sym_reach("end");
}
// a value of any type replaces a value of any type
ENTRY(c01_replace)
{
    const int few = TIER(6, zoo::N);
    auto x = zoo::symValue("before", few), y = zoo::symValue("after", few);
    if (x.type == few) x.type = zoo::N;
    if (y.type == few) y.type = zoo::N;
    Dictionary d;
    d.insert("k", x.any());
    d.insert("other", 3);
    int how = (int)sym_choose("how", 0, 2);
    if (how == 0) d.insert("k", y.any());
    if (how == 1) d["k"] = y.any();
    if (how == 2) { d.remove("k"); d.insert("k", y.any()); }
    readableAt(d, "k", y);
    only(d, 2);
    sym_assert(d.get<int>("other") == 3, "another key keeps its value");
    sym_reach("end");
}
// references to entries stay good whatever happens to other keys and when the entry is overwritten
ENTRY(c01_references)
{
    int a = val("a"), b = val("b"), c = val("c");
    Dictionary d;
    d.insert("k", a);
    d.insert("m", Dictionary {{"v", std::any(a)}});
    std::any& r = d["k"];
    int& t = d.get<int>("k");
    Dictionary& s = d.subDict("m");
    int what = (int)sym_choose("what", 0, 3);
    if (what == 0) for (int i = 0; i < 30; i++) d.insert("another" + std::to_string(i), i);
    if (what == 1) { d.insert("z", 1); d.remove("z"); }
    if (what == 2)
    {
        d.insert("k", b);
        sym_assert(std::any_cast<int>(r) == b, "a reference follows its entry");
    }
    t = c;
    sym_assert(d.get<int>("k") == c, "assignment through a held reference");
    r = std::string("text");
    sym_assert(d.get<std::string>("k") == "text", "assignment through a held reference");
    s.insert("v", b);
    sym_assert(d.subDict("m").get<int>("v") == b, "assignment through a held reference");
    sym_reach("end");
}
// arguments that are parts of the dictionary itself
ENTRY(c01_alias)
{
    int a = val("a"), b = val("b");
    Dictionary d;
    d.insert("k", a);
    d.insert("m", b);
    switch (sym_choose("what", 0, 4))
    {
    case 0:
        d.insert("k", d["k"]);
        sym_assert(d.get<int>("k") == a, "an entry assigned to itself is kept");
        break;
    case 1:
        for (int i = 0; i < 30; i++) d.insert("n" + std::to_string(i), d[i % 2 ? "k" : "m"]);
        for (int i = 0; i < 30; i++) sym_assert(d.get<int>("n" + std::to_string(i)) == (i % 2 ? a : b), "a copy of another entry");
        for (int i = 0; i < 30; i++) d.remove("n" + std::to_string(i));
        break;
    case 2: // keys of the dictionary itself
    {
        d.insert(d.getMap().find("k")->first, b);
        sym_assert(d.get<int>("k") == b, "an entry overwritten under its own key");
        d.remove(d.getMap().find("k")->first);
        sym_assert(!d.contains("k") && d.get<int>("m") == b, "an entry removed under its own key");
        d.insert("k", a);
        break;
    }
    case 3: // a dictionary inside itself is a copy
        d.insert("self", d);
        sym_assert(d.subDict("self").get<int>("k") == a && !d.subDict("self").contains("self"), "a copy of the dictionary as an entry");
        d.remove("self");
        break;
    case 4:
    {
        const Dictionary& same = d;
        d = same;
        break;
    }
    }
    sym_assert(d.get<int>("m") == b && d.contains("k"), "the other entries are kept");
    only(d, 2);
    sym_reach("end");
}
// long keys that differ in one byte, or one of which begins with the other
ENTRY(c01_longkeys)
{
    static const int len[] = {15, 16, 31, 32, 63, 64, 65, 127, 128, 255, 256, 300, 1024};
    int n = len[sym_choose("length", 0, 12)];
    std::string k((size_t)n, 'k'), other = k;
    int how = (int)sym_choose("how", 0, 3);
    if (how == 3) other.pop_back();
    else other[how == 0 ? 0 : how == 1 ? (size_t)n / 2 : (size_t)n - 1] = "K \n\0"[sym_choose("byte", 0, 3)];
    int a = val("a"), b = val("b");
    Dictionary d;
    d.insert(k, a);
    sym_assert(d.contains(k) && !d.contains(other), "keys are compared as a whole");
    d.insert(other, b);
    sym_assert(d.get<int>(k) == a && d.get<int>(other) == b, "keys are compared as a whole");
    only(d, 2);
    size_t found = 0;
    for (auto& x : d.keys()) found += (x == k) + (x == other);
    sym_assert(found == 2, "keys() contains each stored key exactly once");
    d.remove(other);
    sym_assert(d.contains(k) && !d.contains(other), "keys are compared as a whole");
    only(d, 1);
    sym_reach("end");
}

// hundreds of keys
ENTRY(c01_hundreds)
{
    Dictionary d;
    const int n = TIER(300, 1100);
    int v = val("v"), which = (int)sym_choose("which", 0, 2) * (n / 3);
    auto key = [](int i) { return "key" + std::to_string(i); };
    for (int i = 0; i < n; i++) d.insert(key(i), i == which ? v : i);
    Dictionary c(d);
    for (int i = 0; i < n; i += 3) c.remove(key(i));
    for (int i = 0; i < n; i++)
    {
        sym_assert(d.get<int>(key(i)) == (i == which ? v : i), "every key keeps its value");
        sym_assert(c.contains(key(i)) == (i % 3 != 0), "exactly the removed keys are gone");
    }
    only(d, (size_t)n);
    only(c, (size_t)(n - (n + 2) / 3));
    sym_assert(!d.contains(key(n)), "a key never stored");
    sym_reach("end");
}

// keys close to a stored one
ENTRY(c01_near)
{
    Dictionary d;
    const Dictionary& c = d;
    std::string k = sym_choose("key", 0, 1) ? "divSchemes" : "time_step";
    auto others = nearTexts(k);
    std::string o = others[(size_t)sym_choose("near", 0, (int)others.size() - 1)];
    int a = val("a"), b = val("b");
    d.insert(k, a);
    sym_assert(!c.contains(o) && !c.isDict(o), "a key never stored");
    sym_assert(thrown([&] { (void)d.get<int>(o); }) == 1 && thrown([&] { (void)c.get<int>(o); }) == 1, "reading a missing key reports out-of-range");
    sym_assert(thrown([&] { (void)d[o]; }) == 1 && thrown([&] { (void)c[o]; }) == 1, "reading a missing key reports out-of-range");
    sym_assert(thrown([&] { (void)d.subDict(o); }) == 1 && thrown([&] { (void)c.subDict(o); }) == 1, "reading a missing key reports out-of-range");
    d.remove(o);
    only(d, 1);
    d.insert(o, b);
    sym_assert(d.get<int>(k) == a && d.get<int>(o) == b, "every key has its own value");
    only(d, 2);
    d.remove(k);
    sym_assert(!d.contains(k) && d.get<int>(o) == b, "exactly the removed key is gone");
    sym_reach("end");
}
// texts of any content as keys: a key is found exactly when it is the stored one
ENTRY(c01_words)
{
    auto k = sym_bytes_of("stored", TIER(12, 18)), q = sym_bytes_of("asked", TIER(12, 18));
    int v = val("v"), w = val("w");
    Dictionary d;
    d.insert(k, v);
    bool same = k == q;
    const Dictionary& c = d;
    sym_assert(d.contains(q) == same, "a key is contained exactly when it was stored");
    sym_assert(thrown([&] { (void)d.get<int>(q); }) == (same ? 0 : 1) && thrown([&] { (void)c.get<int>(q); }) == (same ? 0 : 1), "a key is read exactly when it was stored");
    sym_assert(thrown([&] { (void)d[q]; }) == (same ? 0 : 1) && thrown([&] { (void)c[q]; }) == (same ? 0 : 1), "a key is read exactly when it was stored");
    sym_assert(thrown([&] { (void)d.subDict(q); }) == (same ? 2 : 1) && thrown([&] { (void)c.subDict(q); }) == (same ? 2 : 1) && !d.isDict(q), "a key is read exactly when it was stored");
    sym_assert(d.keys().size() == 1 && d.keys()[0] == k && d.get<int>(k) == v, "reading changes nothing");
    switch (sym_choose("op", 0, 1))
    {
    case 0:
        d.remove(q);
        sym_assert(d.contains(k) == !same && d.empty() == same, "exactly the key asked for is removed");
        break;
    case 1:
        d.insert(q, w);
        sym_assert(d.keys().size() == (same ? 1u : 2u) && d.get<int>(q) == w && d.get<int>(k) == (same ? w : v), "a key is overwritten exactly when it is the stored one");
        break;
    }
    sym_reach(same ? "same" : "different");
}
// texts of any content as values
ENTRY(c01_texts)
{
    auto t = sym_bytes_of("text", TIER(8, 16));
    Dictionary d;
    d.insert("k", t);
    const Dictionary& c = d;
    if (sym_choose("const", 0, 1)) zoo::readableText([&]<class T>(std::type_identity<T>) -> const T& { return c.get<T>("k"); }, t);
    else zoo::readableText([&]<class T>(std::type_identity<T>) -> T& { return d.get<T>("k"); }, t);
    zoo::readableText([&]<class T>(std::type_identity<T>) -> T& { return d.get<T>("k"); }, t);
    sym_assert(!d.isDict("k") && thrown([&] { (void)d.subDict("k"); }) == 2 && d.keys().size() == 1, "a text is a text");
    sym_reach("end");
}
// the entries of a nested dictionary are its own: no text reaches them from outside
ENTRY(c01_paths)
{
    const std::string outer = "a", inner = sym_choose("inner", 0, 1) ? "a" : "b";
    int v = val("v"), w = val("w");
    Dictionary n, deep;
    deep.insert("c", v);
    n.insert(inner, deep);
    n.insert("d", v);
    Dictionary d;
    d.insert(outer, n);
    auto q = sym_bytes_of("asked", TIER(6, 9));
    bool same = q == outer;
    sym_assert(d.contains(q) == same && d.isDict(q) == same, "only the outer key is contained");
    sym_assert(thrown([&] { (void)d.subDict(q); }) == (same ? 0 : 1) && thrown([&] { (void)std::as_const(d).subDict(q); }) == (same ? 0 : 1), "only the outer key is read");
    sym_assert(thrown([&] { (void)d.get<int>(q); }) == (same ? 2 : 1), "only the outer key is read");
    auto whole = [&]
    {
        auto& m = d.subDict(outer);
        sym_assert(m.keys().size() == 2 && m.get<int>("d") == v && m.subDict(inner).keys().size() == 1 && m.subDict(inner).get<int>("c") == v, "a nested dictionary keeps its entries");
    };
    whole();
    if (sym_choose("op", 0, 1))
    {
        d.insert(q, w);
        sym_assert(d.keys().size() == (same ? 1u : 2u) && d.get<int>(q) == w, "a key is stored as it is");
        if (!same) whole();
    }
    else
    {
        d.remove(q);
        sym_assert(d.contains(outer) == !same, "only the outer key is removed");
        if (!same) whole();
    }
    sym_reach(same ? "same" : "different");
}
// assignment, moving and swapping: the target has exactly what the source had
ENTRY(c01_assign)
{
    const std::string keys[] = {"a", "", "c", "a long key that is not stored in place"};
    struct E { bool has[4]; int v[4]; };
    auto mk2 = [&](Dictionary& d)
    {
        E e {};
        int s = (int)sym_choose("keys", 0, TIER(7, 15));
        for (int k = 0; k < 4; k++)
            if (s >> k & 1)
            {
                e.has[k] = true;
                e.v[k] = val("v");
                d.insert(keys[k], e.v[k]);
            }
        return e;
    };
    auto is = [&](Dictionary& d, const E& e)
    {
        size_t n = 0;
        for (int k = 0; k < 4; k++)
        {
            n += e.has[k];
            sym_assert(d.contains(keys[k]) == e.has[k], "an assigned dictionary has exactly the keys of its source");
            if (e.has[k]) sym_assert(d.get<int>(keys[k]) == e.v[k], "an assigned dictionary has the values of its source");
        }
        sym_assert(d.keys().size() == n && d.empty() == (n == 0), "an assigned dictionary has exactly the keys of its source");
    };
    Dictionary a, b;
    E ea = mk2(a), eb = mk2(b);
    int how = (int)sym_choose("how", 0, 5);
    if (how == 0) { a = b; is(a, eb); is(b, eb); }
    if (how == 1) { a = std::move(b); is(a, eb); b = a; is(b, eb); }
    if (how == 2) { std::swap(a, b); is(a, eb); is(b, ea); }
    if (how == 3) { auto& r = a; a = r; is(a, ea); is(b, eb); }
    if (how == 4) { a = Dictionary(b); is(a, eb); a.remove(keys[0]); is(b, eb); }
    if (how == 5)
    {
        Dictionary d;
        d.insert("x", a);
        d.insert("y", b);
        d.subDict("x") = d.subDict("y");
        is(d.subDict("x"), eb);
        is(d.subDict("y"), eb);
        d.insert("y", a);
        is(d.subDict("y"), ea);
        is(d.subDict("x"), eb);
        // a nested dictionary may have the key that it is stored under
        Dictionary n;
        n.insert("x", b);
        d.insert("x", n);
        sym_assert(d.subDict("x").keys().size() == 1, "a nested dictionary is stored as it is");
        is(d.subDict("x").subDict("x"), eb);
    }
    sym_reach("end");
}
// failed accesses leave every entry, however many there are
ENTRY(c01_failures)
{
    const int n = (int)sym_choose("size", 0, TIER(3, 5)) * 9;
    Dictionary d;
    std::vector<int> v;
    for (int i = 0; i < n; i++)
    {
        v.push_back(i % 7 == 3 ? val("v") : i);
        d.insert("key" + std::to_string(i), v.back());
    }
    const Dictionary& c = d;
    for (int round = 0; round < TIER(2, 4); round++)
        switch (sym_choose("failure", 0, 6))
        {
        case 0: sym_assert(thrown([&] { (void)d["none"]; }) == 1, "a missing key"); break;
        case 1: sym_assert(thrown([&] { (void)c["none"]; }) == 1, "a missing key"); break;
        case 2: sym_assert(thrown([&] { (void)d.get<int>("none"); }) == 1, "a missing key"); break;
        case 3: sym_assert(thrown([&] { (void)c.subDict("none"); }) == 1, "a missing key"); break;
        case 4: if (n) sym_assert(thrown([&] { (void)d.get<double>("key3"); }) == 2, "another type"); break;
        case 5: if (n) sym_assert(thrown([&] { (void)c.get<std::string>("key5"); }) == 2, "another type"); break;
        case 6: d.remove("none"); break;
        }
    sym_assert((int)d.keys().size() == n && (int)d.getMap().size() == n, "failed accesses leave the entries");
    for (int i = 0; i < n; i++) sym_assert(d.contains("key" + std::to_string(i)) && d.get<int>("key" + std::to_string(i)) == v[(size_t)i], "failed accesses leave the entries");
    sym_reach("end");
}
