// Document: a dictionary with an identity and a validator.
#include "inc/util.hpp"
#include "NeoFOAM/core/database/document.hpp"
#include <set>
using namespace NeoFOAM;
namespace
{
int val(const char* n) { return (int)sym_i64(n, 0, 127); }
}
// automatically created identities are all different, in every history of creation
ENTRY(c03_unique)
{
    std::vector<std::string> ids, own;
    int n = TIER(4, 6);
    for (int i = 0; i < n; i++)
    {
        switch (sym_choose("how", 0, 3))
        {
        case 0: { Document d; ids.push_back(d.id()); break; }
        case 1: { Document d(Dictionary {{"x", std::any(val("v"))}}); ids.push_back(d.id()); break; }
        case 2: // an identity that is already there is kept
        {
            std::string mine(1, (char)val("id"));
            Document d(Dictionary {{"id", std::any(mine)}});
            sym_assert(d.id() == mine, "a given identity is kept");
            break;
        }
        case 3: // a rejected document does not disturb the identities that follow
            sym_assert(thrown([&] { Document d(Dictionary {}, [](Dictionary) { return false; }); }) == 4, "a rejected document is reported");
            break;
        }
    }
    for (size_t i = 0; i < ids.size(); i++)
    {
        sym_assert(ids[i].substr(0, 4) == "doc_" && ids[i].size() > 4, "shape of a created identity");
        for (size_t j = 0; j < i; j++) sym_assert(ids[i] != ids[j], "two documents never share a created identity");
    }
    sym_observe_i("created", (int64_t)ids.size());
    sym_reach("end");
}
// the validator decides: construction succeeds exactly when it accepts the finished contents
ENTRY(c03_validator)
{
    int x = val("x"), limit = val("limit");
    bool has = sym_choose("has", 0, 1), withId = sym_choose("withId", 0, 1);
    Dictionary in;
    if (has) in.insert("x", x);
    if (withId) in.insert("id", std::string("mine"));
    int calls = 0;
    bool sawId = false;
    auto v = [&](Dictionary d)
    {
        calls++;
        sawId = d.contains("id");
        return d.contains("x") && d.get<int>("x") <= limit;
    };
    int e = thrown([&]
        {
            Document d(in, v);
            sym_assert(d.get<int>("x") == x, "contents are taken over");
            sym_assert(d.validate(), "a valid document validates");
            sym_assert(d.contains("id"), "a document has an identity");
            if (withId) sym_assert(d.id() == "mine", "a given identity is kept");
            // later changes are judged by the same validator
            int y = val("y");
            d.insert("x", y);
            sym_assert(thrown([&] { (void)d.validate(); }) == (y <= limit ? 0 : 4), "validation follows the current contents");
            Document c = d;
            sym_assert(c.id() == d.id(), "a copy is the same document");
            sym_assert(thrown([&] { (void)c.validate(); }) == (y <= limit ? 0 : 4), "a copy keeps the validator");
            d.insert("x", limit + 1);
            sym_assert(c.get<int>("x") == y, "a copy has its own contents");
            d.remove("x");
            sym_assert(thrown([&] { (void)d.validate(); }) == 4, "validation follows the current contents");
        });
    sym_assert(e == (has && x <= limit ? 0 : 4), "construction succeeds exactly when the validator accepts");
    sym_assert(calls >= 1 && sawId, "the validator sees the finished document, identity included");
    sym_assert(in.contains("id") == withId && in.contains("x") == has, "the source dictionary is unchanged");
    sym_reach(e ? "rejected" : "accepted");
}
// default validation asks for an identity; name() is the entry called name
ENTRY(c03_default)
{
    std::string nm = symText("len", 2), id = symText("idlen", 1);
    Document given(Dictionary {{"id", std::any(id)}, {"name", std::any(nm)}});
    sym_assert(given.id() == id && given.get<std::string>("id") == id, "a given identity is kept");
    Document d(Dictionary {{"name", std::any(nm)}});
    sym_assert(d.validate(), "a default document is valid");
    sym_assert(name(d) == nm, "name of a document");
    const Document& c = d;
    sym_assert(name(c) == nm, "name of a const document");
    const std::string& held = name(c);
    sym_assert(&held == &c.get<std::string>("name") && &name(d) == &held, "the name is the entry itself");
    (void)name(static_cast<const Document&>(given));
    name(d) = "other";
    sym_assert(name(c) == "other" && held == "other", "name can be changed");
    d.insert("id", id);
    sym_assert(d.id() == id && c.validate(), "identity follows the entry");
    d.remove("id");
    sym_assert(thrown([&] { (void)c.validate(); }) == 4, "a document without identity is invalid");
    sym_assert(thrown([&] { (void)c.id(); }) == 1, "no identity to read");
    Document e;
    sym_assert(thrown([&] { (void)name(e); }) == 1, "a document without name reports it");
    sym_assert(!hasId(Dictionary {}) && hasId(e), "hasId");
    e.insert("id", 5);
    sym_assert(thrown([&] { (void)e.id(); }) == 2, "an identity that is not text is refused");
    sym_reach("end");
}
namespace
{
struct Slot { Document* d[2]; };
struct Ctx { Slot* s; int n; };
void create(void* c, size_t t)
{
    auto* x = static_cast<Ctx*>(c);
    for (int i = 0; i < x->n; i++) x->s[t].d[i] = i % 2 ? new Document() : new Document(Dictionary {{"t", std::any((int)t)}});
}
}
// documents created at the same time by several threads have different identities
ENTRY(c03_concurrent)
{
    sym_sched_mode(3);
    Document first;
    const int T = TIER(2, 3), N = TIER(2, 1);
    Slot s[3] = {};
    Ctx c {s, N};
    nfk_parfor(&create, &c, 0, (size_t)T, 1);
    std::vector<Document*> all {&first};
    for (int t = 0; t < T; t++) for (int i = 0; i < N; i++) all.push_back(s[t].d[i]);
    for (size_t i = 0; i < all.size(); i++)
        for (size_t j = 0; j < i; j++) sym_assert(all[i]->id() != all[j]->id(), "concurrently created documents never share an identity");
    for (size_t i = 1; i < all.size(); i++) delete all[i];
    sym_reach("end");
}
// long runs: the number of identities handed out is set forward when it is where it used to be
extern std::atomic<int> handedOut asm("_ZZN7NeoFOAM8Document10generateIDB5cxx11EvE7counter") __attribute__((weak));
ENTRY(c03_late)
{
    static const int at[] = {99, 255, 256, 999, 1000, 4095, 9999, 32767, 32768, 65535, 65536, 99999, 100000, 999999, 1000000, 16777215, 16777216, 99999999, 1000000000, 2147483640};
    std::set<std::string> ids;
    int n = 0;
    auto create = [&]
    {
        Document d;
        ids.insert(d.id());
        n++;
    };
    for (int i = 0; i < 5; i++) create();
    for (int x : at)
    {
        if (!&handedOut) break;
        if (handedOut > x) continue;
        handedOut = x;
        for (int i = 0; i < 4; i++) create();
    }
    sym_assert((int)ids.size() == n, "two documents never share a created identity");
    sym_reach("end");
}
// many documents in one process
ENTRY(c03_many)
{
    std::set<std::string> ids;
    int n = TIER(300, 1200), at = (int)sym_choose("at", 0, 2) * (n / 3);
    std::string kept;
    for (int i = 0; i < n; i++)
    {
        Document d = i % 2 ? Document() : Document(Dictionary {{"x", std::any(i)}});
        if (i == at) kept = d.id();
        sym_assert(ids.insert(d.id()).second, "two documents never share a created identity");
    }
    sym_assert(ids.count(kept) == 1 && (int)ids.size() == n, "every document has its identity");
    sym_reach("end");
}
// identities of any content are kept as they are
ENTRY(c03_words)
{
    auto id = sym_bytes_of("id", TIER(8, 14)), other = sym_bytes_of("name", TIER(3, 6));
    Dictionary in {{"id", std::any(id)}, {"name", std::any(other)}, {"n", std::any(1)}};
    Document d(in);
    sym_assert(d.id() == id && d.get<std::string>("id") == id, "a given identity is kept");
    sym_assert(name(d) == other && d.keys().size() == 3 && d.get<int>("n") == 1, "contents are taken over");
    Document again(d), third = Document(static_cast<const Dictionary&>(d), [](Dictionary) { return true; });
    sym_assert(again.id() == id && third.id() == id && third.keys().size() == 3, "a given identity is kept");
    // a dictionary without identity receives one, whatever else it holds
    auto key = sym_bytes_of("key", 3);
    Dictionary x;
    x.insert(key, std::string("doc_0"));
    Document e(x), f(x);
    bool own = key == "id";
    sym_assert(e.get<std::string>(key) == "doc_0" && e.keys().size() == (own ? 1u : 2u), "contents are taken over");
    sym_assert(own ? e.id() == "doc_0" && f.id() == "doc_0" : e.id() != f.id(), "a document without identity receives a new one");
    sym_reach(own ? "own" : "new");
}
// assigned and moved documents have identity, contents and validator of their source
ENTRY(c03_assign)
{
    int la = val("limit"), lb = val("limit"), a = val("a"), b = val("b");
    sym_assume(a <= la);
    sym_assume(b <= lb);
    bool idA = sym_choose("idA", 0, 1), idB = sym_choose("idB", 0, 1);
    auto mk3 = [](int limit, int v, bool given, const char* id, const char* extra)
    {
        Dictionary d {{"x", std::any(v)}, {extra, std::any(1)}};
        if (given) d.insert("id", std::string(id));
        return Document(d, [limit](Dictionary q) { return q.contains("x") && q.get<int>("x") <= limit; });
    };
    Document p = mk3(la, a, idA, "p", "onlyP"), q = mk3(lb, b, idB, "q", "onlyQ");
    std::string ip = p.id(), iq = q.id();
    int y = val("y");
    auto is = [&](Document& d, const std::string& id, int v, int limit, const char* extra)
    {
        sym_assert(d.id() == id && d.get<int>("x") == v && d.keys().size() == 3 && d.contains(extra), "identity and contents of an assigned document");
        d.insert("x", y);
        sym_assert(thrown([&] { (void)d.validate(); }) == (y <= limit ? 0 : 4), "validator of an assigned document");
        d.insert("x", v);
        sym_assert(d.validate(), "an assigned document is valid");
    };
    switch (sym_choose("how", 0, 5))
    {
    case 0: p = q; is(p, iq, b, lb, "onlyQ"); is(q, iq, b, lb, "onlyQ"); break;
    case 1: p = std::move(q); is(p, iq, b, lb, "onlyQ"); break;
    case 2: std::swap(p, q); is(p, iq, b, lb, "onlyQ"); is(q, ip, a, la, "onlyP"); break;
    case 3: { auto& r = p; p = r; is(p, ip, a, la, "onlyP"); break; }
    case 4: { Document m(std::move(p)); is(m, ip, a, la, "onlyP"); p = m; is(p, ip, a, la, "onlyP"); break; }
    case 5:
    {
        std::vector<Document> v {p, q};
        v.push_back(p);
        v.insert(v.begin(), q);
        is(v[0], iq, b, lb, "onlyQ");
        is(v[1], ip, a, la, "onlyP");
        is(v[2], iq, b, lb, "onlyQ");
        is(v[3], ip, a, la, "onlyP");
        break;
    }
    }
    sym_reach("end");
}
// documents with many entries
ENTRY(c03_large)
{
    const int n = (int)sym_choose("size", 0, TIER(4, 8)) * 33;
    int limit = val("limit"), v = val("v");
    bool given = sym_choose("given", 0, 1);
    Dictionary in;
    for (int i = 0; i < n; i++) in.insert("key" + std::to_string(i), i);
    in.insert("x", v);
    if (given) in.insert("id", std::string("mine"));
    size_t seen = 0;
    auto judge = [&](Dictionary d) { seen = d.keys().size(); return d.contains("id") && d.get<int>("x") <= limit; };
    int e = thrown([&]
        {
            Document d(in, judge);
            sym_assert(d.keys().size() == (size_t)n + 2 && (!given || d.id() == "mine"), "contents are taken over");
            for (int i = 0; i < n; i++) sym_assert(d.get<int>("key" + std::to_string(i)) == i, "contents are taken over");
            int w = val("w");
            d.get<int>("x") = w;
            sym_assert(thrown([&] { (void)d.validate(); }) == (w <= limit ? 0 : 4), "validation follows the current contents");
            d.remove("id");
            sym_assert(thrown([&] { (void)d.validate(); }) == 4, "validation follows the current contents");
        });
    sym_assert(e == (v <= limit ? 0 : 4) && seen + (e == 0) == (size_t)n + 2, "the validator judges the finished contents");
    sym_reach(e ? "refused" : "accepted");
}
