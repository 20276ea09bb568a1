// Database, Collection: named heterogeneous collections of documents.
#include "inc/util.hpp"
#include "NeoFOAM/core/database/database.hpp"
#include "NeoFOAM/core/database/collection.hpp"
using namespace NeoFOAM;
namespace
{
int val(const char* n) { return (int)sym_i64(n, 0, 127); }
struct Doc
{
    Document d;
    Doc(const Document& x) : d(x) {}
    std::string id() const { return d.id(); }
    static std::string typeName() { return "Doc"; }
    Document& doc() { return d; }
    const Document& doc() const { return d; }
};
struct Coll : CollectionMixin<Doc>
{
    int tag = 0;
    Coll(Database& db, std::string n, int t = 0) : CollectionMixin<Doc>(db, n), tag(t) {}
    std::string insert(const Doc& x) { std::string i = x.id(); docs_.emplace(i, x); return i; }
    bool contains(const std::string& i) const { return docs_.contains(i); }
};
struct Other
{
    Database* d;
    Document x;
    Document& doc(const std::string&) { return x; }
    const Document& doc(const std::string&) const { return x; }
    std::vector<std::string> find(const std::function<bool(const Document&)>&) const { return {"other"}; }
    size_t size() const { return 7; }
    std::string type() const { return "Other"; }
    std::string name() const { return "the other"; }
    Database& db() { return *d; }
    const Database& db() const { return *d; }
};
Document mkDoc(int v) { return Document(Dictionary {{"v", std::any(v)}}); }
}
// histories of insertion and removal of collections under three names
ENTRY(c04_database)
{
    Database db;
    const Database& c = db;
    const std::vector<std::string> names = {"p", "", "a collection name that is long enough"};
    int tag[3] = {-1, -1, -1};
    const Collection* addr[3] = {};
    int n = TIER(4, 5);
    for (int i = 0; i < n; i++)
    {
        int k = (int)sym_choose("name", 0, TIER(1, 2));
        if (sym_choose("op", 0, 1))
        {
            int t = val("tag");
            bool was = tag[k] >= 0;
            Collection& r = db.insert(names[k], Coll(db, names[k] + "!", t));
            if (!was) { tag[k] = t; addr[k] = &r; }
            sym_assert(&r == addr[k], "insertion returns the collection stored under that name");
        }
        else
        {
            bool was = tag[k] >= 0;
            sym_assert(db.remove(names[k]) == was, "removal tells whether there was something to remove");
            tag[k] = -1;
        }
        size_t count = 0;
        for (int j = 0; j < 3; j++)
        {
            bool in = tag[j] >= 0;
            count += in;
            sym_assert(c.contains(names[j]) == in, "contains");
            sym_assert(thrown([&] { (void)db.at(names[j]); }) == (in ? 0 : 1), "access to a missing collection is reported");
            sym_assert(thrown([&] { (void)c.at(names[j]); }) == (in ? 0 : 1), "access to a missing collection is reported");
            sym_assert(thrown([&] { (void)db.at<Coll>(names[j]); }) == (in ? 0 : 1), "typed access to a missing collection is reported");
            if (!in) continue;
            sym_assert(&db.at(names[j]) == addr[j] && &c.at(names[j]) == addr[j], "a stored collection stays where it is");
            sym_assert(db.at<Coll>(names[j]).tag == tag[j], "an existing collection is not replaced by a later insertion");
            sym_assert(thrown([&] { (void)db.at<Other>(names[j]); }) == 3, "access as another type is refused");
            sym_assert(db.at(names[j]).name() == names[j] + "!", "a collection keeps its own name");
        }
        sym_assert(c.size() == count, "size");
    }
    sym_observe_i("size", (int64_t)db.size());
    sym_reach("end");
}
// documents of a collection: by identity, by predicate, counted, sorted
ENTRY(c04_collection)
{
    Database db;
    Collection& col = db.insert("c", Coll(db, "c"));
    const Collection& cc = col;
    Coll& own = col.as<Coll>();
    int n = TIER(3, 4);
    std::vector<std::string> ids;
    std::vector<int> v;
    int limit = val("limit");
    for (int i = 0; i < n; i++)
    {
        int x = val("v");
        v.push_back(x);
        if (i == 1)
        { // a chosen identity that sorts before the created ones
            Document d(Dictionary {{"id", std::any(std::string("aa"))}, {"v", std::any(x)}});
            ids.push_back(own.insert(d));
        }
        else ids.push_back(own.insert(mkDoc(x)));
    }
    sym_assert(cc.size() == (size_t)n && own.size() == (size_t)n, "every document is counted");
    for (int i = 0; i < n; i++)
    {
        sym_assert(col.doc(ids[i]).get<int>("v") == v[i], "a document is found by its identity");
        sym_assert(cc.doc(ids[i]).id() == ids[i] && own.doc(ids[i]).id() == ids[i], "identity of a document");
    }
    auto f = cc.find([&](const Document& d) { return d.get<int>("v") <= limit; });
    size_t want = 0;
    for (int i = 0; i < n; i++)
    {
        int k = 0;
        for (auto& x : f) k += x == ids[i];
        sym_assert(k == (v[i] <= limit ? 1 : 0), "find returns exactly the identities of the matching documents");
        want += v[i] <= limit;
    }
    sym_assert(f.size() == want, "find returns nothing else");
    auto s = own.sortedKeys();
    sym_assert(s.size() == (size_t)n, "sortedKeys lists every document");
    for (size_t i = 1; i < s.size(); i++) sym_assert(s[i - 1] < s[i], "sortedKeys is sorted");
    for (auto& x : ids)
    {
        int k = 0;
        for (auto& y : s) k += x == y;
        sym_assert(k == 1, "sortedKeys lists every document");
    }
    col.doc(ids[0]).insert("v", 500);
    sym_assert(own.doc(ids[0]).get<int>("v") == 500, "documents are shared, not copied");
    sym_assert(thrown([&] { (void)col.doc("missing"); }) == 1 && thrown([&] { (void)cc.doc("missing"); }) == 1, "an unknown identity is reported");
    sym_assert(&col.db() == &db && &cc.db() == &db, "a collection knows its database");
    sym_assert(cc.name() == "c" && cc.type() == "Doc", "name and type of a collection");
    sym_observe_i("found", (int64_t)f.size());
    sym_reach("end");
}
// the type-erased wrapper forwards to the stored object and hands out only its real type
ENTRY(c04_erasure)
{
    Database db;
    int t = val("t");
    Collection a(Coll(db, "a", t));
    Collection b(Other {&db, mkDoc(t)});
    sym_assert(thrown([&] { (void)a.as<Other>(); }) == 3 && thrown([&] { (void)b.as<Coll>(); }) == 3, "a wrong type is refused");
    const Collection& ca = a;
    const Collection& cb = b;
    sym_assert(thrown([&] { (void)ca.as<Other>(); }) == 3 && thrown([&] { (void)cb.as<Coll>(); }) == 3, "a wrong type is refused");
    sym_assert(a.as<Coll>().tag == t && ca.as<Coll>().tag == t, "the stored object is handed out");
    a.as<Coll>().tag = 200;
    sym_assert(ca.as<Coll>().tag == 200, "the stored object is handed out by reference");
    sym_assert(b.size() == 7 && b.type() == "Other" && b.name() == "the other" && cb.find([](const Document&) { return true; }).at(0) == "other", "calls are forwarded");
    sym_assert(b.doc("x").get<int>("v") == t && &b.db() == &db, "calls are forwarded");
    Collection m(std::move(a));
    sym_assert(m.as<Coll>().tag == 200 && m.size() == 0, "moving keeps the stored object");
    b = std::move(m);
    sym_assert(b.type() == "Doc" && b.as<Coll>().tag == 200, "move assignment");
    struct R { bool r; bool registered() const { return r; } } reg {sym_choose("registered", 0, 1) == 1};
    sym_assert(thrown([&] { validateRegistration(reg, "not registered"); }) == (reg.r ? 0 : 4), "unregistered objects are refused");
    sym_reach("end");
}
// many documents and identities of different lengths
ENTRY(c04_many)
{
    Database db;
    Collection& col = db.insert("c", Coll(db, "c"));
    Coll& own = col.as<Coll>();
    int n = TIER(12, 30);
    int limit = val("limit");
    std::vector<std::string> ids;
    for (int i = 0; i < n; i++)
    {
        ids.push_back(own.insert(mkDoc(i * 9)));
        sym_assert(own.size() == (size_t)i + 1, "every document is counted");
    }
    std::string extra[] = {"", "a", "aa", "ab", "b", "z", "zz", "document"};
    int a = (int)sym_choose("chosen", 0, 7);
    ids.push_back(own.insert(Document(Dictionary {{"id", std::any(extra[a])}, {"v", std::any(1)}})));
    auto s = own.sortedKeys();
    sym_assert(s.size() == ids.size(), "sortedKeys lists every document");
    for (size_t i = 1; i < s.size(); i++) sym_assert(s[i - 1] < s[i], "sortedKeys is sorted");
    for (size_t i = 0; i < ids.size(); i++)
    {
        int v = i < (size_t)n ? (int)i * 9 : 1;
        sym_assert(col.doc(ids[i]).get<int>("v") == v, "a document is found by its identity");
    }
    auto f = col.find([&](const Document& d) { return d.get<int>("v") <= limit; });
    size_t want = 1 <= limit;
    for (int i = 0; i < n; i++) want += i * 9 <= limit;
    sym_assert(f.size() == want, "find returns exactly the identities of the matching documents");
    for (auto& x : f) sym_assert(col.doc(x).get<int>("v") <= limit, "find returns exactly the identities of the matching documents");
    sym_reach("end");
}
// many collections
ENTRY(c04_wide)
{
    Database db;
    const Database& c = db;
    int n = TIER(18, 40);
    std::vector<const Collection*> addr;
    for (int i = 0; i < n; i++)
    {
        Collection& r = db.insert("c" + std::to_string(i), Coll(db, "n" + std::to_string(i), i));
        addr.push_back(&r);
        sym_assert(c.size() == (size_t)i + 1, "size");
    }
    int r = (int)sym_choose("removed", 0, n - 1), again = (int)sym_choose("again", 0, 2), t = val("tag");
    std::string name = "c" + std::to_string(r);
    sym_assert(db.remove(name) && !db.remove(name), "removal tells whether there was something to remove");
    if (again == 1) db.insert(name, Coll(db, "new", t));
    if (again == 2) db.insert("c" + std::to_string((r + 1) % n), Coll(db, "new", t));
    for (int i = 0; i < n; i++)
    {
        std::string k = "c" + std::to_string(i);
        bool in = i != r || again == 1;
        sym_assert(c.contains(k) == in, "contains");
        if (!in) { sym_assert(thrown([&] { (void)c.at(k); }) == 1, "access to a missing collection is reported"); continue; }
        if (i != r) sym_assert(&c.at(k) == addr[(size_t)i], "a stored collection stays where it is");
        sym_assert(db.at<Coll>(k).tag == (i == r ? t : i), "an existing collection is not replaced by a later insertion");
        sym_assert(c.at(k).name() == (i == r ? "new" : "n" + std::to_string(i)), "a collection keeps its own name");
    }
    sym_assert(c.size() == (size_t)n - (again == 1 ? 0 : 1), "size");
    sym_reach("end");
}

// collections of different types, empty or not, under one name
ENTRY(c04_types)
{
    Database db;
    int kind = -1, tag = 0; // what is stored: 0 an empty collection, 1 one with documents, 2 another type
    const Collection* at = nullptr;
    int n = TIER(4, 5);
    for (int i = 0; i < n; i++)
    {
        int op = (int)sym_choose("op", 0, 3);
        if (op == 3)
        {
            sym_assert(db.remove("c") == (kind >= 0), "removal tells whether there was something to remove");
            kind = -1;
        }
        else
        {
            int t = val("tag");
            Collection* r;
            if (op == 2) r = &db.insert("c", Other {&db, mkDoc(t)});
            else
            {
                Coll c(db, "c", t);
                if (op == 1) for (int k = 0; k < 3; k++) c.insert(mkDoc(k));
                r = &db.insert("c", std::move(c));
            }
            if (kind < 0) { kind = op; tag = t; at = r; }
            sym_assert(r == at, "insertion returns the collection stored under that name");
        }
        sym_assert(db.contains("c") == (kind >= 0) && db.size() == (kind >= 0 ? 1u : 0u), "exactly the collections inserted and not removed");
        sym_assert(thrown([&] { (void)db.at("c"); }) == (kind >= 0 ? 0 : 1), "access to a missing collection is reported");
        sym_assert(thrown([&] { (void)db.at<Coll>("c"); }) == (kind < 0 ? 1 : kind == 2 ? 3 : 0), "access as another type is refused");
        sym_assert(thrown([&] { (void)db.at<Other>("c"); }) == (kind < 0 ? 1 : kind == 2 ? 0 : 3), "access as another type is refused");
        if (kind < 0) continue;
        const Collection& c = db.at("c");
        sym_assert(&c == at, "a stored collection stays where it is");
        sym_assert(c.type() == (kind == 2 ? "Other" : "Doc") && c.size() == (kind == 2 ? 7u : kind == 1 ? 3u : 0u), "an existing collection is not replaced by a later insertion");
        if (kind == 2) sym_assert(db.at<Other>("c").x.get<int>("v") == tag, "an existing collection is not replaced by a later insertion");
        else sym_assert(db.at<Coll>("c").tag == tag, "an existing collection is not replaced by a later insertion");
    }
    sym_reach("end");
}
// identities and predicates of any kind
ENTRY(c04_identities)
{
    Database db;
    Collection& col = db.insert("c", Coll(db, "c"));
    Coll& own = col.as<Coll>();
    const int n = 3;
    std::vector<std::string> ids;
    for (int i = 0; i < n; i++)
    {
        std::string id = symText("len", TIER(1, 2), i < 2);
        for (auto& x : ids) sym_assume(x != id);
        ids.push_back(id);
        Dictionary d {{"v", std::any(i)}};
        d.insert("id", id);
        sym_assert(own.insert(Document(d)) == id, "a document is stored under its identity");
    }
    for (int i = 0; i < n; i++) sym_assert(col.doc(ids[(size_t)i]).get<int>("v") == i && own.contains(ids[(size_t)i]), "a document is found by its identity");
    auto s = own.sortedKeys();
    sym_assert(s.size() == n && s[0] < s[1] && s[1] < s[2], "sortedKeys is sorted");
    for (auto& x : ids) sym_assert(x == s[0] || x == s[1] || x == s[2], "sortedKeys lists every document");
    // an arbitrary set of documents
    int set = (int)sym_choose("set", 0, 7);
    const Collection& c = col;
    auto f = c.find([&](const Document& d) { return (set >> d.get<int>("v") & 1) != 0; });
    size_t want = 0;
    for (int i = 0; i < n; i++)
    {
        int k = 0;
        for (auto& x : f) k += x == ids[(size_t)i];
        sym_assert(k == (set >> i & 1), "find returns exactly the identities of the matching documents");
        want += (size_t)(set >> i & 1);
    }
    sym_assert(f.size() == want, "find returns nothing else");
    sym_reach("end");
}
// hundreds of documents
ENTRY(c04_hundreds)
{
    Database db;
    Collection& col = db.insert("c", Coll(db, "c"));
    Coll& own = col.as<Coll>();
    const int n = TIER(300, 1100);
    std::vector<std::string> ids;
    for (int i = 0; i < n; i++) ids.push_back(own.insert(mkDoc(i)));
    sym_assert(col.size() == (size_t)n, "every document is counted");
    int step = (int)sym_choose("step", 1, 3);
    auto f = col.find([&](const Document& d) { return d.get<int>("v") % step == 0; });
    sym_assert(f.size() == (size_t)((n + step - 1) / step), "find returns exactly the identities of the matching documents");
    for (auto& x : f) sym_assert(col.doc(x).get<int>("v") % step == 0, "find returns exactly the identities of the matching documents");
    auto s = own.sortedKeys();
    sym_assert(s.size() == (size_t)n, "sortedKeys lists every document");
    for (size_t i = 1; i < s.size(); i++) sym_assert(s[i - 1] < s[i], "sortedKeys is sorted");
    for (int i = 0; i < n; i++) sym_assert(col.doc(ids[(size_t)i]).get<int>("v") == i, "a document is found by its identity");
    sym_reach("end");
}

// names and identities close to stored ones
ENTRY(c04_near)
{
    Database db;
    const Database& c = db;
    std::string k = sym_choose("key", 0, 1) ? "fieldCollection" : "old_time";
    auto others = nearTexts(k);
    std::string o = others[(size_t)sym_choose("near", 0, (int)others.size() - 1)];
    Collection& a = db.insert(k, Coll(db, k, 1));
    sym_assert(!c.contains(o) && !db.remove(o) && c.size() == 1, "exactly the collections inserted");
    sym_assert(thrown([&] { (void)db.at(o); }) == 1 && thrown([&] { (void)c.at(o); }) == 1 && thrown([&] { (void)db.at<Coll>(o); }) == 1, "access to a missing collection is reported");
    Collection& b = db.insert(o, Coll(db, o, 2));
    sym_assert(&a != &b && c.size() == 2 && db.at<Coll>(k).tag == 1 && db.at<Coll>(o).tag == 2, "every name has its own collection");
    Coll& x = a.as<Coll>();
    Dictionary d;
    d.insert("id", k);
    x.insert(Document(d));
    sym_assert(thrown([&] { (void)a.doc(o); }) == 1 && a.doc(k).id() == k, "an unknown identity is reported");
    sym_assert(thrown([&] { (void)static_cast<const Collection&>(a).doc(o); }) == 1, "an unknown identity is reported");
    sym_assert(db.remove(k) && c.contains(o) && c.size() == 1, "exactly the removed collection is gone");
    sym_reach("end");
}
// names and identities of any content
ENTRY(c04_words)
{
    auto k = sym_bytes_of("stored", TIER(8, 14)), q = sym_bytes_of("asked", TIER(8, 14));
    bool same = k == q;
    Database db;
    int t = val("tag"), u = val("tag");
    db.insert(k, Coll(db, k, t));
    const Database& c = db;
    sym_assert(db.contains(q) == same && thrown([&] { (void)db.at(q); }) == (same ? 0 : 1) && thrown([&] { (void)c.at(q); }) == (same ? 0 : 1), "a collection is found exactly under its name");
    sym_assert(thrown([&] { (void)db.at<Coll>(q); }) == (same ? 0 : 1), "a collection is found exactly under its name");
    sym_assert(db.at(k).name() == k && db.at<Coll>(k).tag == t && db.size() == 1, "a collection keeps its own name");
    if (sym_choose("op", 0, 1))
    {
        auto& r = db.insert(q, Coll(db, q, u));
        sym_assert(db.size() == (same ? 1u : 2u) && db.at<Coll>(k).tag == t && db.at<Coll>(q).tag == (same ? t : u) && &r == &db.at(q), "an existing collection is not replaced by a later insertion");
    }
    else
    {
        sym_assert(db.remove(q) == same && db.contains(k) == !same && db.size() == (same ? 0u : 1u), "exactly the collection of that name is removed");
    }
    sym_reach(same ? "same" : "different");
}
ENTRY(c04_ids)
{
    auto k = sym_bytes_of("stored", TIER(8, 14)), q = sym_bytes_of("asked", TIER(8, 14));
    bool same = k == q;
    Database db;
    Collection& col = db.insert("c", Coll(db, "c"));
    const Collection& cc = col;
    Coll& own = col.as<Coll>();
    int v = val("v");
    sym_assert(own.insert(Document(Dictionary {{"id", std::any(k)}, {"v", std::any(v)}})) == k, "a given identity is kept");
    sym_assert(thrown([&] { (void)col.doc(q); }) == (same ? 0 : 1) && thrown([&] { (void)cc.doc(q); }) == (same ? 0 : 1) && thrown([&] { (void)own.doc(q); }) == (same ? 0 : 1), "a document is found exactly by its identity");
    auto f = cc.find([](const Document&) { return true; });
    sym_assert(f.size() == 1 && f[0] == k && own.sortedKeys() == f && cc.doc(k).get<int>("v") == v, "a document keeps its identity");
    sym_reach(same ? "same" : "different");
}
// the last document asked for has no influence on the next answer
ENTRY(c04_lookups)
{
    Database da, db;
    Collection& a = da.insert("c", Coll(da, "c"));
    Collection& b = db.insert("c", Coll(db, "c"));
    Collection& a2 = da.insert("d", Coll(da, "d"));
    Collection* all[] = {&a, &b, &a2};
    int v[3][2];
    for (int i = 0; i < 3; i++)
        for (int k = 0; k < 2; k++)
        {
            v[i][k] = val("v");
            all[i]->as<Coll>().insert(Document(Dictionary {{"id", std::any(std::string(k ? "y" : "x"))}, {"v", std::any(v[i][k])}}));
        }
    for (int n = 0; n < TIER(3, 4); n++)
    {
        int i = (int)sym_choose("collection", 0, 2), k = (int)sym_choose("document", 0, 1);
        std::string id = k ? "y" : "x";
        if (sym_choose("const", 0, 1)) sym_assert(std::as_const(*all[i]).doc(id).get<int>("v") == v[i][k], "every collection has its own documents");
        else
        {
            sym_assert(all[i]->doc(id).get<int>("v") == v[i][k], "every collection has its own documents");
            v[i][k] = val("w");
            all[i]->doc(id).insert("v", v[i][k]);
        }
        sym_assert(&all[i]->doc(id) == &all[i]->as<Coll>().doc(id), "a document is handed out by reference");
    }
    sym_assert(da.remove("c") && thrown([&] { (void)da.at("c"); }) == 1, "a removed collection is gone");
    for (int i = 1; i < 3; i++) for (int k = 0; k < 2; k++) sym_assert(all[i]->doc(k ? "y" : "x").get<int>("v") == v[i][k], "other collections stay");
    Collection& fresh = da.insert("c", Coll(da, "c"));
    sym_assert(fresh.size() == 0 && thrown([&] { (void)fresh.doc("x"); }) == 1 && thrown([&] { (void)fresh.doc("y"); }) == 1, "a new collection is empty");
    sym_reach("end");
}
