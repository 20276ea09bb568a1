// Registered fields and their old states.
#include "inc/fvfield.hpp"
#include "NeoFOAM/core/database/fieldCollection.hpp"
#include "NeoFOAM/core/database/oldTimeCollection.hpp"
#include <optional>
using NF::Database;
using NF::Document;
template<class T> using VolOf = fvcc::VolumeField<T>;
using Vol = VolOf<scalar>;
using VVol = VolOf<Vector>;
namespace
{
constexpr int64_t none = std::numeric_limits<int64_t>::max();
struct Idx { int64_t t, i, s; };
int64_t symIdx(const char* n) { return sym_i64(n, -9000000000000000000, 9000000000000000000); }
Idx symIdxs()
{
    int64_t a = symIdx("timeIndex"), b = symIdx("iterationIndex"), c = symIdx("subCycleIndex");
    return {a, b, c};
}
template<class T> std::vector<fvcc::VolumeBoundary<T>> zeroGradient(const UnstructuredMesh& m)
{
    std::vector<fvcc::VolumeBoundary<T>> r;
    for (size_t p = 0; p < m.nBoundaries(); p++)
    {
        Dictionary d;
        d.insert("type", std::string("extrapolated"));
        r.push_back(fvcc::VolumeBoundary<T>(m, d, p));
    }
    return r;
}
// an unregistered field with arbitrary contents
template<class T> VolOf<T> fresh(const UnstructuredMesh& m, Database& db, const std::string& nm, const Data<T>& d)
{
    NF::DomainField<T> df(m.exec(), Field<T>(m.exec(), d.in), m.boundaryMesh().offset());
    VolOf<T> f(m.exec(), nm, m, df, zeroGradient<T>(m), db, "", "");
    setField(f.boundaryField().value(), d.val);
    setField(f.boundaryField().refValue(), d.refVal);
    setField(f.boundaryField().refGrad(), d.refGrad);
    setField(f.boundaryField().valueFraction(), d.vf);
    return f;
}
template<class T> struct Make
{
    const UnstructuredMesh& m;
    std::string nm;
    Data<T> d;
    Idx x;
    bool viaDocument;
    fvcc::FieldDocument operator()(Database& db)
    {
        auto f = fresh<T>(m, db, nm, d);
        if (viaDocument)
            return Document({{"name", f.name}, {"timeIndex", x.t}, {"iterationIndex", x.i}, {"subCycleIndex", x.s}, {"field", f}}, fvcc::validateFieldDoc);
        return fvcc::FieldDocument(f, x.t, x.i, x.s);
    }
};
template<class T> void holds(const VolOf<T>& f, const Data<T>& d, const char* m)
{
    eqAll(host(f.internalField()), d.in, m);
    eqAll(host(f.boundaryField().value()), d.val, m);
    eqAll(host(f.boundaryField().refValue()), d.refVal, m);
    eqAll(host(f.boundaryField().refGrad()), d.refGrad, m);
    eqAll(host(f.boundaryField().valueFraction()), d.vf, m);
}
void indexed(const fvcc::FieldDocument& d, const std::string& nm, Idx x, const char* m)
{
    sym_assert(d.name() == nm, m);
    sym_assert(d.timeIndex() == x.t, m);
    sym_assert(d.iterationIndex() == x.i, m);
    sym_assert(d.subCycleIndex() == x.s, m);
}
Topo tinyTopo() { return symTopo(2, 1, 1); }
}
// fields registered one after another are found under their key, with their contents, for good
ENTRY(c26_register)
{
    Executor e = symExec();
    auto t = tinyTopo();
    auto m = mkMesh(e, t, plainGeo(t));
    Database db;
    auto& fc = fvcc::FieldCollection::instance(db, "fields");
    sym_assert(&fvcc::FieldCollection::instance(db, "fields") == &fc && fc.name() == "fields" && &fc.db() == &db && fc.size() == 0, "a collection is made once");
    auto& others = fvcc::FieldCollection::instance(db, "others");
    struct Rec { bool vec; std::string nm, key; Idx x; Data<scalar> s; Data<Vector> v; void* at; };
    std::vector<Rec> recs;
    int n = (int)sym_choose("fields", 1, TIER(2, 3));
    for (int k = 0; k < n; k++)
    {
        Rec r {(bool)sym_choose("vector", 0, 1), symText("name", 1, k == 0), "", symIdxs(), {}, {}, nullptr};
        bool doc = sym_choose("document", 0, 1);
        if (r.vec)
        {
            r.v = symData<Vector>(t);
            auto& f = fc.registerField<VVol>(Make<Vector> {m, r.nm, r.v, r.x, doc});
            r.at = &f;
            r.key = f.key;
            sym_assert(f.registered() && f.fieldCollectionName == "fields" && &f.db() == &db && f.name == r.nm, "a registered field knows where it is");
            sym_assert(&fvcc::FieldCollection::instance(f) == &fc && &fvcc::FieldCollection::instance(std::as_const(f)) == &fc, "a registered field finds its collection");
        }
        else
        {
            r.s = symData<scalar>(t);
            auto& f = fc.registerField<Vol>(Make<scalar> {m, r.nm, r.s, r.x, doc});
            r.at = &f;
            r.key = f.key;
            sym_assert(f.registered() && f.fieldCollectionName == "fields" && &f.db() == &db && f.name == r.nm, "a registered field knows where it is");
            sym_assert(&fvcc::FieldCollection::instance(f) == &fc && &fvcc::FieldCollection::instance(std::as_const(f)) == &fc, "a registered field finds its collection");
        }
        recs.push_back(r);
    }
    sym_assert(fc.size() == (size_t)n && others.size() == 0, "every registered field is there once");
    for (auto& r : recs)
    {
        sym_assert(fc.contains(r.key) && !others.contains(r.key), "a registered field is found by its key");
        auto& d = fc.fieldDoc(r.key);
        sym_assert(d.id() == r.key, "the key of a field is the identity of its document");
        indexed(d, r.nm, r.x, "what is stored with a field");
        const auto& cd = std::as_const(fc).fieldDoc(r.key);
        sym_assert(&cd == &d, "a document is stored once");
        if (r.vec)
        {
            sym_assert(&d.field<VVol>() == r.at && &cd.field<VVol>() == r.at, "a registered field stays where it is");
            holds(d.field<VVol>(), r.v, "contents of a registered field");
            sym_assert(thrown([&] { (void)d.field<Vol>(); }) == 2, "a field of another type is refused");
        }
        else
        {
            sym_assert(&d.field<Vol>() == r.at && &cd.field<Vol>() == r.at, "a registered field stays where it is");
            holds(d.field<Vol>(), r.s, "contents of a registered field");
            sym_assert(thrown([&] { (void)d.field<VVol>(); }) == 2, "a field of another type is refused");
        }
        auto hits = fc.find([&](const Document& x) { return NF::name(x) == r.nm; });
        size_t want = 0;
        for (auto& o : recs) want += o.nm == r.nm;
        sym_assert(hits.size() == want, "fields are found by their name");
        bool in = false;
        for (auto& h : hits) in |= h == r.key;
        sym_assert(in, "a field is found by its name");
    }
    // changing the stored data of one leaves the others
    auto& d0 = fc.fieldDoc(recs[0].key);
    d0.timeIndex()++;
    d0.iterationIndex() += 2;
    d0.subCycleIndex() += 3;
    d0.name() = "renamed";
    indexed(d0, "renamed", {recs[0].x.t + 1, recs[0].x.i + 2, recs[0].x.s + 3}, "changed data of a field");
    for (int k = 1; k < n; k++) indexed(fc.fieldDoc(recs[k].key), recs[k].nm, recs[k].x, "data of another field");
    sym_assert(thrown([&] { (void)fc.fieldDoc("none"); }) == 1 && thrown([&] { (void)others.fieldDoc(recs[0].key); }) == 1, "an unknown key is refused");
    sym_reach("end");
}
// what must be refused, and that nothing is left behind
ENTRY(c26_refuse)
{
    Executor e = symExec();
    auto t = tinyTopo();
    auto m = mkMesh(e, t, plainGeo(t));
    Database db;
    auto& fc = fvcc::FieldCollection::instance(db, "fields");
    auto d = symData<scalar>(t);
    auto f = fresh<scalar>(m, db, "f", d);
    // any subset of the entries
    const char* names[] = {"name", "timeIndex", "iterationIndex", "subCycleIndex", "field"};
    int given = (int)sym_choose("given", 0, 31);
    Idx at = symIdxs();
    auto make = [&](Database&) -> fvcc::FieldDocument
    {
        Dictionary x;
        if (given & 1) x.insert(names[0], f.name);
        if (given & 2) x.insert(names[1], at.t);
        if (given & 4) x.insert(names[2], at.i);
        if (given & 8) x.insert(names[3], at.s);
        if (given & 16) x.insert(names[4], f);
        return Document(x);
    };
    int err = thrown([&] { fc.registerField<Vol>(make); });
    sym_assert(err == (given == 31 ? 0 : 4), "only complete documents are registered");
    sym_assert(fc.size() == (given == 31 ? 1u : 0u), "a refused field is not registered");
    sym_assert(!f.registered() && thrown([&] { (void)fvcc::FieldCollection::instance(f); }) == 4, "an unregistered field has no collection");
    sym_assert(thrown([&] { (void)fvcc::oldTime(f); }) == 4 && thrown([&] { (void)fvcc::oldTime(std::as_const(f)); }) == 4, "an unregistered field has no old state");
    auto nodb = mkVol<scalar>(e, m, "g", d.in);
    sym_assert(!nodb.hasDatabase() && !nodb.registered() && thrown([&] { (void)nodb.db(); }) == 4, "a field without database");
    // a field is registered when it knows its database, its collection and its key
    {
        NF::DomainField<scalar> df(e, Field<scalar>(e, d.in), m.boundaryMesh().offset());
        bool key = sym_choose("key", 0, 1), coll = sym_choose("collection", 0, 1);
        Vol part(e, "p", m, df, zeroGradient<scalar>(m), db, key ? "k" : "", coll ? "fields" : "");
        sym_assert(part.hasDatabase() && part.registered() == (key && coll), "a registered field has a key and a collection");
        sym_assert(&part.db() == &db && &std::as_const(part).db() == &db, "a field knows its database");
        if (!(key && coll)) sym_assert(thrown([&] { (void)fvcc::FieldCollection::instance(part); }) == 4, "an unregistered field has no collection");
    }
    // the same document twice
    fvcc::FieldDocument same(f, 4, 5, 6);
    auto again = [&](Database&) { return same; };
    auto& g = fc.registerField<Vol>(again);
    size_t n = fc.size();
    setField(g.internalField(), zeros<scalar>(2));
    sym_assert(thrown([&] { fc.registerField<Vol>(again); }) != 0 && fc.size() == n, "a document is registered once");
    eqAll(host(g.internalField()), zeros<scalar>(2), "a refused registration leaves the registered field");
    sym_assert(fc.insert(same) == "" && fc.size() == n, "a document is inserted once");
    sym_assert(thrown([&] { (void)fvcc::FieldCollection::instance(std::as_const(db), "none"); }) == 1, "an unknown collection is refused");
    fvcc::OldTimeCollection::instance(db, "times", "fields");
    sym_assert(thrown([&] { (void)fvcc::FieldCollection::instance(db, "times"); }) != 0, "a collection of another kind is refused");
    sym_reach(given == 31 ? "complete" : "refused");
}
// a copy of a field: contents, boundary data and conditions, indices as given or as the original's
namespace
{
template<class T> void copies()
{
    Executor e = symExec();
    auto t = tinyTopo();
    auto m = mkMesh(e, t, plainGeo(t));
    Database db;
    auto& fc = fvcc::FieldCollection::instance(db, "fields");
    auto d = symData<T>(t);
    Idx x = symIdxs();
    bool reg = sym_choose("registered", 0, 1);
    auto loose = fresh<T>(m, db, "f", d);
    VolOf<T>& f = reg ? fc.registerField<VolOf<T>>(Make<T> {m, "f", d, x, (bool)sym_choose("document", 0, 1)}) : loose;
    int given = (int)sym_choose("given", 0, 7);
    Idx y = symIdxs();
    fvcc::CreateFromExistingField<VolOf<T>> make {.name = "copy", .field = f};
    if (given & 1) make.timeIndex = y.t;
    if (given & 2) make.iterationIndex = y.i;
    if (given & 4) make.subCycleIndex = y.s;
    bool other = sym_choose("elsewhere", 0, 1);
    auto& to = other ? fvcc::FieldCollection::instance(db, "others") : fc;
    auto& c = to.template registerField<VolOf<T>>(make);
    Idx u = reg ? x : Idx {none, none, none};
    indexed(to.fieldDoc(c.key), "copy", {given & 1 ? y.t : u.t, given & 2 ? y.i : u.i, given & 4 ? y.s : u.s}, "data of a copied field");
    sym_assert(c.registered() && c.fieldCollectionName == to.name() && &c.db() == &db && c.name == "copy" && c.exec() == e && &c.mesh() == &f.mesh(), "a copied field");
    sym_assert(&c != &f && c.key != f.key && f.name == "f" && f.registered() == reg, "the original of a copy");
    holds(c, d, "contents of a copied field");
    // both are independent, each with its own boundary conditions
    auto v = symVals<T>("new", 2), w = symVals<T>("other", 2);
    setField(c.internalField(), v);
    holds(f, d, "the original of a changed copy");
    setField(f.internalField(), w);
    c.correctBoundaryConditions();
    eqAll(host(c.internalField()), v, "a copy of a changed original");
    eq(host(c.boundaryField().value())[0], v[(size_t)t.fc[0]], "boundary conditions of a copy");
    eqAll(host(f.boundaryField().value()), d.val, "boundary values of the original");
    f.correctBoundaryConditions();
    eq(host(f.boundaryField().value())[0], w[(size_t)t.fc[0]], "boundary conditions of the original");
    eq(host(c.boundaryField().value())[0], v[(size_t)t.fc[0]], "boundary values of a copy");
    sym_reach("end");
}
}
ENTRY(c26_copy_scalar) { copies<scalar>(); }
ENTRY(c26_copy_vector) { copies<Vector>(); }
// any history of asking for and writing states of two fields
ENTRY(c26_history)
{
    Executor e = symExec();
    Topo t;
    t.nCells = 1;
    t.offset = {0};
    t.nBnd = 1;
    t.fc = {0};
    t.offset = {0, 1};
    auto m = mkMesh(e, t, plainGeo(t));
    Database db;
    auto& fc = fvcc::FieldCollection::instance(db, "fields");
    struct State { Vol* f; std::string nm; Idx x; Data<scalar> d; int old; int next; int level; int current; };
    std::vector<State> st;
    for (int k = 0; k < 2; k++)
    {
        auto d = symData<scalar>(t);
        Idx x = symIdxs();
        std::string nm = k && sym_choose("sameName", 0, 1) == 0 ? "p" : "T";
        Vol* f = &fc.registerField<Vol>(Make<scalar> {m, nm, d, x, false});
        st.push_back({f, nm, x, d, -1, -1, 0, k});
    }
    int ops = TIER(3, 4);
    for (int o = 0; o < ops; o++)
    {
        int k = (int)sym_choose("state", 0, (int)st.size() - 1);
        Vol& old = fvcc::oldTime(*st[k].f);
        if (st[k].old < 0)
        {
            auto x = st[k].x;
            x.t -= 1;
            st.push_back({&old, st[k].nm + "_0", x, st[k].d, -1, k, st[k].level + 1, st[k].current});
            st[k].old = (int)st.size() - 1;
        }
        sym_assert(&old == st[st[k].old].f, "the old state of a field is one field");
        // the world goes on
        int w = (int)sym_choose("write", 0, (int)st.size() - 1);
        st[w].d.in = symScalars("new", 1);
        setField(st[w].f->internalField(), st[w].d.in);
    }
    auto& oc = fvcc::OldTimeCollection::instance(fc);
    sym_assert(fc.size() == st.size() && oc.size() == st.size() - 2, "one field and one record for every old state");
    sym_assert(oc.name() == "fields_oldTime" && &fvcc::OldTimeCollection::instance(std::as_const(fc)) == &oc, "the collection of old states");
    for (size_t k = 0; k < st.size(); k++)
    {
        auto& s = st[k];
        for (size_t j = 0; j < k; j++) sym_assert(st[j].f != s.f && st[j].f->key != s.f->key, "old states of different fields are different");
        sym_assert(s.f->name == s.nm && s.f->registered() && s.f->fieldCollectionName == "fields", "name of an old state");
        indexed(fc.fieldDoc(s.f->key), s.nm, s.x, "time of an old state");
        holds(*s.f, s.d, "an old state is the state at the time it was first asked for");
        auto next = oc.findNextTime(s.f->key);
        sym_assert((next != "") == (s.old >= 0), "a state knows whether there is an older one");
        if (s.old >= 0)
        {
            auto& r = oc.oldTimeDoc(next);
            sym_assert(oc.contains(next) && r.id() == next && r.nextTime() == s.f->key && r.previousTime() == st[s.old].f->key, "the record of an old state");
            sym_assert(r.currentTime() == st[s.current].f->key && r.level() == s.level + 1, "level and current state of an old state");
            sym_assert(oc.findPreviousTime(st[s.old].f->key) == next, "an old state finds the newer one");
            const auto& cf = std::as_const(*s.f);
            sym_assert(&fvcc::oldTime(cf) == st[s.old].f, "the old state of a const field");
        }
        if (s.next < 0) sym_assert(oc.findPreviousTime(s.f->key) == "", "the current state has no newer one");
    }
    sym_reach("end");
}
// reading an old state that does not exist
ENTRY(c26_missing)
{
    Executor e = symExec();
    auto t = tinyTopo();
    auto m = mkMesh(e, t, plainGeo(t));
    Database db;
    auto& fc = fvcc::FieldCollection::instance(db, "fields");
    auto d = symData<scalar>(t);
    auto& f = fc.registerField<Vol>(Make<scalar> {m, "f", d, {1, 2, 3}, false});
    auto& g = fc.registerField<Vol>(Make<scalar> {m, "g", d, {1, 2, 3}, false});
    if (sym_choose("noCollection", 0, 1))
    {
        sym_assert(thrown([&] { (void)fvcc::oldTime(std::as_const(f)); }) != 0, "no old state to read");
        sym_assert(fc.size() == 2, "reading creates no state");
        sym_reach("refused");
        return;
    }
    fvcc::oldTime(g);
    sym_expect_termination(2, "ended");
    (void)fvcc::oldTime(std::as_const(f));
    sym_assert(false, "no old state to read");
}
// a document that lost what it must have is not taken
ENTRY(c26_invalid)
{
    Executor e = symExec();
    auto t = tinyTopo();
    auto m = mkMesh(e, t, plainGeo(t));
    Database db;
    auto& fc = fvcc::FieldCollection::instance(db, "fields");
    auto d = symData<scalar>(t);
    auto f = fresh<scalar>(m, db, "f", d);
    const char* names[] = {"name", "timeIndex", "iterationIndex", "subCycleIndex", "field"};
    int lost = (int)sym_choose("lost", 0, 31);
    bool used = sym_choose("used", 0, 1);
    Idx at = symIdxs();
    if (used) fc.registerField<Vol>(Make<scalar> {m, "g", d, at, true});
    int r = thrown([&]
        {
            fc.registerField<Vol>([&](Database&)
                {
                    fvcc::FieldDocument x(f, at.t, at.i, at.s);
                    for (int k = 0; k < 5; k++) if (lost & (1 << k)) x.doc().remove(names[k]);
                    return x;
                });
        });
    sym_assert((r != 0) == (lost != 0), "a document without its entries is refused");
    sym_assert(fc.size() == (size_t)used + (lost == 0), "a refused document is not taken");
    sym_reach("end");
}
// records
ENTRY(c26_records)
{
    Database db;
    auto& oc = fvcc::OldTimeCollection::instance(db, "times", "fields");
    std::vector<fvcc::OldTimeDocument> ds;
    int n = (int)sym_choose("n", 0, TIER(2, 3));
    for (int i = 0; i < n; i++)
    {
        std::string a = symText("next", 1, false), b = symText("previous", 1, false), c = symText("current", 1, i == 0);
        int level = (int)sym_i64("level", -5, 5);
        fvcc::OldTimeDocument d(a, b, c, level);
        sym_assert(d.nextTime() == a && d.previousTime() == b && d.currentTime() == c && d.level() == level, "a record keeps what is put in");
        const auto& cd = d;
        sym_assert(cd.nextTime() == a && cd.previousTime() == b && cd.currentTime() == c && cd.level() == level && &cd.doc() == &d.doc(), "a const record");
        sym_assert(oc.insert(d), "a new record is inserted");
        sym_assert(!oc.insert(d), "a record is inserted once");
        ds.push_back(d);
    }
    sym_assert(oc.size() == (size_t)n, "number of records");
    std::string q = symText("query", 1, false);
    std::string hitN, hitP;
    int cn = 0, cp = 0;
    for (auto& d : ds)
    {
        if (d.nextTime() == q) { hitN = d.id(); cn++; }
        if (d.previousTime() == q) { hitP = d.id(); cp++; }
    }
    sym_assert(oc.findNextTime(q) == (cn == 1 ? hitN : ""), "the record of a newer state");
    sym_assert(oc.findPreviousTime(q) == (cp == 1 ? hitP : ""), "the record of an older state");
    if (n)
    {
        auto& d = oc.oldTimeDoc(ds[0].id());
        d.level() = 7;
        d.nextTime() = "x";
        d.previousTime() = "y";
        d.currentTime() = "z";
        const auto& cd = std::as_const(oc).oldTimeDoc(ds[0].id());
        sym_assert(cd.level() == 7 && cd.nextTime() == "x" && cd.previousTime() == "y" && cd.currentTime() == "z", "a stored record can be changed");
    }
    sym_assert(thrown([&] { (void)oc.oldTimeDoc("none"); }) == 1 && !oc.contains("none"), "an unknown record is refused");
    sym_reach("end");
}
// a long chain of old states, and many fields with theirs
ENTRY(c26_long)
{
    Executor e = symExec("exec", 0, 1);
    Topo t;
    t.nCells = 1;
    t.nBnd = 1;
    t.fc = {0};
    t.offset = {0, 1};
    auto m = mkMesh(e, t, plainGeo(t));
    Database db;
    auto& fc = fvcc::FieldCollection::instance(db, "fields");
    bool deep = sym_choose("deep", 0, 1);
    const size_t depth = deep ? 12 : 1, n = deep ? 1 : 40;
    struct State { Vol* f; std::string nm; Idx x; Data<scalar> d; };
    std::vector<std::vector<State>> st(n);
    for (size_t k = 0; k < n; k++)
    {
        auto d = symData<scalar>(t);
        Idx x = k < 2 ? symIdxs() : Idx {(int64_t)k, 3000000000, -7};
        std::string nm = "field" + std::to_string(k);
        st[k].push_back({&fc.registerField<Vol>(Make<scalar> {m, nm, d, x, false}), nm, x, d});
    }
    for (size_t l = 0; l < depth; l++)
        for (size_t k = 0; k < n; k++)
        {
            auto s = st[k].back();
            auto x = s.x;
            x.t -= 1;
            st[k].push_back({&fvcc::oldTime(*s.f), s.nm + "_0", x, s.d});
        }
    auto& oc = fvcc::OldTimeCollection::instance(fc);
    sym_assert(fc.size() == n * (depth + 1) && oc.size() == n * depth, "one field and one record for every old state");
    for (auto& c : st)
        for (size_t l = 0; l < c.size(); l++)
        {
            auto& s = c[l];
            sym_assert(s.f->name == s.nm && s.f->registered() && s.f->fieldCollectionName == "fields", "name of an old state");
            indexed(fc.fieldDoc(s.f->key), s.nm, s.x, "time of an old state");
            holds(*s.f, s.d, "an old state is the state at the time it was first asked for");
            auto next = oc.findNextTime(s.f->key);
            sym_assert((next != "") == (l + 1 < c.size()), "a state knows whether there is an older one");
            if (l + 1 == c.size()) continue;
            auto& r = oc.oldTimeDoc(next);
            sym_assert(r.id() == next && r.nextTime() == s.f->key && r.previousTime() == c[l + 1].f->key, "the record of an old state");
            sym_assert(r.currentTime() == c[0].f->key && r.level() == (int)l + 1, "level and current state of an old state");
            sym_assert(&fvcc::oldTime(*s.f) == c[l + 1].f, "the old state of a field is one field");
        }
    sym_reach("end");
}
// databases one after another in the same place: nothing of a former one shows in a later one
ENTRY(c26_again)
{
    Executor e = symExec("exec", 0, 1);
    Topo t;
    t.nCells = 1;
    t.nBnd = 1;
    t.fc = {0};
    t.offset = {0, 1};
    std::optional<UnstructuredMesh> m;
    std::optional<Database> db;
    for (int r = 0; r < 3; r++)
    {
        m.emplace(mkMesh(e, t, plainGeo(t)));
        db.emplace();
        auto& fc = fvcc::FieldCollection::instance(*db, "fields");
        sym_assert(fc.size() == 0, "a new database has no fields");
        auto d = symData<scalar>(t);
        Idx x = symIdxs();
        auto& f = fc.registerField<Vol>(Make<scalar> {*m, "f", d, x, false});
        auto& oc = fvcc::OldTimeCollection::instance(fc);
        sym_assert(oc.size() == 0, "a new database has no old states");
        bool old = sym_choose("old", 0, 1);
        if (old)
        {
            auto& o = fvcc::oldTime(f);
            setField(f.internalField(), symScalars("new", 1));
            holds(o, d, "an old state is the state at the time it was first asked for");
            sym_assert(&fvcc::oldTime(f) == &o && o.name == "f_0", "the old state of a field is one field");
        }
        sym_assert(fc.size() == 1u + old && oc.size() == 0u + old && db->size() == 2, "a database holds what is put into it");
        db.reset();
        m.reset();
    }
    sym_reach("end");
}
