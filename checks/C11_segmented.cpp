// SegmentedField: values of segments stored one after the other.
#include "inc/nf.hpp"
#include "NeoFOAM/fields/segmentedField.hpp"
using NF::localIdx;
using SF = NF::SegmentedField<localIdx, localIdx>;
namespace
{
std::vector<localIdx> symLengths(size_t n, int hi)
{
    std::vector<localIdx> l;
    for (size_t i = 0; i < n; i++) l.push_back((localIdx)sym_choose("len", 0, hi));
    return l;
}
}
// offsets are the running sums of the lengths, whatever the lengths and however the scan is split
ENTRY(c11_offsets)
{
    Executor e = symExec();
    size_t n = (size_t)sym_choose("n", 0, TIER(4, 6));
    std::vector<localIdx> l;
    for (size_t i = 0; i < n; i++) l.push_back((localIdx)sym_i64("len", 0, 1000000));
    Field<localIdx> in(e, l), off(e, n + 1, 0);
    localIdx total = NF::segmentsFromIntervals(in, off);
    auto h = host(off);
    localIdx sum = 0;
    sym_assert(h.size() == n + 1 && h[0] == 0, "the first segment starts at 0");
    for (size_t i = 0; i < n; i++)
    {
        sum += l[i];
        sym_assert(h[i + 1] == sum, "a segment starts where the one before ends");
    }
    sym_assert(total == sum, "the total number of values is returned");
    eqAll(host(in), l, "the lengths are not changed");
    sym_reach("end");
}
// every value of every segment is reached exactly once and segments do not overlap
ENTRY(c11_segments)
{
    Executor e = symExec();
    size_t n = (size_t)sym_choose("n", 1, TIER(3, 4));
    auto l = symLengths(n, TIER(2, 3));
    Field<localIdx> in(e, l);
    SF sf(in);
    size_t total = 0;
    for (auto x : l) total += x;
    sym_assert(sf.size() == total && sf.numSegments() == n && sf.exec() == e, "sizes of a segmented field");
    auto vals = sf.view();
    std::vector<int> hits(total, 0);
    // write through the segments on the executor, read back through values()
    localIdx mark = (localIdx)sym_i64("mark", 0, 1000);
    NF::parallelFor(
        e, {0, n}, KOKKOS_LAMBDA(const size_t s) {
            auto sp = vals.span(s);
            for (size_t k = 0; k < sp.size(); k++) sp[k] = mark + (localIdx)(10 * s + k);
        });
    auto h = host(sf.values()), o = host(sf.segments());
    sym_assert(o.size() == n + 1 && h.size() == total, "sizes of a segmented field");
    size_t at = 0;
    for (size_t s = 0; s < n; s++)
    {
        sym_assert(o[s] == at && o[s + 1] == at + l[s], "segment boundaries");
        for (size_t k = 0; k < l[s]; k++) sym_assert(h[at + k] == mark + (localIdx)(10 * s + k), "each value belongs to exactly one segment");
        at += l[s];
    }
    if (!std::holds_alternative<NF::GPUExecutor>(e))
    {
        auto [v, seg] = sf.spans();
        for (size_t s = 0; s < n; s++)
        {
            auto b = vals.bounds(s);
            auto r = vals.range(s);
            sym_assert(b.first == o[s] && b.second == o[s + 1], "bounds of a segment");
            sym_assert(r.first == o[s] && r.second == l[s], "start and length of a segment");
            sym_assert(vals[s] == o[s] && seg[s] == o[s], "start of a segment");
            sym_assert(vals.span(s).size() == l[s] && vals.span(s).data() == v.data() + o[s], "values of a segment");
        }
    }
    sym_reach("end");
}
// built from values and offsets, or of given sizes
ENTRY(c11_construct)
{
    Executor e = symExec();
    size_t n = (size_t)sym_choose("n", 1, 3);
    auto l = symLengths(n, 2);
    std::vector<localIdx> off {0}, v;
    for (auto x : l) off.push_back(off.back() + x);
    for (size_t i = 0; i < off.back(); i++) v.push_back((localIdx)sym_i64("v", 0, 1000));
    Field<localIdx> vf(e, v), of(e, off);
    SF a(vf, of), b(e, v.size(), n);
    NF::fill(vf, 0u);
    NF::fill(of, 7u);
    eqAll(host(a.values()), v, "values are kept");
    eqAll(host(a.segments()), off, "segments are kept");
    sym_assert(a.numSegments() == n && b.numSegments() == n && b.size() == v.size() && b.exec() == e, "sizes of a segmented field");
    Executor o = symExec("other");
    if (!(o == e)) sym_expect_termination(2, "refused");
    Field<localIdx> elsewhere(o, off);
    SF c(vf, elsewhere);
    sym_assert(o == e, "values and segments on different executors are refused");
    sym_reach("end");
}
// offsets must have one element more than the lengths
ENTRY(c11_refuse)
{
    Executor e = symExec();
    size_t n = (size_t)sym_choose("n", 0, 3), k = (size_t)sym_choose("k", 1, 5);
    Field<localIdx> in(e, n, 2u), off(e, k, 0u);
    if (k != n + 1) sym_expect_termination(2, "refused");
    NF::segmentsFromIntervals(in, off);
    sym_assert(k == n + 1, "offsets of another number than segments are refused");
    sym_reach("end");
}
// many segments and long ones
ENTRY(c11_long)
{
    sym_sched_mode(16);
    Executor e = symExec();
    const size_t lens[] = {256, 300, 1100};
    const size_t n = lens[sym_choose("segments", 0, 2)];
    const localIdx big = (localIdx)sym_choose("big", 0, 2) * 256u;
    std::vector<localIdx> l(n);
    for (size_t i = 0; i < n; i++) l[i] = i % 3 == 1 ? 0 : 1 + (localIdx)(i % 2);
    l[n / 2] = big;
    if (sym_choose("roundTotal", 0, 1)) {
        size_t before = 0;
        for (auto x : l) before += x;
        l[n - 1] += (localIdx)((256 - before % 256) % 256);
    }
    Field<localIdx> in(e, l);
    SF sf(in);
    size_t total = 0;
    for (auto x : l) total += x;
    auto o = host(sf.segments());
    sym_assert(sf.size() == total && sf.numSegments() == n && o.size() == n + 1 && host(sf.values()).size() == total, "sizes of a long segmented field");
    size_t at = 0;
    bool ok = true;
    for (size_t i = 0; i < n; i++) { ok = ok && o[i] == at; at += l[i]; }
    sym_assert(ok && o[n] == total, "boundaries of many segments");
    auto vals = sf.view();
    NF::parallelFor(e, {0, n}, KOKKOS_LAMBDA(const size_t s) {
        auto sp = vals.span(s);
        for (size_t k = 0; k < sp.size(); k++) sp[k] = (localIdx)(7 * s + k);
    });
    auto h = host(sf.values());
    at = 0;
    for (size_t i = 0; i < n; i++)
        for (size_t k = 0; k < l[i]; k++, at++) ok = ok && h[at] == (localIdx)(7 * i + k);
    sym_assert(ok, "each value belongs to exactly one segment");
    sym_reach("end");
}
