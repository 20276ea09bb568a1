#pragma once
#include <iosfwd>
#include <cstddef>
namespace std
{
typedef ptrdiff_t streamsize;
template<class C, class T>
inline basic_ostream<C, T>& __ostream_insert(basic_ostream<C, T>& o, const C* s, streamsize n) { return o.nfPut(s, (size_t)n); }
}
