#pragma once
namespace std
{
class locale {};
struct ctype_base { typedef unsigned short mask; static const mask space = 1; };
template<class C> struct ctype { typedef std::ctype_base ctype_base; bool is(ctype_base::mask, C) const { return false; } };
template<class F> const F& use_facet(const locale&);
}
