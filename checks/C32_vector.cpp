// Vectors and the constants of the primitive types.
#include "inc/nf.hpp"
#include <sstream>
#include "NeoFOAM/core/primitives/label.hpp"
namespace
{
// what reading and writing one component gives
void is(const Vector& v, double x, double y, double z, const char* m)
{
    eq(v[0], x, m);
    eq(v[1], y, m);
    eq(v[2], z, m);
}
}
ENTRY(c32_construct)
{
    double x = sym_f64("x"), y = sym_f64("y"), z = sym_f64("z");
    Vector v(x, y, z);
    const Vector& c = v;
    is(v, x, y, z, "components of a vector");
    sym_assert(v.size() == 3 && v.data() == c.data() && v.data() == &v[0], "storage of a vector");
    for (size_t i = 0; i < 3; i++)
    {
        sym_assert(&v[i] == v.data() + i && &v(i) == v.data() + i, "components are stored in order");
        eq(c[i], i == 0 ? x : i == 1 ? y : z, "a component of a const vector");
        eq(c(i), i == 0 ? x : i == 1 ? y : z, "a component of a const vector");
    }
    is(Vector(), 0.0, 0.0, 0.0, "the default vector is zero");
    is(Vector(x), x, x, x, "a uniform vector");
    size_t k = (size_t)sym_choose("component", 0, 2);
    double w = sym_f64("w");
    Vector o = v;
    if (sym_choose("call", 0, 1)) v(k) = w;
    else v[k] = w;
    is(v, k == 0 ? w : x, k == 1 ? w : y, k == 2 ? w : z, "writing a component leaves the others");
    is(o, x, y, z, "a copy has its own components");
    sym_reach("end");
}
ENTRY(c32_algebra)
{
    Vector a = symVector("a"), b = symVector("b");
    double s = sym_f64("s");
    auto ok = [&](const Vector& r, auto f, const char* m)
    {
        for (size_t i = 0; i < 3; i++) eq(r[i], f(i), m);
    };
    ok(a + b, [&](size_t i) { return a[i] + b[i]; }, "sum of vectors");
    ok(a - b, [&](size_t i) { return a[i] - b[i]; }, "difference of vectors");
    ok(a * s, [&](size_t i) { return a[i] * s; }, "vector times number");
    ok(s * a, [&](size_t i) { return a[i] * s; }, "number times vector");
    Vector c = a;
    Vector& r = (c += b);
    ok(c, [&](size_t i) { return a[i] + b[i]; }, "adding a vector");
    Vector& q = (c -= b);
    ok(c, [&](size_t i) { return a[i]; }, "subtracting a vector");
    Vector& p = (c *= s);
    ok(c, [&](size_t i) { return a[i] * s; }, "scaling a vector");
    sym_assert(&r == &c && &q == &c && &p == &c, "changing a vector returns it");
    eq(a & b, a[0] * b[0] + a[1] * b[1] + a[2] * b[2], "inner product");
    double m = mag(a);
    sym_assert(m >= 0, "a magnitude is not negative");
    // 1e-100 is far from where squares of numbers vanish
    for (size_t i = 0; i < 3; i++) sym_assert(m > 0 || (a[i] < 1e-100 && a[i] > -1e-100), "only the zero vector has no magnitude");
    eq(m * m, a[0] * a[0] + a[1] * a[1] + a[2] * a[2], "magnitude of a vector");
    double t = NF::mag(s);
    sym_assert(t >= 0 && (t == s || t == -s), "magnitude of a number");
    bool same = a[0] == b[0] && a[1] == b[1] && a[2] == b[2];
    sym_assert((a == b) == same && a == a && (b == a) == same, "vectors are equal when all components are");
    sym_reach(same ? "equal" : "different");
}
// an operand may be part of the vector that changes
ENTRY(c32_alias)
{
    Vector a = symVector("a"), v = a;
    size_t k = (size_t)sym_choose("component", 0, 2);
    switch (sym_choose("operation", 0, 4))
    {
    case 0: v += v; is(v, 2 * a[0], 2 * a[1], 2 * a[2], "a vector added to itself"); break;
    case 1: v -= v; is(v, 0.0, 0.0, 0.0, "a vector subtracted from itself"); break;
    case 2: v *= v[k]; is(v, a[0] * a[k], a[1] * a[k], a[2] * a[k], "a vector scaled with its own component"); break;
    case 3: v = v * v[k]; is(v, a[0] * a[k], a[1] * a[k], a[2] * a[k], "a vector times its own component"); break;
    case 4: v = v[k] * v; is(v, a[0] * a[k], a[1] * a[k], a[2] * a[k], "a component times its vector"); break;
    }
    sym_reach("end");
}
ENTRY(c32_label)
{
    Vector a = symVector("a");
    NF::label n = (NF::label)sym_choose("label", -3, 3);
    Vector r = a * n;
    is(r, a[0] * n, a[1] * n, a[2] * n, "vector times integer");
    Vector q = a * (double)n;
    is(q, a[0] * n, a[1] * n, a[2] * n, "vector times number");
    sym_reach("end");
}
// the identities of addition and multiplication
ENTRY(c32_identities)
{
    Vector a = symVector("a");
    double s = sym_f64("s");
    is(NF::zero<Vector>(), 0.0, 0.0, 0.0, "zero vector");
    is(NF::one<Vector>(), 1.0, 1.0, 1.0, "one vector");
    Vector z = a + NF::zero<Vector>();
    sym_assert(z == a, "adding zero");
    eq(s + NF::zero<scalar>(), s, "adding zero");
    eq(s * NF::one<scalar>(), s, "multiplying by one");
    sym_assert(NF::zero<NF::localIdx>() == 0 && NF::one<NF::localIdx>() == 1, "integer identities");
    sym_assert(NF::ROOTVSMALL > 0 && NF::ROOTVSMALL < 1e-10, "a small positive number");
    sym_reach("end");
}
// text of a vector
ENTRY(c32_print)
{
    const double c[] = {0.0, 1.0, -2.5};
    double x = c[sym_choose("x", 0, 2)], y = c[sym_choose("y", 0, 2)], z = c[sym_choose("z", 0, 2)];
    std::ostringstream o, w;
    o << Vector(x, y, z) << 7;
    w << "(" << x << " " << y << " " << z << ")7";
    sym_assert(o.str() == w.str(), "a vector is written component by component");
    sym_reach("end");
}
