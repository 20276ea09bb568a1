// Error reporting: assertions, errors and type names.
#define NF_DEBUG 1
#include "inc/util.hpp"
#include "NeoFOAM/core/error.hpp"
#include "NeoFOAM/core/demangle.hpp"
#include "NeoFOAM/helpers/exceptions.hpp"
namespace
{
int evals = 0;
int once(int x) { evals++; return x; }
bool has(const std::string& s, const std::string& p) { return s.find(p) != std::string::npos; }
}
// a failed assertion ends the program with an error status, a satisfied one does nothing
ENTRY(c33_assert)
{
    int a = (int)sym_i64("a", -3, 3), b = (int)sym_i64("b", -3, 3);
    int form = (int)sym_choose("form", 0, 3);
    bool ok = form == 0 ? a < b : form == 1 ? a == b : form == 2 ? a < b : a == b;
    if (!ok) sym_expect_termination(2, "refused");
    evals = 0;
    try
    {
    switch (form)
    {
    case 0: NF_ASSERT(once(a) < b, "message " << once(a)); break;
    case 1: NF_ASSERT_EQUAL(a, b); evals++; break;
    case 2: NF_DEBUG_ASSERT(once(a) < b, "message" << once(a)); break;
    case 3: NF_DEBUG_ASSERT_EQUAL(a, b); evals++; break;
    }
    }
    catch (...) { sym_assert(false, "a terminating assertion does not throw"); }
    sym_assert(ok, "a failed assertion does not return");
    sym_assert(evals == 1, "the condition is evaluated once");
    sym_reach("passed");
}
ENTRY(c33_throw)
{
    int a = (int)sym_i64("a", -3, 3), b = (int)sym_i64("b", -3, 3);
    int form = (int)sym_choose("form", 0, 4);
    bool ok = form == 4 ? false : form % 2 ? a == b : a < b;
    bool threw = false;
    std::string what;
    int line = 0;
    evals = 0;
    try
    {
        switch (form)
        {
        case 0: line = __LINE__; NF_ASSERT_THROW(once(a) < b, "the message"); break;
        case 1: line = __LINE__; NF_ASSERT_EQUAL_THROW(a, b); break;
        case 2: line = __LINE__; NF_DEBUG_ASSERT_THROW(once(a) < b, "the message"); break;
        case 3: line = __LINE__; NF_DEBUG_ASSERT_EQUAL_THROW(a, b); break;
        case 4: line = __LINE__; NF_THROW("the message"); break;
        }
    }
    catch (const NeoFOAM::NeoFOAMException& e)
    {
        threw = true;
        what = e.what();
    }
    sym_assert(threw == !ok, "a failed throwing assertion throws, a satisfied one does not");
    if (form == 0 || form == 2) sym_assert(evals == 1, "the condition is evaluated once");
    if (threw)
    {
        sym_assert(has(what, std::string("File: ") + __FILE__ + "\n") && has(what, "Line: " + std::to_string(line) + "\n"), "an error tells where it was raised");
        if (form % 2 == 0) sym_assert(has(what, "the message"), "an error carries its message");
        else sym_assert(has(what, "Expected "), "an error of an equality carries the expected value");
    }
    sym_reach(threw ? "threw" : "passed");
}
// arguments that are expressions, of other types, and positions as statements
ENTRY(c33_expressions)
{
    int a = (int)sym_i64("a", -3, 3), b = (int)sym_i64("b", -3, 3), c = (int)sym_i64("c", -3, 3);
    int form = (int)sym_choose("form", 0, 11);
    double x = sym_f64("x"), y = sym_f64("y");
    std::string s = "text", u = b > 0 ? "text" : "other";
    unsigned long n = (unsigned long)(long)a, m = (unsigned long)(long)b;
    bool ok = false, threw = false;
    std::string what;
    evals = 0;
    try
    {
        switch (form)
        {
        case 0: ok = a == b + c; NF_ASSERT_EQUAL_THROW(a, b + c); break;
        case 1: ok = a - c == b - c; NF_ASSERT_EQUAL_THROW(a - c, b - c); break;
        case 2: ok = a + b == c; NF_DEBUG_ASSERT_EQUAL_THROW(a + b, c); break;
        case 3: ok = a == c - b; NF_DEBUG_ASSERT_EQUAL_THROW(a, c - b); break;
        case 4: ok = x == y; NF_ASSERT_EQUAL_THROW(x, y); break;
        case 5: ok = b > 0; NF_ASSERT_EQUAL_THROW(s, u); break;
        case 6: ok = n == m; NF_ASSERT_EQUAL_THROW(n, m); break;
        case 7: ok = a < b || b < c; NF_ASSERT_THROW(a < b || b < c, "the message " << a << ", " << b); break;
        case 8: ok = a != 0; NF_ASSERT_THROW(a, "the message"); break;
        case 9: ok = !(a < b); NF_DEBUG_ASSERT_THROW(!(a < b), "the message " + s); break;
        case 10:
            ok = a > b || c > 0;
            if (a > b) evals = 7;
            else NF_ASSERT_THROW(c > 0, "the message");
            break;
        case 11:
            ok = a > b || c > 0;
            if (a <= b) NF_ASSERT_THROW(c > 0, "the message");
            else evals = 7;
            break;
        }
    }
    catch (const std::exception& e)
    {
        threw = true;
        what = e.what();
    }
    sym_assert(threw == !ok, "a failed throwing assertion throws, a satisfied one does not");
    if (form >= 10) sym_assert((evals == 7) == (a > b), "an assertion is one statement");
    if (threw && form >= 7) sym_assert(has(what, "the message"), "an error carries its message");
    if (threw && form == 5) sym_assert(has(what, "text") && has(what, "other"), "an error of an equality carries both values");
    sym_reach(threw ? "threw" : "passed");
}
// the same for the terminating forms
ENTRY(c33_stop)
{
    int a = (int)sym_i64("a", -3, 3), b = (int)sym_i64("b", -3, 3), c = (int)sym_i64("c", -3, 3);
    int form = (int)sym_choose("form", 0, 10);
    double x = sym_f64("x"), y = sym_f64("y");
    std::string s = "text", u = b > 0 ? "text" : "other";
    unsigned long n = (unsigned long)(long)a, m = (unsigned long)(long)b;
    bool oks[] = {a == b + c, a - c == b - c, a + b == c, a == c - b, x == y, b > 0, n == m, a < b || b < c, a != 0, !(a < b), a > b || c > 0};
    bool ok = oks[form];
    if (!ok) sym_expect_termination(2, "refused");
    try
    {
    switch (form)
    {
    case 0: NF_ASSERT_EQUAL(a, b + c); break;
    case 1: NF_ASSERT_EQUAL(a - c, b - c); break;
    case 2: NF_DEBUG_ASSERT_EQUAL(a + b, c); break;
    case 3: NF_DEBUG_ASSERT_EQUAL(a, c - b); break;
    case 4: NF_ASSERT_EQUAL(x, y); break;
    case 5: NF_ASSERT_EQUAL(s, u); break;
    case 6: NF_ASSERT_EQUAL(n, m); break;
    case 7: NF_ASSERT(a < b || b < c, "the message " << a << ", " << b); break;
    case 8: NF_ASSERT(a, "the message"); break;
    case 9: NF_DEBUG_ASSERT(!(a < b), "the message " + s); break;
    case 10:
        if (a > b) evals = 7;
        else NF_ASSERT(c > 0, "the message");
        break;
    }
    }
    catch (...) { sym_assert(false, "a terminating assertion does not throw"); }
    sym_assert(ok, "a failed assertion does not return");
    sym_reach("passed");
}
ENTRY(c33_exit)
{
    sym_expect_termination(2, "refused");
    int n = (int)sym_i64("n", 0, 9), form = (int)sym_choose("form", 0, 3);
    try
    {
        if (form == 0) NF_ERROR_EXIT("stop " << n);
        if (form == 1) NF_ERROR_EXIT("");
        if (form == 2) NF_ERROR_EXIT(std::string());
        if (form == 3) NF_ERROR_EXIT(std::string(2000, 'x'));
    }
    catch (...) {}
    sym_assert(false, "an error exit does not return");
}
namespace
{
struct Sized { size_t n; size_t size() const { return n; } };
void both(const Sized& x, const Sized& y) { NeoFOAM_ASSERT_EQUAL_LENGTH(x, y); }
}
ENTRY(c33_length)
{
    Sized x {(size_t)sym_i64("n", 0, 5)}, y {(size_t)sym_i64("m", 0, 5)};
    bool threw = false;
    try { both(x, y); }
    catch (const NeoFOAM::DimensionMismatch& e)
    {
        threw = true;
        std::string w = e.what();
        sym_assert(has(w, std::to_string(x.n)) && has(w, std::to_string(y.n)), "both lengths are reported");
    }
    sym_assert(threw == (x.n != y.n), "containers of different lengths are refused");
    NeoFOAM::Error err("file", 7, "text");
    sym_assert(std::string(err.what()) == "file:7: text", "an error carries place and text");
    NeoFOAM::NeoFOAMException ex("abc");
    sym_assert(std::string(ex.what()) == "abc", "an exception carries its text");
    sym_reach("end");
}
// values that differ only beyond the range of a narrower type are different
ENTRY(c33_wide)
{
    const long values[] = {0, 1, -1, 256, 65536, 1L << 31, 1L << 32, (1L << 32) + 1, INT64_MAX, INT64_MIN};
    long a = values[sym_choose("a", 0, 9)], b = values[sym_choose("b", 0, 9)];
    double x = 1.0 + (double)sym_choose("x", 0, 1) / (1L << 40);
    bool threw = false, fThrew = false, sThrew = false;
    std::string what;
    try { NF_ASSERT_EQUAL_THROW(a, b); }
    catch (const NeoFOAM::NeoFOAMException& e) { threw = true; what = e.what(); }
    sym_assert(threw == (a != b), "a failed throwing assertion throws, a satisfied one does not");
    if (threw) sym_assert(has(what, "Expected " + std::to_string(b) + ", got " + std::to_string(a)), "an error of an equality carries both values");
    try { NF_DEBUG_ASSERT_EQUAL_THROW(x, 1.0); }
    catch (const NeoFOAM::NeoFOAMException&) { fThrew = true; }
    sym_assert(fThrew == (x != 1.0), "a failed throwing assertion throws, a satisfied one does not");
    Sized p {(size_t)a}, q {(size_t)b};
    try { both(p, q); }
    catch (const NeoFOAM::DimensionMismatch&) { sThrew = true; }
    sym_assert(sThrew == (a != b), "containers of different lengths are refused");
    if (a != b) sym_expect_termination(2, "refused");
    try { NF_ASSERT_EQUAL(a, b); }
    catch (...) { sym_assert(false, "a terminating assertion does not throw"); }
    sym_assert(a == b, "a failed assertion does not return");
    sym_reach("passed");
}

namespace
{
// equal or not, but in no order
struct Kind
{
    int v;
    bool operator==(const Kind& o) const { return v == o.v; }
    bool operator!=(const Kind& o) const { return v != o.v; }
    bool operator<(const Kind&) const { return false; }
    bool operator>(const Kind&) const { return false; }
    bool operator<=(const Kind&) const { return false; }
    bool operator>=(const Kind&) const { return false; }
};
std::ostream& operator<<(std::ostream& o, const Kind& k) { return o << "kind " << k.v; }
}
// values without an order; long and empty messages
ENTRY(c33_messages)
{
    Kind a {(int)sym_i64("a", -3, 3)}, b {(int)sym_i64("b", -3, 3)};
    int form = (int)sym_choose("form", 0, 6);
    static const int len[] = {0, 1, 255, 256, 1023, 1024, 1025, 5000};
    int n = len[sym_choose("length", 0, 7)];
    std::string text(size_t(n), 'x');
    if (n > 1) text[0] = text[size_t(n) / 2] = '\n', text.back() = 'y';
    bool threw = false;
    std::string what, copied;
    try
    {
        switch (form)
        {
        case 0: NF_ASSERT_EQUAL_THROW(a, b); break;
        case 1: NF_DEBUG_ASSERT_EQUAL_THROW(a, b); break;
        case 2: NF_ASSERT_THROW(a == b, text); break;
        case 3: NF_DEBUG_ASSERT_THROW(a == b, text << text); break;
        case 4: if (!(a == b)) NF_THROW(text); break;
        case 5: if (!(a == b)) throw NeoFOAM::NeoFOAMException(text); break;
        case 6:
            if (!(a == b)) sym_expect_termination(2, "refused");
            NF_ASSERT_EQUAL(a, b);
            break;
        }
    }
    catch (const NeoFOAM::NeoFOAMException& e)
    {
        threw = true;
        NeoFOAM::NeoFOAMException c(e);
        what = e.what();
        copied = c.what();
    }
    sym_assert(threw == (a.v != b.v), "a failed throwing assertion throws, a satisfied one does not");
    if (threw)
    {
        sym_assert(what == copied, "a copied error has the same message");
        if (form >= 2) sym_assert(has(what, form == 3 ? text + text : text), "an error carries its message");
        if (form == 5) sym_assert(what == text, "an error carries its message");
    }
    sym_reach(threw ? "threw" : "passed");
}
// the same assertion again and again: every use is judged by itself
ENTRY(c33_again)
{
    int form = (int)sym_choose("form", 0, 5);
    for (int n = 0; n < TIER(3, 4); n++)
    {
        int a = (int)sym_choose("a", 0, 2), b = n == 1 ? 2 : 1;
        bool threw = false, ok = form % 2 ? a == b : a < b;
        std::string what;
        evals = 0;
        try
        {
            switch (form)
            {
            case 0: NF_ASSERT_THROW(once(a) < b, "the message " << a); break;
            case 1: NF_ASSERT_EQUAL_THROW(a, b); break;
            case 2: NF_DEBUG_ASSERT_THROW(once(a) < b, "the message " << a); break;
            case 3: NF_DEBUG_ASSERT_EQUAL_THROW(a, b); break;
            case 4:
                if (ok) { NF_ASSERT(once(a) < b, "the message " << a); }
                else evals++, threw = true, what = "the message " + std::to_string(a);
                break;
            case 5:
                if (ok) { NF_ASSERT_EQUAL(a, b); }
                else threw = true, what = "Expected " + std::to_string(b) + ", got " + std::to_string(a);
                break;
            }
        }
        catch (const NeoFOAM::NeoFOAMException& e) { threw = true; what = e.what(); }
        sym_assert(threw == !ok, "every use of an assertion is judged by itself");
        if (form % 2 == 0) sym_assert(evals == 1, "the condition is evaluated once");
        if (threw) sym_assert(has(what, form % 2 ? "Expected " + std::to_string(b) + ", got " + std::to_string(a) : "the message " + std::to_string(a)), "an error is about the use that failed");
    }
    sym_reach("end");
}
