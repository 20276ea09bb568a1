// Shared helpers of the harnesses.
#pragma once
#include "sym.h"
#include <any>
#include <utility>
#include <stdexcept>
#include <string>
#include <vector>

#ifndef NF_TIER_THOROUGH
#define NF_TIER_THOROUGH 0
#endif
#define TIER(q, t) (NF_TIER_THOROUGH ? (t) : (q))
#ifdef NF_GPU_ONLY
// the same harness on the device executor alone, every access checked against the memory it is for
#define ENTRY(name)                                                                                                                        \
    static void body_##name();                                                                                                             \
    extern "C" void harness_##name()                                                                                                       \
    {                                                                                                                                      \
        sym_mem_space_mode(1);                                                                                                             \
        body_##name();                                                                                                                     \
    }                                                                                                                                      \
    static void body_##name()
#define sym_sched_mode(m) ((void)(m))
#else
#define ENTRY(name) extern "C" void harness_##name()
#endif

// an arbitrary text of one of the lengths 0..maxLen (every byte value, including NUL), or a long
// one (heap allocated) that only differs in its last byte
inline std::string symText(const char* nm, int maxLen, bool longToo = true)
{
    int len = (int)sym_choose(nm, 0, maxLen + (longToo ? 1 : 0));
    std::string s;
    if (len > maxLen)
    {
        s = "a text that is longer than the small buffer ";
        s.push_back((char)sym_i64("ch", 0, 255));
        return s;
    }
    for (int i = 0; i < len; i++) s.push_back((char)sym_i64("ch", 0, 255));
    return s;
}
// a text of any length up to a bound and any content
inline std::string sym_bytes_of(const char* nm, int maxLen)
{
    int len = (int)sym_choose(nm, 0, maxLen);
    std::string s;
    for (int i = 0; i < len; i++) s.push_back((char)sym_i64("ch", 0, 255));
    return s;
}
// texts that are close to another one but differ from it
inline std::vector<std::string> nearTexts(const std::string& k)
{
    std::vector<std::string> r {k + "_", k + "_1", k + " ", " " + k, k + "\n", k + std::string(1, '\0'), k + k, k + "s", "_" + k, k + "/x", k + ".x", k + ":x", k + "(x)", "\"" + k + "\"", std::string(), std::string(300, 'k')};
    if (!k.empty())
    {
        r.push_back(k.substr(1));
        r.push_back(k.substr(0, k.size() - 1));
        std::string u = k, c = k;
        for (auto& x : u) x = (char)((x >= 'a' && x <= 'z') ? x - 32 : (x >= 'A' && x <= 'Z') ? x + 32 : x == '_' ? ' ' : x ^ 32);
        c[0] = u[0];
        r.push_back(u);
        r.push_back(c);
        r.push_back(std::string(k.rbegin(), k.rend()) + "'");
    }
    return r;
}
// which exception does f throw: 0 none, 1 out_of_range, 2 bad_any_cast, 3 bad_cast, 4 runtime_error, 5 other
template<class F> int thrown(F&& f)
{
    try { f(); }
    catch (const std::out_of_range&) { return 1; }
    catch (const std::bad_any_cast&) { return 2; }
    catch (const std::bad_cast&) { return 3; }
    catch (const std::runtime_error&) { return 4; }
    catch (...) { return 5; }
    return 0;
}
