// Stand-in for cpptrace (not installed): an empty stack trace.
#pragma once
#include <string>
namespace cpptrace
{
struct stacktrace { std::string to_string(bool = false) const { return "trace"; } };
inline stacktrace generate_trace() { return {}; }
}
