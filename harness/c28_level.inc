// One copy of the message functions per verbosity, each in a namespace of its own (C28).
#include <fmt/color.h>
#include <fmt/core.h>
#include <fmt/format.h>
#include <fmt/ostream.h>
#include <experimental/source_location>
#include <string>
#define mc VH_NS
#define LOG_LEVEL VH_LEVEL
#include "common/print.cxx"
#undef mc
#include "c28_level.h"

// every message function, plain and conditional; `line` receives the line the call stands on
static void say(int fn, int form, const std::string& a, int b, const char* raw, int* line)
{
    using VH_NS::fmt;
    const bool yes = form != 2;
    switch (fn * 3 + (form == 0 ? 0 : form == 3 ? 2 : 1))
    {
        // clang-format off
        case 0: *line = __LINE__; VH_NS::dbg("a {} b {}", fmt(a, b)); break;
        case 1: *line = __LINE__; VH_NS::dbg(yes, "a {} b {}", fmt(a, b)); break;
        case 2: *line = __LINE__; VH_NS::dbg(raw); break;
        case 3: *line = __LINE__; VH_NS::info("a {} b {}", fmt(a, b)); break;
        case 4: *line = __LINE__; VH_NS::info(yes, "a {} b {}", fmt(a, b)); break;
        case 5: *line = __LINE__; VH_NS::info(std::string(raw)); break;
        case 6: *line = __LINE__; VH_NS::warn("a {} b {}", fmt(a, b)); break;
        case 7: *line = __LINE__; VH_NS::warn(yes, "a {} b {}", fmt(a, b)); break;
        case 8: *line = __LINE__; VH_NS::warn(std::string(raw)); break;
        case 9: *line = __LINE__; VH_NS::error("a {} b {}", fmt(a, b)); break;
        case 10: *line = __LINE__; VH_NS::error(yes, "a {} b {}", fmt(a, b)); break;
        case 11: *line = __LINE__; VH_NS::error(std::string(raw)); break;
        case 12: *line = __LINE__; VH_NS::fatal("a {} b {}", fmt(a, b)); break;
        case 13: *line = __LINE__; VH_NS::fatal(yes, "a {} b {}", fmt(a, b)); break;
        case 14: *line = __LINE__; VH_NS::fatal(std::string(raw)); break;
        case 15: case 16: *line = __LINE__; VH_NS::base_print("a {} b {}", fmt(a, b)); break;
        case 17: *line = __LINE__; VH_NS::base_print("a {} b {}", fmt(a, b)); break;
        // clang-format on
    }
}
static SayReg reg(VH_INDEX, say, __FILE__);
