#pragma once
#include <string>
using SayFn = void (*)(int, int, const std::string&, int, const char*, int*);
struct SayReg
{
    SayReg(int level, SayFn fn, const char* file);
};
