// Fallback driver: only the tools themselves (used when all.cc does not compile).
#include <cstdint>
#include <string>
#define main kws_main_icdar17
#include "tools/Icdar17KwsEval.cc"
#undef main
#define main kws_main_simple
#include "tools/SimpleKwsEval.cc"
#undef main
