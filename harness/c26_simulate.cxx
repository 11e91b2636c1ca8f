// the real program under another symbol, callable
// (the argument parser's constants would clash between programs)
#define third_party third_party_simulate
int main(int, char**) __asm__("simulate_main");
#include "sim/simulate.cxx"
