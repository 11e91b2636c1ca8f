// the real program under another symbol, callable
// (the argument parser's constants would clash between programs)
#define third_party third_party_verify_ephemeris
int main(int, char**) __asm__("verify_ephemeris_main");
#include "tools/verify_ephemeris.cxx"
