// the real program under another symbol, callable
// (the argument parser's constants would clash between programs)
#define third_party third_party_post_process
int main(int, char**) __asm__("post_process_main");
#include "tools/post_process.cxx"
