// Native side of vh.h: replays a recorded list of inputs against the real code.
#include "vh.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sstream>
#include <dlfcn.h>
#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define UNPOISON(p, n) __msan_unpoison((p), (n))   // libstdc++ is not instrumented
#endif
#endif
#ifndef UNPOISON
#define UNPOISON(p, n)
#endif
static FILE *in;
static unsigned long long nextv() {
    unsigned long long v = 0;
    if (in == nullptr || fscanf(in, "%llu", &v) != 1) v = 0;
    return v;
}
static std::ostringstream *os;
extern "C" {
uint8_t  vh_u8(void)  { return (uint8_t)nextv(); }
uint16_t vh_u16(void) { return (uint16_t)nextv(); }
uint32_t vh_u32(void) { return (uint32_t)nextv(); }
uint64_t vh_u64(void) { return (uint64_t)nextv(); }
uint8_t  vh_below8(uint32_t n) { uint64_t v = nextv(); if (v >= n) { vh_assume(false); } return (uint8_t)v; }
uint32_t vh_choose(uint32_t n) { uint32_t v = (uint32_t)nextv(); return v < n ? v : 0; }
uint64_t vh_concrete64(uint64_t v) { return v; }
uint32_t vh_ite32(bool c, uint32_t a, uint32_t b) { return c ? a : b; }
void vh_assume(bool c) { if (!c) { printf("\nVH-ASSUME-FALSE\n"); fflush(stdout); _exit(5); } }
void vh_assert(bool c, const char *what) { if (!c) { printf("\nVH-FAIL %s\n", what); fflush(stdout); _exit(7); } }
void vh_reach(const char *what) { printf("\nVH-REACHED %s\n", what); fflush(stdout); }
int  vh_solver(void) { return 0; }
std::ostream *vh_os(void) { if (!os) os = new std::ostringstream; return os; }
uint64_t vh_os_size(void) { if (!os) return 0; std::string s = os->str(); UNPOISON(&s, sizeof(s)); return s.size(); }
uint8_t  vh_os_at(uint64_t i) { std::string s = os->str(); UNPOISON(&s, sizeof(s)); UNPOISON(s.data(), s.size()); return i < s.size() ? (uint8_t)s[i] : 0; }
void     vh_os_reset(void) { if (os) { delete os; os = new std::ostringstream; } }
}
int main(int argc, char **argv) {
    // replay <harness> <inputs-file>
    if (argc < 3) return 2;
    in = fopen(argv[2], "r");
    char sym[300]; snprintf(sym, sizeof sym, "H_%s", argv[1]);
    void (*f)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, sym);
    if (!f) { fprintf(stderr, "no %s\n", sym); return 2; }
    alarm(10);
    f();
    printf("\nVH-DONE\n");
    return 0;
}
