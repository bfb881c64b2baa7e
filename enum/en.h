// Exhaustive enumeration of choice sequences by re-execution, in parallel processes that contain crashes.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
namespace en {
int ch(int n, const char* label = nullptr); // one of 0..n-1; every combination is executed
template <class T> T pick(std::initializer_list<T> v, const char* l = nullptr) { return v.begin()[ch((int)v.size(), l)]; }
void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2), noreturn)); // report a violation and abandon this execution
void skip();                                                                     // abandon this execution without verdict: the case is outside the space
void step();                                                                     // one call of the code under test
void state(uint64_t h);                                                          // abstract state reached
void cut(uint64_t h, int remaining);                                             // h: the whole concrete state; abandon this execution if everything within so many operations was explored from it
void say(const char* fmt, ...) __attribute__((format(printf, 1, 2)));            // shown in replays and samples
bool verbose();
long argi(const char* name, long dflt);       // environment variable
bool thorough();
static inline uint64_t mix(uint64_t a, uint64_t b) { uint64_t x = a * 0x9E3779B97F4A7C15ULL + b + 0x1234567; x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ULL; x ^= x >> 32; return x; }
void live_mark();                             // memory accounting (address sanitizer builds)
long live_since_mark();                       // blocks allocated since the mark and not freed
int run(int argc, char** argv, void (*one)(), void (*init)() = nullptr);
}
#define EN_REQ(c, ...) do { if (!(c)) en::fail(__VA_ARGS__); } while (0)
