// The coordinator's code with all its memory in one place, so that its state can be saved and restored; its calls to the C library end here.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <string>
#include <vector>
namespace isl {
struct Stop { int why; const char* text; };
enum { IDLE = 1, EXIT = 2, BLOCKED = 3, LOCK = 4, MEMORY = 5 };
void init();                                  // remembers the pristine state
void reset();
size_t size(); uint64_t statics(); // statics: content of all static data of the coordinator
                                // bytes to save at present
void save(unsigned char* to);
void restore(const unsigned char* from, size_t n);
extern const unsigned char* in; extern size_t in_len, in_pos; extern int in_fd; extern bool in_eof; // what the peer sent to the handler being run
extern bool broken[8];                        // peer's side is closed: writes fail
struct Out { int fd; std::string bytes; };
extern std::vector<Out> out;
int run(int f);                               // one handler thread until it wants more input; returns 0 when the thread ended, else one of the above
const char* why();
}
