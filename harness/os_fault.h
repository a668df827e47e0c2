// Failures of the operating system, injected at the calls the library makes (linker option --wrap, flavor opt).
#pragma once
#include <cstdint>
namespace osf {
enum Kind { FALLOC = 0, MMAP = 1, OPEN = 2, FWRITE = 3, TRUNC = 4, NKIND = 5 };
struct State {
    bool armed = false;     // within a call of the library
    long skip[NKIND] = { 0, 0, 0, 0, 0 }, len[NKIND] = { 0, 0, 0, 0, 0 }; // fail calls skip .. skip+len-1 of a kind
    bool full = false;      // the disk: budget bytes are left
    int64_t budget = 0;
    bool nosupport = false; // a file system without fallocate
    long fired = 0;         // failures so far
    long seen[NKIND] = { 0, 0, 0, 0, 0 };
};
extern State st;
void disk_free();  // there is room again
void clear();      // no more failures
struct Arm { Arm() { st.armed = true; } ~Arm() { st.armed = false; } };
}
