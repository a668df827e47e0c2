// Deterministic schedules and crash points (flavor "sched" only): the library is compiled with load/store
// callbacks and with wrapped memory functions, so every access to file-backed memory is an event at which
// the harness can switch between coroutines or take a crash image.
#pragma once
#include <cstddef>
#include <functional>
#include <vector>
namespace sched {
enum Kind { LOAD = 1, STORE = 2, SLEEP = 3, NAMED = 4 };
// Called before each access to tracked memory (all mmaps made while tracking is on) and file reads/writes.
typedef std::function<void(Kind, const void*, size_t)> Hook;
void track(bool on);         // start/stop recording new mappings
void set_hook(const Hook* h); // nullptr: no events
void point();             // an event of kind NAMED (only while hooked)
void clear_maps();
void no_sleep(bool on); // nanosleep/usleep return at once
size_t nmaps();
void real_sleep_us(long us);
void time_scale(int n); // poll timeouts and sleeps of the library run n times faster
// called at the start of every thread the library creates (in that thread); nullptr: nothing
void on_thread(const std::function<void()>* f);
void set_user_mutex(bool on); // pthread_mutex_lock of the library becomes a yielding try-lock

// Coroutines.  decide(cur, kind) is called at each event of coroutine cur and when one ends (kind 0);
// it returns the coroutine to run next.  A finished coroutine is never picked (the caller must not return it).
struct Sim {
    typedef std::function<int(int cur, int kind)> Decide;
    std::vector<std::function<void()>> tasks;
    std::vector<bool> done;
    long events = 0, switches = 0;
    bool conflict = false; // at decide: this access and an earlier one of another coroutine touch the same word, and one of them stores
    void run(const Decide& d);
};
} // namespace sched
