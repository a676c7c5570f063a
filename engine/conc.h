// E2: stateless exploration of all interleavings of small multi-threaded programs running the real code.
// Interface between the engine (conc.cpp, not instrumented) and a harness (instrumented, includes the library).
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>

namespace co {

// Everything the threads share lives here or in blocks from operator new: accesses are checked for races and lifetime.
constexpr uintptr_t ROOT_ADDR = 0x100000000000ull;
constexpr size_t ROOT_SIZE = 8192;
constexpr uintptr_t ARENA_ADDR = 0x200000000000ull;
constexpr int MAXT = 4; // threads, without main

// report a violation; does not return (the execution is abandoned)
[[noreturn]] void fail(const char* cat, const char* fmt, ...) __attribute__((format(printf, 2, 3)));

int self(); // number of the running thread; MAXT in main (init and final)

// An operation of the history of the current execution. Order between operations is happens-before
// and, if the program asks for it (h_realtime), the order in time.
int op_begin(const char* name = nullptr);
void op_end(int op);
bool op_before(int a, int b); // a ended before b began

// bookkeeping of the harness: memory is not the world's, accesses are not checked
bool pause(bool on);
struct Out { bool old; Out() : old(pause(true)) {} ~Out() { pause(old); } };

void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void outcome(uint64_t v);
bool is_live(const void* p);
int live_blocks();
} // namespace co

// --- what a harness provides ------------------------------------------------------------------
extern "C" {
int h_nconfigs();
const char* h_config_name(int c);
void h_config(int c);
int h_nprograms();                  // programs of the selected configuration
void h_program_name(int p, char* buf, size_t n);
void h_program(int p);              // select a program
int h_threads();
bool h_realtime();
int h_deviations();                 // of the selected configuration: stale loads and spurious failures per execution
bool h_patience() __attribute__((weak)); // of the selected configuration: a thread which spins may go on doing so while nobody else runs (as a deviation)
void h_init();                      // main, before the threads start: constructs the world in the (zeroed) root
void h_thread(int t);
void h_final();                     // main, after all threads ended: checks and destroys everything
}
