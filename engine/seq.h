// E1: explicit-state exploration of the real code, one operation at a time.
// Interface between the engine (seq.cpp, not instrumented) and a harness (instrumented, includes xmem).
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>

namespace sq {

// --- services for harnesses -------------------------------------------------------------------

// the property-relevant state of the world lives at this fixed address
constexpr uintptr_t ROOT_ADDR = 0x100000000000ull;
constexpr uintptr_t ARENA_ADDR = 0x200000000000ull;

// report a violation in the given category; does not return (the transition is abandoned)
[[noreturn]] void fail(const char* cat, const char* fmt, ...) __attribute__((format(printf, 2, 3)));

// the group of the current operation: categories are reported as <category>@<group>
void set_group(const char* g);

// a record of the reference model; lives as long as it is reachable from the root
void* model_alloc(size_t size);

// fault injection: the k-th allocation from now (1-based) throws std::bad_alloc; 0: off
void fail_alloc(int k);
// number of allocations since the last call of fail_alloc
int alloc_count();
bool fault_fired();

// block queries
bool is_live(const void* p);               // points into (or at the begin of) a live block
size_t block_size(const void* p);          // 0 if not in a live block
void* block_begin(const void* p);
int live_blocks();                         // without model records
int live_blocks_tagged(uint32_t tag);
void set_tag(void* p, uint32_t tag, uint32_t count);
uint32_t get_tag(const void* p);
uint32_t get_count(const void* p);
bool block_is_array(const void* p);
// the bytes must not be accessed until the block is freed (the object in them is dead)
void poison(const void* p, size_t size);
void unpoison(const void* p);

void set_hang_limit(uint64_t accesses);
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // shown in replays
void outcome(uint64_t v);                  // counts distinct observed outcomes

// --- what a harness provides ------------------------------------------------------------------
struct Sizes {
    size_t hashed;   // bytes of the root which identify the state (and from which blocks are reachable)
    size_t total;    // bytes of the root to save and restore
    size_t slot;     // power of 2: bytes per block of the arena
    int blocks;      // number of blocks
};
} // namespace sq

extern "C" {
int h_nconfigs();
const char* h_config_name(int c);
void h_config(int c);              // select configuration and build the list of operations
sq::Sizes h_sizes();
void h_init();                     // construct the world in the (zeroed) root
int h_nops();
void h_opname(int op, char* buf, size_t n);
bool h_enabled(int op);
void h_apply(int op);              // model and implementation take a step, results are compared
void h_observe();                  // everything observable is compared, must not change the state
void h_end(int order);             // destroy everything, check that nothing is left
}
