// Control of the message passing model.
#pragma once
#include "vt.h"
extern "C" {
void vt_block();
void vt_processes();
void vt_misuse(const char* what) __attribute__((noreturn));
int vt_process(const char* label, long rank, void (*f)(void*), void* ctx);
}
namespace vtmpi {
// runs f on every process until all have finished; order: which pending message a wildcard receive takes first
// (even: lowest sender, odd: highest sender).  Emits "process"(size, rank, order) = 1 finished, 0 failed, 2 waits forever.
void run(const char* label, int size, int order, void (*f)(void*), void* ctx);
int rank();
template <class F>
__attribute__((noinline)) void run(const char* label, int size, int order, F f) {
    run(label, size, order, [](void* c) { (*static_cast<F*>(c))(); }, &f);
}
}  // namespace vtmpi
