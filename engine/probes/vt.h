#pragma once
#include <cstddef>
extern "C" {
double vt_sym(int id);
void vt_emit_d(const char* tag, long i, long j, long k, double v);
void vt_emit_i(const char* tag, long i, long j, long k, long v);
void vt_emit_s(const char* tag, long i, long j, long k, const char* v);
void vt_emit_class(const char* tag, long i, long j, long k, const void* o);
int vt_try(const char* label, void (*f)(void*), void* ctx);
int vt_decided(bool b);
void vt_dump(const char* tag, long i, const void* p, long n);
void vt_log(const char*, double);
}
template <class F>
__attribute__((noinline)) int vtTry(const char* label, F f) {
    return vt_try(label, [](void* c) { (*static_cast<F*>(c))(); }, &f);
}
