// Specification primitives. In symbolic mode they are interpreted by the VC generator
// (engine/builtins_vf.py); in native mode (VF_NATIVE) by lib/vf_native.cpp.
#pragma once
#include <stdint.h>
#include <stddef.h>
extern "C" {
uint8_t vf_nd8();
uint16_t vf_nd16();
uint32_t vf_nd32();
uint64_t vf_nd64();
bool vf_bool();
// arbitrary length; nativeMax only limits the native / bounded searches
uint32_t vf_len(uint32_t nativeMax);
// fresh block with n bytes of arbitrary contents (element width w)
void* vf_buf(uint64_t n, uint32_t w);
// fresh uninitialised object outside of the heap
void* vf_object(uint64_t n);
void* vf_heapbuf(uint64_t n, uint32_t w);
void vf_readonly(const void* p);
void vf_assume(bool c);
void vf_assert_(bool c, const char* name);
void vf_cover_(const char* name);
void vf_havoc(void* p, uint64_t n, uint32_t w);
const void* vf_window(const void* src, uint64_t pos, uint64_t len);
uint64_t vf_window_pos(const void* p);
uint64_t vf_size(const void* p);
bool vf_same(const void* p, const void* q);
uint64_t vf_offset(const void* p);
bool vf_is_heap(const void* p);
uint64_t vf_heap_live();
bool vf_symbolic();
// assertions of the code under check are assumed (because another harness proves them) until vf_trust(false)
void vf_trust(bool on);
}
#define vf_assert(c, name) vf_assert_((c), name)
#define vf_cover(name) vf_cover_(name)
#define VF_HARNESS(name) extern "C" void verify_##name()
// candidate loop invariant of harness h
#define VF_INV(h, name) extern "C" bool inv_##h##__##name
// definitional axiom about ghost arrays of harness h, instantiated at every term of every loop head (true by construction of the array:
// the native build computes the array and asserts the axiom)
#define VF_AXIOM(h, name) extern "C" bool axiom_##h##__##name
#define VF_USE_AXIOM(h, name, i) vf_assume(axiom_##h##__##name(i))
inline bool vf_implies(bool a, bool b) { return !a || b; }
