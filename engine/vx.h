// Harness API of the vx symbolic engine.
#pragma once
#include <cstdint>
#include <cstddef>
#ifndef VX_NX
#define VX_NX noexcept
#endif
extern "C" {
// fresh symbolic scalars (a solver variable each)
uint64_t vx_u64(const char* name) VX_NX;
uint32_t vx_u32(const char* name) VX_NX;
uint16_t vx_u16(const char* name) VX_NX;
uint8_t  vx_u8(const char* name) VX_NX;
bool     vx_bool(const char* name) VX_NX;
// fresh symbolic scalar constrained to lo..hi (unsigned)
uint64_t vx_range(const char* name, uint64_t lo, uint64_t hi) VX_NX;
// make n bytes symbolic
void vx_bytes(void* p, size_t n, const char* name) VX_NX;
void vx_assert(bool c, const char* label) VX_NX;   // must hold for every value: decided by the solver
void vx_assume(bool c) VX_NX;                      // restrict the inputs
void vx_reach(const char* label) VX_NX;            // reachability witness
uint64_t vx_pick(uint64_t v) VX_NX;                // explore every feasible value of v separately
void vx_fail(const char* label) VX_NX;             // unconditional violation on this path
int vx_replaying(void) VX_NX;                      // 1 in a concrete replay
int vx_thorough(void) VX_NX;                       // tier
void vx_note(const char* fmt, ...) VX_NX;          // printed on replay only
}
typedef void (*vx_entry_fn)();
struct vx_entry_reg { vx_entry_reg(const char* name, vx_entry_fn setup, vx_entry_fn run); };
// VX_ENTRY(name) { body }      a harness entry without concrete set-up
// VX_ENTRY_S(name, setup) {...}  set-up runs once, before the first symbolic variable exists
#define VX_ENTRY(n) static void vxe_##n(); static vx_entry_reg vxr_reg_##n(#n, nullptr, vxe_##n); static void vxe_##n()
#define VX_ENTRY_S(n, s) static void vxe_##n(); static vx_entry_reg vxr_reg_##n(#n, s, vxe_##n); static void vxe_##n()
#define VX_STR2(x) #x
#define VX_STR(x) VX_STR2(x)
#define VX_CHECK(c, label) vx_assert((c), label)
