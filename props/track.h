// An element type that counts its live instances and may be checked for use after destruction.
#pragma once
#include "vx.h"
struct Elem {
    static inline int live = 0; uint32_t v; uint32_t tag = 0x600d;
    Elem(uint32_t x = 0) : v(x) { live++; }
    Elem(const Elem& o) : v(o.v) { vx_assert(o.tag == 0x600d, "no copy of a destroyed element"); live++; }
    Elem(Elem&& o) noexcept : v(o.v) { live++; }
    Elem& operator=(const Elem& o) { v = o.v; return *this; }
    ~Elem() { tag = 0xdead; live--; }
    bool operator==(const Elem& o) const { return v == o.v; }
    operator uint32_t() const { return v; }
};
inline std::ostream& operator<<(std::ostream& o, const Elem& e) { return o << e.v; }
