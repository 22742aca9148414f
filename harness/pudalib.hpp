#pragma once
#include "pool.hpp"
#include "rng_hook.hpp"
#include "puda.hpp"
struct Keys {
    puda::ek_v_t ek; puda::sk_v_t sk; puda::ak_t ak; puda::vk_t vk; size_t n;
    puda::Puda* p;
    puda::POINT1 H(int t) { return p->Enc(puda::ek_t(mpz_class(1)), 0, t); }      // the timestamp's base, as an encryption of 0 under key 1
};
inline Keys setup(puda::Puda& p, size_t n) {
    auto s = p.Setup(n);
    Keys k{std::get<0>(s), std::get<1>(s), std::get<2>(s), std::get<3>(s), n, &p};
    return k;
}
inline ref::Pt RP(const puda::POINT1& p) { ref::Pt t(Secp::G()); if (!toRef<Secp>(p, t)) mon::viol("invalid-point", pstr(p)); return t; }
inline ref::Bn bnf(const mpz_class& v) { return ref::mod(ref::from(v), Secp::G().n); }
inline int aTime(mon::Rng& r) {
    switch (r.below(8)) {
        case 0: return 1;
        case 1: return -(int)(1 + r.below(1000));
        case 2: return 2147483647 - (int)r.below(3);
        case 3: return -2147483647 - 1 + (int)r.below(3);
        case 4: return (int)r.below(3) - 1;
        default: return (int)(1 + r.below(1u << 31 >> 1));
    }
}
// timestamps that have much in common with another one
inline int nearTime(mon::Rng& r, int t) {
    static const int W[] = {1, 2, 256, 65536, 1 << 24, 1 << 30};
    unsigned u = (unsigned)t;
    switch (r.below(6)) {
        case 0: return t;
        case 1: return (int)(0u - u);
        case 2: return (int)(u + (unsigned)W[r.below(6)]);
        case 3: return (int)(u ^ (1u << r.below(32)));
        case 4: return (int)((u & 0xffff) | (unsigned)(r.next() & 0xffff0000u));
        default: return (int)(u << 16 | u >> 16);
    }
}
// n messages with the given total
inline std::vector<uint16_t> msgs(mon::Rng& r, size_t n, uint32_t total) {
    std::vector<uint16_t> m(n, 0);
    if (!n) return m;
    uint32_t left = total;
    switch (r.below(3)) {
        case 0: m[r.below(n)] = total; break;
        case 1: for (size_t i = 0; i < n; i++) { uint32_t x = i + 1 == n ? left : r.below(left + 1); m[i] = x; left -= x; } break;
        default: for (size_t i = 0; i < n; i++) { uint32_t x = i + 1 == n ? left : left / (n - i); m[i] = x; left -= x; }
    }
    return m;
}
