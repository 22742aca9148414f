// Helpers for the protocols built on the dual-mode cryptosystem.
#pragma once
#include "pool.hpp"
#include "runs.hpp"
#include "rng_hook.hpp"
#include "dme.hpp"
#include "dmhe.hpp"
#include "dot.hpp"
#include "ot.hpp"
using dme::POINT; using dme::CURVE;
inline mpz_class encMax() {      // largest encodable integer: all 1024 candidates stay below the prime
    static mpz_class v = ((ref::to(Secp::G().p) - 1024) >> 10); return v;
}
inline mpz_class anInt(mon::Rng& r) {
    mpz_class m;
    switch (r.below(10)) {
        case 9: m = mpz_class(runs10()[r.below(runs10().size())], 16); break;
        case 0: m = r.below(6); break;
        case 1: m = encMax() - r.below(6); break;
        case 2: m = (mpz_class(1) << r.below(246)) - (long)r.below(2); break;
        case 3: m = r.bits(1 + r.below(245)); break;
        case 4: m = r.below(100000); break;
        case 5: m = r.bits(128); break;
        default: m = r.range(encMax() + 1); break;
    }
    if (m > encMax()) m = encMax();
    return m < 0 ? mpz_class(0) : m;
}
inline Pool<Secp>& spool() { static Pool<Secp> p; return p; }
inline POINT aPoint(mon::Rng& r) {
    switch (r.below(6)) {
        case 0: return POINT();
        case 1: return spool().lib(spool().q[1 + r.below(18)], r);
        case 2: return spool().lib(spool().q[r.below(spool().q.size())], r);
        default: return spool().lib(ref::Pt::gen(Secp::G(), ref::from(r.bits(62))), r);
    }
}
inline POINT freshPoint(mon::Rng& r) {     // unpredictable, never one of the pool
    return spool().lib(ref::Pt::gen(Secp::G(), ref::from(r.range(spool().n - 1) + 1)), r);
}
inline ref::Pt R(const POINT& p) { ref::Pt t(Secp::G()); if (!toRef<Secp>(p, t)) mon::viol("invalid-point", pstr(p)); return t; }
inline std::string ctstr(const dme::ctxt_t& c) { return "u=" + pstr(c.u) + " mv=" + pstr(c.mv); }
inline uint64_t hc(const dme::ctxt_t& c) { return mon::mix(hp(c.u) ^ mon::mix(hp(c.mv))); }
inline bool eqp(const POINT& a, const POINT& b) {   // by coordinates, not by the library's operator
    if (a.isInf() || b.isInf()) return a.isInf() && b.isInf();
    return a.getX().getRawValue() == b.getX().getRawValue() && a.getY().getRawValue() == b.getY().getRawValue();
}
inline const char* rmode(uint64_t k, uint64_t seed) {
    switch (k) {
        case 0: rh::set(rh::SEEDED, seed); return "full";
        case 1: rh::set(rh::HOSTILE, seed); return "hostile";
        default: rh::set(rh::SMALL, seed, 64); return "short";
    }
}
