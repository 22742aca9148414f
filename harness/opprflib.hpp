#pragma once
#include "dmelib.hpp"
#include "opprf.hpp"
// A common reference string by one of the ways a deployment can obtain it.
struct Crs { std::unique_ptr<dme::DME_DDH> dme; dme::CURVE curve; dme::crs_ddh_t crs; const char* how; };
inline void makeCrs(Crs& c, mon::Rng& r, int how) {
    switch (how % 3) {
        case 0: c.dme.reset(new dme::DME_DDH(dme::messy)); c.crs = c.dme->crs; c.how = "messy"; break;
        case 1: c.dme.reset(new dme::DME_DDH(dme::dec)); c.crs = c.dme->crs; c.how = "dec"; break;
        default: c.crs = dme::crs_ddh_t(c.curve.getRandomPoint(), c.curve.getRandomPoint(), c.curve.getRandomPoint(), c.curve.getRandomPoint()); c.how = "points";
    }
}
inline dme::POINT aSecret(mon::Rng& r, dme::CURVE* c) {
    switch (r.below(8)) {
        case 0: return c->getDefaultGen();
        case 1: return toLib<Secp>(-ref::Pt::gen(Secp::G(), ref::Bn(1L)), c);
        case 2: return dme::POINT();
        default: return toLib<Secp>(ref::Pt::gen(Secp::G(), ref::from(r.range(ref::to(Secp::G().n)))), c);
    }
}
inline int topBit(unsigned d) { int b = -1; while (d) { b++; d >>= 1; } return b; }     // position of the highest differing bit
inline ref::Pt times(const dme::POINT& A, unsigned x) { return R(A) * ref::Bn((long)x); }
