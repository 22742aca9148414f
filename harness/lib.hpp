// The library's curves and fields, uniformly named, next to their reference groups.
#pragma once
#include "ref.hpp"
#include "ecc_bn254.hpp"
#include "ecc_secp256r1.hpp"

struct Secp {
    using Curve = ecc::Curve_secp256r1; using Point = ecc::Point_secp256r1;
    using Fp = field::Field_secp256r1_p; using Fn = field::Field_secp256r1_n;
    static const ref::Group& G() { static ref::Group g(ref::secp256r1_desc); return g; }
    static const char* name() { return "secp256r1"; }
};
struct Bn254 {
    using Curve = ecc::Curve_bn254; using Point = ecc::Point_bn254;
    using Fp = field::Field_bn254_p; using Fn = field::Field_bn254_n;
    static const ref::Group& G() { static ref::Group g(ref::bn254_desc); return g; }
    static const char* name() { return "bn254"; }
};
template <class P> std::string pstr(const P& p) {
    return p.isInf() ? "inf" : "(" + mon::hex(p.getX().getRawValue()) + "," + mon::hex(p.getY().getRawValue()) + ")";
}
template <class P> uint64_t hp(const P& p) { return p.isInf() ? 77 : mon::hz(p.getX().getRawValue(), mon::hz(p.getY().getRawValue())); }
// library point -> reference point; false if the coordinates are not canonical or not on the curve
template <class C, class P> bool toRef(const P& p, ref::Pt& out) {
    out = ref::Pt(C::G());
    if (p.isInf()) return true;
    ref::Bn x = ref::from(p.getX().getRawValue()), y = ref::from(p.getY().getRawValue());
    if (!(x < C::G().p) || !(y < C::G().p) || BN_is_negative(x.b) || BN_is_negative(y.b)) return false;
    return out.set(x, y);
}
template <class C> typename C::Point toLib(const ref::Pt& q, typename C::Curve* c) {
    if (q.inf()) return typename C::Point();
    return typename C::Point(ref::to(q.x()), ref::to(q.y()), c);
}
template <class C, class P> bool same(const P& p, const ref::Pt& q) {
    if (p.isInf() || q.inf()) return p.isInf() && q.inf();
    return ref::eq(p.getX().getRawValue(), q.x()) && ref::eq(p.getY().getRawValue(), q.y());
}
