#pragma once
#include "lib.hpp"
#include "rng_hook.hpp"
#include "shamirss.hpp"
#include "utilities.hpp"
inline const ref::Bn& N() { return Secp::G().n; }
inline mpz_class Nz() { static mpz_class v = ref::to(N()); return v; }
inline ref::Bn B(const sss::FIELD& f) { return ref::from(f.getRawValue()); }
inline ref::Bn sub_(const ref::Bn& a, const ref::Bn& b) { return ref::sub(a, b, N()); }
inline ref::Bn mul_(const ref::Bn& a, const ref::Bn& b) { return ref::mul(a, b, N()); }
inline ref::Bn add_(const ref::Bn& a, const ref::Bn& b) { return ref::add(a, b, N()); }
// value at 0 of the polynomial through the points
inline ref::Bn at0(const std::vector<std::pair<ref::Bn, ref::Bn>>& p) {
    ref::Bn r(0L);
    for (size_t i = 0; i < p.size(); i++) {
        ref::Bn num(1L), den(1L);
        for (size_t j = 0; j < p.size(); j++) if (i != j) { num = mul_(num, p[j].first); den = mul_(den, sub_(p[j].first, p[i].first)); }
        r = add_(r, mul_(p[i].second, mul_(num, ref::inv(den, N()))));
    }
    return r;
}
// coefficients of the polynomial of degree < n through n points (Newton, then expanded)
inline std::vector<ref::Bn> coeffs(std::vector<std::pair<ref::Bn, ref::Bn>> p) {
    size_t n = p.size();
    std::vector<ref::Bn> d, c(n, ref::Bn(0L));
    for (auto& q : p) d.push_back(q.second);
    for (size_t k = 1; k < n; k++)
        for (size_t i = n - 1; i >= k; i--) d[i] = mul_(sub_(d[i], d[i - 1]), ref::inv(sub_(p[i].first, p[i - k].first), N()));
    for (size_t i = n; i-- > 0;) {
        for (size_t j = n - 1; j > 0; j--) c[j] = sub_(c[j - 1], mul_(c[j], p[i].first));
        c[0] = sub_(d[i], mul_(c[0], p[i].first));
    }
    return c;
}
inline mpz_class aSecret(mon::Rng& r) {
    switch (r.below(8)) {
        case 0: return r.below(3);
        case 1: return Nz() - 1 - r.below(3);
        case 2: return mpz_class(1) << r.below(256);
        case 3: return r.bits(1 + r.below(64));
        case 4: return -(long)r.below(1000);
        default: return r.range(Nz());
    }
}
