// Pools of points and scalars with edge values and near neighbours.
#pragma once
#include "lib.hpp"
template <class C> struct Pool {
    using P = typename C::Point;
    typename C::Curve c1, c2;                 // two objects of the same curve
    std::vector<ref::Pt> q;                   // reference points; q[0] is infinity
    std::vector<mpz_class> k;                 // scalars
    mpz_class n, p;
    void addx(const ref::Bn& x) {
        ref::Bn y;
        if (!ref::sqrt34(ref::rhs(C::G(), x), C::G().p, y)) return;
        ref::Pt t(C::G());
        if (t.set(x, y)) { q.push_back(t); q.push_back(-t); }
    }
    Pool() {
        const ref::Group& g = C::G();
        n = ref::to(g.n); p = ref::to(g.p);
        q.push_back(ref::Pt(g));
        for (long i = 1; i <= 9; i++) { q.push_back(ref::Pt::gen(g, ref::Bn(i))); q.push_back(ref::Pt::gen(g, ref::Bn(-i))); }
        q.push_back(ref::Pt::gen(g, ref::from((n - 1) / 2))); q.push_back(ref::Pt::gen(g, ref::from((n + 1) / 2)));
        for (long x = 0; x < 12; x++) { addx(ref::Bn(x)); addx(ref::from(p - 1 - x)); }
        for (int b : {32, 64, 96, 128, 192, 224, 253}) for (int d = 0; d < 3; d++) addx(ref::from((mpz_class(1) << b) + d));
        // bn254 has a = 0: (beta*x, y) is on the curve for a cube root of unity beta, so different points share y
        if (g.a.zero()) {
            mpz_class e = (p - 1) / 3, beta, two = 2;
            for (long t = 2;; t++) { mpz_class b(t); mpz_powm(beta.get_mpz_t(), b.get_mpz_t(), e.get_mpz_t(), p.get_mpz_t()); if (beta != 1) break; }
            ref::Bn B = ref::from(beta);
            for (size_t i = 1; i < 8; i++) { ref::Pt t(g); if (t.set(ref::mul(q[i].x(), B, g.p), q[i].y())) q.push_back(t); }
        }
        for (size_t i = 1; i < 8; i++) { ref::Pt t(g); if (sameY(q[i], i & 1, t)) q.push_back(t); }
        mon::Rng r(0xb00c);
        for (int i = 0; i < 10; i++) { ref::Pt t = ref::Pt::gen(g, ref::from(r.range(n))); q.push_back(t); q.push_back(-t); q.push_back(t.dbl()); }
        for (long i = 0; i <= 17; i++) { k.push_back(i); k.push_back(-i); }
        for (long i = -3; i <= 3; i++) for (int m = 1; m <= 3; m++) { k.push_back(n * m + i); k.push_back(-n * m + i); }
        for (long i = -2; i <= 2; i++) { k.push_back((n - 1) / 2 + i); k.push_back(n / 3 + i); k.push_back(n * n + i); k.push_back(p + i); }
        for (int b = 4; b <= 260; b += 4) for (int d = -1; d <= 1; d++) k.push_back((mpz_class(1) << b) + d);
    }
    // another point with the ordinate of a, if there is one: x solves X^2 + xa X + (xa^2 + A) = 0
    bool sameY(const ref::Pt& a, bool second, ref::Pt& out) const {
        if (a.inf()) return false;
        const ref::Group& g = C::G();
        ref::Bn x = a.x(), x2 = ref::mul(x, x, g.p), s, three(3L), four(4L);
        ref::Bn d = ref::neg(ref::add(ref::mul(three, x2, g.p), ref::mul(four, g.a, g.p), g.p), g.p);
        if (!ref::sqrt34(d, g.p, s)) return false;
        if (second) s = ref::neg(s, g.p);
        ref::Bn X = ref::mul(ref::sub(s, x, g.p), ref::inv(ref::Bn(2L), g.p), g.p);
        if (X == x) return false;
        return out.set(X, a.y());
    }
    mpz_class scalar(mon::Rng& r) const {
        mpz_class v;
        switch (r.below(14)) {
            case 0: return k[r.below(k.size())];
            case 1: return r.bits(1 + r.below(256));                                   // every length
            case 2: return r.range(n) >> r.below(256) << r.below(256);                 // trailing zeros
            case 3: for (int i = 0; i < 4; i++) v += mpz_class(1) << r.below(257); return v;   // sparse
            case 4: v = (mpz_class(1) << (200 + r.below(57))) - 1; for (int i = 0; i < 3; i++) v ^= mpz_class(1) << r.below(200); return v;   // dense
            case 5: return n - r.bits(1 + r.below(64));
            case 6: return -r.bits(1 + r.below(300));
            case 7: return r.bits(300 + r.below(400));
            case 8: { int lo = r.below(200); v = ((mpz_class(1) << r.below(120)) - 1) << lo; return v + r.bits(lo + 1); }   // a run of ones
            case 9: return (r.range(n) >> 192 << 192) + r.bits(64);                     // a long run of zeros inside
            default: return r.range(n);
        }
    }
    ref::Pt pt(mon::Rng& r) const {
        return r.coin(1, 2) ? q[r.below(q.size())] : ref::Pt::gen(C::G(), ref::from(r.range(n)));
    }
    // a library point of the given value, built in one of several ways
    P lib(const ref::Pt& t, mon::Rng& r) {
        typename C::Curve* c = r.coin() ? &c1 : &c2;
        if (t.inf()) {
            P g = c->getDefaultGen();
            switch (r.below(4)) {
                case 0: return P();
                case 1: return g - g;
                case 2: { P z = g * n; return z; }
                default: { P z = c->evaluateP(typename C::Fp(nonres())); return z; }
            }
        }
        mpz_class x = ref::to(t.x()), y = ref::to(t.y());
        switch (r.below(5)) {
            case 0: return P(x, y, c);
            case 1: return P(x.get_str(10), y.get_str(10), c);
            case 2: return P(x.get_str(16).c_str(), y.get_str(16).c_str(), c, 16);
            case 3: return P(typename C::Fp(x), typename C::Fp(y), c);
            default: return P(x + p, y - p, c);                                          // unreduced coordinates
        }
    }
    mpz_class nonres() const {
        static mpz_class v = [] {
            for (long x = 1;; x++) { ref::Bn y; if (!ref::sqrt34(ref::rhs(C::G(), ref::Bn(x)), C::G().p, y)) return mpz_class(x); }
        }();
        return v;
    }
};
