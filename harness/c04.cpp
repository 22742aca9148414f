// C04: point compression and curve evaluation against an independent square root.
#include "pool.hpp"
using namespace mon;
template <class C> struct T {
    using P = typename C::Point; using Fp = typename C::Fp;
    Pool<C> pool;
    std::string k(const char* op) { return std::string(op) + ":" + C::name(); }
    std::map<mpz_class, std::pair<mpz_class, mpz_class>> enc;     // encoding -> coordinates
    std::vector<mpz_class> bad;                                   // encodings of no point
    P obj; bool have = false;                                     // one object reused for a long history of decodings

    void x(const mpz_class& xv, Rng& r) {
        const ref::Group& g = C::G();
        typename C::Curve& c = r.coin() ? pool.c1 : pool.c2;
        ref::Bn X = ref::mod(ref::from(xv), g.p), Y, R = ref::rhs(g, X);
        bool on = ref::sqrt34(R, g.p, Y);
        mpz_class xr = ref::to(X);
        step("x=" + hex(xv));
        Fp fx(xv);
        Fp y2 = c.evaluatePy2(fx);
        if (!ref::eq(y2.getRawValue(), R) || y2.getField() != pool.p) viol(k("rhs"), "x=" + hex(xv) + " gave " + hex(y2.getRawValue()) + " expected " + ref::hex(R));
        P a = c.evaluateP(fx), b = c.evaluatePneg(fx);
        if (fx.getRawValue() != xr) viol(k("operand-changed"), "x=" + hex(xv));
        evald(hstr("eval", hz(xr)));
        seen(on ? "x:on-curve" : "x:no-point");
        seen(std::string("curve:") + C::name());
        if (a.isInf() != !on || b.isInf() != !on) { viol(k("existence"), "x=" + hex(xv) + (on ? " has a point, got " : " has no point, got ") + pstr(a) + " " + pstr(b)); return; }
        if (!on) {
            mpz_class e = xr << 1;
            for (int s = 0; s < 2; s++) {
                P q = c.getDefaultGen(); q.setEncodedX(e + s);
                if (!q.isInf()) viol(k("decode-none"), "encoding " + hex(e + s) + " of no point decodes to " + pstr(q));
                if (!q.isValid()) viol(k("decode-none"), "encoding " + hex(e + s) + " of no point gives an invalid object");
                evald(hstr("decode-none", hz(e + s)));
            }
            if (bad.size() < 4000) bad.push_back(e);
            return;
        }
        ref::Pt A(g), B(g);
        if (!toRef<C>(a, A) || !toRef<C>(b, B) || !a.isValid() || !b.isValid()) { viol(k("eval-valid"), "x=" + hex(xv) + " gave " + pstr(a) + " " + pstr(b)); return; }
        if (A.inf() || B.inf() || !(A.x() == X) || !(B.x() == X)) viol(k("eval-x"), "x=" + hex(xv) + " gave " + pstr(a) + " " + pstr(b));
        if (!(A == -B) || !(A.y() == Y || A.y() == ref::neg(Y, g.p))) viol(k("eval-roots"), "x=" + hex(xv) + ": " + pstr(a) + " " + pstr(b) + " are not the two roots");
        mpz_class ea = round(a, r), eb = round(b, r);
        if (mpz_class(ea ^ eb) != 1) viol(k("sign-bit"), "encodings of P and -P: " + hex(ea) + " " + hex(eb) + " for " + pstr(a));
        sample(C::name(), "x=" + hex(xr) + " encodings " + hex(ea) + " " + hex(eb));
    }
    mpz_class round(const P& pnt, Rng& r) {
        mpz_class e = pnt.getEncodedX();
        mpz_class ax = pnt.getX().getRawValue(), ay = pnt.getY().getRawValue();
        auto it = enc.find(e);
        if (it != enc.end() && it->second != std::make_pair(ax, ay)) viol(k("injective"), "encoding " + hex(e) + " of two points, one " + pstr(pnt));
        if (enc.size() < 200000) enc[e] = {ax, ay};
        P q = r.coin() ? pool.c1.getDefaultGen() : pool.c2.getRandomPoint();
        if (q.isInf()) q = pool.c1.getDefaultGen();
        if (r.coin(1, 3) && !bad.empty()) { q.setEncodedX(r.pick(bad) + r.below(2)); seen("decode-after-none"); }
        q.setEncodedX(e);
        if (!(q == pnt) || q.isInf() || q.getX().getRawValue() != ax || q.getY().getRawValue() != ay || !q.isValid())
            viol(k("roundtrip"), pstr(pnt) + " encodes to " + hex(e) + ", which decodes to " + pstr(q));
        if (e != q.getEncodedX()) viol(k("reencode"), pstr(pnt));
        // the long-lived object
        if (!have) { obj = pool.c1.getDefaultGen(); have = true; }
        obj.setEncodedX(e);
        if (!(obj == pnt)) viol(k("history"), pstr(pnt) + " decoded into a reused object: " + pstr(obj));
        if (r.coin(1, 4) && !bad.empty()) { obj.setEncodedX(r.pick(bad)); if (!obj.isInf()) viol(k("history-none"), "reused object is " + pstr(obj)); }
        // the sign bit flipped gives the opposite point
        P o = pool.c2.getDefaultGen();
        o.setEncodedX(e ^ mpz_class(1));
        if (!(o == P() - pnt)) viol(k("opposite"), pstr(pnt) + " with its sign bit flipped decodes to " + pstr(o));
        if (pnt.getX().getRawValue() != ax || pnt.getY().getRawValue() != ay) viol(k("operand-changed"), "encoding changed the point");
        evald(hstr("roundtrip", hz(e)));
        seen("roundtrip");
        return e;
    }
};
int main(int argc, char** argv) {
    static T<Secp> s; static T<Bn254> b;
    auto on = [](uint64_t w, auto&& f) { if (w % 2) f(b); else f(s); };
    section("small-x", 2000, 60000, [&](uint64_t i, Rng& r) { on(i, [&](auto& t) { t.x(i / 2, r); t.x(t.pool.p - 1 - i / 2, r); if (i < 40) t.x(-(long)(i / 2), r); }); });
    section("edge-x", 2 * 257, 2 * 257, [&](uint64_t i, Rng& r) { on(i, [&](auto& t) { for (long d = -8; d <= 8; d++) t.x((mpz_class(1) << (i / 2)) + d, r); }); });
    section("pool", 2 * 120, 2 * 120, [&](uint64_t i, Rng& r) {
        on(i, [&](auto& t) { if (i / 2 < t.pool.q.size() && !t.pool.q[i / 2].inf()) { t.round(t.pool.lib(t.pool.q[i / 2], r), r); t.x(ref::to(t.pool.q[i / 2].x()), r); } });
    });
    section("random-x", 6000, 400000, [&](uint64_t i, Rng& r) {
        on(i, [&](auto& t) { mpz_class x = r.coin(1, 3) ? r.bits(1 + r.below(256)) : r.range(t.pool.p); for (int d = 0; d < 4; d++) t.x(x + d, r); });
    });
    section("related-x", 1200, 60000, [&](uint64_t i, Rng& r) {         // histories of related abscissas, on both curves in turn
        mpz_class x = r.coin(1, 3) ? r.bits(1 + r.below(256)) : r.range(s.pool.p);
        for (int n = 0; n < 8; n++) {
            on(r.coin(1, 3) ? i + 1 : i, [&](auto& t) { t.x(x, r); });
            if (r.coin(2, 3)) x = near(r, x);
        }
    });
    section("random-points", 3000, 100000, [&](uint64_t i, Rng& r) {
        on(i, [&](auto& t) { auto p = (r.coin() ? t.pool.c1 : t.pool.c2).getRandomPoint(); if (!p.isInf()) { t.round(p, r); t.round(p + p, r); } });
    });
    return run(argc, argv);
}
