// C25: the curves' published parameters, which curve is which, and the text forms of numbers, points and curves.
#include "pool.hpp"
#include "rng_hook.hpp"
#include <memory>
#include <sstream>
#include <thread>
using namespace mon;

static std::string dec(const ref::Bn& v) { char* s = BN_bn2dec(v.b); std::string r(s); OPENSSL_free(s); return r; }
// digits of v (>= 0) in any base that mpz_set_str documents, by repeated division of a BIGNUM
static std::string digits(const ref::Bn& v, int base, bool upper) {
    static const char low[] = "0123456789abcdefghijklmnopqrstuvwxyz", both[] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
    ref::Bn t(v);
    std::string s;
    do {
        unsigned d = (unsigned)BN_div_word(t.b, base);
        char c = base <= 36 ? low[d] : both[d];
        s += upper && base <= 36 ? (char)toupper(c) : c;
    } while (!t.zero());
    return std::string(s.rbegin(), s.rend());
}

template <class C> struct Params {
    using Curve = typename C::Curve; using P = typename C::Point; using Fp = typename C::Fp; using Fn = typename C::Fn;
    const ref::CurveDesc& d; ref::Bn p, a, b, gx, gy, n; mpz_class pz, nz;
    std::string printed;
    explicit Params(const ref::CurveDesc& d_) : d(d_), p(d_.p), a(d_.a), b(d_.b), gx(d_.gx), gy(d_.gy), n(d_.n), pz(ref::to(p)), nz(ref::to(n)) {
        printed = "C(p=" + dec(p) + ", a=" + dec(a) + ", b=" + dec(b) + ", n=" + dec(n) + ", cof=1)";
    }
    std::string kd(const char* k) const { return std::string(k) + ":" + C::name(); }
    // every getter of a curve object against the published parameters
    void params(const Curve& c, const std::string& how) const {
        auto val = [&](const char* what, const mpz_class& got, const ref::Bn& want) {
            if (!ref::eq(got, want)) viol(kd(what), how + ": " + hex(got) + ", published " + ref::hex(want));
            evald(hstr(what, hz(got, hstr(how))));
        };
        auto fld = [&](const char* what, const Fp& got, const ref::Bn& want) {
            val(what, got.getRawValue(), want);
            if (got.getField() != pz) viol(kd(what), how + ": an element of the field of " + hex(got.getField()));
        };
        val("prime", c.getPrime(), p); val("order", c.getOrder(), n);
        val("a", c.getA(), a); val("b", c.getB(), b);
        fld("a-field", c.getAField(), a); fld("b-field", c.getBField(), b);
        P g = c.getDefaultGen();
        if (g.isInf()) viol(kd("generator"), how + ": infinity");
        fld("generator-x", g.getX(), gx); fld("generator-y", g.getY(), gy);
        if (!g.isValid()) viol(kd("generator"), how + ": not on its curve");
        std::ostringstream o;
        o << c;
        if (o.str() != printed) viol(kd("curve-printed"), how + ": " + o.str());
        seen("parameters");
    }
    void equal(const Curve& x, const Curve& y, const std::string& how) const {
        if (!(x == y) || !(y == x) || !(x == x)) viol(kd("curves-unequal"), how + ": two objects of the same curve differ");
        seen("curves-compared");
    }
    // one of the five parameters changed, by a derived class
    struct Alt : Curve {
        explicit Alt(int which, const mpz_class& by) {
            mpz_class* f[] = {&this->prime, &this->a, &this->b, &this->order, &this->cofactor};
            if (which >= 0) *f[which] += by;
        }
    };
    void kinds(Rng& r) const {
        Curve c1;
        auto c2 = std::make_unique<Curve>();
        std::vector<Curve> v(1 + r.below(4));
        v.push_back(c1); v.insert(v.begin(), *c2);
        Curve copy(v[r.below(v.size())]), over;
        over = copy;
        const Curve k;
        Curve moved(std::move(copy));
        std::vector<std::pair<const Curve*, const char*>> all = {{&c1, "local"}, {c2.get(), "heap"}, {&over, "assigned"}, {&k, "const"}, {&moved, "moved"}};
        for (auto& e : v) all.push_back({&e, "in a vector"});
        r.shuffle(all);
        for (auto& e : all) params(*e.first, e.second);
        for (auto& e : all) for (auto& f : all) equal(*e.first, *f.first, std::string(e.second) + " and " + f.second);
        // curves of which one parameter is another are other curves, and so are the points on them
        Alt same(-1, 0);
        if (!(same == c1)) viol(kd("curves-unequal"), "a derived object with the same parameters");
        static const char* nm[] = {"prime", "a", "b", "order", "cofactor"};
        ref::Pt q = ref::Pt::gen(C::G(), ref::from(1 + r.range(nz - 1)));
        for (int w = 0; w < 5; w++) {
            mpz_class by = r.coin() ? mpz_class(1) : mpz_class(mpz_class(1) << r.below(254));
            if (r.coin(1, 3)) by = near(r, by);
            if (by == 0) by = 2;
            if (r.coin(1, 3)) by = -by;
            Alt o(w, by), o2(w, by);
            bool e1 = o == c1, e2 = c1 == o;
            if (e1 || e2) viol(kd("curves-equal"), std::string(nm[w]) + " differs by " + hex(by) + ", yet the curves are equal");
            if (!(o == o2)) viol(kd("curves-unequal"), "same changed parameters");
            // which has its own parameters, before and after the other is asked
            for (int q = 0; q < 2; q++) {
                mpz_class e[5] = {pz, ref::to(a), ref::to(b), nz, 1};
                e[w] += by;
                Fp fa(e[1]), fb(e[2]);
                if (o.getPrime() != e[0] || o.getA() != e[1] || o.getB() != e[2] || o.getOrder() != e[3] || !(o.getAField() == fa) || !(o.getBField() == fb))
                    viol(kd("other-curve-parameters"), std::string("a curve whose ") + nm[w] + " differs by " + hex(by) + " does not report its own parameters");
                if (w == 2) {
                    Fp x(ref::to(q ? q_(r) : gx));
                    ref::Bn y2 = ref::mod(ref::add(ref::rhs(C::G(), ref::from(x.getRawValue())), ref::mod(ref::from(by), p), p), p);
                    if (!ref::eq(o.evaluatePy2(x).getRawValue(), y2)) viol(kd("other-curve-equation"), "b differs by " + hex(by) + " x=" + hex(x.getRawValue()));
                }
                params(c1, "after a curve with another parameter was asked");
            }
            P A = toLib<C>(q, &c1), B = toLib<C>(q, &o), D = toLib<C>(q, &over);
            bool p1 = A == B, p2 = B == A;
            if (p1 || p2) viol(kd("points-equal"), std::string("points with the same coordinates on curves whose ") + nm[w] + " differs by " + hex(by) + " are equal");
            if (!(A == D) || !(D == A)) viol(kd("points-unequal"), "the same point on two objects of one curve");
            seen("altered");
        }
        evald(hz(ref::to(q.x())));
    }
    ref::Bn q_(Rng& r) const { return ref::from(r.range(pz)); }
    // the parameters survive anything done with the curve
    void history(Rng& r, Pool<C>& pool) const {
        auto c = std::make_unique<Curve>();
        Curve other;
        std::vector<P> keep;
        int N = 20 + r.below(30);
        for (int i = 0; i < N; i++) {
            int op = r.below(10);
            step("operation " + std::to_string(op));
            ref::Pt t = pool.pt(r);
            P x = t.inf() ? P() : toLib<C>(t, c.get());
            switch (op) {
                case 0: c->evaluateP(Fp(r.coin() ? pool.nonres() : r.range(pz))); break;
                case 1: c->evaluatePneg(Fp(r.bits(1 + r.below(256)))); break;
                case 2: c->evaluatePy2(Fp(r.coin() ? mpz_class(0) : r.range(pz))); break;
                case 3: c->getRandomPoint(); break;
                case 4: c->getRandomScalar(); break;
                case 5: { auto kp = c->generateKeyPair(); if (!kp.pk.isInf()) keep.push_back(P(kp.pk.getX(), kp.pk.getY(), c.get())); } break;
                case 6: if (!t.inf()) { P y = x; y.setEncodedX(x.getEncodedX()); y.setEncodedX(r.bits(257)); } break;
                case 7: { P g = c->getDefaultGen(); g *= pool.scalar(r); g += x; g = g.pointDouble(); g -= x; keep.push_back(g); } break;
                case 8: { P g = c->getDefaultGen(); g = g - g; g = x; } break;
                case 9: { std::ostringstream o; o << *c << x << c->getAField(); Curve d(*c); other = d; *c = other; } break;
            }
            if (r.coin(1, 3) || i == N - 1) { params(*c, "after operation " + std::to_string(op)); equal(*c, other, "after operations"); }
        }
        params(other, "a curve of its own");
        seen("history");
    }
    // --------------------------------------------------------------- text
    bool is(const P& got, const ref::Bn& x, const ref::Bn& y, Curve* c, const char* key, const std::string& how) const {
        bool ok = !got.isInf() && ref::eq(got.getX().getRawValue(), x) && ref::eq(got.getY().getRawValue(), y) &&
                  got.getX().getField() == pz && got.getY().getField() == pz && got.curve == c;
        if (!ok) viol(kd(key), how + " gave " + pstr(got) + ", expected (" + ref::hex(x) + "," + ref::hex(y) + ")");
        evald(hstr(how, hp(got)));
        return ok;
    }
    void text(Rng& r, Pool<C>& pool) const {
        Curve c;
        mpz_class x, y;
        bool on = false;
        switch (r.below(6)) {
            case 0: x = r.bits(1 + r.below(256)); y = r.bits(1 + r.below(256)); break;        // not on the curve
            case 1: x = r.below(70); y = r.below(70); break;
            case 2: x = pz - 1 - r.below(5); y = r.below(3); break;
            default: { ref::Pt t = pool.pt(r); if (t.inf()) t = ref::Pt::gen(C::G(), ref::Bn(1L)); x = ref::to(t.x()); y = ref::to(t.y()); on = true; }
        }
        // any representative of the residues
        auto rep = [&](mpz_class v) { switch (r.below(8)) { case 0: return mpz_class(v + pz); case 1: return mpz_class(v - pz); case 2: return mpz_class(v + pz * pz); case 3: return mpz_class(v - pz * r.bits(40)); default: return v; } };
        mpz_class rx = rep(x), ry = rep(y);
        ref::Bn X = ref::mod(ref::from(x), p), Y = ref::mod(ref::from(y), p);
        bool upper = r.coin();
        auto str = [&](const mpz_class& v, int base) {
            std::string s(r.coin(1, 5) ? r.below(80) : 0, '0');
            mpz_class m = abs(v);
            s += digits(ref::from(m), base, upper);
            return (v < 0 ? "-" : "") + s;
        };
        const P direct(rx, ry, &c);
        is(direct, X, Y, &c, "from-integers", "Point(" + hex(rx) + ", " + hex(ry) + ")");
        for (int base : {10, 16, 2, 8, 36, 62, 3 + (int)r.below(34), 37 + (int)r.below(26)}) {
            std::string sx = str(rx, base), sy = str(ry, base), was = sx + sy, how = "Point(\"" + sx + "\", \"" + sy + "\", base " + std::to_string(base) + ")";
            P A(sx, sy, &c, base), B(sx.c_str(), sy.c_str(), &c, base);
            is(A, X, Y, &c, "from-strings", how); is(B, X, Y, &c, "from-chars", how);
            if (!(A == direct) || !(direct == B)) viol(kd("text-unequal"), how);
            if (A.isValid() != direct.isValid() || (on && !A.isValid())) viol(kd("text-valid"), how);
            if (base == 10) { P D(sx, sy, &c), E(sx.c_str(), sy.c_str(), &c); is(D, X, Y, &c, "from-strings", how + " by default"); is(E, X, Y, &c, "from-chars", how + " by default"); }
            if (sx + sy != was) viol(kd("text-changed"), how + " changed its arguments");
            seen("base:" + std::to_string(base)); seen("from-text");
        }
        // printing, and reading back what was printed
        std::string want = "(" + dec(X) + "," + dec(Y) + ")";
        std::ostringstream o;
        auto fl = o.flags();
        o << direct << direct;
        if (o.str() != want + want || o.flags() != fl || !o.good()) viol(kd("point-printed"), pstr(direct) + " is printed as " + o.str());
        is(direct, X, Y, &c, "changed-by-printing", "a printed point");
        std::string s = o.str().substr(1, o.str().find(')') - 1);
        size_t comma = s.find(',');
        if (comma == std::string::npos) viol(kd("point-printed"), o.str());
        else { P back(s.substr(0, comma), s.substr(comma + 1), &c); is(back, X, Y, &c, "read-back", s); if (!(back == direct)) viol(kd("read-back"), s); seen("read-back"); }
        Fp fx(rx); Fn fy(ry);
        std::ostringstream of;
        of << fx << "|" << fy << "|" << (fx + fx) << "|" << c.getAField();
        ref::Bn YN = ref::mod(ref::from(ry), n);
        std::string wf = dec(X) + "  mod " + dec(p) + "|" + dec(YN) + "  mod " + dec(n) + "|" + dec(ref::add(X, X, p)) + "  mod " + dec(p) + "|" + dec(a) + "  mod " + dec(p);
        if (of.str() != wf) viol(kd("field-printed"), of.str() + ", expected " + wf);
        if (!ref::eq(fx.getRawValue(), X) || !ref::eq(fy.getRawValue(), YN)) viol(kd("changed-by-printing"), wf);
        seen("printed");
        sample(std::string("text ") + C::name(), want);
    }
    void infinity(Rng& r, Pool<C>& pool) const {
        ref::Pt z(C::G());
        for (int i = 0; i < 8; i++) {
            P q = pool.lib(z, r);
            std::ostringstream o;
            o << q;
            if (o.str() != "(inf, inf)") viol(kd("infinity-printed"), o.str());
            if (!q.isInf()) viol(kd("changed-by-printing"), "infinity");
            // a point overwritten by infinity, and infinity overwritten by a point
            ref::Pt t = pool.pt(r);
            if (t.inf()) continue;
            P w = toLib<C>(t, &pool.c1);
            std::string finite = "(" + dec(t.x()) + "," + dec(t.y()) + ")";
            std::ostringstream o2;
            o2 << w; w = q; o2 << w; w = toLib<C>(t, &pool.c1); o2 << w; w -= w; o2 << w; w += toLib<C>(t, &pool.c2); o2 << w;
            if (o2.str() != finite + "(inf, inf)" + finite + "(inf, inf)" + finite) viol(kd("infinity-printed"), o2.str());
            evald(hstr(o2.str()));
            seen("infinity");
        }
    }
};

int main(int argc, char** argv) {
    static Params<Secp> s(ref::secp256r1_desc);
    static Params<Bn254> b(ref::bn254_desc);
    static Pool<Secp> ps; static Pool<Bn254> pb;
    auto on = [](uint64_t i, auto&& f) { if (i % 2) f(s, ps); else f(b, pb); };
    section("kinds", 400, 8000, [&](uint64_t i, Rng& r) { on(i, [&](auto& f, auto&) { f.kinds(r); }); });
    section("history", 160, 6000, [&](uint64_t i, Rng& r) { on(i, [&](auto& f, auto& p) { f.history(r, p); }); });
    section("text", 6000, 300000, [&](uint64_t i, Rng& r) { on(i, [&](auto& f, auto& p) { f.text(r, p); }); });
    section("infinity", 400, 8000, [&](uint64_t i, Rng& r) { on(i, [&](auto& f, auto& p) { f.infinity(r, p); }); });
    // every thread sees the same parameters, whichever curve it looks at first, while the others compute
    section("threads", 40, 1000, [&](uint64_t i, Rng& r) {
        std::vector<std::thread> t;
        for (int k = 0; k < 4; k++) {
            uint64_t sd = r.next();
            t.emplace_back([=] {
                Rng q(sd);
                for (int j = 0; j < 6; j++) {
                    if ((j + k + i) % 2) { Secp::Curve c; auto g = c.getDefaultGen(); g *= q.bits(40) + 1; s.params(c, "in a thread"); }
                    else { Bn254::Curve c; auto g = c.getDefaultGen(); g *= q.bits(40) + 1; b.params(c, "in a thread"); }
                }
            });
        }
        for (auto& x : t) x.join();
        seen("threads");
    });
    return run(argc, argv);
}
