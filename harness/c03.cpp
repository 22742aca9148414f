// C03: scalar multiplication against OpenSSL's EC code, and its algebraic laws.
#include "pool.hpp"
using namespace mon;
template <class C> struct T {
    using P = typename C::Point; using Fn = typename C::Fn;
    Pool<C> pool;
    std::string k(const char* op) { return std::string(op) + ":" + C::name(); }
    void res(const P& got, const ref::Pt& want, const char* op, const std::function<std::string()>& how) {
        if (!same<C>(got, want)) viol(k(op), how() + " gave " + pstr(got) + ", expected " + want.str());
        else if (!got.isValid() || (!got.isInf() && (!got.curve || !(*got.curve == pool.c1)))) viol(k("valid"), how());
        evald(hstr(op, hp(got)));
        seen(want.inf() ? "result:inf" : "result:finite");
    }
    void mul(const ref::Pt& A, const mpz_class& z, Rng& r, int forms = 4) {
        P a = pool.lib(A, r);
        mpz_class z0 = z;
        ref::Pt W = A * ref::from(z);
        auto how = [&](const char* op) { return [&A, &z, op] { return std::string(op) + " P=" + A.str() + " k=" + hex(z); }; };
        step("P*k k=" + hex(z));
        int first = forms >= 4 ? 0 : (int)r.below(4);
        for (int f = first; f < first + forms; f++) switch (f % 4) {
            case 0: res(a * z, W, "mul-int", how("P*k")); break;
            case 1: { Fn s(z); res(a * s, W, "mul-field", how("P*F(k)")); if (!ref::eq(s.getRawValue(), ref::mod(ref::from(z), C::G().n))) viol(k("operand-changed"), how("scalar")()); break; }
            case 2: { P c(a); P& rc = (c *= z); res(c, W, "mulassign-int", how("P*=k")); CHECK(&rc == &c, k("ret"), "P*=k does not return P"); break; }
            case 3: { P c(a); P& rc = (c *= Fn(z)); res(c, W, "mulassign-field", how("P*=F(k)")); CHECK(&rc == &c, k("ret"), "P*=k does not return P"); break; }
        }
        if (!same<C>(a, A) || z != z0) viol(k("operand-changed"), how("operands")() + " P is now " + pstr(a));
        seen("scalarbits:" + std::to_string(mpz_sizeinbase(z.get_mpz_t(), 2) / 32 * 32));
        seen(std::string("curve:") + C::name());
        if (z < 0) seen("scalar:negative");
        if (z == 0 || z % pool.n == 0) seen("scalar:zero-mod-order");
        if (z >= pool.n) seen("scalar:above-order");
        if (A.inf()) seen("point:inf");
        sample(C::name(), "k=" + hex(z) + " P=" + A.str() + " kP=" + W.str());
    }
    void laws(Rng& r) {
        ref::Pt A = pool.pt(r), B = pool.pt(r);
        if (r.coin(1, 5)) B = A;
        if (r.coin(1, 6)) B = -A;
        mpz_class i = pool.scalar(r), j = pool.scalar(r);
        if (r.coin(1, 6)) j = -i;
        if (r.coin(1, 8)) j = i;
        P a = pool.lib(A, r), b = pool.lib(B, r);
        auto d = [&] { return "P=" + A.str() + " Q=" + B.str() + " j=" + hex(i) + " k=" + hex(j); };
        P aj = a * i, ak = a * j;
        if (!(aj + ak == a * mpz_class(i + j))) viol(k("law-add"), d() + ": Pj+Pk != P(j+k)");
        if (!(aj - ak == a * mpz_class(i - j))) viol(k("law-sub"), d() + ": Pj-Pk != P(j-k)");
        if (!(aj * j == a * mpz_class(i * j))) viol(k("law-mul"), d() + ": (Pj)k != P(jk)");
        if (!(ak + b * j == (a + b) * j)) viol(k("law-points"), d() + ": Pk+Qk != (P+Q)k");
        if (!(a * mpz_class(j + pool.n) == ak) || !(a * mpz_class(j - 2 * pool.n) == ak)) viol(k("law-order"), d() + ": depends on k beyond its residue");
        for (int q = 0; q < 6; q++) evald(hstr("law", hz(i, hz(j, hp(a)))) + q);
        seen("laws");
    }
};
int main(int argc, char** argv) {
    static T<Secp> s; static T<Bn254> b;
    auto on = [](uint64_t w, auto&& f) { if (w % 2) f(b); else f(s); };
    section("scalars", 2 * 300, 2 * 300, [&](uint64_t i, Rng& r) {      // every listed scalar with several points
        on(i, [&](auto& t) {
            if (i / 2 >= t.pool.k.size()) return;
            t.mul(t.pool.q[1], t.pool.k[i / 2], r);
            for (int n = 0; n < 4; n++) t.mul(t.pool.pt(r), t.pool.k[i / 2], r, 2);
        });
    });
    section("points", 2 * 120, 2 * 120, [&](uint64_t i, Rng& r) {       // every listed point with several scalars
        on(i, [&](auto& t) {
            if (i / 2 >= t.pool.q.size()) return;
            const ref::Pt& A = t.pool.q[i / 2];
            for (mpz_class z : {mpz_class(0), mpz_class(1), mpz_class(-1), mpz_class(2), t.pool.n, mpz_class(t.pool.n - 1), mpz_class(t.pool.n + 1)}) t.mul(A, z, r, 1);
            for (int n = 0; n < 4; n++) t.mul(A, t.pool.scalar(r), r, 1);
        });
    });
    section("lengths", 2 * 257, 2 * 257, [&](uint64_t i, Rng& r) {      // every bit length and number of trailing zeros
        on(i, [&](auto& t) {
            size_t len = i / 2;
            t.mul(t.pool.pt(r), r.bits(len) | (mpz_class(1) << len), r, 1);
            t.mul(t.pool.pt(r), (r.range(t.pool.n) | 1) << len, r, 1);
            t.mul(t.pool.pt(r), (r.bits(40) | 1) << len, r, 1);
        });
    });
    section("random", 9000, 400000, [&](uint64_t i, Rng& r) { on(i, [&](auto& t) { t.mul(t.pool.pt(r), t.pool.scalar(r), r, 1); }); });
    section("related", 500, 20000, [&](uint64_t i, Rng& r) {           // neighbouring scalars of one point: one bit apart
        on(i, [&](auto& t) {
            ref::Pt A = t.pool.pt(r);
            mpz_class z = t.pool.scalar(r);
            for (int n = 0; n < 6; n++) t.mul(A, mpz_class(z ^ (mpz_class(1) << r.below(256))), r, 1);
            for (int n = 0; n < 8; n++) {                              // a history of related scalars and points
                if (r.coin()) z = near(r, z);
                ref::Pt q(A);
                switch (r.below(6)) { case 0: A = -A; break; case 1: if (t.pool.sameY(A, r.coin(), q)) A = q; break; case 2: A = A.dbl(); break; default: break; }
                t.mul(A, r.coin(1, 5) ? mpz_class(-z) : z, r, 1);
            }
        });
    });
    section("laws", 1200, 60000, [&](uint64_t i, Rng& r) { on(i, [&](auto& t) { t.laws(r); }); });
    return run(argc, argv);
}
