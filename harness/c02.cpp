// C02: the group law against OpenSSL's EC code.
#include "pool.hpp"
using namespace mon;

template <class C> struct T {
    using P = typename C::Point;
    Pool<C> pool;
    std::string k(const char* op) { return std::string(op) + ":" + C::name(); }
    bool res(const P& got, const ref::Pt& want, const char* op, const std::function<std::string()>& how) {
        bool ok = true;
        if (!same<C>(got, want)) { ok = false; viol(k(op), how() + " gave " + pstr(got) + ", expected " + want.str()); }
        else if (!got.isInf() && (!got.curve || !(*got.curve == pool.c1))) { ok = false; viol(k("curve"), std::string(op) + ": " + how() + " is not on the operands' curve"); }
        else if (!got.isValid()) { ok = false; viol(k("valid"), std::string(op) + ": " + how() + " is reported invalid"); }
        evald(hstr(op, hp(got)));
        seen(want.inf() ? "result:inf" : "result:finite");
        return ok;
    }
    void pair(const ref::Pt& A, const ref::Pt& B, Rng& r) {
        P a = pool.lib(A, r), b = pool.lib(B, r);
        auto how = [&](const char* op) { return [&A, &B, op] { return "a=" + A.str() + " b=" + B.str() + " " + op; }; };
        bool eq = A == B, opp = A == -B;
        seen(A.inf() && B.inf() ? "pair:inf-inf" : A.inf() ? "pair:inf-left" : B.inf() ? "pair:inf-right" : eq ? "pair:equal" : opp ? "pair:opposite" : "pair:generic");
        seen(std::string("curve:") + C::name());
        ref::Pt S = A + B, D = A - B;
        res(a, A, "ctor", how("ctor"));
        res(b, B, "ctor", how("ctor"));
        res(a + b, S, "add", how("a+b"));
        res(b + a, S, "add", how("b+a"));
        res(a - b, D, "sub", how("a-b"));
        res(b - a, -D, "sub", how("b-a"));
        res(a.pointDouble(), A.dbl(), "double", how("2a"));
        { P c(a); P& rc = (c += b); res(c, S, "addassign", how("a+=b")); CHECK(&rc == &c, k("ret"), "a+=b does not return a"); }
        { P c(a); P& rc = (c -= b); res(c, D, "subassign", how("a-=b")); CHECK(&rc == &c, k("ret"), "a-=b does not return a"); }
        { P c(a); c += c; res(c, A.dbl(), "addassign-self", how("a+=a")); }
        { P c(a); c -= c; res(c, ref::Pt(C::G()), "subassign-self", how("a-=a")); }
        { P c(a); c = c; res(c, A, "assign-self", how("a=a")); }
        { P c(b); c = a; res(c, A, "assign", how("b=a")); P d(a); res(d, A, "copy", how("copy a")); }
        res(a + a, A.dbl(), "add-self", how("a+a"));
        res(a - a, ref::Pt(C::G()), "sub-self", how("a-a"));
        res((a + b) - b, A, "law", how("(a+b)-b"));
        if ((a == b) != eq || (b == a) != eq) viol(k("equal"), how("a==b")() + " is wrong");
        if (!(a == a)) viol(k("equal"), how("a==a")() + " is false");
        if (!same<C>(a, A) || !same<C>(b, B)) viol(k("operand-changed"), how("operands")() + " became " + pstr(a) + " " + pstr(b));
        sample(std::string(C::name()), "a=" + A.str() + " b=" + B.str() + " a+b=" + S.str());
    }
    void validity(Rng& r) {
        ref::Pt A = pool.pt(r);
        if (A.inf()) return;
        mpz_class x = ref::to(A.x()), y = ref::to(A.y()), x2 = x, y2 = y;
        switch (r.below(8)) {
            case 7: {       // an ordinate that satisfies some other equation in x: a wrong sign, a missing or doubled term, a twist
                const mpz_class p = ref::to(C::G().p), ca = ref::to(C::G().a), cb = ref::to(C::G().b);
                if (r.coin()) x2 = r.coin(1, 4) ? mpz_class(r.below(200)) : r.range(p);
                mpz_class x3 = x2 * x2 * x2, f = x3 + ca * x2 + cb, t;
                switch (r.below(14)) {
                    case 0: case 1: t = -f; break;
                    case 2: t = x3 + cb; break;
                    case 3: t = x3 + ca * x2; break;
                    case 4: t = x3 + ca * x2 - cb; break;
                    case 5: t = x3 - ca * x2 + cb; break;
                    case 6: t = x3 + 2 * ca * x2 + cb; break;
                    case 7: t = f * 4; break;
                    case 8: t = 1 / mpz_class(1) + f; break;
                    case 9: t = f * f; break;
                    case 10: t = x2 * x2 + ca * x2 + cb; break;
                    case 11: t = x3 + ca * x2 * x2 + cb; break;
                    case 12: t = x3 + ca + cb; break;
                    default: t = -x3 + ca * x2 + cb; break;
                }
                mpz_class e = (p + 1) / 4, m; mpz_fdiv_r(m.get_mpz_t(), t.get_mpz_t(), p.get_mpz_t());
                mpz_powm(y2.get_mpz_t(), m.get_mpz_t(), e.get_mpz_t(), p.get_mpz_t());
                if (mpz_class(y2 * y2 % p) != m) y2 = m;         // no root: the value itself
                else seen("validity:other-equation");
                break;
            }
            case 0: y2 += 1; break;
            case 1: x2 += 1; break;
            case 2: std::swap(x2, y2); break;
            case 3: y2 ^= mpz_class(1) << r.below(255); break;
            case 4: x2 ^= mpz_class(1) << r.below(255); break;
            case 5: y2 = 0; break;
            default: x2 = 0; y2 = 0; break;
        }
        P b(x2, y2, r.coin() ? &pool.c1 : &pool.c2);
        ref::Bn X = ref::mod(ref::from(x2), C::G().p), Y = ref::mod(ref::from(y2), C::G().p);
        bool want = ref::rhs(C::G(), X) == ref::mul(Y, Y, C::G().p);
        if (b.isValid() != want) viol(k("validity"), "(" + hex(x2) + "," + hex(y2) + ") reported " + (want ? "invalid" : "valid"));
        evald(hstr("validity", hz(x2, hz(y2))));
        seen(want ? "validity:on" : "validity:off");
        // unequal pairs that share a coordinate
        P a(x, y, &pool.c1);
        if ((a == b) != (x == ref::to(X) && y == ref::to(Y))) viol(k("equal"), "equality of " + pstr(a) + " and " + pstr(b));
        P inf;
        if (a == inf || inf == a) viol(k("equal"), "finite point equals infinity: " + pstr(a));
    }
    void chain(Rng& r) {
        const int R = 5, N = 40;
        std::vector<P> f; std::vector<ref::Pt> m;
        for (int i = 0; i < R; i++) { m.push_back(pool.pt(r)); f.push_back(pool.lib(m[i], r)); }
        std::string trace;
        for (int s = 0; s < N; s++) {
            int i = r.below(R), j = r.below(R), q = r.below(R), op = r.below(8);
            static const char* nm[] = {"add", "sub", "addassign", "subassign", "double", "assign", "neg", "mulsmall"};
            char b[64]; snprintf(b, 64, "%s %d %d %d;", nm[op], i, j, q); trace += b;
            long z = (long)r.below(9) - 4;
            switch (op) {
                case 0: f[i] = f[j] + f[q]; m[i] = m[j] + m[q]; break;
                case 1: f[i] = f[j] - f[q]; m[i] = m[j] - m[q]; break;
                case 2: f[i] += f[q]; m[i] = m[i] + m[q]; break;
                case 3: f[i] -= f[q]; m[i] = m[i] - m[q]; break;
                case 4: f[i] = f[j].pointDouble(); m[i] = m[j].dbl(); break;
                case 5: f[i] = f[j]; m[i] = m[j]; break;
                case 6: f[i] = P() - f[j]; m[i] = -m[j]; break;
                case 7: f[i] = f[j] * mpz_class(z); m[i] = m[j] * ref::Bn(z); break;
            }
            for (int t = 0; t < R; t++)
                if (!same<C>(f[t], m[t]) || !f[t].isValid()) { viol(k((std::string("chain-") + nm[op]).c_str()), trace + " register " + std::to_string(t) + " is " + pstr(f[t]) + ", expected " + m[t].str()); return; }
            for (int t = 0; t < R; t++) if ((f[t] == f[i]) != (m[t] == m[i])) { viol(k("chain-equal"), trace); return; }
            evald(hstr("chain", hp(f[i])));
            seen(std::string("chainop:") + nm[op]);
        }
    }
};

int main(int argc, char** argv) {
    static T<Secp> s; static T<Bn254> b;
    auto on = [](uint64_t w, auto&& f) { if (w % 2) f(b); else f(s); };
    section("pool-pairs", 2 * 110, 2 * 110, [&](uint64_t i, Rng& r) {
        on(i, [&](auto& t) {
            if (i / 2 >= t.pool.q.size()) return;
            for (auto& B : t.pool.q) { step("pair"); t.pair(t.pool.q[i / 2], B, r); }
        });
    });
    section("random-pairs", 1600, 120000, [&](uint64_t i, Rng& r) {
        on(i, [&](auto& t) {
            for (int n = 0; n < 10; n++) {
                ref::Pt A = t.pool.pt(r), B = t.pool.pt(r);
                switch (r.below(9)) {                       // related operands
                    case 4: { ref::Pt q(A); if (t.pool.sameY(A, r.coin(), q)) { B = q; seen("pair:same-y"); } break; }
                    case 5: { ref::Pt q(A); if (t.pool.sameY(A, r.coin(), q)) { B = -q; seen("pair:opposite-y"); } break; }
                    case 0: B = A; break;
                    case 1: B = -A; break;
                    case 2: B = A.dbl(); break;
                    case 3: B = -A.dbl(); break;
                    default: break;
                }
                t.pair(A, B, r);
            }
        });
    });
    section("validity", 8000, 200000, [&](uint64_t i, Rng& r) { on(i, [&](auto& t) { t.validity(r); }); });
    section("chain", 800, 40000, [&](uint64_t i, Rng& r) { on(i, [&](auto& t) { t.chain(r); }); });
    return run(argc, argv);
}
