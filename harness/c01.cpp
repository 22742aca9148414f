// C01: field arithmetic against OpenSSL's BIGNUM.
#include "lib.hpp"
#include "rng_hook.hpp"
using namespace mon;

static std::vector<mpz_class> edges(const mpz_class& p) {
    std::vector<mpz_class> v;
    auto add = [&](const mpz_class& x) { for (auto& y : v) if (y == x) return; v.push_back(x); };
    for (int k = 0; k <= 3; k++) { add(k); add(-k); add(p - k); add(p + k); add(-p + k); add(-p - k); add(2 * p - k); add(2 * p + k); add(p * p - k); add(p * p + k); }
    for (int k = -1; k <= 1; k++) { add((p - 1) / 2 + k); add((p + 1) / 2 + k); add(p / 3 + k); }
    for (int b : {8, 16, 31, 32, 33, 63, 64, 65, 96, 127, 128, 129, 191, 192, 193, 224, 253, 254, 255, 256, 257, 320, 384, 512, 520, 1024, 2048, 4100})
        for (int k = -1; k <= 1; k++) { mpz_class t = (mpz_class(1) << b) + k; add(t); if (b > 250) add(-t); }
    for (int b : {0, 1, 31, 63, 64, 128, 200, 253, 255}) { mpz_class t = p ^ (mpz_class(1) << b); add(t); }   // one bit off the prime
    // limb patterns
    for (int m = 1; m < 16; m++) {
        mpz_class t = 0;
        for (int l = 0; l < 4; l++) if (m >> l & 1) t += ((mpz_class(1) << 64) - 1) << (64 * l);
        add(t);
    }
    return v;
}

template <class F> struct Fld {
    const char* name; ref::Bn p; mpz_class pz;
    std::vector<mpz_class> E;
    Fld(const char* n, const char* hexp) : name(n), p(hexp) { pz = ref::to(p); E = edges(pz); }

    mpz_class gen(Rng& r) const {
        switch (r.below(10)) {
            case 0: return r.pick(E);
            case 1: return pz - r.range(1000);
            case 2: return r.bits(1 + r.below(256));
            case 3: return -r.bits(1 + r.below(600));
            case 4: if (r.coin(1, 4)) { mpz_class w = r.bits(600 + r.below(4500)); return r.coin() ? w : mpz_class(-w); } return r.bits(600);
            case 5: return (mpz_class(1) << r.below(258)) + (long)r.below(5) - 2;
            default: return r.range(pz);
        }
    }
    std::string kd(const char* op) const { return std::string(op) + ":" + name; }
    // result of an operation
    bool res(const F& got, const ref::Bn& want, const char* op, const std::function<std::string()>& how) const {
        bool ok = ref::eq(got.getRawValue(), want) && got.getRawValue() < pz;
        if (!ok) viol(kd(op), how() + " gave " + hex(got.getRawValue()) + ", expected " + ref::hex(want));
        if (got.getField() != pz) { viol(kd("modulus"), std::string(op) + ": " + how() + " has modulus " + hex(got.getField())); ok = false; }
        evald(hstr(op, hz(got.getRawValue(), hz(pz))));
        return ok;
    }
    void same(const F& x, const ref::Bn& want, const char* op, const std::function<std::string()>& how) const {
        if (!ref::eq(x.getRawValue(), want) || x.getField() != pz)
            viol(kd("operand-changed"), std::string(op) + ": " + how() + " left its operand as " + hex(x.getRawValue()) + ", was " + ref::hex(want));
    }
    void ops(const mpz_class& ia, const mpz_class& ib) const {
        const F a(ia), b(ib);
        ref::Bn A = ref::mod(ref::from(ia), p), B = ref::mod(ref::from(ib), p);
        auto how = [&](const char* op) { return [=] { return std::string(name) + ": a=" + mon::hex(ia) + " b=" + mon::hex(ib) + " " + op; }; };
        res(a, A, "ctor", how("F(a)"));
        res(b, B, "ctor", how("F(b)"));
        res(a + b, ref::add(A, B, p), "add", how("a+b"));
        res(a - b, ref::sub(A, B, p), "sub", how("a-b"));
        res(b - a, ref::sub(B, A, p), "sub", how("b-a"));
        res(a * b, ref::mul(A, B, p), "mul", how("a*b"));
        res(a * ib, ref::mul(A, B, p), "mulint", how("a*int(b)"));
        res(b * ia, ref::mul(A, B, p), "mulint", how("b*int(a)"));
        res(-a, ref::neg(A, p), "neg", how("-a"));
        res(a.square(), ref::mul(A, A, p), "square", how("a^2"));
        if (!B.zero()) {
            ref::Bn I = ref::inv(B, p);
            res(b.invert(), I, "invert", how("1/b"));
            res(a / b, ref::mul(A, I, p), "div", how("a/b"));
            res(b * b.invert(), ref::Bn(1L), "inverse-law", how("b*(1/b)"));
            F c(a); F& rc = (c /= b); res(c, ref::mul(A, I, p), "divassign", how("a/=b")); CHECK(&rc == &c, kd("ret"), "a/=b does not return a");
            F d(b); d /= d; res(d, ref::Bn(1L), "divassign-self", how("b/=b"));
        }
        { F c(a); F& rc = (c += b); res(c, ref::add(A, B, p), "addassign", how("a+=b")); CHECK(&rc == &c, kd("ret"), "a+=b does not return a"); }
        { F c(a); F& rc = (c -= b); res(c, ref::sub(A, B, p), "subassign", how("a-=b")); CHECK(&rc == &c, kd("ret"), "a-=b does not return a"); }
        { F c(a); F& rc = (c *= b); res(c, ref::mul(A, B, p), "mulassign", how("a*=b")); CHECK(&rc == &c, kd("ret"), "a*=b does not return a"); }
        { F c(a); F& rc = (c *= ib); res(c, ref::mul(A, B, p), "mulintassign", how("a*=int(b)")); CHECK(&rc == &c, kd("ret"), "a*=int does not return a"); }
        { F c(a); c += c; res(c, ref::add(A, A, p), "addassign-self", how("a+=a")); }
        { F c(a); c -= c; res(c, ref::Bn(0L), "subassign-self", how("a-=a")); }
        { F c(a); c *= c; res(c, ref::mul(A, A, p), "mulassign-self", how("a*=a")); }
        { F c(a); c = c; res(c, A, "assign-self", how("a=a")); }
        { F c; c = b; res(c, B, "assign", how("c=b")); F e(c); res(e, B, "copy", how("copy b")); }
        if ((a == b) != (A == B)) viol(kd("equal"), how("a==b")() + " is " + (a == b ? "true" : "false"));
        if (!(a == F(ia + pz)) || !(F(ib - pz * 3) == b)) viol(kd("equal"), how("a==a+p")() + " is false");
        if (a == F(ia + 1)) viol(kd("equal"), how("a==a+1")() + " is true");
        same(a, A, "ops", how("all operators"));
        same(b, B, "ops", how("all operators"));
        seen(std::string("pair:") + name);
        seen(A == B ? "pair:equal" : "pair:different");
        if (A.zero() || B.zero()) seen("pair:with-zero");
        sample(std::string("pair ") + name, "a=" + hex(ia) + " b=" + hex(ib) + " a*b=" + hex((a * b).getRawValue()));
    }
    // a register machine: random operations, aliasing included, against the same program on BIGNUMs
    void chain(Rng& r) const {
        const int R = 5, N = 60;
        std::vector<F> f(R); std::vector<ref::Bn> m(R);
        for (int i = 0; i < R; i++) { mpz_class v = gen(r); f[i] = F(v); m[i] = ref::mod(ref::from(v), p); }
        if (r.coin(1, 4)) { f[0] = F(); m[0] = ref::Bn(0L); CHECK(F().getRawValue() == 0 && F().getField() == pz, kd("default"), "F() is not 0"); }
        std::string trace;
        for (int n = 0; n < N; n++) {
            int i = r.below(R), j = r.below(R), k = r.below(R), op = r.below(14);
            mpz_class z = r.coin(1, 3) ? near(r, ref::to(m[j])) : gen(r);
            if (r.coin(1, 8)) z = -z;
            if (r.coin(1, 10)) { mpz_class v = near(r, ref::to(m[k])); f[i] = F(v); m[i] = ref::mod(ref::from(v), p); }     // neighbours in the registers
            ref::Bn Z = ref::from(z);
            static const char* nm[] = {"add", "sub", "mul", "div", "neg", "square", "invert", "addassign", "subassign", "mulassign", "divassign", "mulint", "mulintassign", "assign"};
            if ((op == 3 || op == 10) && m[k].zero()) op = 0;
            if (op == 6 && m[j].zero()) op = 5;
            char b[64]; snprintf(b, 64, "%s r%d r%d r%d; ", nm[op], i, j, k); trace += b;
            switch (op) {
                case 0: f[i] = f[j] + f[k]; m[i] = ref::add(m[j], m[k], p); break;
                case 1: f[i] = f[j] - f[k]; m[i] = ref::sub(m[j], m[k], p); break;
                case 2: f[i] = f[j] * f[k]; m[i] = ref::mul(m[j], m[k], p); break;
                case 3: f[i] = f[j] / f[k]; m[i] = ref::mul(m[j], ref::inv(m[k], p), p); break;
                case 4: f[i] = -f[j]; m[i] = ref::neg(m[j], p); break;
                case 5: f[i] = f[j].square(); m[i] = ref::mul(m[j], m[j], p); break;
                case 6: f[i] = f[j].invert(); m[i] = ref::inv(m[j], p); break;
                case 7: f[i] += f[k]; m[i] = ref::add(m[i], m[k], p); break;
                case 8: f[i] -= f[k]; m[i] = ref::sub(m[i], m[k], p); break;
                case 9: f[i] *= f[k]; m[i] = ref::mul(m[i], m[k], p); break;
                case 10: f[i] /= f[k]; m[i] = ref::mul(m[i], ref::inv(m[k], p), p); break;
                case 11: f[i] = f[j] * z; m[i] = ref::mul(m[j], Z, p); break;
                case 12: f[i] *= z; m[i] = ref::mul(m[i], Z, p); break;
                case 13: f[i] = f[j]; m[i] = m[j]; break;
            }
            bool ok = true;
            for (int q = 0; q < R; q++) ok &= ref::eq(f[q].getRawValue(), m[q]) && f[q].getField() == pz;
            if (!ok) { viol(kd((std::string("chain-") + nm[op]).c_str()), std::string(name) + " program " + trace); return; }
            for (int q = 0; q < R; q++) if ((f[q] == f[i]) != (m[q] == m[i])) { viol(kd("chain-equal"), trace); return; }
            evald(hstr("chain", hz(f[i].getRawValue())));
            seen(std::string("chainop:") + nm[op]);
        }
    }
};

int main(int argc, char** argv) {
    static Fld<field::Field_secp256r1_p> fp("secp256r1_p", ref::secp256r1_desc.p);
    static Fld<field::Field_secp256r1_n> fn("secp256r1_n", ref::secp256r1_desc.n);
    static Fld<field::Field_bn254_p> gp("bn254_p", ref::bn254_desc.p);
    static Fld<field::Field_bn254_n> gn("bn254_n", ref::bn254_desc.n);
    auto on = [](uint64_t which, auto&& fn_) {
        switch (which % 4) { case 0: fn_(fp); break; case 1: fn_(fn); break; case 2: fn_(gp); break; default: fn_(gn); }
    };
    section("edges", 4 * 160, 4 * 160, [&](uint64_t i, Rng&) {      // row of the all-pairs table
        on(i, [&](auto& f) {
            size_t row = i / 4;
            if (row >= f.E.size()) return;
            for (auto& b : f.E) { step(hex(f.E[row]) + " with " + hex(b)); f.ops(f.E[row], b); }
            seen("edge-row");
        });
    });
    section("random", 4000, 200000, [&](uint64_t i, Rng& r) {
        on(i, [&](auto& f) {
            for (int k = 0; k < 10; k++) {
                mpz_class a = f.gen(r), b;
                switch (r.below(12)) {
                    case 8: case 9: case 10: b = near(r, a); break;
                    case 0: b = a; break;
                    case 1: b = -a; break;
                    case 2: b = f.pz - a; break;
                    case 3: b = a ^ (mpz_class(1) << r.below(256)); break;
                    case 4: b = a + 1; break;
                    default: b = f.gen(r);
                }
                step(hex(a) + " with " + hex(b));
                f.ops(a, b);
            }
        });
    });
    section("small-grid", 4 * 64, 4 * 400, [&](uint64_t i, Rng&) {   // all pairs of small residues from both ends
        on(i, [&](auto& f) { long a = (long)(i / 4) - 32; for (long b = -40; b <= 40; b += 1) f.ops(a, b); });
    });
    section("chain", 1500, 60000, [&](uint64_t i, Rng& r) { on(i, [&](auto& f) { f.chain(r); }); });
    return run(argc, argv);
}
