// C11: the coefficients behind a sharing, recovered by interpolation in independent arithmetic.
#include "ssslib.hpp"
#include <memory>
using namespace mon;
using namespace sss;
static std::map<std::string, std::string> everCoef;      // all coefficients seen in this process

static std::vector<ref::Bn> recover(const share_v_t& s, size_t t) {
    std::vector<std::pair<ref::Bn, ref::Bn>> p;
    for (size_t i = 0; i < t && i < s.size(); i++) p.push_back({B(s[i].idx), B(s[i].val)});
    return coeffs(p);
}
static void coefficients(uint64_t i, Rng& r) {
    rh::set(i % 2 ? rh::PASS : rh::SEEDED, r.next());
    size_t t = i % 5 == 0 ? 2 : 2 + r.below(12), n = t + r.below(4);
    if (i % 40 == 7) { t = 14 + r.below(30); n = t + r.below(3); }
    if (i % 200 == 11) { t = (size_t[]){63, 64, 65, 100, 127, 128, 129}[r.below(7)]; n = t; }
    if (t > 13) seen("large-threshold");
    ShamirSS ss;
    mpz_class secret = aSecret(r);
    for (int rep = 0; rep < 2; rep++) {
        step("getShares");
        share_v_t s = ss.getShares(t, n, FIELD(secret));
        if (s.size() != n) { viol("share-count", ""); return; }
        auto c = recover(s, t);
        std::string d = "t=" + std::to_string(t) + " secret " + hex(secret) + ": ";
        for (size_t k = 1; k < t; k++) {
            std::string h = ref::hex(c[k]);
            mpz_class v = ref::to(c[k]), neg = Nz() - v, w = v < neg ? v : neg;
            if (mpz_sizeinbase(w.get_mpz_t(), 2) < 150) viol("small-coefficient", d + "coefficient " + std::to_string(k) + " of " + std::to_string(t - 1) + " is " + h);
            auto it = everCoef.find(h);
            if (it != everCoef.end()) viol("repeated-coefficient", d + "coefficient " + std::to_string(k) + " " + h + " seen before in " + it->second);
            everCoef[h] = d;
            for (size_t j = 1; j < k; j++) if (sub_(c[k], c[j]) == ref::Bn(1L) || add_(c[k], c[j]).zero()) viol("related-coefficient", d + h);
            if (c[k] == c[0] || add_(c[k], c[0]).zero()) viol("related-coefficient", d + "coefficient equals the secret");
            evald(hstr(h));
        }
        // fewer than t shares
        for (size_t m = 1; m < t && m < 6; m++) {
            size_t cnt = m == 5 ? t - 1 : std::min(m, t - 1);
            share_v_t sub = s; r.shuffle(sub); sub.resize(cnt);
            FIELD g = ss.reconSecret(sub);
            if (ref::eq(g.getRawValue(), ref::mod(ref::from(secret), N()))) viol("below-threshold", d + std::to_string(cnt) + " shares reconstruct the secret");
            seen("below-threshold");
        }
        for (auto& x : s) {
            mpz_class dv = x.val.getRawValue() - ref::to(ref::mod(ref::from(secret), N()));
            if (abs(dv) < (mpz_class(1) << 100)) viol("share-near-secret", d + "share " + hex(x.idx.getRawValue()) + " is " + hex(x.val.getRawValue()));
        }
        seen("sharing");
        if (rep == 0) sample("t=" + std::to_string(t), "coefficient 1 = " + ref::hex(c[1]));
    }
}
// distribution of coefficients and of single shares over the field, for different secrets
static void spread(uint64_t i, Rng& r) {
    rh::set(rh::PASS, 0);
    const int M = opt.thorough ? 12000 : 3000, BK = 16;
    size_t t = 2 + i % 3;
    mpz_class secret = i % 4 == 0 ? mpz_class(0) : i % 4 == 1 ? mpz_class(1) : i % 4 == 2 ? mpz_class(Nz() - 1) : r.range(Nz());
    std::vector<std::vector<int>> cb(t, std::vector<int>(BK)), sb(t, std::vector<int>(BK)), low(t, std::vector<int>(BK)), slow(t, std::vector<int>(BK));
    std::vector<std::vector<int>> bits(t, std::vector<int>(240));
    ShamirSS ss; std::set<std::string> fresh;
    for (int m = 0; m < M; m++) {
        share_v_t s = ss.getShares(t, t, FIELD(secret));
        if (s.size() != t) { viol("share-count", ""); return; }
        auto c = recover(s, t);
        auto put = [&](std::vector<int>& top, std::vector<int>& lo, const mpz_class& v) { mpz_class b = v * BK / Nz(); top[b.get_ui()]++; lo[mpz_class(v & 15).get_ui()]++; };
        for (size_t k = 1; k < t; k++) {
            mpz_class v = ref::to(c[k]);
            put(cb[k], low[k], v);
            if (!fresh.insert(ref::hex(c[k])).second) viol("repeated-coefficient", "coefficient " + std::to_string(k) + " of sharing " + std::to_string(m) + " occurred before: " + hex(v));
            for (int b = 0; b < 240; b++) bits[k][b] += mpz_tstbit(v.get_mpz_t(), b);
        }
        for (size_t k = 0; k < t; k++) put(sb[k], slow[k], s[k].val.getRawValue());
        evald(hz(s[0].val.getRawValue()));
    }
    auto test = [&](const std::vector<int>& h, const std::string& what) {
        for (int b = 0; b < BK; b++) { double e = M / double(BK), d = h[b] - e; if (d * d > 90 * e + 400) { viol("spread:" + what, what + " t=" + std::to_string(t) + " secret " + hex(secret) + ": " + std::to_string(h[b]) + " of " + std::to_string(M) + " in bucket " + std::to_string(b)); return; } }
    };
    for (size_t k = 1; k < t; k++) {
        test(cb[k], "coefficient"); test(low[k], "coefficient-low");
        for (int b = 0; b < 240; b++) { double d = bits[k][b] - M / 2.0; if (d * d > 90 * M / 4.0) { viol("spread:coefficient-bit", "bit " + std::to_string(b)); break; } }
    }
    for (size_t k = 0; k < t; k++) { test(sb[k], "share"); test(slow[k], "share-low"); }
    seen("spread");
}
static void two(uint64_t i, Rng& r) {       // two sharings of one secret, several objects, unrelated shares
    rh::set(rh::PASS, 0);
    ShamirSS a, b;
    mpz_class secret = aSecret(r);
    size_t t = 2 + r.below(6), n = t + r.below(3);
    share_v_t x = a.getShares(t, n, FIELD(secret)), y = (i % 2 ? a : b).getShares(t, n, FIELD(secret)), z = b.getShares(t, n, FIELD(secret + 1));
    for (size_t k = 0; k < n; k++) {
        if (x[k].val == y[k].val) viol("same-share", "two sharings agree in share " + std::to_string(k + 1));
        ref::Bn d = sub_(B(z[k].val), B(x[k].val)), e = sub_(B(z[k].val), B(y[k].val));
        if (d == ref::Bn(1L) || e == ref::Bn(1L)) viol("same-share", "sharings of s and s+1 differ by 1 in share " + std::to_string(k + 1));
        for (size_t q = 0; q < n; q++) if (q != k && x[k].val == y[q].val) viol("same-share", "across indices");
    }
    // the difference of two sharings of one secret has constant term 0 and degree exactly t-1
    share_v_t d = x; for (size_t k = 0; k < n; k++) d[k].val -= y[k].val;
    auto c = recover(d, t);
    for (size_t k = 1; k < t; k++) if (c[k].zero()) viol("repeated-coefficient", "coefficient " + std::to_string(k) + " is the same in two sharings");
    if (!c[0].zero()) viol("constant-term", "difference of two sharings of one secret");
    evald(hz(x[0].val.getRawValue())); seen("two-sharings");
}
// Draws confined to 1..8: every combination of two coefficients, of one sharing or of two, has to occur.
static void joint(uint64_t i, Rng& r) {
    rh::set(rh::SMALL, r.next(), 3);
    ShamirSS a, b;
    const size_t t = 5;
    Joint j; std::vector<long> last;
    for (int m = 0; m < 1600; m++) {
        long secret = m & 7;
        auto c = recover((m & 1 ? a : b).getShares(t, t, FIELD(mpz_class(secret))), t);
        std::vector<long> v;
        for (size_t k = 1; k < t; k++) { mpz_class x = ref::to(c[k]); if (x > 16) { seen("joint:unreadable"); return; } v.push_back(x.get_si()); }
        for (size_t k = 0; k < v.size(); k++) {
            j.add("coefficient and secret", v[k], secret);
            for (size_t l = 0; l < k; l++) j.add("coefficients " + std::to_string(l + 1) + " and " + std::to_string(k + 1) + " of a sharing", v[l], v[k]);
            if (m) for (size_t l = 0; l < v.size(); l++) j.add("coefficient " + std::to_string(l + 1) + " and coefficient " + std::to_string(k + 1) + " of the next sharing", last[l], v[k]);
        }
        for (size_t k = 0; k < v.size(); k++) { j.seq("coefficient " + std::to_string(k + 1), v[k]); j.seq("all coefficients", v[k]); }
        last = v; evald(mix(m * 77 + v[0] * 8 + v[1]) ^ i);
    }
    j.judgeSeq([&](const std::string& what, size_t lag, size_t k, size_t n) { viol("recurs:" + what, what + ": " + std::to_string(k) + " of " + std::to_string(n) + " are what came " + std::to_string(lag) + " before"); });
    j.judge([&](const std::string& what, size_t got, size_t of) { viol("dependent:" + what, what + ": " + std::to_string(got) + " of " + std::to_string(of) + " combinations occur"); });
    seen("joint-pairs", j.tested); seen("joint-sequences", j.testedSeq);
}
int main(int argc, char** argv) {
    section("joint", 8, 64, joint);
    section("width", 40, 3000, [](uint64_t i, Rng& r) {                   // every bit of the randomness matters to every coefficient
        rh::Width w; unsigned bit = rh::aBit(r); size_t t = 2 + i % 6, n = t + r.below(3); mpz_class secret = aSecret(r);
        std::unique_ptr<ShamirSS> ss;
        w(r, bit, [&] { ss.reset(new ShamirSS()); if (i & 1) ss->getShares(3, 4, FIELD(secret)); }, [&] {
            auto c = recover(ss->getShares(t, n, FIELD(secret)), t); rh::Outputs o;
            for (size_t k = 1; k < c.size(); k++) o.emplace_back("coefficient " + std::to_string(k), ref::hex(c[k]));
            return o;
        }, [](const std::string& what, unsigned b) { viol("narrow:coefficient", what + " does not depend on bit " + std::to_string(b) + " of any random value"); });
        evald(r.next()); seen("width", w.tested); seen("width-runs", w.runs);
    });
    section("budget", 24, 600, [](uint64_t i, Rng& r) {                   // the coefficients of a sharing are drawn independently
        static const size_t T[] = {2, 3, 5, 9, 17, 18, 33, 65, 66, 67, 130, 258};
        rh::Budget w; size_t t = i < 24 ? T[i / 2] : 2 + r.below(60), n = t + r.below(3); mpz_class secret = aSecret(r);
        std::unique_ptr<ShamirSS> ss;
        w(r, (unsigned)(t - 1) * 256, [&] { ss.reset(new ShamirSS()); if (i & 1) ss->getShares(3, 4, FIELD(secret)); }, [&] {
            rh::Outputs o; for (auto& x : ss->getShares(t, n, FIELD(secret))) o.emplace_back("", hex(x.val.getRawValue()));
            return o;
        }, [&](const std::string& what) { viol("dependent:all coefficients", "t=" + std::to_string(t) + ": " + what + " of coefficients"); });
        evald(r.next()); seen("budget", w.measured);
    });
    section("coefficients", 600, 30000, coefficients);
    section("spread", 16, 64, spread);
    section("two", 600, 30000, two);
    return run(argc, argv);
}
