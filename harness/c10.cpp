// C10: every subset of at least t shares reconstructs.
#include "ssslib.hpp"
using namespace mon;
using namespace sss;

static void shares(const share_v_t& s, size_t t, size_t n, const mpz_class& secret, const char* what) {
    if (s.size() != n) { viol("share-count", std::to_string(s.size()) + " shares for n=" + std::to_string(n)); return; }
    for (size_t i = 0; i < n; i++) {
        if (s[i].idx.getRawValue() != mpz_class(i + 1) || s[i].idx.getField() != Nz()) viol("share-index", "share " + std::to_string(i) + " has index " + hex(s[i].idx.getRawValue()));
        if (s[i].val.getRawValue() < 0 || s[i].val.getRawValue() >= Nz() || s[i].val.getField() != Nz()) viol("share-range", hex(s[i].val.getRawValue()));
    }
    // one polynomial of degree < t through all shares, constant term the secret
    if (n <= 40) {
        std::vector<std::pair<ref::Bn, ref::Bn>> p;
        for (size_t i = 0; i < t; i++) p.push_back({B(s[i].idx), B(s[i].val)});
        auto c = coeffs(p);
        if (c[0] != ref::mod(ref::from(secret), N())) viol("constant-term", std::string(what) + " t=" + std::to_string(t) + " n=" + std::to_string(n) + " secret " + hex(secret) + ": " + ref::hex(c[0]));
        for (size_t i = t; i < n; i++) {
            ref::Bn y(0L), x = B(s[i].idx);
            for (size_t k = t; k-- > 0;) y = add_(mul_(y, x), c[k]);
            if (y != B(s[i].val)) viol("degree", std::string(what) + " t=" + std::to_string(t) + " n=" + std::to_string(n) + ": share " + std::to_string(i + 1) + " is not on the polynomial of the first t");
        }
        seen("polynomial");
    }
}
static void recon(ShamirSS& ss, const share_v_t& sub, const mpz_class& secret, size_t t, size_t n) {
    share_v_t copy = sub;
    step("reconSecret");
    FIELD g = ss.reconSecret(sub);
    ref::Bn want = ref::mod(ref::from(secret), N());
    if (!ref::eq(g.getRawValue(), want) || g.getField() != Nz()) {
        std::string ids; for (auto& x : sub) ids += hex(x.idx.getRawValue()) + " ";
        viol("reconstruct", "t=" + std::to_string(t) + " n=" + std::to_string(n) + " shares " + ids + "give " + hex(g.getRawValue()) + ", secret " + ref::hex(want));
    }
    for (size_t i = 0; i < sub.size(); i++) if (!(copy[i].val == sub[i].val) || !(copy[i].idx == sub[i].idx)) viol("shares-changed", "by reconstruction");
    uint64_t h = t * 1000 + n; for (auto& x : sub) h = mix(h ^ hz(x.val.getRawValue()));
    evald(h);
    seen(sub.size() == t ? "subset:exactly-t" : "subset:more");
}
static void small(uint64_t i, Rng& r) {           // all (t,n) up to 6, all subsets, several orders
    size_t n = 1 + i % 6, t = 1 + (i / 6) % n;
    static ShamirSS reused;
    ShamirSS fresh; ShamirSS& ss = r.coin() ? reused : fresh;
    mpz_class secret = aSecret(r);
    if (i % 3 == 0) rh::set(rh::HOSTILE, r.next()); else if (i % 3 == 1) rh::set(rh::SEEDED, r.next()); else rh::set(rh::PASS, 0);
    step("getShares");
    share_v_t s = ss.getShares(t, n, FIELD(secret));
    shares(s, t, n, secret, "small");
    if (s.size() != n) return;
    for (unsigned m = 1; m < (1u << n); m++) {
        share_v_t sub; for (size_t j = 0; j < n; j++) if (m >> j & 1) sub.push_back(s[j]);
        if (sub.size() < t) continue;
        recon(ss, sub, secret, t, n);
        r.shuffle(sub); recon(ss, sub, secret, t, n);
    }
    seen("tn:" + std::to_string(t) + "/" + std::to_string(n));
    if (n == 3 && t == 2) sample("sharing 2 of 3", "secret " + hex(secret) + " shares " + hex(s[0].val.getRawValue()) + " " + hex(s[1].val.getRawValue()));
}
static void large(uint64_t i, Rng& r) {
    size_t n = 1 + r.below(i % 8 == 0 ? 60 : 24), t = 1 + r.below(n);
    if (r.coin(1, 4)) t = n; if (r.coin(1, 6)) t = 1;
    rh::set(i % 2 ? rh::SEEDED : rh::PASS, r.next());
    ShamirSS ss;
    mpz_class secret = aSecret(r);
    share_v_t s = ss.getShares(t, n, FIELD(secret));
    shares(s, t, n, secret, "large");
    if (s.size() != n) return;
    for (int k = 0; k < 4; k++) {
        share_v_t sub = s;
        if (k == 1) std::reverse(sub.begin(), sub.end()); else if (k > 1) r.shuffle(sub);
        sub.resize(k == 3 ? t + r.below(n - t + 1) : t);
        if (k == 1 || k == 2 || sub.size() >= t) recon(ss, sub, secret, t, n);
    }
    seen("large"); if (t == n) seen("t=n"); if (t == 1) seen("t=1");
}
static void sums(uint64_t i, Rng& r) {
    size_t n = 1 + r.below(8), t = 1 + r.below(n), m = 2 + r.below(5);
    rh::set(i % 2 ? rh::SEEDED : rh::HOSTILE, r.next());
    ShamirSS ss; mpz_class total = 0;
    share_v_t acc;
    for (size_t k = 0; k < m; k++) {
        mpz_class secret = aSecret(r); total += secret;
        share_v_t s = ss.getShares(t, n, FIELD(secret));
        if (s.size() != n) { viol("share-count", "sums"); return; }
        if (!k) acc = s; else for (size_t j = 0; j < n; j++) acc[j].val += s[j].val;
    }
    r.shuffle(acc); acc.resize(t + r.below(n - t + 1));
    recon(ss, acc, total, t, n);
    seen("sum");
}
// many live sharings of one object; none disturbs another
static void reuse(uint64_t i, Rng& r) {
    rh::set(rh::PASS, 0);
    ShamirSS ss;
    struct L { mpz_class s; size_t t, n; share_v_t v; };
    std::vector<L> live;
    for (int k = 0; k < 12; k++) {
        L l; l.n = 1 + r.below(9); l.t = 1 + r.below(l.n); l.s = aSecret(r);
        if (k && r.coin()) {                                              // much in common with an earlier one
            auto& o = r.pick(live); l.s = near(r, o.s);
            if (r.coin()) l.n = o.n, l.t = r.coin() ? o.t : 1 + r.below(l.n);
            seen("reuse:related");
        }
        l.v = ss.getShares(l.t, l.n, FIELD(l.s)); live.push_back(l);
        auto& o = r.pick(live);
        share_v_t sub = o.v; r.shuffle(sub); sub.resize(o.t);
        recon(ss, sub, o.s, o.t, o.n);
        if (r.coin(1, 3)) {                                               // the same indices with other values, straight after
            for (auto& p : live) if (&p != &o) {
                share_v_t w; bool all = p.t <= sub.size();
                for (auto& x : sub) { size_t id = x.idx.getRawValue().get_ui(); if (id <= p.n) w.push_back(p.v[id - 1]); else all = false; }
                if (all) { recon(ss, w, p.s, p.t, p.n); seen("reuse:same-indices"); }
            }
        }
    }
    seen("reuse");
}
int main(int argc, char** argv) {
    section("small", 21 * 6 * 12, 21 * 6 * 300, small);
    section("large", 400, 20000, large);
    section("sums", 600, 40000, sums);
    section("reuse", 160, 8000, reuse);
    // shares of a polynomial chosen here: zero values, equal values, a low degree, a secret of zero
    section("chosen", 1200, 60000, [](uint64_t i, Rng& r) {
        size_t n = 1 + r.below(9), t = 1 + r.below(n);
        std::vector<ref::Bn> c(t, ref::Bn(0L));
        static const char* const how[] = {"roots at indices", "constant", "low degree", "sparse", "any"};
        int kind = i % 5;
        if (kind == 0) {                                                  // product of (x - idx), times anything
            c[0] = ref::from(1 + r.range(Nz() - 1)); size_t deg = 0;
            for (size_t q = r.below(t); deg < q; deg++) {
                ref::Bn root((long)(1 + r.below(n)));
                for (size_t k = deg + 2; k-- > 0;) c[k] = sub_(k ? c[k - 1] : ref::Bn(0L), mul_(c[k], root));
            }
        } else if (kind == 1) c[0] = ref::from(aSecret(r));
        else if (kind == 2) for (size_t k = 0; k < 1 + r.below(t); k++) c[k] = ref::from(r.range(Nz()));
        else if (kind == 3) { c[r.below(t)] = ref::from(r.coin() ? mpz_class(1) : mpz_class(Nz() - 1)); if (r.coin()) c[0] = ref::Bn(0L); }
        else for (auto& x : c) x = ref::from(r.range(Nz()));
        for (auto& x : c) x = ref::mod(x, N());
        share_v_t s(n);
        for (size_t j = 0; j < n; j++) {
            ref::Bn y(0L), x((long)j + 1);
            for (size_t k = t; k-- > 0;) y = add_(mul_(y, x), c[k]);
            s[j].idx = FIELD(mpz_class(j + 1)); s[j].val = FIELD(ref::to(y));
            if (y.zero()) seen("chosen:zero-share");
        }
        r.shuffle(s); s.resize(t + r.below(n - t + 1));
        ShamirSS ss; recon(ss, s, ref::to(c[0]), t, n);
        seen(std::string("chosen:") + how[kind]);
    });
    section("enormous", 3, 12, [](uint64_t i, Rng& r) {                   // indices beyond 16 bits; thresholds in the hundreds
        rh::set(rh::PASS, 0);
        size_t n = i % 3 == 0 ? 65536 + 1 + r.below(40) : i % 3 == 1 ? 66000 : 600 + r.below(50), t = i % 3 == 0 ? 2 : i % 3 == 1 ? 3 : n - r.below(30);
        ShamirSS ss; mpz_class secret = aSecret(r);
        share_v_t s = ss.getShares(t, n, FIELD(secret)); shares(s, t, n, secret, "enormous");
        if (s.size() != n) return;
        recon(ss, share_v_t(s.end() - t, s.end()), secret, t, n);
        { share_v_t w{s[n - 1]}; w.insert(w.end(), s.begin(), s.begin() + (t - 1)); recon(ss, w, secret, t, n); }
        for (int q = 0; q < (t < 10 ? 20 : 1); q++) { share_v_t w = s; r.shuffle(w); w.resize(t); recon(ss, w, secret, t, n); }
        seen("enormous");
    });
    section("huge", 4, 24, [](uint64_t i, Rng& r) {
        rh::set(rh::PASS, 0);
        size_t n = i % 2 ? 300 : 260 + r.below(100), t = i % 4 == 0 ? 256 : i % 4 == 1 ? 257 : i % 4 == 2 ? 2 : 100 + r.below(100);
        ShamirSS ss; mpz_class secret = aSecret(r);
        share_v_t s = ss.getShares(t, n, FIELD(secret)); shares(s, t, n, secret, "huge");
        if (s.size() != n) return;
        recon(ss, share_v_t(s.end() - t, s.end()), secret, t, n);
        r.shuffle(s); s.resize(t); recon(ss, s, secret, t, n);
        seen("huge");
    });
    return run(argc, argv);
}
