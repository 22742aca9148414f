// C12: PUDA aggregation: exact sums, consistent tags.
#include "pudalib.hpp"
using namespace mon;

static void keys(Keys& k) {
    const ref::Bn& n = Secp::G().n;
    ref::Bn s = bnf(k.ak.getRawValue()), ts(0L);
    if (k.ek.size() != k.n || k.sk.size() != k.n) { viol("key-count", ""); return; }
    for (auto& e : k.ek) s = ref::add(s, bnf(e.getRawValue()), n);
    if (!s.zero()) viol("keys-cancel", "ak + sum of the encryption keys = " + ref::hex(s) + " for " + std::to_string(k.n) + " users");
    for (auto& e : k.sk) {
        ts = ref::add(ts, bnf(e.tk.getRawValue()), n);
        if (e.a != k.sk[0].a) viol("tag-key", "users have different a");
    }
    if (k.n) {
        if (!same<Secp>(k.vk.vk_1, ref::Pt::gen(Secp::G(), ts))) viol("verification-key", "first component is not g2 * sum of the tag keys");
        if (!same<Secp>(k.vk.vk_2, ref::Pt::gen(Secp::G(), bnf(k.sk[0].a)))) viol("verification-key", "second component is not g2 * a");
    }
    seen("setup");
}
static void round(Keys& k, Rng& r, int t, uint32_t total, bool agg = true) {
    auto& p = *k.p;
    auto m = msgs(r, k.n, total);
    uint32_t sum = 0;
    puda::ctxt_v_t c; puda::tag_v_t g;
    step("enc");
    for (size_t i = 0; i < k.n; i++) { sum += m[i]; c.push_back(p.Enc(k.ek[i], m[i], t)); g.push_back(p.Tag(k.sk[i], m[i], t)); }
    std::vector<size_t> o1(k.n), o2(k.n);
    for (size_t i = 0; i < k.n; i++) o1[i] = o2[i] = i;
    r.shuffle(o1); r.shuffle(o2);
    puda::ctxt_v_t cs; puda::tag_v_t gs;
    for (size_t i = 0; i < k.n; i++) { cs.push_back(c[o1[i]]); gs.push_back(g[o2[i]]); }
    auto desc = [&] { std::string s = std::to_string(k.n) + " users, t=" + std::to_string(t) + ", messages"; for (size_t i = 0; i < m.size() && i < 12; i++) s += " " + std::to_string(m[i]); return s; };
    ref::Pt H = RP(k.H(t));
    const ref::Bn& n = Secp::G().n;
    // every ciphertext and tag has the prescribed form
    for (size_t q = 0; q < 2 && q < k.n; q++) {
        size_t i = r.below(k.n);
        if (!(RP(c[i]) == H * bnf(k.ek[i].getRawValue()) + ref::Pt::gen(Secp::G(), ref::Bn((long)m[i])))) viol("ciphertext-form", desc());
        ref::Bn am = ref::mul(bnf(k.sk[i].a), ref::Bn((long)m[i]), n);
        if (!(RP(g[i]) == H * bnf(k.sk[i].tk.getRawValue()) + ref::Pt::gen(Secp::G(), am))) viol("tag-form", desc());
        evald(hp(c[i]));
    }
    if (!agg) return;
    // the ciphertexts and the aggregator's key cancel to sum*G: looked at first, for a discrete logarithm out of range is searched for minutes
    ref::Pt left = H * bnf(k.ak.getRawValue()); for (auto& x : c) left = left + RP(x);
    if (!(left == ref::Pt::gen(Secp::G(), ref::Bn((long)sum)))) { viol("ciphertext-sum", desc()); return; }
    step("agg " + desc());
    auto res = p.Agg(k.ak, cs, gs, t);
    if (res.first != sum) viol("sum", desc() + ": aggregated " + std::to_string(res.first) + ", expected " + std::to_string(sum));
    ref::Bn tks(0L); for (auto& e : k.sk) tks = ref::add(tks, bnf(e.tk.getRawValue()), n);
    ref::Pt T = H * tks + ref::Pt::gen(Secp::G(), k.n ? ref::mul(bnf(k.sk[0].a), ref::Bn((long)sum), n) : ref::Bn(0L));
    if (!same<Secp>(res.second, T)) viol("tag", desc() + ": aggregate tag is not H_t*sum(tk) + g*(a*sum)");
    evald(hp(res.second) ^ sum);
    seen("aggregate"); seen("users:" + std::to_string(std::min<size_t>(k.n, 40)));
    seen(sum == 0 ? "sum:0" : sum == 65535 ? "sum:65535" : sum < 256 ? "sum:small" : "sum:large");
    if (t < 0) seen("time:negative");
    sample("round", desc() + " -> " + std::to_string(res.first));
}
int main(int argc, char** argv) {
    section("rounds", 320, 16000, [](uint64_t i, Rng& r) {
        rh::set(i % 3 ? rh::SMALL : rh::SEEDED, r.next(), 80);
        puda::Puda p;
        Keys k = setup(p, i % 7 == 0 ? 1 : 1 + r.below(12));
        keys(k);
        for (int q = 0; q < 4; q++) round(k, r, aTime(r), q == 0 && r.coin(1, 3) ? 256 * (1 + r.below(6)) + r.below(3) - 1 : r.below(r.coin(1, 3) ? 30 : 500));      // small sums: many rounds
        round(k, r, aTime(r), r.below(65536), false);
    });
    section("boundary-sums", 24, 1200, [](uint64_t i, Rng& r) {                          // the whole discrete-logarithm range
        // one column per process: small, medium and large sums share the work evenly
        static const uint32_t S[] = {0, 1, 2, 255, 256, 257, 511, 512, 4095, 4096, 8191, 8192, 16383, 16384, 12288, 10000,
                                     65535, 65534, 65280, 32768, 32767, 49152, 61440, 65279};
        rh::set(rh::SMALL, r.next(), 80);
        puda::Puda p;
        uint32_t s = i < 24 ? S[i] : i < 300 ? 256 * (1 + r.below(255)) + (r.below(3)) - 1 : r.below(65536);
        if (i >= 19 && i < 24 && r.coin()) s = 17000 + r.below(48000);
        Keys k = setup(p, s == 65535 ? 1 : 1 + r.below(10)); keys(k);
        round(k, r, aTime(r), s);
    });
    section("histories", 80, 3000, [](uint64_t i, Rng& r) {                              // several setups and instances interleaved
        rh::set(rh::SMALL, r.next(), 80);
        puda::Puda p, q;
        Keys a = setup(p, 1 + r.below(5)), b = setup(q, 1 + r.below(5));
        for (int n = 0; n < 3; n++) { round(a, r, n + 1, r.below(40)); round(b, r, n + 1, r.below(40)); round(a, r, -n, r.below(40)); }
        Keys c = setup(p, 1 + r.below(6)); keys(c);                                       // a new setup of the first instance
        for (int n = 0; n < 3; n++) { round(c, r, n, r.below(40)); round(b, r, 5, r.below(40)); }
        seen("history");
    });
    section("related", 96, 4000, [](uint64_t i, Rng& r) {                                // timestamps with much in common, all encrypted before any is aggregated
        rh::set(i % 4 == 3 ? rh::EDGE : rh::SMALL, r.next(), 80);
        puda::Puda p, q;
        size_t n = r.below(8);
        Keys k = setup(p, n), o = setup(q, n); keys(k); keys(o);
        struct W { Keys* k; int t; uint32_t sum; puda::ctxt_v_t c; puda::tag_v_t g; };
        std::vector<W> v(5);
        int t = aTime(r);
        uint32_t base = r.below(90);
        for (auto& w : v) {
            w.k = &w == &v[4] ? &o : &k; w.t = &w == &v[0] ? t : nearTime(r, t); w.sum = 0;
            auto m = msgs(r, n, r.coin(1, 3) ? base : r.below(90));
            for (auto x : m) w.sum += x;
            for (size_t j = 0; j < n; j++) {
                w.c.push_back(w.k->p->Enc(w.k->ek[j], m[j], w.t));
                if (r.coin(1, 4)) w.k->p->Enc(w.k->ek[j], (uint16_t)r.next(), nearTime(r, t));       // ciphertexts nobody collects
                w.g.push_back(w.k->p->Tag(w.k->sk[j], m[j], w.t));
            }
        }
        for (int pass = 0; pass < 2; pass++) {
            std::vector<size_t> o2{0, 1, 2, 3, 4}; r.shuffle(o2);
            for (size_t x : o2) {
                W& w = v[x];
                if (pass) { r.shuffle(w.c); r.shuffle(w.g); }
                ref::Pt left = RP(w.k->H(w.t)) * bnf(w.k->ak.getRawValue()); for (auto& c : w.c) left = left + RP(c);
                if (!(left == ref::Pt::gen(Secp::G(), ref::Bn((long)w.sum)))) { viol("ciphertext-sum", "t=" + std::to_string(w.t)); continue; }
                step("agg t=" + std::to_string(w.t));
                auto c0 = w.c; auto g0 = w.g;
                auto res = w.k->p->Agg(w.k->ak, w.c, w.g, w.t);
                std::string d = std::to_string(n) + " users, t=" + std::to_string(w.t) + " sum " + std::to_string(w.sum);
                if (res.first != w.sum) viol("sum", d + ": aggregated " + std::to_string(res.first));
                ref::Bn tks(0L); for (auto& e : w.k->sk) tks = ref::add(tks, bnf(e.tk.getRawValue()), Secp::G().n);
                ref::Pt T = RP(w.k->H(w.t)) * tks + ref::Pt::gen(Secp::G(), n ? ref::mul(bnf(w.k->sk[0].a), ref::Bn((long)w.sum), Secp::G().n) : ref::Bn(0L));
                if (!same<Secp>(res.second, T)) viol("tag", d);
                for (size_t j = 0; j < n; j++) if (!(w.c[j] == c0[j]) || !(w.g[j] == g0[j])) viol("input-changed", d);
                evald(hp(res.second) ^ w.sum ^ pass); seen("related"); seen("aggregate");
            }
        }
    });
    // users whose keys have something in common: partial sums that vanish, ciphertexts that coincide or are opposite
    section("cancelling", 64, 3000, [](uint64_t i, Rng& r) {
        rh::set(rh::SMALL, r.next(), 80);
        puda::Puda p;
        size_t n = 2 + r.below(6);
        Keys k = setup(p, n); const ref::Bn& N = Secp::G().n;
        std::vector<uint16_t> m;
        for (size_t j = 0; j < n; j++) {
            m.push_back(r.coin(1, 2) ? 0 : r.below(40));
            size_t q = j ? r.below(j) : 0;
            switch (j ? r.below(6) : i % 2 ? 5 : 0) {
                case 0: k.ek[j] = puda::ek_t(mpz_class(0)); k.sk[j].tk = puda::tk_t(mpz_class(0)); m[j] = i % 3 ? 0 : m[j]; break;
                case 1: k.ek[j] = k.ek[q]; k.sk[j].tk = k.sk[q].tk; break;
                case 2: case 3: k.ek[j] = -k.ek[q]; k.sk[j].tk = -k.sk[q].tk; m[j] = m[q] = 0; break;
                default: break;
            }
        }
        ref::Bn a(0L), ts(0L); uint32_t sum = 0;
        for (size_t j = 0; j < n; j++) { a = ref::sub(a, bnf(k.ek[j].getRawValue()), N); ts = ref::add(ts, bnf(k.sk[j].tk.getRawValue()), N); sum += m[j]; }
        k.ak = puda::ak_t(ref::to(a));
        int t = aTime(r); puda::ctxt_v_t c; puda::tag_v_t g;
        for (size_t j = 0; j < n; j++) { c.push_back(p.Enc(k.ek[j], m[j], t)); g.push_back(p.Tag(k.sk[j], m[j], t)); }
        ref::Pt left = RP(k.H(t)) * a; for (auto& x : c) left = left + RP(x);
        if (!(left == ref::Pt::gen(Secp::G(), ref::Bn((long)sum)))) { viol("ciphertext-sum", "t=" + std::to_string(t)); return; }
        for (int pass = 0; pass < 3; pass++) {
            step("agg cancelling");
            auto res = p.Agg(k.ak, c, g, t);
            std::string d = std::to_string(n) + " users with related keys, t=" + std::to_string(t) + " sum " + std::to_string(sum);
            if (res.first != sum) viol("sum:related-keys", d + ": aggregated " + std::to_string(res.first));
            if (!same<Secp>(res.second, RP(k.H(t)) * ts + ref::Pt::gen(Secp::G(), ref::mul(bnf(k.sk[0].a), ref::Bn((long)sum), N)))) viol("tag:related-keys", d);
            evald(hp(res.second) ^ sum ^ pass); r.shuffle(c); r.shuffle(g);
        }
        seen("cancelling");
    });
    // aggregates of many ciphertexts: those of a few users, many times over, in any order
    section("crowds", 24, 600, [](uint64_t i, Rng& r) {
        static const size_t S[] = {128, 255, 256, 257, 300, 511, 512, 513, 640, 1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000, 4095, 4096, 4097, 5000, 8193, 10001, 16385, 32769, 65537};
        rh::set(rh::SMALL, r.next(), 80);
        puda::Puda p; size_t n = 1 + r.below(4); Keys k = setup(p, n); const ref::Bn& N = Secp::G().n;
        size_t size = i % 3 == 2 ? 2 + r.below(1u << (4 + r.below(10))) : S[(i / 3 * 2 + i % 3 + opt.seed) % (opt.thorough ? 27 : 23)];
        int t = aTime(r); uint32_t sum = 0; puda::ctxt_v_t c; puda::tag_v_t g; std::vector<size_t> times(n);
        std::vector<puda::POINT1> e0, e1;
        decltype(g) g0, g1;
        for (size_t j = 0; j < n; j++) { e0.push_back(p.Enc(k.ek[j], 0, t)); e1.push_back(p.Enc(k.ek[j], 1, t)); g0.push_back(p.Tag(k.sk[j], 0, t)); g1.push_back(p.Tag(k.sk[j], 1, t)); }
        size_t some = r.coin() ? 1 : 1 + r.below(200);
        for (size_t q = 0; q < size; q++) {
            size_t j = r.below(n); bool one = r.coin(1, some) && sum < 3000; times[j]++; sum += one;
            c.push_back(one ? e1[j] : e0[j]); g.push_back(one ? g1[j] : g0[j]);
        }
        ref::Bn a(0L), ts(0L);
        for (size_t j = 0; j < n; j++) { ref::Bn x((long)times[j]); a = ref::sub(a, ref::mul(bnf(k.ek[j].getRawValue()), x, N), N); ts = ref::add(ts, ref::mul(bnf(k.sk[j].tk.getRawValue()), x, N), N); }
        step("crowd of " + std::to_string(size));
        auto res = p.Agg(puda::ak_t(ref::to(a)), c, g, t);
        std::string d = std::to_string(size) + " ciphertexts, t=" + std::to_string(t) + " sum " + std::to_string(sum);
        if (res.first != sum) viol("sum:crowd", d + ": aggregated " + std::to_string(res.first));
        if (!same<Secp>(res.second, RP(k.H(t)) * ts + ref::Pt::gen(Secp::G(), ref::mul(bnf(k.sk[0].a), ref::Bn((long)sum), N)))) viol("tag:crowd", d);
        evald(hp(res.second) ^ sum); seen("crowd"); seen("crowd-ciphertexts", size);
    });
    section("wide-setup", 6, 60, [](uint64_t i, Rng& r) {
        static const size_t S[] = {1001, 1025, 2049, 4097, 513, 3000, 8193, 10001, 16385, 65537};
        rh::set(rh::SMALL, r.next(), 80);
        puda::Puda p; Keys k = setup(p, S[i % (opt.thorough ? 10 : 6)] + r.below(8)); keys(k); seen("wide-setup");
    });
    section("many-users", 8, 200, [](uint64_t i, Rng& r) {
        rh::set(rh::SMALL, r.next(), 80);
        puda::Puda p; Keys k = setup(p, 50 + 40 * i % 500); keys(k);
        round(k, r, aTime(r), r.below(3000)); seen("many-users");
    });
    return run(argc, argv);
}
