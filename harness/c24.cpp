// C24: what PUDA ciphertexts and tags show to those without the user's keys.
#include "pudalib.hpp"
#include <unordered_map>
using namespace mon;
static const ref::Group& G() { return Secp::G(); }
static const int BABY = 1024;
// |y| <= span with p = y*base; giant steps of 2*BABY
struct Log {
    std::unordered_map<std::string, long> t; ref::Pt base, step;
    explicit Log(const ref::Pt& b) : base(b), step(b.dbl()) {
        ref::Pt q(G());
        for (long i = 0; i <= BABY; i++) { t.emplace(q.inf() ? "inf" : ref::hex(q.x()), i); q = q + base; }
        step = base * ref::Bn((long)2 * BABY);
    }
    bool find(const ref::Pt& p, long span, long& y) {
        ref::Pt q = p, s = p;
        for (long j = 0; j <= span / (2 * BABY) + 1; j++) {
            for (int d = 0; d < 2; d++) {
                const ref::Pt& c = d ? s : q;
                auto it = t.find(c.inf() ? "inf" : ref::hex(c.x()));
                if (it != t.end()) {
                    long off = d ? -j * 2 * BABY : j * 2 * BABY;
                    for (long k : {it->second, -it->second}) if (base * ref::Bn(off + k) == p) { y = off + k; return true; }
                }
            }
            q = q - step; s = s + step;
        }
        return false;
    }
};
static Log& glog() { static Log l(ref::Pt::gen(G(), ref::Bn(1L))); return l; }
static const long SPAN = 700000;
static ref::Bn bi(long v) { return ref::Bn(v); }

int main(int argc, char** argv) {
    section("one-timestamp", 200, 10000, [](uint64_t i, Rng& r) {
        rh::set(i % 4 ? rh::SEEDED : rh::PASS, r.next());
        puda::Puda p;
        size_t n = 1 + r.below(7);
        Keys k = setup(p, n);
        int t = aTime(r); if (i % 8 == 0) t = 0;
        bool equal = r.coin(1, 3); uint16_t m0 = r.coin() ? (uint16_t)r.below(300) : (uint16_t)r.next();
        std::vector<uint16_t> m; std::vector<ref::Pt> c, g;
        for (size_t j = 0; j < n; j++) {
            m.push_back(equal ? m0 : (uint16_t)(r.coin() ? r.below(300) : r.next()));
            c.push_back(RP(p.Enc(k.ek[j], m[j], t))); g.push_back(RP(p.Tag(k.sk[j], m[j], t)));
        }
        std::string d = std::to_string(n) + " users t=" + std::to_string(t);
        step(d);
        std::string z = t == 0 ? ":time-zero" : "";
        auto hid = [&](const char* key, const ref::Pt& q, const std::string& what) {
            long y; evald(hstr(what, hstr(q.str()))); seen(std::string("hidden:") + key);
            if (glog().find(q, SPAN, y)) viol(key + z, d + ": " + what + " is " + std::to_string(y) + " times the generator");
        };
        if (t == 0) seen("time-zero"); else seen("timestamp");
        ref::Pt agg = RP(k.H(t)) * bnf(k.ak.getRawValue()), sum(G()), tsum(G());
        ref::Bn a = bnf(k.sk[0].a); ref::Pt ag = ref::Pt::gen(G(), a);
        for (size_t j = 0; j < n; j++) {
            hid("ciphertext", c[j], "ciphertext of message " + std::to_string(m[j]));
            hid("tag", g[j], "tag of message " + std::to_string(m[j]));
            if (g[j] == ag * bi(m[j])) viol("tag" + z, d + ": tag carries no mask");
            hid("tag-minus-ciphertext", g[j] - c[j], "tag minus ciphertext");
            if (n > 1) hid("aggregator-key", c[j] + agg, "one ciphertext and the aggregator's key");
            if (n > 1) hid("aggregator-key", g[j] + agg, "one tag and the aggregator's key");
            hid("small-time-multiple", c[j] - RP(k.H(t)), "ciphertext minus the timestamp's base");
            for (size_t l = 0; l < j; l++) {
                hid("users-share", c[j] - c[l], "difference of two users' ciphertexts");
                hid("users-share", c[j] + c[l], "sum of two users' ciphertexts");
                hid("users-share-tags", g[j] - g[l], "difference of two users' tags");
                hid("users-share", c[j] - c[l].dbl(), "first minus twice the second ciphertext");
            }
            sum = sum + c[j]; tsum = tsum + g[j];
        }
        if (n > 2) {                                                          // all but one user with the aggregator's key
            size_t out = r.below(n);
            hid("incomplete-aggregate", sum - c[out] + agg, "the aggregate without one user");
            hid("incomplete-aggregate", sum - c[out], "the sum of all but one ciphertext");
        }
        hid("aggregate-without-key", sum, "the sum of all ciphertexts without the aggregator's key");
        hid("tag-sum", tsum, "the sum of all tags");
        sample("ciphertext", d + " m=" + std::to_string(m[0]) + " c=" + c[0].str());
    });
    section("timestamps", 160, 8000, [](uint64_t i, Rng& r) {
        rh::set(i % 4 ? rh::SEEDED : rh::PASS, r.next());
        puda::Puda p;
        Keys k = setup(p, 1 + r.below(3));
        int t1 = 1 + r.below(1 << 20), t2;
        do t2 = i % 2 ? t1 + 1 + (int)r.below(5) : 1 + (int)r.below(1 << 20); while (t2 == t1);
        if (i % 5 == 0) t1 = 1, t2 = 2;
        uint16_t m1 = (uint16_t)r.next(), m2 = r.coin() ? m1 : (uint16_t)r.next();
        ref::Pt c1 = RP(p.Enc(k.ek[0], m1, t1)), c2 = RP(p.Enc(k.ek[0], m2, t2)), g1 = RP(p.Tag(k.sk[0], m1, t1)), g2 = RP(p.Tag(k.sk[0], m2, t2));
        std::string d = "t1=" + std::to_string(t1) + " t2=" + std::to_string(t2) + " m1=" + std::to_string(m1) + " m2=" + std::to_string(m2);
        step(d);
        long y;
        // small combinations that a hash of the timestamp leaves masked, and the one that proportional bases cancel
        for (long a = -3; a <= 3; a++) for (long b = 0; b <= 3; b++) {
            if (!a || !b) continue;
            bool prop = a * t1 + b * t2 == 0;
            evald(hstr(d, a * 8 + b)); seen("combination");
            if (glog().find(c1 * bi(a) + c2 * bi(b), SPAN, y))
                viol(prop ? "linear-in-time" : "timestamps-share", d + ": " + std::to_string(a) + "*c1+" + std::to_string(b) + "*c2 is " + std::to_string(y) + " times the generator");
            if (glog().find(g1 * bi(a) + g2 * bi(b), SPAN, y) && (y || true))
                viol(prop ? "linear-in-time" : "timestamps-share-tags", d + ": tags combine to " + std::to_string(y));
        }
        ref::Pt combo = c1 * bi(t2) - c2 * bi(t1);
        ref::Pt expect = ref::Pt::gen(G(), ref::from(mpz_class(m1) * t2 - mpz_class(m2) * t1));
        if (combo == expect) viol("linear-in-time", d + ": t2*c1 - t1*c2 has lost its mask");
        seen("proportional");
        // the same timestamp twice: a known difference of messages and nothing else
        if (c1 == c2 || c1 == -c2 || g1 == g2) viol("timestamps-share", d + ": equal ciphertexts");
        seen("pair");
    });
    section("joint", 4, 32, [](uint64_t i, Rng& r) {                      // draws confined to 1..8: all combinations of two keys have to occur
        rh::set(rh::SMALL, r.next(), 3);
        puda::Puda p; Joint j; long last = -1;
        for (int q = 0; q < 1600; q++) {
            Keys k = setup(p, 3);
            auto v = [](const mpz_class& x) { return x < 100 ? x.get_si() : 100L; };
            long e[3], t[3], a = v(k.sk[0].a);
            for (int u = 0; u < 3; u++) { e[u] = v(k.ek[u].getRawValue()); t[u] = v(k.sk[u].tk.getRawValue()); }
            j.add("two users' encryption keys", e[0], e[1]); j.add("two users' encryption keys", e[1], e[2]); j.add("first and third user's encryption keys", e[0], e[2]);
            j.add("two users' tag keys", t[0], t[1]); j.add("first and third user's tag keys", t[0], t[2]);
            j.add("a user's encryption and tag keys", e[0], t[0]); j.add("a user's encryption and tag keys", e[2], t[2]);
            j.add("one user's encryption key and the next one's tag key", e[0], t[1]); j.add("one user's tag key and the next one's encryption key", t[0], e[1]);
            j.add("tag multiplier and an encryption key", a, e[0]); j.add("tag multiplier and a tag key", a, t[0]); j.add("tag multiplier and the last tag key", a, t[2]);
            if (q) j.add("keys of consecutive setups", last, e[0]);
            for (int u = 0; u < 3; u++) { j.seq("encryption keys", e[u]); j.seq("tag keys", t[u]); j.seq("all keys", e[u]); }
            for (int u = 0; u < 3; u++) j.seq("all keys", t[u]);
            j.seq("tag multipliers", a);
            last = e[0]; evald(hz(k.ek[0].getRawValue(), q));
        }
        j.judgeSeq([&](const std::string& what, size_t lag, size_t k, size_t n) { viol("recurs:" + what, what + ": " + std::to_string(k) + " of " + std::to_string(n) + " are what came " + std::to_string(lag) + " before"); });
        j.judge([&](const std::string& what, size_t got, size_t of) { viol("dependent:" + what, what + ": " + std::to_string(got) + " of " + std::to_string(of) + " combinations occur"); });
        seen("joint-pairs", j.tested); seen("joint-sequences", j.testedSeq);
    });
    section("width", 24, 2000, [](uint64_t, Rng& r) {                     // every bit of the randomness matters to every key
        rh::Width w; unsigned bit = rh::aBit(r); std::unique_ptr<puda::Puda> p;
        w(r, bit, [&] { p.reset(new puda::Puda()); }, [&] {
            Keys k = setup(*p, 3); rh::Outputs o;
            for (int j = 0; j < 3; j++) { o.emplace_back("encryption key " + std::to_string(j), hex(k.ek[j].getRawValue())); o.emplace_back("tag key " + std::to_string(j), hex(k.sk[j].tk.getRawValue())); }
            o.emplace_back("tag multiplier", hex(k.sk[0].a)); o.emplace_back("hash base", pstr(k.H(1)));
            return o;
        }, [](const std::string& what, unsigned b) { viol("narrow:" + what, what + " does not depend on bit " + std::to_string(b) + " of any random value"); });
        evald(r.next()); seen("width", w.tested); seen("width-runs", w.runs);
    });
    section("budget", 12, 300, [](uint64_t i, Rng& r) {                   // the keys of a set-up are drawn independently
        rh::Budget w; std::unique_ptr<puda::Puda> p; size_t n = i < 12 ? (size_t[]){1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 24}[i] : 1 + r.below(30);
        w(r, (unsigned)(2 * n + 2) * 256, [&] { p.reset(new puda::Puda()); }, [&] {
            Keys k = setup(*p, n); rh::Outputs o;
            for (size_t j = 0; j < n; j++) { o.emplace_back("", hex(k.ek[j].getRawValue())); o.emplace_back("", hex(k.sk[j].tk.getRawValue())); }
            o.emplace_back("", hex(k.sk[0].a)); o.emplace_back("", pstr(k.H(1)));
            return o;
        }, [&](const std::string& what) { viol("dependent:keys", std::to_string(n) + " users: " + what + " of keys"); });
        evald(r.next()); seen("budget", w.measured);
    });
    // many users: all keys of a setup differ, also up to sign, small factors and small differences
    section("crowd", 12, 200, [](uint64_t i, Rng& r) {
        static const size_t S[] = {9, 10, 16, 17, 20, 33, 48, 65, 100, 129, 257, 300};
        rh::set(i % 2 ? rh::SEEDED : rh::PASS, r.next());
        puda::Puda p; size_t n = S[i % 12];
        Keys k = setup(p, n);
        std::map<std::string, std::string> at;
        mpz_class N = ref::to(G().n);
        auto note = [&](mpz_class v, const std::string& what) {
            v %= N;
            for (int m = 1; m <= 4; m++) for (int s = 0; s < 2; s++) {
                mpz_class x = v * m % N; if (s) x = (N - x) % N;
                for (int d = 0; d < 2; d++) {                             // leading parts: a little more or less goes unnoticed
                    std::string key = std::to_string(d) + hex(mpz_class((x + (d ? mpz_class(mpz_class(1) << 99) : mpz_class(0))) >> 100));
                    auto ins = at.emplace(key, what);
                    if (!ins.second && ins.first->second != what) { viol("keys-related", std::to_string(n) + " users: " + what + " and " + ins.first->second); return; }
                }
            }
        };
        for (size_t j = 0; j < n; j++) { note(k.ek[j].getRawValue(), "encryption key " + std::to_string(j)); note(k.sk[j].tk.getRawValue(), "tag key " + std::to_string(j)); evald(hz(k.ek[j].getRawValue())); }
        note(k.sk[0].a, "tag multiplier");
        std::map<std::string, size_t> steps;                              // differences of neighbours
        for (size_t j = 1; j < n; j++) {
            mpz_class d = (k.ek[j].getRawValue() - k.ek[j - 1].getRawValue() + N) % N, t = (k.sk[j].tk.getRawValue() - k.sk[j - 1].tk.getRawValue() + N) % N;
            if (!steps.emplace(hex(d), j).second || !steps.emplace(hex(t), j).second) viol("keys-related", "equal steps at user " + std::to_string(j));
        }
        seen("crowd"); seen("crowd-keys", 2 * n);
    });
    section("setups", 2, 16, [](uint64_t i, Rng& r) {                     // a long history of setups: nothing repeats
        rh::set(i % 2 ? rh::SEEDED : rh::PASS, r.next());
        puda::Puda p, q; std::set<std::string> at;
        for (int n = 0; n < 400; n++) {
            Keys k = setup(n % 3 ? p : q, 2);
            for (int j = 0; j < 2; j++) for (auto& v : {hex(k.ek[j].getRawValue()), hex(k.sk[j].tk.getRawValue())})
                if (!at.insert(v).second) viol("keys-related", "setup " + std::to_string(n) + " repeats key " + v);
            if (!at.insert(hex(k.sk[0].a)).second) viol("keys-related", "setup " + std::to_string(n) + " repeats a tag multiplier");
            if (!at.insert(pstr(k.H(1))).second) viol("bases-equal", "setup " + std::to_string(n) + " repeats a hash base");
            evald(hz(k.ek[0].getRawValue())); seen("long");
        }
    });
    section("keys", 300, 12000, [](uint64_t i, Rng& r) {
        rh::set(i % 3 ? rh::SEEDED : rh::PASS, r.next());
        puda::Puda p, q;
        std::vector<std::pair<std::string, ref::Bn>> v;
        auto add = [&](const Keys& k, const char* s) {
            for (size_t j = 0; j < k.n; j++) { v.emplace_back(std::string(s) + " ek" + std::to_string(j), bnf(k.ek[j].getRawValue())); v.emplace_back(std::string(s) + " tk" + std::to_string(j), bnf(k.sk[j].tk.getRawValue())); }
            v.emplace_back(std::string(s) + " a", bnf(k.sk[0].a));
            if (k.n > 1) v.emplace_back(std::string(s) + " ak", bnf(k.ak.getRawValue()));
        };
        Keys a = setup(p, 1 + r.below(5)); ref::Pt h1 = RP(a.H(1)); add(a, "first setup");
        Keys b = setup(p, 1 + r.below(5)); ref::Pt h2 = RP(b.H(1)); add(b, "second setup");
        Keys c = setup(q, 1 + r.below(5)); ref::Pt h3 = RP(c.H(1)); add(c, "other instance");
        const ref::Bn& n = G().n;
        for (size_t x = 0; x < v.size(); x++) {
            if (BN_num_bits(v[x].second.b) < 190) viol("key-short", v[x].first);
            for (size_t y = 0; y < v.size(); y++) {
                if (x == y) continue;
                for (long m = -3; m <= 3; m++) {
                    ref::Bn d = ref::sub(v[x].second, ref::mul(ref::mod(bi(m), n), v[y].second, n), n), e = ref::neg(d, n);
                    if (BN_num_bits(d.b) < 150 || BN_num_bits(e.b) < 150) viol("keys-related", v[x].first + " is " + std::to_string(m) + " times " + v[y].first + " and a little");
                }
                seen("key-pair");
            }
            evald(hstr(ref::hex(v[x].second)));
        }
        if (h1 == h2 || h1 == h3 || h2 == h3) viol("bases-equal", "two setups hash timestamps alike");
        long y;
        for (auto* h : {&h1, &h2, &h3}) if (glog().find(*h, SPAN, y)) viol("base-known", "the hash base is " + std::to_string(y) + " times the generator");
        seen("setups");
    });
    return run(argc, argv);
}
