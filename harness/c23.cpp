// C23: ElGamal over the P-256 curve.
#include "dmelib.hpp"
#include "elgamal.hpp"
using namespace mon;
static const ref::Group& G() { return Secp::G(); }
static mpz_class topMsg() { static mpz_class v = (ref::to(G().p) >> 20) - 2; return v; }      // the largest integer the property covers
static mpz_class aMsg(Rng& r) {
    switch (r.below(9)) {
        case 8: return mpz_class(runs20()[r.below(runs20().size())], 16);
        case 0: return r.below(6);
        case 1: return topMsg() - r.below(6);
        case 2: return (mpz_class(1) << r.below(236)) - (long)r.below(2);
        case 3: return r.bits(1 + r.below(235));
        case 4: return r.below(100000);
        default: return r.range(topMsg() + 1);
    }
}
static ref::Bn bn(const elgamal::FIELD_n& v) { return ref::from(v.getRawValue()); }
static bool kmul(const ref::Pt& a, const ref::Pt& b, std::string& how) {     // a = k b or b = k a for a small k
    for (long k = -8; k <= 8; k++) {
        if (a == b * ref::Bn(k)) { how = "first = " + std::to_string(k) + " * second"; return true; }
        if (k && b == a * ref::Bn(k)) { how = "second = " + std::to_string(k) + " * first"; return true; }
    }
    return false;
}
int main(int argc, char** argv) {
    section("keys", 400, 20000, [](uint64_t i, Rng& r) {
        const char* mode = rmode(i % 4 == 3 ? 1 : 0, r.next());
        elgamal::ElGamal e, f;
        auto k = e.keyGen(), l = f.keyGen();
        if (!same<Secp>(k.pk, ref::Pt::gen(G(), bn(k.sk))) || !same<Secp>(l.pk, ref::Pt::gen(G(), bn(l.sk)))) viol("key", "pk is not sk * G for sk=" + hex(k.sk.getRawValue()));
        std::string how;
        if (mode[0] == 'f') {
            if (kmul(R(k.pk), R(l.pk), how)) viol("keys-related", how);
            if (k.sk.getRawValue() >> 200 == 0) viol("key-short", hex(k.sk.getRawValue()));
        }
        evald(hp(k.pk)); seen(std::string("keys:") + mode);
    });
    section("messages", 700, 30000, [](uint64_t i, Rng& r) {
        const char* mode = rmode(i % 3, r.next());
        elgamal::ElGamal e, f;
        auto k = e.keyGen();
        for (int q = 0; q < 4; q++) {
            mpz_class m = i < 40 && q < 2 ? mpz_class(q ? mpz_class(topMsg() - (long)i) : mpz_class((unsigned long)i)) : aMsg(r), keep = m;
            step("message " + hex(m));
            auto c = e.encrypt(k.pk, m);
            mpz_class d = (r.coin() ? e : f).decrypt(k.sk, c);
            if (d != m) viol("roundtrip", hex(m) + " -> " + hex(d) + " sk=" + hex(k.sk.getRawValue()));
            if (m != keep) viol("input-changed", hex(keep));
            evald(hp(c.mv)); seen("message"); seen(std::string("mode:") + mode);
            if (mode[0] != 'f') continue;
            // freshness, and what other keys make of it
            auto c2 = e.encrypt(k.pk, m);
            std::string how;
            if (kmul(R(c.u), R(c2.u), how)) viol("randomness-related", "two encryptions of " + hex(m) + ": u of the " + how);
            if (kmul(R(c.u), R(k.pk), how)) viol("randomness-key", how);
            if (eqp(c.mv, c2.mv)) viol("randomness-related", "equal masks");
            ref::Pt M = R(c.mv) - R(c.u) * bn(k.sk);
            if (kmul(R(c.mv) - M, R(c.u), how)) viol("mask-related", "mask and u: " + how);
            auto l = e.keyGen();
            if (f.decrypt(l.sk, c) == m && m > 1000) viol("wrong-key", hex(m));
            if (e.decrypt(k.sk, c2) != m) viol("roundtrip", "second encryption of " + hex(m));
            seen("freshness");
            sample("message", hex(m) + " u=" + pstr(c.u));
        }
    });
    section("points", 500, 20000, [](uint64_t i, Rng& r) {
        const char* mode = rmode(i % 3, r.next());
        elgamal::ElGamal e;
        auto k = e.keyGen();
        dme::POINT A = aPoint(r), B = r.coin(1, 3) ? A : aPoint(r);
        step("points " + pstr(A) + " " + pstr(B));
        auto a = e.encrypt(k.pk, A), b = e.encrypt(k.pk, B);
        ref::Pt RA = R(a.mv) - R(a.u) * bn(k.sk);
        if (!same<Secp>(A, RA)) viol("point", pstr(A) + " recovered as " + RA.str());
        if (!eqp(a.mv - a.u * k.sk, A)) viol("point-library", pstr(A));
        elgamal::ctxt_t s; s.u = a.u + b.u; s.mv = a.mv + b.mv;
        if (!(R(s.mv) - R(s.u) * bn(k.sk) == R(A) + R(B))) viol("sum", pstr(A) + " + " + pstr(B));
        evald(hp(a.mv)); seen("point"); if (A.isInf()) seen("point:inf"); seen(std::string("mode:") + mode);
    });
    section("joint", 4, 32, [](uint64_t i, Rng& r) {                      // draws confined to 1..8: keys and exponents can be read off and have to be independent
        rh::set(rh::SMALL, r.next(), 3);
        std::map<std::string, long> tab; ref::Pt q(G()), g = ref::Pt::gen(G(), ref::Bn(1L));
        for (long k = 0; k < 17; k++) { tab[q.str()] = k; q = q + g; }
        elgamal::ElGamal e, f; Joint j; long pr = -1, psk = -1;
        for (int n = 0; n < 2600; n++) {
            auto k = (n & 1 ? f : e).keyGen(); auto c = e.encrypt(k.pk, mpz_class(n & 7));
            auto it = tab.find(R(c.u).str());
            if (it == tab.end() || k.sk.getRawValue() > 16) { seen("joint:unreadable"); return; }
            long rr = it->second, sk = k.sk.getRawValue().get_si();
            j.add("a key and the exponent used with it", sk, rr); j.add("an exponent and the message", rr, n & 7);
            if (n) { j.add("exponents of consecutive encryptions", pr, rr); j.add("consecutive keys", psk, sk); j.add("an exponent and the next key", pr, sk); }
            j.seq("exponents", rr); j.seq("keys", sk);
            pr = rr; psk = sk; evald(hp(c.mv) + n);
        }
        j.judgeSeq([&](const std::string& what, size_t lag, size_t k, size_t n) { viol("recurs:" + what, what + ": " + std::to_string(k) + " of " + std::to_string(n) + " are what came " + std::to_string(lag) + " before"); });
        j.judge([&](const std::string& what, size_t got, size_t of) { viol("dependent:" + what, what + ": " + std::to_string(got) + " of " + std::to_string(of) + " combinations occur"); });
        seen("joint-pairs", j.tested); seen("joint-sequences", j.testedSeq);
    });
    section("long", 2, 16, [](uint64_t i, Rng& r) {                       // a long history: nothing repeats
        rh::set(i % 2 ? rh::SEEDED : rh::PASS, r.next());
        elgamal::ElGamal e, f; auto k = e.keyGen(); std::set<std::string> us, ms, ks; mpz_class m = aMsg(r);
        for (int n = 0; n < 1200; n++) {
            auto c = (n % 3 ? e : f).encrypt(k.pk, m);
            if (!us.insert(hex(c.u.getX().getRawValue())).second || !ms.insert(pstr(c.mv)).second) viol("randomness-related", "encryption " + std::to_string(n) + " repeats an earlier one's randomness");
            if (n % 3 == 0 && !ks.insert(hex((n % 2 ? e : f).keyGen().sk.getRawValue())).second) viol("keys-related", "key " + std::to_string(n) + " occurred before");
            evald(hp(c.mv)); seen("long");
        }
    });
    // keys and encryptions in any order: every key, every u and every mask is a new element
    section("histories", 60, 3000, [](uint64_t i, Rng& r) {
        rh::set(i % 2 ? rh::SEEDED : rh::PASS, r.next());
        elgamal::ElGamal e, f; std::map<std::string, std::string> all; std::vector<std::pair<mpz_class, dme::POINT>> ks;
        auto note = [&](const dme::POINT& p, const std::string& what) { auto in = all.emplace(hex(p.getX().getRawValue()), what); if (!in.second) viol("history-repeats", what + " is, up to sign, " + in.first->second); };
        for (int n = 0; n < 40; n++) {
            elgamal::ElGamal& o = r.below(4) ? e : f;
            if (ks.empty() || r.coin(2, 5)) { auto k = o.keyGen(); note(k.pk, "public key " + std::to_string(n)); ks.emplace_back(k.sk.getRawValue(), k.pk); evald(hp(k.pk)); }
            else {
                auto& k = ks[r.below(ks.size())]; bool pt = r.coin(); mpz_class m = aMsg(r); dme::POINT M = freshPoint(r);
                auto c = pt ? o.encrypt(k.second, M) : o.encrypt(k.second, m);
                note(c.u, "u of step " + std::to_string(n));
                note(toLib<Secp>(R(c.u) * ref::from(k.first), 0), "mask of step " + std::to_string(n));
                if (pt ? !same<Secp>(M, R(c.mv) - R(c.u) * ref::from(k.first)) : (r.coin() ? e : f).decrypt(elgamal::FIELD_n(k.first), c) != m) viol("roundtrip", "step " + std::to_string(n) + " of a history");
                evald(hp(c.mv));
            }
            seen("history");
        }
    });
    section("width", 24, 2000, [](uint64_t, Rng& r) {                     // every bit of the randomness matters
        rh::Width w; unsigned bit = rh::aBit(r); std::unique_ptr<elgamal::ElGamal> e; dme::POINT pk, m = freshPoint(r);
        auto bad = [](const std::string& what, unsigned b) { viol("narrow:" + what, what + " does not depend on bit " + std::to_string(b) + " of any random value"); };
        w(r, bit, [&] { e.reset(new elgamal::ElGamal()); pk = e->keyGen().pk; },
          [&] { auto c = e->encrypt(pk, m); return rh::Outputs{{"u", pstr(c.u)}, {"mask", pstr(c.mv)}}; }, bad);
        w(r, bit, [&] { e.reset(new elgamal::ElGamal()); }, [&] { auto k = e->keyGen(); return rh::Outputs{{"secret key", hex(k.sk.getRawValue())}}; }, bad);
        rh::Budget bu;
        bu(r, 10 * 256, [&] { e.reset(new elgamal::ElGamal()); pk = e->keyGen().pk; }, [&] { rh::Outputs o; for (int q = 0; q < 10; q++) o.emplace_back("", pstr(e->encrypt(pk, m).u)); return o; }, [](const std::string& s) { viol("dependent", s + " of exponents of ten encryptions"); });
        bu(r, 10 * 256, [&] { e.reset(new elgamal::ElGamal()); }, [&] { rh::Outputs o; for (int q = 0; q < 10; q++) o.emplace_back("", hex(e->keyGen().sk.getRawValue())); return o; }, [](const std::string& s) { viol("dependent", s + " of ten keys"); });
        seen("budget", bu.measured);
        evald(r.next()); seen("width", w.tested); seen("width-runs", w.runs);
    });
    section("crafted", 160, 8000, [](uint64_t i, Rng& r) {                // encryptions that share components, under keys near one another
        rmode(i % 3, r.next());
        elgamal::ElGamal e, f; auto k = e.keyGen(), l = e.keyGen();
        mpz_class N = ref::to(G().n), s = k.sk.getRawValue();
        std::vector<mpz_class> sks{s, N - s, l.sk.getRawValue(), s ^ (mpz_class(1) << (64 + r.below(100))), near(r, s, 255) % N, mpz_class(1)}, ms{aMsg(r), aMsg(r)};
        ms.push_back(near(r, ms[0], 235) % (topMsg() + 1));
        std::vector<ref::Pt> es;
        dme::CURVE cv;
        for (auto& m : ms) { auto c = e.encrypt(k.pk, m); es.push_back(R(c.mv) - R(c.u) * bn(k.sk)); es.push_back(-es.back()); }
        auto c = e.encrypt(k.pk, ms[0]);
        std::vector<ref::Pt> us{R(c.u), -R(c.u), R(c.u).dbl(), R(e.encrypt(k.pk, ms[1]).u), R(c.mv)};
        size_t pu = 0, pk = 0;
        for (int q = 0; q < 20; q++) {
            size_t iu = q && r.coin() ? pu : r.below(us.size()), ik = q && r.coin(2, 3) ? pk : r.below(sks.size()), im = r.below(es.size());
            if (r.coin(1, 4)) iu = pu ^ (pu < 2);
            pu = iu; pk = ik;
            elgamal::ctxt_t x = c; x.u = toLib<Secp>(us[iu], &cv); x.mv = toLib<Secp>(es[im] + us[iu] * ref::from(sks[ik]), &cv);
            mpz_class d = (r.coin() ? e : f).decrypt(elgamal::skey_t(sks[ik]), x);
            if (d != ms[im / 2]) viol("opened", hex(ms[im / 2]) + " opens to " + hex(d) + " u " + std::to_string(iu) + " key " + std::to_string(ik));
            evald(hp(x.mv)); seen("crafted");
        }
    });
    section("related", 160, 8000, [](uint64_t i, Rng& r) {                // one key, messages with much in common, decrypted in another order
        const char* mode = rmode(i % 3, r.next());
        elgamal::ElGamal e, f; auto k = e.keyGen();
        mpz_class base = aMsg(r);
        std::vector<std::pair<mpz_class, elgamal::ctxt_t>> v;
        for (int q = 0; q < 5; q++) { mpz_class m = q ? near(r, base, 235) : base; m %= topMsg() + 1; v.emplace_back(m, e.encrypt(k.pk, m)); }
        r.shuffle(v);
        for (auto& x : v) {
            step("message " + hex(x.first));
            mpz_class d = (r.coin() ? e : f).decrypt(k.sk, x.second);
            if (d != x.first) viol("roundtrip", hex(x.first) + " -> " + hex(d) + " among related messages");
            evald(hp(x.second.mv)); seen("message"); seen("related");
        }
        (void)mode;
    });
    section("long-search", runs20().size(), runs20().size(), [](uint64_t i, Rng& r) {
        rmode(2, r.next());
        elgamal::ElGamal e; auto k = e.keyGen();
        for (int q = 0; q <= 20; q++) {                      // shifted: a search that starts at the same abscissa if fewer bits are reserved
            mpz_class z = mpz_class(runs20()[i], 16) << q;
            if (z > topMsg()) break;
            mpz_class d = e.decrypt(k.sk, e.encrypt(k.pk, z));
            if (d != z) viol("roundtrip", hex(z) + " -> " + hex(d));
            evald(hz(z)); seen("message"); seen("message:long-search");
        }
    });
    section("sequential", 120, 6000, [](uint64_t i, Rng& r) {          // neighbouring integers never collide or drift
        rmode(2, r.next());
        elgamal::ElGamal e; auto k = e.keyGen();
        mpz_class base = r.coin(1, 4) ? mpz_class(topMsg() - 12) : aMsg(r); if (base > topMsg() - 12) base = topMsg() - 12;
        for (int q = 0; q < 12; q++) {
            auto c = e.encrypt(k.pk, mpz_class(base + q));
            mpz_class d = e.decrypt(k.sk, c);
            if (d != base + q) viol("roundtrip", hex(base + q) + " -> " + hex(d));
            evald(hp(c.mv)); seen("message");
        }
    });
    return run(argc, argv);
}
