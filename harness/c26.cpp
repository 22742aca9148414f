// C26: what the other party sees of a receiver's choice and of a client's input.
#include "opprflib.hpp"
#include <unordered_map>
using namespace mon;
using namespace dme;

// A CRS of which the monitor knows all logarithms: every key can be taken back to the group element sk*G.
struct Known {
    CURVE curve; crs_ddh_t crs; mpz_class n, a[2], c[2], ia[2]; bool dec; const char* how;
    Known(Rng& r, bool dec_) : n(ref::to(Secp::G().n)), dec(dec_), how(dec_ ? "dec" : "points") {
        mpz_class e = 1 + r.range(n - 1);
        for (int b = 0; b < 2; b++) {
            a[b] = 1 + r.range(n - 1);
            c[b] = dec ? mpz_class(a[b] * e % n) : mpz_class(1 + r.range(n - 1));
            mpz_invert(ia[b].get_mpz_t(), a[b].get_mpz_t(), n.get_mpz_t());
        }
        auto P = [&](const mpz_class& k) { return toLib<Secp>(ref::Pt::gen(Secp::G(), ref::from(k)), &curve); };
        crs = crs_ddh_t(P(a[0]), P(a[1]), P(c[0]), P(c[1]));
    }
    // sk*G, after checking that the key is one for this choice (and, over a decryption-mode CRS, just as well for the other)
    ref::Pt base(const pkey_t& pk, int b, const std::string& d) const {
        ref::Pt g = R(pk.g), h = R(pk.h), t = g * ref::from(ia[b]);
        if (g.inf() || h.inf()) viol("key-infinite", d);
        if (!(t * ref::from(c[b]) == h)) viol("key-shape", d + ": g=" + pstr(pk.g) + " h=" + pstr(pk.h) + " is no key for choice " + std::to_string(b));
        if (dec && !(g * ref::from(mpz_class(c[1 - b] * ia[1 - b] % n)) == h)) viol("key-tells-choice", d + ": the key is possible for one choice only");
        return t;
    }
};
// Keys taken back to a common base: none may be a small multiple of another one, or of anything public, nor may steps between keys recur.
struct Links {
    std::unordered_map<std::string, std::string> at, steps;
    std::vector<ref::Pt> last;
    static std::string xs(const ref::Pt& p) { return p.inf() ? "inf" : ref::hex(p.x()); }
    void pub(const ref::Pt& p, const std::string& what) { ref::Pt q = p; for (int k = 1; k <= 8; k++) { at.emplace(xs(q), what); q = q + p; } }
    void add(const ref::Pt& p, const std::string& what) {
        ref::Pt q = p; std::vector<std::string> m;
        for (int k = 1; k <= 8; k++) {
            m.push_back(xs(q));
            auto it = at.find(m.back());
            if (it != at.end()) { viol("linked", what + ": " + std::to_string(k) + " times its secret is, up to sign, a small multiple of that of " + it->second); break; }
            q = q + p;
        }
        for (auto& s : m) at.emplace(s, what);
        for (size_t j = 0; j < last.size(); j++) for (int sg = 0; sg < 2; sg++) {
            std::string s = xs(sg ? p + last[j] : p - last[j]);
            auto it = steps.find(s);
            if (it != steps.end()) { viol("linked-steps", what + ": the step from " + std::to_string(last.size() - j) + " before occurred: " + it->second); break; }
            if (at.count(s)) { viol("linked-steps", what + ": the step from " + std::to_string(last.size() - j) + " before is " + at[s]); break; }
            steps.emplace(s, what);
        }
        last.push_back(p);
        if (last.size() > 6) last.erase(last.begin());
        seen("link-tested");
    }
};
static int jac(const mpz_class& v) { static mpz_class p = ref::to(Secp::G().p); return mpz_jacobi(mpz_class(v % p).get_mpz_t(), p.get_mpz_t()) == 1; }
// Everything simple that can be computed from a key, the CRS and the key before
typedef std::vector<std::pair<std::string, int>> Features;
static Features features(const pkey_t& pk, const crs_ddh_t& crs, const pkey_t* prev) {
    Features f;
    static const char* nm[] = {"g.x", "g.y", "h.x", "h.y"};
    auto co = [](const pkey_t& k) { return std::vector<mpz_class>{k.g.getX().getRawValue(), k.g.getY().getRawValue(), k.h.getX().getRawValue(), k.h.getY().getRawValue()}; };
    std::vector<mpz_class> c = co(pk), q = prev ? co(*prev) : c;
    auto bit = [](const mpz_class& v, int b) { return (int)mpz_tstbit(v.get_mpz_t(), b); };
    for (int i = 0; i < 4; i++) {
        for (int b : {0, 1, 2, 3, 7, 8, 15, 31, 63, 127, 128, 192, 253, 254, 255}) f.push_back({std::string("bit ") + std::to_string(b) + " of " + nm[i], bit(c[i], b)});
        for (int m : {3, 5, 7}) f.push_back({std::string(nm[i]) + " modulo " + std::to_string(m), (int)mpz_fdiv_ui(c[i].get_mpz_t(), m)});
        f.push_back({std::string(nm[i]) + " is a square", jac(c[i])});
        f.push_back({std::string("parity of the ones of ") + nm[i], (int)(mpz_popcount(c[i].get_mpz_t()) & 1)});
        if (prev) {
            f.push_back({std::string("parity of ") + nm[i] + " and that before", bit(c[i], 0) ^ bit(q[i], 0)});
            f.push_back({std::string(nm[i]) + " is above that before", c[i] > q[i]});
            f.push_back({std::string("square of ") + nm[i] + " and that before", jac(c[i]) ^ jac(q[i])});
        }
    }
    for (int s = 3; s < 16; s++) if (s & (s - 1)) {
        int x = 0, y = 0; std::string w;
        for (int i = 0; i < 4; i++) if (s >> i & 1) { x ^= bit(c[i], 0); y ^= jac(c[i]); w += std::string(" ") + nm[i]; }
        f.push_back({"parities of" + w, x}); f.push_back({"squares of" + w, y});
    }
    f.push_back({"g.x above h.x", c[0] > c[2]}); f.push_back({"g.y above h.y", c[1] > c[3]}); f.push_back({"g.x above g.y", c[0] > c[1]}); f.push_back({"h.x above h.y", c[2] > c[3]});
    const POINT* P[] = {&crs.g0, &crs.g1, &crs.h0, &crs.h1};
    for (int i = 0; i < 4; i++) {                                        // relative to the CRS
        mpz_class x = P[i]->getX().getRawValue(), y = P[i]->getY().getRawValue();
        f.push_back({std::string("parity of g.y and of CRS element ") + std::to_string(i), bit(c[1], 0) ^ bit(y, 0)});
        f.push_back({std::string("parity of g.x and of CRS element ") + std::to_string(i), bit(c[0], 0) ^ bit(x, 0)});
        f.push_back({std::string("square of g.x minus CRS element ") + std::to_string(i), jac(c[0] - x + ref::to(Secp::G().p))});
    }
    return f;
}
// counted over all processes; plan.py looks for dependence
static void look(const std::string& who, const pkey_t& pk, const crs_ddh_t& crs, const pkey_t* prev, int b, int before) {
    for (auto& f : features(pk, crs, prev)) {
        seen("joint:" + who + ", " + f.first + ":" + std::to_string(f.second) + ":" + std::to_string(b));
        if (prev && f.first.find("before") != std::string::npos) seen("joint:" + who + ", " + f.first + " and a change:" + std::to_string(f.second) + ":" + std::to_string(b ^ before));
    }
    seen("features");
}
static crs_ddh_t made(uint64_t i) { return i % 3 == 0 ? DME_DDH(messy).crs : i % 3 == 1 ? DME_DDH(dec).crs : DME_DDH().crs; }

// keys of several receivers over CRSs with known logarithms
static void keys(uint64_t i, Rng& r) {
    int mode = i % 4 == 0 ? 0 : 2;
    if (mode == 0) rh::set(i % 8 ? rh::PASS : rh::SEEDED, r.next()); else rh::set(rh::SMALL, r.next(), 72);
    Known k(r, i & 1);
    Links l;
    l.pub(ref::Pt::gen(Secp::G(), ref::Bn(1L)), "the generator");
    const POINT* pubs[] = {&k.crs.g0, &k.crs.g1, &k.crs.h0, &k.crs.h1};
    if (mode == 0) for (auto* p : pubs) { ref::Pt q = R(*p); l.pub(q, "a CRS element"); for (int b = 0; b < 2; b++) l.pub(q * ref::from(k.ia[b]), "a CRS element"); }
    std::vector<ot::OTrecv> V;
    for (size_t j = 0; j < 3; j++) V.emplace_back(k.crs);
    V.push_back(V[0]);
    ot::OTsndr s(k.crs);
    pkey_t prev; int before = 0; bool have = false;
    int pattern = r.below(4), len = mode == 0 ? 12 : 36;
    for (int t = 0; t < len; t++) {
        int b = pattern == 0 ? t & 1 : pattern == 1 ? t / 5 & 1 : r.coin();
        size_t who = pattern == 3 ? 0 : r.below(V.size());
        if (r.coin(1, 8)) l.add(k.base(V[who].selectMsg((branch_t)b), b, "an abandoned key"), "an abandoned key before transfer " + std::to_string(t));
        pkey_t pk = V[who].selectMsg((branch_t)b);
        std::string d = std::string(k.how) + " receiver " + std::to_string(who) + " transfer " + std::to_string(t) + " choice " + std::to_string(b);
        step(d);
        l.add(k.base(pk, b, d), d);
        look("keys", pk, k.crs, have ? &prev : nullptr, b, before);
        prev = pk; before = b; have = true;
        if (t % 6 == 5) {                                                // an answer in between
            POINT m[2] = {freshPoint(r), freshPoint(r)};
            if (!eqp(V[who].decryptMsg(s.encMsgs(pk, m[0], m[1])), m[b])) viol("chosen", d);
        }
        if (r.coin(1, 20)) V[r.below(V.size())] = V[r.below(V.size())];
        evald(hp(pk.g)); seen("key"); seen(std::string("key:") + k.how);
    }
    sample("keys", std::string(k.how) + " " + std::to_string(len) + " keys");
}
// the same over CRSs the library makes
static void library(uint64_t i, Rng& r) {
    rh::set(rh::SMALL, r.next(), 72);
    crs_ddh_t crs = made(i);
    ot::OTrecv v(crs); pkey_t prev; int before = 0;
    for (int t = 0; t < 40; t++) {
        int b = r.coin(); pkey_t pk = v.selectMsg((branch_t)b);
        look("made", pk, crs, t ? &prev : nullptr, b, before);
        prev = pk; before = b; evald(hp(pk.g)); seen("key:made");
    }
}
// the keys of a client, for inputs that repeat, differ in one bit, or are random; with or without the server's answers
static void client(uint64_t i, Rng& r) {
    bool full = i % 4 == 0, fullRange = i % 16 == 8;
    if (fullRange) rh::set(rh::SEEDED, r.next()); else rh::set(rh::SMALL, r.next(), full ? 40 : 72);
    Known k(r, i / 2 & 1);
    Links l;
    l.pub(ref::Pt::gen(Secp::G(), ref::Bn(1L)), "the generator");
    std::vector<opprf::OPPRFclient> C; C.emplace_back(k.crs); C.emplace_back(k.crs); C.push_back(C[0]);
    uint16_t th = (uint16_t)r.next(), x = (uint16_t)r.next();
    opprf::OPPRFserver s(th, k.crs);
    POINT A = freshPoint(r);
    int sessions = full ? 2 : 5;
    pkey_t prev; int before = 0; bool have = false;
    for (int q = 0; q < sessions; q++) {
        switch (r.below(5)) { case 0: break; case 1: x ^= 1u << r.below(16); break; case 2: x = r.coin() ? th : (uint16_t)(th + 1); break; case 3: x = r.coin() ? 0 : 0xffff; break; default: x = (uint16_t)r.next(); }
        size_t who = r.below(C.size());
        opprf::OPPRFclient& c = C[who];
        c.setMessage(x);
        if (full) { POINT a = A; s.setSecret(a); s.prepareKeysAndInputs(); }
        for (short b = MSG_BITS; b > 0; b--) {
            int bit = x >> (b - 1) & 1;
            for (int again = r.coin(1, 6) ? 1 + r.below(2) : 0; again; again--) { l.add(k.base(c.runOTRound_start(b), bit, "an abandoned key"), "an abandoned key, session " + std::to_string(q) + " round " + std::to_string(b)); seen("client-key:again"); }
            pkey_t pk = c.runOTRound_start(b);
            std::string d = std::string(k.how) + " client " + std::to_string(who) + " session " + std::to_string(q) + " x=" + std::to_string(x) + " round " + std::to_string(b);
            step(d);
            l.add(k.base(pk, bit, d), d);
            look("client", pk, k.crs, have ? &prev : nullptr, bit, before);
            prev = pk; before = bit; have = true;
            if (full) c.runOTRound_end(b, s.runOTRound(b, pk));
            evald(hp(pk.g)); seen("client-key");
        }
        if (full) {
            c.unmaskResult(s.sendEncryptedMasks());
            bool eq = same<Secp>(c.getResult(), R(s.getKOPPRF()) + times(A, x));
            if (eq != (x <= th)) viol("result", "x=" + std::to_string(x) + " theta=" + std::to_string(th));
            s.clean(); seen("client:full");
        }
        c.clean();
    }
}
int main(int argc, char** argv) {
    section("keys", 160, 8000, keys);
    section("library", 60, 3000, library);
    section("client", 96, 5000, client);
    // draws of 1 to 8: secrets against choices, against the secrets before, and between parties
    section("joint", 8, 80, [](uint64_t i, Rng& r) {
        std::map<std::string, long> tab; ref::Pt g = ref::Pt::gen(Secp::G(), ref::Bn(1L)), q(Secp::G());
        for (long n = 0; n <= 300; n++) { tab[q.str()] = n; q = q + g; }
        Known k(r, i & 1);
        rh::set(rh::SMALL, r.next(), 3);
        std::vector<ot::OTrecv> V; V.emplace_back(k.crs); V.emplace_back(k.crs);
        opprf::OPPRFclient c(k.crs); Joint j;
        long last = -1; int lastb = 0;
        uint16_t x = (uint16_t)r.next();
        for (int t = 0; t < 1600; t++) {
            bool cl = i & 2; size_t who = i & 4 ? t & 1 : 0; short round = MSG_BITS - t % MSG_BITS;
            if (round == MSG_BITS) { if (r.coin()) x = (uint16_t)r.next(); c.clean(); c.setMessage(x); }
            int b = cl ? x >> (round - 1) & 1 : i & 1 ? r.coin() : t / 3 & 1;
            pkey_t pk = cl ? c.runOTRound_start(round) : V[who].selectMsg((branch_t)b);
            auto it = tab.find((R(pk.g) * ref::from(k.ia[b])).str());
            if (it == tab.end()) { seen("joint:unreadable"); return; }
            long sk = it->second;
            j.seq("the secrets of the keys", sk); j.seq("the secrets for choice " + std::to_string(b), sk);
            j.add("secret and choice", sk, b);
            if (last >= 0) { j.add("secret and the choice before", sk, lastb); j.add("secret and a change of the choice", sk, b ^ lastb); j.add("secret and the one before", sk, last); j.add("choice and the secret before", b, last); }
            if (cl) j.add("secret and round", sk, round);
            last = sk; lastb = b;
            evald(hz(mpz_class(sk), t)); seen("joint-key");
        }
        j.judgeSeq([&](const std::string& what, size_t lag, size_t n, size_t of) { viol("recurs:" + what, what + ": " + std::to_string(n) + " of " + std::to_string(of) + " are what came " + std::to_string(lag) + " before"); });
        j.judge([&](const std::string& what, size_t got, size_t of) { viol("dependent:" + what, what + ": " + std::to_string(got) + " of " + std::to_string(of) + " combinations occur"); });
        seen("joint-pairs", j.tested); seen("joint-sequences", j.testedSeq);
    });
    // all the keys of a run are drawn independently
    section("budget", 16, 800, [](uint64_t i, Rng& r) {
        rh::Budget bu;
        std::unique_ptr<Known> k(new Known(r, i & 1)); std::unique_ptr<opprf::OPPRFclient> c; std::unique_ptr<ot::OTrecv> v;
        uint16_t x = r.coin() ? (uint16_t)r.next() : i & 2 ? 0 : 0xffff; int n = i & 4 ? 16 : 6;
        auto bad = [&](const std::string& s) { viol("dependent", s + " of the keys of a run, x=" + std::to_string(x)); };
        if (i % 2) bu(r, n * 256, [&] { c.reset(new opprf::OPPRFclient(k->crs)); c->setMessage(x); }, [&] {
            rh::Outputs o; for (int q = 0; q < n; q++) { auto pk = c->runOTRound_start(MSG_BITS - q); o.emplace_back("", pstr(pk.g)); } return o; }, bad);
        else bu(r, n * 256, [&] { v.reset(new ot::OTrecv(k->crs)); }, [&] {
            rh::Outputs o; for (int q = 0; q < n; q++) { auto pk = v->selectMsg((branch_t)(x >> q & 1)); o.emplace_back("", pstr(pk.g)); } return o; }, bad);
        seen("budget", bu.measured); evald(r.next());
    });
    // the same client with the same random values, answered by different servers: the same keys
    section("answers", 24, 1200, [](uint64_t i, Rng& r) {
        Known k(r, i & 1);
        uint64_t sd = r.next(); uint16_t x = (uint16_t)r.next();
        std::vector<std::string> sent[3];
        uint16_t th[3] = {x, (uint16_t)(x ^ (1u << r.below(16))), (uint16_t)r.next()};
        for (int w = 0; w < 3; w++) {
            rh::set(rh::SMALL, r.next(), 40);
            opprf::OPPRFserver s(th[w], k.crs); POINT A = freshPoint(r); s.setSecret(A); s.prepareKeysAndInputs();
            rh::set(rh::SMALL, sd, 40);
            opprf::OPPRFclient c(k.crs); c.setMessage(x);
            for (short b = MSG_BITS; b > 0; b--) {
                rh::set(rh::SMALL, sd + b, 40);
                pkey_t pk = c.runOTRound_start(b);
                sent[w].push_back(pstr(pk.g) + pstr(pk.h));
                rh::set(rh::SMALL, r.next(), 40);
                auto a = s.runOTRound(b, pk);
                rh::set(rh::SMALL, sd + 100 + b, 40);
                c.runOTRound_end(b, a);
                evald(hstr(sent[w].back(), w));
            }
            seen("answered");
        }
        for (int w = 1; w < 3; w++) for (size_t q = 0; q < sent[0].size(); q++) if (sent[w][q] != sent[0][q])
            viol("answers", "x=" + std::to_string(x) + " key " + std::to_string(q) + " depends on whether theta is " + std::to_string(th[0]) + " or " + std::to_string(th[w]));
    });
    return run(argc, argv);
}
