// C17: complete OPPRF runs.
#include "opprflib.hpp"
using namespace mon;
struct Party { opprf::OPPRFserver s; opprf::OPPRFclient c; Party(uint16_t th, const dme::crs_ddh_t& crs) : s(th, crs), c(crs) {} };

// one honest run; the client's result and the server's point
static void play(Party& p, uint16_t theta, uint16_t x, dme::POINT A, const std::string& ctx) {
    std::string d = "theta=" + std::to_string(theta) + " x=" + std::to_string(x) + " A=" + pstr(A) + " " + ctx;
    step("run " + d);
    dme::POINT a = A;
    p.s.setSecret(a);
    p.s.prepareKeysAndInputs();
    p.c.setMessage(x);
    for (short r = MSG_BITS; r > 0; r--) {
        dme::pkey_t pk = p.c.runOTRound_start(r);
        p.c.runOTRound_end(r, p.s.runOTRound(r, pk));
    }
    p.c.unmaskResult(p.s.sendEncryptedMasks());
    dme::POINT res = p.c.getResult(), K = p.s.getKOPPRF();
    ref::Pt want = R(K) + times(A, x);
    bool eq = same<Secp>(res, want);
    if (x <= theta && !eq) viol(x == theta ? "equal-wrong" : "below-wrong", d + ": result " + pstr(res) + ", expected " + want.str());
    if (x > theta && eq) viol("above-opens", d + ": result is K + xA");
    if (!eqp(a, A)) viol("secret-changed", d);
    if (K.isInf()) viol("K-infinite", d);
    evald(hp(res)); seen(x < theta ? "below" : x == theta ? "equal" : "above");
    if (x != theta) seen("bit:" + std::to_string(topBit(x ^ theta)) + (x < theta ? "<" : ">"));
    sample("run", d + " -> " + pstr(res));
}
static void fresh(uint16_t theta, uint16_t x, Rng& r, int how) {
    Crs crs; makeCrs(crs, r, how);
    dme::POINT A = aSecret(r, &crs.curve);
    Party p(theta, crs.crs);
    seen(std::string("crs:") + crs.how);
    play(p, theta, x, A, crs.how);
}
int main(int argc, char** argv) {
    section("positions", 96, 6400, [](uint64_t i, Rng& r) {            // the first differing bit at every position, both ways
        rh::set(rh::SMALL, r.next(), 48);
        unsigned b = i % 16, up = i / 16 % 2, v = i / 32 % 3;
        unsigned hi = (unsigned)(r.next() & 0xffff) & ~((2u << b) - 1), lo = (1u << b) - 1;
        // the lower bits argue for the opposite verdict, agree, or are random
        unsigned l1 = v == 0 ? lo : v == 1 ? 0 : (unsigned)r.next() & lo, l0 = v == 0 ? 0 : v == 1 ? lo : (unsigned)r.next() & lo;
        unsigned zero = hi | l1, one = hi | 1u << b | l0;                // zero < one
        if (up) fresh((uint16_t)zero, (uint16_t)one, r, i / 96 + i); else fresh((uint16_t)one, (uint16_t)zero, r, i / 96 + i);
    });
    section("boundary", 64, 1664, [](uint64_t i, Rng& r) {
        static const uint16_t V[] = {0, 1, 0x7fff, 0x8000, 0xfffe, 0xffff, 0x5555, 255};
        rh::set(rh::SMALL, r.next(), 48);
        fresh(V[i % 8], V[i / 8 % 8], r, i);
    });
    section("near", 72, 6000, [](uint64_t i, Rng& r) {
        rh::set(rh::SMALL, r.next(), 48);
        uint16_t t = (uint16_t)r.next(), x = i % 3 == 0 ? t : i % 3 == 1 ? t + 1 : t - 1;
        fresh(t, x, r, i / 3);
    });
    section("random", 56, 8000, [](uint64_t i, Rng& r) { rh::set(rh::SMALL, r.next(), 48); fresh((uint16_t)r.next(), (uint16_t)r.next(), r, i); });
    section("full-range", 24, 800, [](uint64_t i, Rng& r) {
        rh::set(i % 2 ? rh::SEEDED : rh::PASS, r.next());
        uint16_t t = (uint16_t)r.next(), x = i % 3 == 0 ? t : i % 3 == 1 ? t + r.below(300) : t - r.below(300);
        fresh(t, x, r, i); seen("full-range");
    });
    section("sequences", 16, 2400, [](uint64_t i, Rng& r) {             // the same objects serve one input after another
        rh::set(rh::SMALL, r.next(), 40);
        uint16_t t = (uint16_t)r.next();
        Crs crs; makeCrs(crs, r, i);
        Party p(t, crs.crs);
        dme::POINT A = aSecret(r, &crs.curve);
        for (int q = 0; q < 4; q++) {
            uint16_t x = r.coin(1, 3) ? t : r.coin() ? (uint16_t)(t - 2 + r.below(5)) : (uint16_t)r.next();
            if (q && r.coin()) A = aSecret(r, &crs.curve);
            play(p, t, x, A, "run " + std::to_string(q) + " of the same objects");
            p.s.clean(); p.c.clean();
            if (!p.c.getResult().isInf()) viol("clean-keeps-result", "");
            if (r.coin(1, 6)) { p.s.clean(); p.c.clean(); }             // cleaning twice is as good as once
            seen("sequence");
        }
    });
    section("long", 1, 6, [](uint64_t i, Rng& r) {                      // a long life of one pair of objects
        rh::set(rh::SMALL, r.next(), 40);
        Crs crs; makeCrs(crs, r, i + opt.seed);
        uint16_t t = 0x4000 + r.below(0x8000);
        Party p(t, crs.crs);
        dme::POINT A = aSecret(r, &crs.curve);
        for (int q = 0; q < 140; q++) {
            uint16_t x = q % 3 == 0 ? t : q % 3 == 1 ? (uint16_t)(t - 1 - r.below(600)) : (uint16_t)(t + 1 + r.below(600));
            play(p, t, x, A, "run " + std::to_string(q) + " of the same objects");
            p.s.clean(); p.c.clean();
            seen("long");
        }
    });
    // answers asked for again, by the client whose answer was lost or by another client: all belong to one session
    section("again", 16, 2400, [](uint64_t i, Rng& r) {
        rh::set(rh::SMALL, r.next(), 40);
        Crs crs; makeCrs(crs, r, i);
        static const uint16_t T[] = {0xffff, 0x7fff, 0, 1, 0x8000};
        uint16_t t = r.coin(1, 3) ? T[r.below(5)] : (uint16_t)r.next();
        opprf::OPPRFserver s(t, crs.crs); dme::POINT A = aSecret(r, &crs.curve), a = A;
        s.setSecret(a); s.prepareKeysAndInputs();
        struct Cl { std::unique_ptr<opprf::OPPRFclient> c; uint16_t x; short round = MSG_BITS; bool done = false; };
        std::vector<Cl> v(2);
        for (auto& c : v) { c.x = r.coin(1, 3) ? t : r.coin() ? (uint16_t)(t + 1) : (uint16_t)r.below(t + 1u); c.c.reset(new opprf::OPPRFclient(crs.crs)); c.c->setMessage(c.x); }
        bool inTurn = r.coin();                                         // one client after the other, or any order
        for (int left = 2; left;) {
            Cl& c = v[inTurn ? 2 - left : r.below(2)];
            if (c.done) continue;
            std::string d = "theta=" + std::to_string(t) + " x=" + std::to_string(c.x) + " answers asked for again";
            step(d + " round " + std::to_string(c.round));
            if (c.round == 0) {
                if (r.coin()) s.sendEncryptedMasks();
                c.c->unmaskResult(s.sendEncryptedMasks());
                bool eq = same<Secp>(c.c->getResult(), R(s.getKOPPRF()) + times(A, c.x));
                if (eq != (c.x <= t)) viol("again", d);
                evald(hp(c.c->getResult())); seen("again"); c.done = true; left--;
                continue;
            }
            dme::pkey_t pk = c.c->runOTRound_start(c.round);
            if (r.coin(1, 4)) s.runOTRound(c.round, pk);                // lost
            if (r.coin(1, 6)) pk = c.c->runOTRound_start(c.round);      // and asked for with a new key
            c.c->runOTRound_end(c.round, s.runOTRound(c.round, pk));
            c.round--;
        }
    });
    // runs that are given up, or refused by the client because the answers are garbage, do not disturb the next ones
    section("aborted", 16, 2400, [](uint64_t i, Rng& r) {
        rh::set(rh::SMALL, r.next(), 40);
        Crs crs; makeCrs(crs, r, i);
        uint16_t t = (uint16_t)r.next();
        Party p(t, crs.crs), other((uint16_t)r.next(), crs.crs);
        dme::POINT A = aSecret(r, &crs.curve), B = aSecret(r, &crs.curve);
        for (int q = 0; q < 3; q++) {
            dme::POINT a = A, b = B;
            p.s.setSecret(a); p.s.prepareKeysAndInputs(); other.s.setSecret(b); other.s.prepareKeysAndInputs();
            p.c.setMessage((uint16_t)r.next());
            int how = r.below(5); short at = 1 + r.below(MSG_BITS - 1);
            std::string d = "theta=" + std::to_string(t) + " aborted in way " + std::to_string(how) + " at round " + std::to_string(at);
            step(d);
            bool refused = false;
            try {
                for (short k = MSG_BITS; k > 0; k--) {
                    if (how == 0 && k == at) break;                                             // given up before a key is sent
                    dme::pkey_t pk = p.c.runOTRound_start(k);
                    if (how == 1 && k == at) break;                                             // or after
                    opprf::ot_ctxts_t c = (how == 2 && k == at ? other : p).s.runOTRound(k, pk);     // the answer of another server
                    if (how == 3 && k == at) break;                                             // answered, but the answer is lost
                    p.c.runOTRound_end(k, c);
                }
                if (how == 4) { opprf::symctxt_t m; for (auto& x : m) x = r.bits(300); p.c.unmaskResult(m); }
                if (how == 2) p.c.unmaskResult(other.s.sendEncryptedMasks());
            } catch (const std::exception&) { refused = true; }
            if ((how == 2 || how == 4) && !refused) viol("not-refused", d);
            p.s.clean(); p.c.clean(); other.s.clean();
            if (!p.c.getResult().isInf()) viol("clean-keeps-result", d);
            seen(refused ? "aborted:refused" : "aborted:given-up");
            uint16_t x = r.coin(1, 3) ? t : r.coin() ? (uint16_t)(t - 2 + r.below(5)) : (uint16_t)r.next();
            play(p, t, x, A, "after a run " + d);
            p.s.clean(); p.c.clean();
        }
    });
    section("interleaved", 8, 1200, [](uint64_t i, Rng& r) {           // several pairs over one CRS, rounds in any order
        rh::set(rh::SMALL, r.next(), 40);
        Crs crs; makeCrs(crs, r, i);
        struct S { std::unique_ptr<Party> p; uint16_t t, x; dme::POINT A; short round = MSG_BITS; bool done = false; };
        std::vector<S> v(3);
        for (auto& s : v) {
            s.t = (uint16_t)r.next(); s.x = r.coin(1, 3) ? s.t : r.coin() ? (uint16_t)(s.t + 1) : (uint16_t)r.below(s.t + 1u);
            s.A = aSecret(r, &crs.curve);
            s.p.reset(new Party(s.t, crs.crs));
            dme::POINT a = s.A; s.p->s.setSecret(a); s.p->s.prepareKeysAndInputs(); s.p->c.setMessage(s.x);
        }
        for (int left = 3; left;) {
            S& s = v[r.below(3)];
            if (s.done) continue;
            if (s.round == 0) {
                s.p->c.unmaskResult(s.p->s.sendEncryptedMasks());
                bool eq = same<Secp>(s.p->c.getResult(), R(s.p->s.getKOPPRF()) + times(s.A, s.x));
                if (eq != (s.x <= s.t)) viol("interleaved", "theta=" + std::to_string(s.t) + " x=" + std::to_string(s.x));
                evald(hp(s.p->c.getResult())); seen("interleaved"); s.done = true; left--;
                continue;
            }
            dme::pkey_t pk = s.p->c.runOTRound_start(s.round);
            s.p->c.runOTRound_end(s.round, s.p->s.runOTRound(s.round, pk));
            s.round--;
        }
    });
    return run(argc, argv);
}
