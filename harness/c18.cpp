// C18: what an OPPRF client that plays by the rules, but looks at everything it gets, learns.
#include "opprflib.hpp"
#include <sys/wait.h>
#include <unordered_map>
using namespace mon;
static const char* ST[] = {"lt", "eq", "gt"};

static std::unordered_map<uint64_t, std::string> windows;            // 64-bit windows of every key seen in this process
static void freshKey(const mpz_class& k, const std::string& what) {
    for (int w = 0; w < 128; w += 32) {
        mpz_class v = (k >> w) & ((mpz_class(1) << 64) - 1);
        if (w == 96) break;
        uint64_t u = mpz_class(v >> 32).get_ui() << 32 | mpz_class(v & mpz_class(0xffffffffUL)).get_ui();
        auto it = windows.find(mix(u) ^ w);
        if (it != windows.end()) { viol("key-recurs", what + " " + hex(k) + " shares 64 bits with " + it->second); return; }
        windows[mix(u) ^ w] = what + " " + hex(k);
    }
}
static std::unordered_map<std::string, std::string> points;
static void freshPointSeen(const dme::POINT& p, const std::string& what) {
    if (p.isInf()) { viol("infinite", what); return; }
    auto ins = points.emplace(hex(p.getX().getRawValue()), what);
    if (!ins.second) viol("element-recurs", what + " " + pstr(p) + " is up to sign the element seen as " + ins.first->second);
}
// y in [0,65535] with p = y*A, by baby and giant steps in OpenSSL arithmetic; -1 if there is none
static long smallLog(const ref::Pt& p, const ref::Pt& A) {
    if (A.inf()) return p.inf() ? 0 : -1;
    std::unordered_map<std::string, long> baby;
    ref::Pt b(*A.G);
    for (long i = 0; i < 256; i++) { baby[b.str()] = i; b = b + A; }
    ref::Pt step = -b, q = p;
    for (long j = 0; j < 256; j++) { auto it = baby.find(q.str()); if (it != baby.end()) return j * 256 + it->second; q = q + step; }
    return -1;
}
struct View {                     // everything the client obtains in a session
    std::vector<int> slots;
    std::vector<dme::POINT> shares, blinds;
    dme::POINT mask, K, result;
    mpz_class lastKey;
    int cmp = 0;
};
struct Party {
    opprf::OPPRFserver s; ot::OTrecv otr; aes::AES aes; uint16_t theta;
    std::vector<mpz_class> held;                                      // every key the client obtained so far
    Party(uint16_t th, const dme::crs_ddh_t& crs) : s(th, crs), otr(crs), theta(th) {}
};
static const char* bit01(bool b) { return b ? "1" : "0"; }
// keys of earlier rounds and sessions must not open anything
static void stale(Party& p, const mpz_class& ct, const std::string& d) {
    static int calls = 0;
    if (opt.thorough && ++calls % 8) return;                          // each test of a sound ciphertext is wrong once in 2^32
    for (auto& k : p.held) if (p.aes.decryptCRC(k, ct) != 0) viol("stale-key-opens", d + ": a key obtained earlier, " + hex(k) + ", opens another ciphertext");
    seen("stale-tested", p.held.size());
}
static View session(Party& p, uint16_t x, dme::POINT A, int extraMasks, const std::string& tag) {
    View v;
    std::string d = tag + " theta=" + std::to_string(p.theta) + " x=" + std::to_string(x);
    step(d);
    dme::POINT a = A;
    p.s.setSecret(a); p.s.prepareKeysAndInputs();
    mpz_class key;
    int st = 1;                                                       // eq
    for (short r = MSG_BITS; r > 0; r--) {
        bool bit = x >> (r - 1) & 1, tb = p.theta >> (r - 1) & 1;
        dme::pkey_t pk = p.otr.selectMsg((dme::branch_t)bit);
        opprf::ot_ctxts_t c = p.s.runOTRound(r, pk);
        int before = st;
        const mpz_class held = key;
        if (st == 1 && bit != tb) st = bit ? 2 : 0;
        if (r == MSG_BITS) { key = p.otr.decryptMsgDecode(c.ctxt[0]); freshKey(key, d + " first key"); }
        else {
            int open = -1, n = 0; mpz_class next;
            for (int i = 0; i < 3; i++) {
                mpz_class ct = p.otr.decryptMsgDecode(c.ctxt[i]), k = p.aes.decryptCRC(key, ct);
                if (k != 0) { n++; open = i; next = k; }
                stale(p, ct, d + " round " + std::to_string(r));
                freshKey(ct & ((mpz_class(1) << 128) - 1), d + " round " + std::to_string(r) + " encrypted key");
            }
            if (n != 1) { viol("openings", d + " round " + std::to_string(r) + " state " + ST[before] + ": " + std::to_string(n) + " of the three keys open"); return v; }
            p.held.push_back(key);
            if (!v.slots.empty()) seen(std::string("joint:slots of consecutive rounds, ") + ST[before] + " then " + ST[st] + ":" + std::to_string(v.slots.back()) + ":" + std::to_string(open));
            if (v.slots.size() > 1) seen(std::string("joint:slots two rounds apart, ") + ST[before] + ":" + std::to_string(v.slots[v.slots.size() - 2]) + ":" + std::to_string(open));
            seen(std::string("joint:slot and the threshold's bit, ") + ST[before] + ":" + std::to_string(open) + ":" + bit01(tb));
            seen(std::string("joint:slot and the input's bit, ") + ST[before] + ":" + std::to_string(open) + ":" + bit01(bit));
            for (int m : {2, 3, 4, 6}) {
                auto mod = [&](const mpz_class& z) { return std::to_string(mpz_fdiv_ui(z.get_mpz_t(), m)) + ":" + std::to_string(open); };
                std::string how = " modulo " + std::to_string(m) + " and slot, " + ST[before] + ":";
                seen("joint:held key" + how + mod(held)); seen("joint:key behind the slot" + how + mod(next)); seen("joint:encrypted key" + how + mod(p.otr.decryptMsgDecode(c.ctxt[open])));
                seen("joint:first half of the held key" + how + mod(held >> 64)); seen("joint:top of the held key" + how + mod(held >> 120));
                seen("joint:abscissa of u" + how + mod(c.ctxt[open][bit].u.getX().getRawValue())); seen("joint:abscissa of the public key" + how + mod(pk.g.getX().getRawValue()));
            }
            seen(std::string("joint:round and slot, ") + ST[before] + ":" + std::to_string(r) + ":" + std::to_string(open));
            if (r < MSG_BITS - 1) seen(std::string("joint:step from the last slot, ") + ST[before] + ":" + std::to_string((open - v.slots.back() + 3) % 3) + ":" + std::to_string(v.slots.back()));
            v.slots.push_back(open);
            key = next;
            freshKey(key, d + " round " + std::to_string(r) + " key");
            seen("slot:" + std::to_string(r) + ":" + ST[before] + ":" + std::to_string(open));
            evald(hz(key));
        }
        dme::POINT sh = p.otr.decryptMsg(c.cprf);
        v.shares.push_back(sh);
        ref::Pt bl = bit ? R(sh) - times(A, 1) * (ref::Bn(1L << (r - 1))) : R(sh);
        v.blinds.push_back(toLib<Secp>(bl, 0));
        freshPointSeen(v.blinds.back(), d + " blinding element of round " + std::to_string(r));
        seen("round");
    }
    v.cmp = st; v.lastKey = key;
    std::string m0;
    for (int q = 0; q <= extraMasks; q++) {
        opprf::symctxt_t m = p.s.sendEncryptedMasks();
        int n = 0, open = -1; mpz_class val;
        for (int i = 0; i < 3; i++) { mpz_class t = p.aes.decryptCRC(key, m[i]); if (t != 0) { n++; open = i; val = t; } }
        if (q == 0) for (int i = 0; i < 3; i++) stale(p, m[i], d + " masks");
        if (n != 1) { viol("mask-openings", d + " state " + ST[st] + ": " + std::to_string(n) + " of the three masks open"); return v; }
        seen(std::string("slot:mask:") + ST[st] + ":" + std::to_string(open));
        if (q == 0) seen(std::string("joint:slots of the last round and the mask, ") + ST[st] + ":" + std::to_string(v.slots.back()) + ":" + std::to_string(open));
        if (q == 0) { v.mask = p.s.getKOPPRF(); v.mask.setEncodedX(val); v.slots.push_back(open); }
        else if (st == 2) { dme::POINT e = p.s.getKOPPRF(); e.setEncodedX(val); freshPointSeen(e, d + " mask opened above the threshold"); }
    }
    p.held.push_back(key);
    if (p.held.size() > 40) p.held.erase(p.held.begin(), p.held.end() - 40);
    v.K = p.s.getKOPPRF();
    freshPointSeen(v.mask, d + " mask");
    freshPointSeen(v.K, d + " K");
    // sums
    ref::Pt K = R(v.K), want = K + times(A, x), sum(Secp::G()), bsum(Secp::G()), suf(Secp::G());
    for (size_t i = 0; i < v.shares.size(); i++) { sum = sum + R(v.shares[i]); bsum = bsum + R(v.blinds[i]); }
    ref::Pt total = sum + R(v.mask);
    v.result = toLib<Secp>(total, 0);
    if (st != 2) {
        if (!(total == want)) viol("masks-do-not-cancel", d + ": shares and mask add up to " + total.str() + ", K + xA is " + want.str());
    } else {
        if (total == want) viol("above-opens", d);
        long y = smallLog(total - K, R(A));
        if (!A.isInf() && y >= 0) viol("above-related", d + ": result is K + " + std::to_string(y) + "A");
        if (smallLog(total - K, ref::Pt::gen(Secp::G(), ref::Bn(1L))) >= 0) viol("above-related", d + ": result minus K is a small multiple of the generator");
        freshPointSeen(v.result, d + " result above the threshold");
        seen("above-result");
    }
    // nothing less than everything equals the programmed value, nor reveals K or xA
    auto leak = [&](const ref::Pt& q, const std::string& what) {
        evald(hstr(what, hp(v.mask)));
        if (q == want) viol("incomplete-sum", d + ": " + what + " is K + xA");
        else if (q == K) viol("incomplete-sum", d + ": " + what + " is K");
        else if (!A.isInf() && q == times(A, x) && !q.inf()) viol("incomplete-sum", d + ": " + what + " is xA");
    };
    leak(R(v.mask), "the mask"); leak(sum, "the sum of the shares");
    ref::Pt pre(Secp::G());
    for (size_t i = 0; i < v.shares.size(); i++) {
        ref::Pt s = R(v.shares[i]);
        leak(s, "one share"); leak(s + R(v.mask), "one share and the mask"); leak(total - s, "everything but one share");
        pre = pre + s;
        if (i + 1 < v.shares.size()) { leak(pre, "the first shares"); leak(sum - pre, "the last shares"); }
    }
    seen(std::string("session:") + ST[st]); seen("sums");
    sample(std::string("session ") + ST[st], d + " slots " + [&] { std::string s; for (int q : v.slots) s += (char)('0' + q); return s; }() + " result " + pstr(v.result));
    return v;
}
static uint16_t pickX(Rng& r, uint16_t t, int state) {
    if (state == 1 || (state == 0 && t == 0) || (state == 2 && t == 0xffff)) return t;
    if (state == 0) return r.coin() ? t - 1 - r.below(std::min<unsigned>(t, 40)) : (uint16_t)r.below(t);
    unsigned room = 0xffffu - t;
    return (uint16_t)(t + 1 + r.below(r.coin() ? room : std::min(room, 40u)));
}
static std::string dump() {       // three sessions of one pair, with the library's own randomness
    rh::set(rh::PASS, 0);
    dme::DME_DDH scheme(dme::messy);
    Party p(0x1234, scheme.crs);
    std::string s;
    for (int q = 0; q < 3; q++) {
        View v = session(p, 0x1234 - q, scheme.getCurve()->getDefaultGen(), 0, "process");
        for (int k : v.slots) s += (char)('0' + k);
        p.s.clean();
    }
    return s;
}
int main(int argc, char** argv) {
    if (argc > 1 && !strcmp(argv[1], "--dump")) { puts(dump().c_str()); return violations ? 1 : 0; }
    rh::shortKeys(false);
    static std::map<std::string, std::string> orders;                 // slots of two consecutive sessions
    section("sessions", 96, 9600, [](uint64_t i, Rng& r) {
        rh::set(i % 8 == 7 ? rh::PASS : rh::SMALL, r.next(), 62);
        Crs crs; makeCrs(crs, r, i);
        uint16_t t = i % 11 == 0 ? 0xffff : i % 13 == 0 ? 0 : (uint16_t)r.next();
        Party p(t, crs.crs);
        dme::POINT A = r.coin(1, 3) ? crs.curve.getDefaultGen() : aSecret(r, &crs.curve);
        std::string o;
        uint16_t x0 = pickX(r, t, i % 3);
        for (int q = 0; q < 2; q++) {                                 // the second time after cleaning, sometimes with the same input
            uint16_t x = q && r.coin() ? x0 : q ? pickX(r, t, r.below(3)) : x0;
            View v = session(p, x, A, 6, "session " + std::to_string(i) + "." + std::to_string(q));
            for (int k : v.slots) o += (char)('0' + k);
            p.s.clean();
        }
        if (o.size() == 32) { auto ins = orders.emplace(o, ""); if (!ins.second) viol("order-repeats", "slots " + o + " of two sessions occurred before"); seen("order"); }
    });
    // the slots of sessions in which a single comparison state lasts, so that every round is sampled in every state
    section("states", 192, 14400, [](uint64_t i, Rng& r) {
        rh::set(rh::SMALL, r.next(), 40);
        static dme::DME_DDH scheme(dme::messy);
        uint16_t t = i % 3 == 0 ? 0x8000 | r.below(0x8000) : i % 3 == 1 ? (uint16_t)r.next() : r.below(0x8000);
        Party p(t, scheme.crs);
        uint16_t x = i % 3 == 0 ? r.below(0x8000) : i % 3 == 1 ? t : 0x8000 | r.below(0x8000);
        session(p, x, scheme.getCurve()->getDefaultGen(), 3, "state " + std::to_string(i));
    });
    // every bit of the randomness matters to the keys, the blinding and the secret point of a session
    section("width", 16, 800, [](uint64_t i, Rng& r) {
        rh::Width w; unsigned bit = i % 2 ? rh::aBit(r) % 128 : rh::aBit(r);
        dme::DME_DDH scheme(i & 1 ? dme::messy : dme::dec); uint16_t theta = (uint16_t)r.next(), x = (uint16_t)r.next(); dme::POINT A = scheme.getCurve()->getDefaultGen();
        std::unique_ptr<opprf::OPPRFserver> s; ot::OTrecv rc(scheme.crs); bool again = r.coin();
        w(r, bit, [&] { s.reset(new opprf::OPPRFserver(theta, scheme.crs)); dme::POINT a = A; s->setSecret(a); if (again) { s->prepareKeysAndInputs(); s->clean(); s->setSecret(a); } }, [&] {
            s->prepareKeysAndInputs();
            rh::set(rh::SMALL, 5, 40);                                     // the transfers that show the values: no part of what is tested
            rh::Outputs o{{"K", pstr(s->getKOPPRF())}};
            short rd = MSG_BITS;
            dme::pkey_t pk = rc.selectMsg((dme::branch_t)(x >> (rd - 1) & 1));
            opprf::ot_ctxts_t c = s->runOTRound(rd, pk);
            o.emplace_back("first key@128", hex(rc.decryptMsgDecode(c.ctxt[0])));
            o.emplace_back("first blinding element", pstr(rc.decryptMsg(c.cprf)));
            return o;
        }, [](const std::string& what, unsigned b) { viol("narrow:" + what, what + " does not depend on bit " + std::to_string(b) + " of any random value"); }, 4);
        evald(r.next()); seen("width", w.tested); seen("width-runs", w.runs);
    });
    // the 48 keys, the blinding scalars and the secret point of a session are drawn independently
    section("budget", 2, 40, [](uint64_t i, Rng& r) {
        rh::Budget w; dme::DME_DDH scheme(i & 1 ? dme::messy : dme::dec); uint16_t theta = (uint16_t)r.next(); dme::POINT A = scheme.getCurve()->getDefaultGen();
        std::unique_ptr<opprf::OPPRFserver> s; ot::OTrecv rc(scheme.crs); bool again = i & 1;
        w(r, 48 * 128 + 17 * 256, [&] { s.reset(new opprf::OPPRFserver(theta, scheme.crs)); dme::POINT a = A; s->setSecret(a); if (again) { s->prepareKeysAndInputs(); s->clean(); s->setSecret(a); } }, [&] {
            s->prepareKeysAndInputs();
            rh::recordSizes(nullptr); rh::set(rh::SMALL, 5, 24);
            rh::Outputs o{{"", pstr(s->getKOPPRF())}};
            for (short rd = MSG_BITS; rd > 0; rd--) for (int b = 0; b < 2; b++) {
                opprf::ot_ctxts_t c = s->runOTRound(rd, rc.selectMsg((dme::branch_t)b));
                std::vector<std::string> k;
                for (int q = 0; q < (rd == MSG_BITS ? 1 : 3); q++) k.push_back(hex(rc.decryptMsgDecode(c.ctxt[q])));
                std::sort(k.begin(), k.end());                             // the slots are shuffled
                for (auto& x : k) o.emplace_back("", x);
                o.emplace_back("", pstr(rc.decryptMsg(c.cprf)));
            }
            return o;
        }, [](const std::string& what) { viol("dependent:session", what + " of keys, blinding and secret point"); });
        evald(r.next()); seen("budget", w.measured);
    });
    // Draws confined to 1..8: the blinding scalars can be read off the blinding elements, and must be new in every session.
    section("tiny", 8, 80, [](uint64_t i, Rng& r) {
        rh::set(rh::SMALL, r.next(), 62);
        Crs crs; makeCrs(crs, r, i);
        std::map<std::string, long> tab; ref::Pt q(Secp::G()), g = ref::Pt::gen(Secp::G(), ref::Bn(1L));
        for (long k = 0; k <= 64; k++) { tab[q.str()] = k; q = q + g; }
        Party p((uint16_t)r.next(), crs.crs);
        rh::set(rh::SMALL, r.next(), 3);
        const int N = 40;
        std::vector<long> last; long lastR = 0, lastK = 0; int n = 0, sameR = 0, sameK = 0, KisR = 0; std::vector<int> prop(MSG_BITS), eqAdj(MSG_BITS);
        dme::POINT A = crs.curve.getDefaultGen() * mpz_class(123456789);
        for (int s = 0; s < N; s++) {
            dme::POINT a = A; p.s.setSecret(a); p.s.prepareKeysAndInputs();
            step("tiny session " + std::to_string(s));
            std::vector<long> v;
            uint16_t x = (uint16_t)r.next();
            for (short rd = MSG_BITS; rd > 0; rd--) {
                bool bit = x >> (rd - 1) & 1;
                dme::pkey_t pk = p.otr.selectMsg((dme::branch_t)bit);
                opprf::ot_ctxts_t c = p.s.runOTRound(rd, pk);
                ref::Pt sh = R(p.otr.decryptMsg(c.cprf));
                if (bit) sh = sh - times(A, 1) * ref::Bn(1L << (rd - 1));
                auto it = tab.find(sh.str());
                if (it == tab.end() || !it->second) { seen("tiny:unreadable"); return; }     // blinds not built from two draws
                v.push_back(it->second);
            }
            auto kt = tab.find(R(p.s.getKOPPRF()).str());
            long K = kt == tab.end() ? -1 : kt->second, g2 = 0;
            for (long y : v) g2 = std::__gcd(g2, y);
            if (!last.empty()) {
                n++; sameR += g2 == lastR; sameK += K >= 0 && K == lastK; KisR += K == g2;
                for (int j = 0; j + 1 < MSG_BITS; j++) prop[j] += v[j] * last[j + 1] == v[j + 1] * last[j];
            }
            for (int j = 0; j + 1 < MSG_BITS; j++) eqAdj[j] += v[j] == v[j + 1];
            last = v; lastR = g2; lastK = K; evald(hz(mpz_class(g2 * 65 + K), v[0] * 65 + v[1] + s)); seen("tiny");
            p.s.clean();
        }
        std::string of = " of " + std::to_string(n) + " consecutive sessions";
        if (10 * sameR > 8 * n) viol("blinding-recurs", "the blinding base is the same in " + std::to_string(sameR) + of);
        if (10 * sameK > 8 * n) viol("blinding-recurs", "K is the same in " + std::to_string(sameK) + of);
        if (10 * KisR > 8 * n) viol("blinding-related", "K is the blinding base in " + std::to_string(KisR) + of);
        for (int j = 0; j + 1 < MSG_BITS; j++) {
            if (10 * prop[j] > 8 * n) viol("blinding-recurs", "blinding scalars of rounds " + std::to_string(MSG_BITS - j) + " and the next keep their ratio in " + std::to_string(prop[j]) + of);
            if (10 * eqAdj[j] > 8 * N) viol("blinding-related", "blinding elements of adjacent rounds are equal");
        }
    });
    // a long life of one server, its first round and K only: nothing recurs, neither in full-size values nor in draws of 1..8
    section("long", 2, 12, [](uint64_t i, Rng& r) {
        bool tiny = i % 2;
        rh::set(rh::SMALL, r.next(), 62);
        Crs crs; makeCrs(crs, r, i + opt.seed);
        Party p((uint16_t)r.next(), crs.crs);
        if (tiny) rh::set(rh::SMALL, r.next(), 3); else rh::set(rh::PASS, 0);
        std::map<std::string, long> tab; ref::Pt q(Secp::G()), g = ref::Pt::gen(Secp::G(), ref::Bn(1L));
        for (long k = 0; k <= 64; k++) { tab[q.str()] = k; q = q + g; }
        auto log = [&](const dme::POINT& P) { auto it = tab.find(R(P).str()); return it == tab.end() ? -1L : it->second; };
        Joint j; std::set<std::string> all; bool readable = true; std::string order;
        dme::POINT A = crs.curve.getDefaultGen() * mpz_class(123456789);
        for (int s = 0; s < (tiny ? 500 : 250); s++) {
            step("long session " + std::to_string(s));
            dme::POINT a = A; p.s.setSecret(a); p.s.prepareKeysAndInputs();
            dme::pkey_t pk = p.otr.selectMsg(dme::b0);
            opprf::ot_ctxts_t c = p.s.runOTRound(MSG_BITS, pk);
            dme::POINT K = p.s.getKOPPRF(), y = p.otr.decryptMsg(c.cprf);
            mpz_class key = p.otr.decryptMsgDecode(c.ctxt[0]);
            if (tiny) {
                long k = log(K), b = log(y);
                if (k < 0 || b < 0) readable = false;
                if (readable) { j.seq("K of sessions", k); j.seq("first blinding elements of sessions", b); }
            } else for (auto& v : {pstr(K), pstr(y), hex(key)}) if (!all.insert(v).second) viol("session-values-recur", "session " + std::to_string(s) + ": " + v + " occurred before");
            evald(hp(K) + s); seen(tiny ? "long:tiny" : "long:full");
            p.s.clean();
        }
        if (tiny && !readable) seen("tiny:unreadable");
        j.judgeSeq([&](const std::string& what, size_t lag, size_t k, size_t n) { viol("recurs:" + what, what + ": " + std::to_string(k) + " of " + std::to_string(n) + " are what came " + std::to_string(lag) + " before"); });
        seen("joint-sequences", j.testedSeq);
    });
    section("process", 2, 20, [](uint64_t, Rng&) {
        const int N = 4; int fd[N]; pid_t pid[N]; std::map<std::string, int> seenOrders;
        for (int i = 0; i < N; i++) {
            int p[2]; if (pipe(p)) _exit(64);
            pid[i] = fork();
            if (!pid[i]) { dup2(p[1], 1); close(p[0]); close(p[1]); execl("/proc/self/exe", "c18", "--dump", (char*)0); _exit(127); }
            close(p[1]); fd[i] = p[0];
        }
        for (int i = 0; i < N; i++) {
            std::string s; char b[4096]; ssize_t n;
            while ((n = read(fd[i], b, sizeof b)) > 0) s.append(b, n);
            close(fd[i]); int st; waitpid(pid[i], &st, 0);
            while (!s.empty() && s.back() == '\n') s.pop_back();
            if (st || s.size() != 48) { fprintf(stderr, "dump process failed: %d %s\n", st, s.c_str()); viol("dump", "a session in a new process failed: status " + std::to_string(st) + " slots " + s); continue; }
            if (seenOrders[s.substr(0, 32)]++ || seenOrders[s.substr(16)]++) viol("order-repeats-process", "two processes used the slots " + s);
            seen("process"); evald(hstr(s));
            sample("process", s);
        }
    });
    return run(argc, argv);
}
