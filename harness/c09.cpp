// C09: oblivious transfer histories.
#include "dmelib.hpp"
using namespace mon;
using namespace dme;

struct Sess { size_t snd, rcv; branch_t b; pkey_t pk; skey_t sk; POINT m[2]; mpz_class z[2]; bool ints; ot::ctxt_v_t c; };

static void history(uint64_t i, Rng& r) {
    bool full = i % 6 == 0;
    rmode(full ? 0 : 2, r.next());
    static const char* mn[] = {"messy", "dec", "plain", "owner"};
    int mode = i % 4;
    std::vector<ot::OTsndr> S; std::vector<ot::OTrecv> V;
    crs_ddh_t crs;
    if (mode == 3) crs = DME_DDH(r.coin() ? messy : dec).crs;
    else crs = mode == 0 ? DME_DDH(messy).crs : mode == 1 ? DME_DDH(dec).crs : DME_DDH().crs;
    size_t ns = 1 + r.below(3), nr = 1 + r.below(3);
    for (size_t j = 0; j < ns; j++) S.emplace_back(crs);
    for (size_t j = 0; j < nr; j++) V.emplace_back(crs);
    DME_DDH probe(crs);
    seen(std::string("crs:") + mn[mode]);
    std::set<std::string> pks, us, masks;
    ot::ctxt_v_t prev; POINT prevm[2]; bool havePrev = false;
    int len = full ? 4 : 10;
    branch_t last = b0;
    for (int t = 0; t < len; t++) {
        Sess s;
        s.snd = r.below(ns); s.rcv = r.below(nr); s.b = r.coin() ? b0 : b1;
        auto& rc = V[s.rcv]; auto& sn = S[s.snd];
        step("select");
        s.pk = rc.selectMsg(s.b);
        if (rc.getBranch() != s.b) viol("branch", "receiver reports another branch");
        if (!pks.insert(pstr(s.pk.g)).second || !s.pk.g.isValid() || !s.pk.h.isValid() || s.pk.g.isInf()) viol("key-fresh", "receiver key " + pstr(s.pk.g));
        s.ints = r.coin(1, 3);
        bool eq = r.coin(1, 8);
        if (s.ints) {
            s.z[0] = anInt(r); s.z[1] = eq ? s.z[0] : r.coin(1, 4) ? mpz_class(s.z[0] ^ 1) : anInt(r);
            if (s.z[1] > encMax()) s.z[1] = encMax();
            for (int q = 0; q < 2; q++) s.m[q] = probe.encode(s.z[q]);
        } else { s.m[0] = aPoint(r); s.m[1] = eq ? s.m[0] : r.coin(1, 6) ? POINT() - s.m[0] : aPoint(r); }
        int enc = 1 + r.coin(1, 3);                      // the sender may answer one key several times
        for (int q = 0; q < enc; q++) {
            step("encMsgs");
            s.c = s.ints ? sn.encMsgs(s.pk, s.z[0], s.z[1]) : sn.encMsgs(s.pk, s.m[0], s.m[1]);
            if (s.c.size() != 2) { viol("sender-output", "not two ciphertexts"); return; }
            step("decrypt");
            POINT got = rc.decryptMsg(s.c);
            auto desc = [&] { return std::string(mn[mode]) + " transfer " + std::to_string(t) + " choice " + std::to_string(s.b) + " (last " + std::to_string(last) + ") messages " + pstr(s.m[0]) + " " + pstr(s.m[1]) + " got " + pstr(got); };
            if (!eqp(got, s.m[s.b])) viol(std::string("chosen:branch") + (s.b == b0 ? "0" : "1"), desc());
            if (s.ints) { mpz_class g = rc.decryptMsgDecode(s.c); if (g != s.z[s.b]) viol("chosen-int", desc() + " integer " + hex(g)); }
            // what the receiver can compute about the other message
            int o = 1 - s.b;
            ref::Pt M = R(s.m[o]), mine = R(s.m[s.b]), co = R(s.c[o].mv), uo = R(s.c[o].u), cb = R(s.c[s.b].mv), ub = R(s.c[s.b].u), mask = co - M;
            if (!eqp(s.m[0], s.m[1])) {
                POINT x = rc.decryptMsg({s.c[1], s.c[0]});
                POINT y = rc.decryptMsg({ctxt_t(s.c[0].u, s.c[1].mv), ctxt_t(s.c[1].u, s.c[0].mv)});
                if (eqp(x, s.m[o])) viol("other-key", desc() + ": the other slot opens with the receiver's key");
                if (eqp(y, s.m[o]) || eqp(got, s.m[o])) viol("other-mixed", desc() + ": the other message opens with the chosen slot's randomness");
                ref::Pt bm = cb - mine;                 // mask of the chosen slot
                if (mask == bm || mask == -bm || co - cb == M - mine || co + cb == M + mine) viol("other-linear", desc() + ": the masks cancel");
                if (ub == uo) viol("other-linear", desc() + ": one randomness for both slots");
                seen("other-tested");
            }
            if (mask.inf()) viol("other-clear", desc() + ": the other message is sent in the clear");
            if (mask == R(s.pk.g) || mask == R(s.pk.h) || mask == uo || mask == ub || mask == R(s.pk.g) + R(s.pk.h)) viol("other-public", desc() + ": the mask is public");
            for (auto* p : {&s.c[0].u, &s.c[1].u}) if (p->isInf() || !us.insert(pstr(*p)).second) viol("reuse:u", desc());
            for (auto& k : {co - M, cb - mine}) if (!masks.insert(k.str()).second) viol("reuse:mask", desc() + ": a mask was used in an earlier transfer");
            if (havePrev) for (int q2 = 0; q2 < 2; q2++) {
                ref::Pt dm = R(s.m[q2]) - R(prevm[q2]), dc = R(s.c[q2].mv) - R(prev[q2].mv);
                if (dm == dc) viol("reuse:difference", desc());
            }
            prev = s.c; prevm[0] = s.m[0]; prevm[1] = s.m[1]; havePrev = true;
            evald(hc(s.c[0])); evald(hc(s.c[1]));
            seen("transfer"); seen(std::string("choice:") + (s.b == b0 ? "0" : "1")); seen(s.ints ? "messages:int" : "messages:point");
            if (t && s.b != last) seen("choice-changed");
            if (eq) seen("messages:equal");
        }
        last = s.b;
    }
}
// several receivers hold keys at the same time, senders answer in any order
static void interleaved(uint64_t i, Rng& r) {
    rh::set(rh::SMALL, r.next(), 64);
    crs_ddh_t crs = (i & 1 ? DME_DDH(messy) : DME_DDH(dec)).crs;
    std::vector<ot::OTsndr> S; std::vector<ot::OTrecv> V;
    for (int j = 0; j < 3; j++) { S.emplace_back(crs); V.emplace_back(crs); }
    for (int round = 0; round < 3; round++) {
        std::vector<Sess> q;
        for (size_t j = 0; j < 3; j++) { Sess s; s.rcv = j; s.b = r.coin() ? b0 : b1; s.pk = V[j].selectMsg(s.b); s.snd = r.below(3); s.m[0] = freshPoint(r); s.m[1] = freshPoint(r); q.push_back(s); }
        r.shuffle(q);
        for (auto& s : q) s.c = S[s.snd].encMsgs(s.pk, s.m[0], s.m[1]);
        r.shuffle(q);
        for (auto& s : q) {
            POINT g = V[s.rcv].decryptMsg(s.c);
            if (!eqp(g, s.m[s.b])) viol("interleaved", "receiver " + std::to_string(s.rcv) + " got " + pstr(g));
            for (auto& t : q) if (t.rcv != s.rcv) for (int sl = 0; sl < 2; sl++) if (eqp(V[s.rcv].decryptMsg(t.c), t.m[sl])) viol("foreign-key", "another receiver's transfer opens");
            evald(hc(s.c[0])); seen("interleaved");
        }
    }
}
static void owner(uint64_t i, Rng& r) {          // parties that create the CRS themselves
    rh::set(rh::SMALL, r.next(), 64);
    DME_DDH d(i & 1 ? messy : dec);
    ot::OTrecv a(d.crs); ot::OTsndr b(d.crs);
    ot::OTrecv lone(i & 1 ? messy : dec); ot::OTsndr lones(i & 1 ? dec : messy);
    (void)lone.selectMsg(b1);
    for (int t = 0; t < 6; t++) {
        branch_t c = branch_t((i >> (t + 1)) & 1);
        POINT m0 = b.getRandomMsg(), m1 = b.getRandomMsg();
        if (!m0.isValid() || eqp(m0, m1)) viol("random-msg", pstr(m0));
        POINT g = a.decryptMsg(b.encMsgs(a.selectMsg(c), m0, m1));
        if (!eqp(g, c == b0 ? m0 : m1)) viol("chosen:sequence", "choice sequence " + std::to_string(i) + " transfer " + std::to_string(t));
        evald(hp(g)); seen("sequence");
    }
}
int main(int argc, char** argv) {
    section("history", 260, 14000, history);
    section("width", 24, 2000, [](uint64_t i, Rng& r) {                   // every bit of the randomness matters
        rh::Width w; unsigned bit = rh::aBit(r); branch_t b = i & 1 ? b1 : b0; crs_ddh_t crs; POINT m0 = freshPoint(r), m1 = freshPoint(r); pkey_t pk;
        std::unique_ptr<DME_DDH> d; std::unique_ptr<ot::OTsndr> s; std::unique_ptr<ot::OTrecv> v;
        auto mk = [&] { d.reset(new DME_DDH(i & 2 ? messy : dec)); s.reset(new ot::OTsndr(d->crs)); v.reset(new ot::OTrecv(d->crs)); };
        auto bad = [](const std::string& what, unsigned b) { viol("narrow:" + what, what + " does not depend on bit " + std::to_string(b) + " of any random value"); };
        w(r, bit, mk, [&] { auto k = v->selectMsg(b); return rh::Outputs{{"receiver's key", pstr(k.g) + pstr(k.h)}}; }, bad);
        w(r, bit, [&] { mk(); pk = v->selectMsg(b); }, [&] { auto c = s->encMsgs(pk, m0, m1); return rh::Outputs{{"first u", pstr(c[0].u)}, {"first mask", pstr(c[0].mv)}, {"second u", pstr(c[1].u)}, {"second mask", pstr(c[1].mv)}}; }, bad);
        evald(r.next()); seen("width", w.tested); seen("width-runs", w.runs);
    });
    section("long", 3, 24, [](uint64_t i, Rng& r) {                       // a long history of one pair: no key, u or mask recurs
        rmode(0, r.next());
        DME_DDH d(i % 3 == 0 ? messy : dec); ot::OTsndr s(d.crs); ot::OTrecv v(d.crs);
        std::set<std::string> pks, us, masks; POINT m[2] = {freshPoint(r), freshPoint(r)};
        pkey_t pk = v.selectMsg(b0);
        for (int t = 0; t < 400; t++) {
            branch_t b = r.coin() ? b1 : b0;
            if (i % 3 != 2 || t % 8 == 0) { pk = v.selectMsg(b); if (!pks.insert(hex(pk.g.getX().getRawValue())).second) viol("key-fresh", "transfer " + std::to_string(t) + ": the receiver's key occurred before"); } else b = v.getBranch();
            auto c = s.encMsgs(pk, m[0], m[1]);
            if (!eqp(v.decryptMsg(c), m[b])) viol("chosen:long", "transfer " + std::to_string(t));
            for (auto& x : c) { if (!us.insert(pstr(x.u)).second) viol("reuse:u", "transfer " + std::to_string(t)); if (!masks.insert(pstr(x.mv)).second) viol("reuse:mask", "transfer " + std::to_string(t) + ": a mask was used in an earlier transfer"); }
            evald(hc(c[0])); seen("long");
        }
    });
    section("joint", 4, 32, [](uint64_t i, Rng& r) {                      // draws of 1..8: the receiver's keys and the sender's exponents recur at no distance
        std::map<std::string, long> tab; ref::Pt q(Secp::G()), g = ref::Pt::gen(Secp::G(), ref::Bn(1L)); for (long k = 0; k <= 7200; k++) { tab[q.str()] = k; q = q + g; }
        CURVE c; auto P = [&](long k) { return toLib<Secp>(ref::Pt::gen(Secp::G(), ref::mod(ref::Bn(k), Secp::G().n)), &c); };
        crs_ddh_t crs(P(1), P(-1), P(101), P(-101));
        rh::set(rh::SMALL, r.next(), 3);
        ot::OTsndr s(crs), s2(crs); ot::OTrecv v(crs); Joint j; POINT m[2] = {freshPoint(r), freshPoint(r)};
        for (int n = 0; n < 1500; n++) {
            branch_t b = i & 1 ? (n & 1 ? b1 : b0) : (n / 3) & 1 ? b1 : b0;
            pkey_t pk = v.selectMsg(b); auto ct = (i & 2 && n % 3 == 0 ? s2 : s).encMsgs(pk, m[0], m[1]);
            auto log = [&](const POINT& x, bool neg) { auto it = tab.find((neg ? -R(x) : R(x)).str()); return it == tab.end() ? -1L : it->second; };
            long k = log(pk.g, b == b1), u0 = log(ct[0].u, false), u1 = log(ct[1].u, true);
            if (k < 0 || u0 < 0 || u1 < 0 || u0 % 101 > 70 || u1 % 101 > 70) { seen("joint:unreadable"); return; }
            long e[5] = {k, u0 % 101, u0 / 101, u1 % 101, u1 / 101}; static const char* const nm[] = {"the receiver's key", "s of slot 0", "t of slot 0", "s of slot 1", "t of slot 1"};
            for (int a = 0; a < 5; a++) { j.seq(nm[a], e[a]); for (int y = 0; y < a; y++) j.add(std::string(nm[y]) + " and " + nm[a], e[y], e[a]); j.add(std::string(nm[a]) + " and the choice", e[a], b); if (a) j.seq("the sender's exponents", e[a]); }
            evald(hc(ct[0]) + n);
        }
        j.judgeSeq([&](const std::string& what, size_t lag, size_t k, size_t n) { viol("recurs:" + what, what + ": " + std::to_string(k) + " of " + std::to_string(n) + " are what came " + std::to_string(lag) + " before"); });
        j.judge([&](const std::string& what, size_t got, size_t of) { viol("dependent:" + what, what + ": " + std::to_string(got) + " of " + std::to_string(of) + " combinations occur"); });
        seen("joint-pairs", j.tested); seen("joint-sequences", j.testedSeq);
    });
    section("interleaved", 80, 4000, interleaved);
    section("choice-sequences", 128, 1280, owner);      // all choice sequences of length 6
    return run(argc, argv);
}
