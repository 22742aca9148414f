// C08: homomorphic aggregation and the distributed OT proxy.
#include "dmelib.hpp"
#include <array>
using namespace mon;
using namespace dme;

static void eval(uint64_t i, Rng& r) {
    rmode(i % 5 == 0 ? 0 : i % 5 == 1 ? 1 : 2, r.next());
    DMHE_DDH d(i % 2 ? messy : dec), e(d.crs), f(d.crs);
    DMHE_DDH* o[3] = {&d, &e, &f};
    branch_t b = r.coin() ? b0 : b1;
    keypair_t k = o[r.below(3)]->KeyGen(b);
    size_t n = 1 + r.below(r.coin(1, 6) ? 40 : 10);
    std::vector<ctxt_t> c; std::vector<ref::Pt> m;
    ref::Pt S(Secp::G());
    for (size_t j = 0; j < n; j++) {
        POINT p = aPoint(r);
        if (j && r.coin(1, 5)) p = toLib<Secp>(m[r.below(j)], d.getCurve());             // repeated
        else if (j && r.coin(1, 5)) p = toLib<Secp>(-m[r.below(j)], d.getCurve());       // opposite
        m.push_back(R(p)); S = S + m.back();
        c.push_back(o[r.below(3)]->Enc(k.pk, b, p));
        if (r.coin(1, 10)) { c.push_back(c.back()); m.push_back(m.back()); S = S + m.back(); seen("same-ciphertext-twice"); }   // one ciphertext used twice
        if (r.coin(1, 12)) {                                       // the opposite of one: sums that vanish on the way
            size_t q = r.below(c.size());
            ctxt_t neg(POINT() - c[q].u, POINT() - c[q].mv);
            c.push_back(neg); m.push_back(-m[q]); S = S + m.back(); seen("opposite-ciphertext");
        }
    }
    std::vector<ctxt_t> orig = c, w = c;
    auto& ev = *o[r.below(3)];
    step("eval");
    while (w.size() > 1) {                                     // any order, any grouping
        size_t x = r.below(w.size()), y = r.below(w.size() - 1); if (y >= x) y++;
        ctxt_t s = ev.Eval(w[x], w[y]);
        if (x < y) std::swap(x, y);
        w.erase(w.begin() + x); w[y] = s;
    }
    POINT got = o[r.below(3)]->Dec(k.sk, w[0]);
    if (!same<Secp>(got, S)) viol("eval-sum", std::to_string(m.size()) + " ciphertexts on branch " + std::to_string(b) + " decrypt to " + pstr(got) + ", expected " + S.str());
    for (size_t j = 0; j < c.size(); j++) {
        if (!eqp(c[j].u, orig[j].u) || !eqp(c[j].mv, orig[j].mv)) viol("eval-inputs", "an input ciphertext changed");
        if (!same<Secp>(d.Dec(k.sk, c[j]), m[j])) viol("eval-inputs", "an input ciphertext no longer decrypts");
    }
    // aliasing: a ciphertext combined with itself, and into itself
    ctxt_t t = c[0];
    if (!same<Secp>(d.Dec(k.sk, ev.Eval(t, t)), m[0].dbl())) viol("eval-self", "c combined with itself");
    t = ev.Eval(t, c.back());
    if (!same<Secp>(d.Dec(k.sk, t), m[0] + m.back())) viol("eval-into", "c = c combined with d");
    evald(hc(w[0]));
    seen("eval"); seen("eval-count:" + std::to_string(std::min<size_t>(m.size(), 20)));
}

static void proxy(uint64_t i, Rng& r) {
    rmode(i % 6 == 0 ? 0 : 2, r.next());
    crs_ddh_t crs = i % 3 == 0 ? DME_DDH(messy).crs : i % 3 == 1 ? DME_DDH(dec).crs : DME_DDH().crs;
    ot::DOTprxy px(crs);
    ot::DOTrecv rc[2] = {ot::DOTrecv(crs), ot::DOTrecv(crs)};
    std::vector<ot::DOTsndr> sn;
    for (int j = 0; j < 4; j++) sn.emplace_back(crs);
    for (int round = 0; round < 4; round++) {                  // one proxy, several aggregations
        branch_t b = r.coin() ? b0 : b1;
        auto& rec = rc[r.below(2)];
        pkey_t pk = rec.selectMsg(b);
        size_t n = round == 0 ? 1 + i % 6 : 1 + r.below(7);
        std::vector<ot::ctxt_v_t> v;
        std::vector<std::array<ref::Pt, 2>> ms;                // what each pair carries
        ref::Pt S[2] = {ref::Pt(Secp::G()), ref::Pt(Secp::G())};
        bool ints = r.coin(1, 4);
        for (size_t j = 0; j < n; j++) {
            auto& s = sn[r.below(sn.size())];
            if (ints) {
                mpz_class a = anInt(r), c = anInt(r);
                v.push_back(s.encMsgs(pk, a, c));
                DME_DDH d(crs);
                ms.push_back({R(d.encode(a)), R(d.encode(c))});
            } else {
                POINT a = aPoint(r), c = r.coin(1, 6) ? a : freshPoint(r);
                v.push_back(s.encMsgs(pk, a, c));
                ms.push_back({R(a), R(c)});
            }
            if (v.back().size() != 2) { viol("sender-output", "not two ciphertexts"); return; }
            // a pair that arrives again, at once or later, or one slot of which does, counts again
            if (r.coin(1, 4)) {
                size_t q = r.coin() ? v.size() - 1 : r.below(v.size());
                ot::ctxt_v_t again = v[q]; auto carried = ms[q];
                if (r.coin(1, 3)) { size_t w = r.below(v.size()); int slot = r.below(2); again[slot] = v[w][slot]; carried[slot] = ms[w][slot]; }
                v.push_back(again); ms.push_back(carried); seen("pair-again");
            }
        }
        n = v.size();
        for (auto& x : ms) { S[0] = S[0] + x[0]; S[1] = S[1] + x[1]; }
        std::vector<ot::ctxt_v_t> before = v;
        if (r.coin()) r.shuffle(v), before = v;
        step("aggregate " + std::to_string(n));
        ot::ctxt_v_t a = px.aggregate(v);
        if (a.size() != 2) { viol("aggregate-size", std::to_string(a.size())); return; }
        POINT got = rec.decryptMsg(a);
        if (!same<Secp>(got, S[b])) viol(std::string("aggregate-sum:branch") + (b == b0 ? "0" : "1"), std::to_string(n) + " senders, round " + std::to_string(round) + ": got " + pstr(got) + ", expected " + S[b].str());
        if (!(S[0] == S[1])) {
            ot::ctxt_v_t sw{a[1], a[0]};
            if (same<Secp>(rec.decryptMsg(sw), S[1 - b]) || same<Secp>(got, S[1 - b])) viol("aggregate-other", "the other branch's sum is recovered");
            seen("other-branch-tested");
        }
        for (size_t j = 0; j < v.size(); j++) for (int q = 0; q < 2; q++)
            if (!eqp(v[j][q].u, before[j][q].u) || !eqp(v[j][q].mv, before[j][q].mv)) viol("aggregate-inputs", "an input changed");
        // the same inputs again give the same aggregate, however often the proxy is used
        ot::ctxt_v_t a2 = px.aggregate(v);
        if (a2.size() != 2 || !eqp(rec.decryptMsg(a2), got)) viol("aggregate-history", "aggregating the same inputs twice differs");
        // aggregates of aggregates
        if (n > 2) {
            std::vector<ot::ctxt_v_t> x(v.begin(), v.begin() + n / 2), y(v.begin() + n / 2, v.end());
            ot::ctxt_v_t ax = px.aggregate(x), ay = px.aggregate(y);
            if (!same<Secp>(rec.decryptMsg(px.aggregate({ax, ay})), S[b])) viol("aggregate-grouping", "aggregate of two aggregates");
        }
        evald(hc(a[b])); evald(hc(a[1 - b]));
        seen("aggregate"); seen("senders:" + std::to_string(n)); seen(std::string("branch:") + (b == b0 ? "0" : "1"));
    }
}
int main(int argc, char** argv) {
    section("eval", 400, 20000, eval);
    // ciphertexts with an infinite component or with components in common, aggregated in every order
    section("crafted", 120, 6000, [](uint64_t i, Rng& r) {
        rmode(2, r.next());
        DMHE_DDH d(i & 1 ? messy : dec);
        branch_t b = i & 2 ? b1 : b0;
        keypair_t k = d.KeyGen(b);
        ot::DOTprxy px(d.crs);
        std::vector<ctxt_t> c;
        size_t n = 2 + r.below(5);
        for (size_t j = 0; j < n; j++) {
            ctxt_t x = d.Enc(k.pk, b, aPoint(r));
            switch (j ? r.below(8) : i % 8) {
                case 0: x.mv = POINT(); break;                              // encrypts the opposite of its mask
                case 1: x.u = POINT(); break;                               // carries its message in the clear
                case 2: x.u = x.mv = POINT(); break;
                case 3: if (j) x.u = c[r.below(j)].u; break;
                case 4: if (j) x.mv = c[r.below(j)].mv; break;
                case 5: if (j) x.u = POINT() - c[r.below(j)].u; break;
                case 6: if (j) x.mv = POINT() - c[r.below(j)].mv; break;
                default: break;
            }
            c.push_back(x);
        }
        ref::Pt S(Secp::G());
        for (auto& x : c) S = S + (R(x.mv) + -(R(x.u) * ref::mod(ref::from(k.sk.getRawValue()), Secp::G().n)));
        ctxt_t l = c[0], q = c[n - 1];
        for (size_t j = 1; j < n; j++) l = d.Eval(l, c[j]);
        for (size_t j = n - 1; j-- > 0;) q = d.Eval(c[j], q);
        step("crafted");
        if (!same<Secp>(d.Dec(k.sk, l), S) || !same<Secp>(d.Dec(k.sk, q), S)) viol("eval-sum:crafted", std::to_string(n) + " ciphertexts, case " + std::to_string(i));
        std::vector<ot::ctxt_v_t> v;
        for (size_t j = 0; j < n; j++) v.push_back(b == b0 ? ot::ctxt_v_t{c[j], c[n - 1 - j]} : ot::ctxt_v_t{c[n - 1 - j], c[j]});
        if (!same<Secp>(d.Dec(k.sk, px.aggregate(v)[b]), S)) viol("aggregate-sum:crafted", std::to_string(n) + " pairs, case " + std::to_string(i));
        evald(hc(l)); seen("crafted");
    });
    section("proxy", 240, 12000, proxy);
    section("many-senders", 8, 64, [](uint64_t i, Rng& r) {
        rh::set(rh::SMALL, r.next(), 64);
        crs_ddh_t crs = DME_DDH(messy).crs;
        ot::DOTprxy px(crs); ot::DOTrecv rc(crs); ot::DOTsndr sn(crs);
        branch_t b = i & 1 ? b1 : b0;
        pkey_t pk = rc.selectMsg(b);
        std::vector<ot::ctxt_v_t> v; ref::Pt S[2] = {ref::Pt(Secp::G()), ref::Pt(Secp::G())};
        int n = 64 + (int)i * 9;
        for (int j = 0; j < n; j++) { POINT a = aPoint(r), c = aPoint(r); v.push_back(sn.encMsgs(pk, a, c)); S[0] = S[0] + R(a); S[1] = S[1] + R(c); }
        POINT got = rc.decryptMsg(px.aggregate(v));
        if (!same<Secp>(got, S[b])) viol("aggregate-sum:many", std::to_string(n) + " senders");
        evald(hp(got)); seen("many-senders");
    });
    // crowds: a few different pairs, each submitted many times over
    static const std::vector<int> crowd = {100, 127, 128, 129, 200, 255, 256, 257, 258, 300, 400, 511, 513, 777, 1000, 1024, 1025, 1500, 2049, 4097};
    section("crowd", crowd.size() + 1, 2 * crowd.size() + 2, [](uint64_t i, Rng& r) {
        size_t n = i == crowd.size() ? 65538 : i < crowd.size() ? crowd[i] : 100 + r.below(2000);
        if (n > 5000 && opt.config != "rel") return;
        rh::set(rh::SMALL, r.next(), 64);
        crs_ddh_t crs = DME_DDH(messy).crs;
        ot::DOTprxy px(crs); ot::DOTrecv rc(crs); ot::DOTsndr sn(crs);
        branch_t b = i & 1 ? b1 : b0;
        pkey_t pk = rc.selectMsg(b);
        std::vector<ot::ctxt_v_t> few, v; std::vector<POINT> ms; std::vector<long> times(8);
        for (int j = 0; j < 8; j++) { POINT a = freshPoint(r), c = freshPoint(r); few.push_back(sn.encMsgs(pk, a, c)); ms.push_back(b == b0 ? a : c); }
        for (size_t j = 0; j < n; j++) { size_t q = r.below(8); v.push_back(few[q]); times[q]++; }
        ref::Pt S(Secp::G());
        for (int j = 0; j < 8; j++) S = S + R(ms[j]) * ref::Bn(times[j]);
        step("crowd of " + std::to_string(n));
        POINT got = rc.decryptMsg(px.aggregate(v));
        if (!same<Secp>(got, S)) viol("aggregate-sum:crowd", std::to_string(n) + " senders");
        evald(hp(got)); seen("crowd");
    });
    return run(argc, argv);
}
