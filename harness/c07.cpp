// C07: what the dual-mode cryptosystem guarantees beyond decryption, observed on CRSs whose discrete logarithms
// the monitor knows.
#include "dmelib.hpp"
using namespace mon;
using namespace dme;
static const int K = 8;

struct Logs { ref::Bn g[2], h[2]; };       // discrete logarithms of the CRS
static crs_ddh_t mkcrs(const Logs& l, CURVE* c) {
    auto P = [&](const ref::Bn& k) { return toLib<Secp>(ref::Pt::gen(Secp::G(), k), c); };
    return crs_ddh_t(P(l.g[0]), P(l.g[1]), P(l.h[0]), P(l.h[1]));
}
static ref::Bn rnd(Rng& r) { return ref::from(r.range(spool().n - 2) + 2); }

// t = x * base with 0 <= t < 2^16?
static bool smallMultiple(const ref::Pt& t, const ref::Pt& base) {
    std::map<std::string, int> tab;
    ref::Pt q(Secp::G());
    for (int i = 0; i < 256; i++) { tab[q.str()] = i; q = q + base; }
    ref::Pt back = -q, cur = t;
    for (int j = 0; j < 256; j++) { if (tab.count(cur.str())) return true; cur = cur + back; }
    return false;
}

static void hiding(uint64_t i, Rng& r) {
    rmode(i % 3 == 0 ? 0 : 2, r.next());
    const ref::Bn& n = Secp::G().n;
    CURVE c;
    Logs l;
    for (int b = 0; b < 2; b++) { l.g[b] = rnd(r); l.h[b] = rnd(r); }
    DME_DDH d(mkcrs(l, &c)), e(mkcrs(l, &c));
    branch_t b = i & 1 ? b1 : b0, o = i & 1 ? b0 : b1;
    keypair_t k = d.KeyGen(b);
    ref::Bn sk = ref::from(k.sk.getRawValue());
    ref::Bn kg = ref::mul(l.g[b], sk, n), kh = ref::mul(l.h[b], sk, n);         // logs of the public key
    if (!(R(k.pk.g) == ref::Pt::gen(Secp::G(), kg)) || !(R(k.pk.h) == ref::Pt::gen(Secp::G(), kh)))
        viol("keygen", "public key is not secret key times the branch's CRS pair");
    struct Ct { ref::Pt u, v; branch_t b; };
    std::vector<Ct> cts;
    std::set<std::string> us, vs, all;
    auto note = [&](const ref::Pt& p, std::set<std::string>& s, const char* what) {
        if (p.inf()) viol(std::string("mask-zero:") + what, "infinity");
        if (!s.insert(p.str()).second) viol(std::string("repeat:") + what, p.str());
        if (!all.insert(p.str()).second) viol("repeat:component", std::string(what) + " equals another component: " + p.str());
    };
    for (int q = 0; q < 6; q++) {
        branch_t eb = q % 3 == 2 ? b : o;
        POINT m = q == 0 ? POINT() : aPoint(r);
        step("enc");
        auto& dd = q & 1 ? e : d;
        ctxt_t ct = dd.Enc(k.pk, eb, m);
        ref::Pt u = R(ct.u), v = R(ct.mv) - R(m);
        note(u, us, "u"); note(v, vs, "mask");
        cts.push_back({u, v, eb});
        if (eb == b) { if (!(v == u * sk)) viol("mask-shape", "own branch: mask is not u * secret key"); }
        evald(hc(ct));
    }
    // On the messy branch: v = (log kg) s + (log kh) t and u = (log g) s + (log h) t. If t = k s or s = k t for a
    // small k (or either is a constant offset of it, which differences remove), v is determined by u.
    auto related = [&](const ref::Pt& u, const ref::Pt& v, const char* what) {
        for (int kk = -K; kk <= K; kk++) for (int dir = 0; dir < 2; dir++) {
            ref::Bn z = ref::mod(ref::Bn((long)kk), n), num, den;
            if (dir == 0) { num = ref::add(kg, ref::mul(z, kh, n), n); den = ref::add(l.g[o], ref::mul(z, l.h[o], n), n); }     // t = k s
            else { num = ref::add(ref::mul(z, kg, n), kh, n); den = ref::add(ref::mul(z, l.g[o], n), l.h[o], n); }              // s = k t
            if (den.zero()) continue;
            if (v == u * ref::mul(num, ref::inv(den, n), n)) viol(std::string("relation:") + what, std::string("messy mask determined by u with ") + (dir ? "s = " : "t = ") + std::to_string(kk) + (dir ? " t" : " s"));
        }
        evald(hstr(what, hstr(u.str())));
        seen("relation-test");
    };
    std::vector<Ct> messyc;
    for (auto& x : cts) if (x.b == o) messyc.push_back(x);
    related(messyc[0].u, messyc[0].v, "single");
    related(messyc[2].u, messyc[2].v, "single");
    related(messyc[0].u - messyc[1].u, messyc[0].v - messyc[1].v, "difference");
    related(messyc[2].u - messyc[3].u, messyc[2].v - messyc[3].v, "difference");
    related(messyc[0].u + messyc[1].u, messyc[0].v + messyc[1].v, "sum");
    // the same exponents used for both branches would give the own branch's u as a combination
    for (auto& x : cts) for (auto& y : cts) if (x.b != y.b) {
        if (x.v == y.v || x.v == -y.v) viol("shared-mask", "both branches use one mask");
        if (x.b == o && x.v == y.u * sk) viol("shared-mask", "mask of the messy branch from the other branch's u");
    }
    for (auto& x : messyc) if (x.v == x.u * sk) viol("messy-decrypts", "the messy branch decrypts with the key");
    if (i % 4 == 0) {       // neither exponent may be small
        const Ct& x = messyc[1];
        ref::Bn rg = ref::mul(kg, ref::inv(l.g[o], n), n), rhh = ref::mul(kh, ref::inv(l.h[o], n), n);
        ref::Pt bt = ref::Pt::gen(Secp::G(), ref::sub(kh, ref::mul(rg, l.h[o], n), n)), bs = ref::Pt::gen(Secp::G(), ref::sub(kg, ref::mul(rhh, l.g[o], n), n));
        if (smallMultiple(x.v - x.u * rg, bt)) viol("small-exponent:t", "t is below 2^16");
        if (smallMultiple(x.v - x.u * rhh, bs)) viol("small-exponent:s", "s is below 2^16");
        ref::Pt du = messyc[1].u - messyc[2].u, dv = messyc[1].v - messyc[2].v;
        if (smallMultiple(dv - du * rg, bt) || smallMultiple(-(dv - du * rg), bt)) viol("small-exponent:t-step", "t advances by less than 2^16");
        if (smallMultiple(dv - du * rhh, bs) || smallMultiple(-(dv - du * rhh), bs)) viol("small-exponent:s-step", "s advances by less than 2^16");
        seen("small-exponent-test");
    }
    seen("hiding");
    sample("messy ciphertext", "u=" + messyc[0].u.str() + " mask=" + messyc[0].v.str());
}

static void crsShape(const crs_ddh_t& c, const char* mode, std::set<std::string>& before) {
    const POINT* p[4] = {&c.g0, &c.g1, &c.h0, &c.h1};
    std::set<std::string> s;
    for (auto q : p) {
        if (q->isInf() || !q->isValid()) viol(std::string("crs-shape:") + mode, "element " + pstr(*q));
        if (!s.insert(pstr(*q)).second) viol(std::string("crs-shape:") + mode, "two equal elements");
        if (!before.insert(pstr(*q)).second) viol(std::string("crs-fresh:") + mode, "element seen before: " + pstr(*q));
        ref::Pt t = R(*q);
        for (long k = 1; k < 3; k++) if (t == ref::Pt::gen(Secp::G(), ref::Bn(k))) viol(std::string("crs-shape:") + mode, "an element with a known logarithm");
    }
    // no element is a small multiple of another
    ref::Pt t[4] = {R(c.g0), R(c.g1), R(c.h0), R(c.h1)};
    for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) if (a != b)
        for (long k : {-3L, -2L, -1L, 2L, 3L}) if (t[a] == t[b] * ref::Bn(k)) viol(std::string("crs-shape:") + mode, "one element is a small multiple of another");
    seen(std::string("crs:") + mode);
    evald(hp(c.g0));
}
static std::set<std::string> seenCrs;

static void messyMode(uint64_t i, Rng& r) {
    rmode(i % 2 ? 0 : 2, r.next());
    DME_DDH d(messy), other(d.crs);
    crsShape(d.crs, "messy", seenCrs);
    for (int q = 0; q < 4; q++) {
        branch_t b = r.coin() ? b0 : b1, o = b == b0 ? b1 : b0;
        keypair_t k = (q & 1 ? other : d).KeyGen(b);
        branch_t f = d.FindMessy(k.pk);
        if (f != o) viol("find-messy", "a key for branch " + std::to_string(b) + " is said to be messy on " + std::to_string(f));
        POINT m = q == 3 ? POINT() : freshPoint(r);
        step("enc messy");
        ctxt_t cb = other.Enc(k.pk, b, m), co = other.Enc(k.pk, o, m);
        if (!eqp(d.Dec(k.sk, cb), m)) viol("usable-branch", "own branch does not decrypt");
        if (eqp(d.Dec(k.sk, co), m)) viol("messy-decrypts", "the messy branch decrypts");
        if (eqp(d.Dec(k.sk, ctxt_t(cb.u, co.mv)), m)) viol("shared-mask", "the other branch's ciphertext opens with this branch's u");
        if (!(R(k.pk.h) == R(k.pk.g) * ref::Bn(0L)) && k.pk.h == k.pk.g) viol("crs-shape:messy", "key halves equal");
        evald(hc(co));
        seen("messy-key");
    }
    // FindMessy on keys of both branches made by two different objects must always differ
    keypair_t x = d.KeyGen(b0), y = d.KeyGen(b1);
    if (d.FindMessy(x.pk) == d.FindMessy(y.pk)) viol("find-messy", "both branches' keys are messy on the same branch");
}

static void decMode(uint64_t i, Rng& r) {
    rmode(i % 2 ? 0 : 2, r.next());
    DME_DDH d(dec), other(d.crs);
    crsShape(d.crs, "dec", seenCrs);
    std::set<std::string> pks;
    for (int q = 0; q < 3; q++) {
        step("trapkeygen");
        auto t = d.TrapKeyGen();
        pkey_t pk = std::get<0>(t);
        skey_t s[2] = {std::get<1>(t), std::get<2>(t)};
        if (!pks.insert(pstr(pk.g)).second) viol("trap-fresh", "public key repeats");
        for (int b = 0; b < 2; b++) {
            POINT m = r.coin(1, 4) ? POINT() : freshPoint(r);
            mpz_class z = anInt(r);
            ctxt_t c = other.Enc(pk, branch_t(b), m), ci = other.Enc(pk, branch_t(b), z);
            if (!eqp(other.Dec(s[b], c), m)) viol("trap-key:" + std::to_string(b), "branch " + std::to_string(b) + " does not decrypt with its trapdoor key");
            if (other.DecDecode(s[b], ci) != z) viol("trap-key:" + std::to_string(b), "integer on branch " + std::to_string(b));
            if (eqp(other.Dec(s[1 - b], c), m)) viol("trap-cross", "the other branch's key decrypts as well");
            evald(hc(c));
        }
        // shape: the public key is both a branch-0 and a branch-1 key
        ref::Bn k0 = ref::from(s[0].getRawValue()), k1 = ref::from(s[1].getRawValue());
        ref::Pt g = R(pk.g), h = R(pk.h);
        if (!(g == R(d.crs.g0) * k0) || !(h == R(d.crs.h0) * k0)) viol("trap-shape", "branch 0");
        if (!(g == R(d.crs.g1) * k1) || !(h == R(d.crs.h1) * k1)) viol("trap-shape", "branch 1");
        seen("trap-key");
    }
    // keys made by anyone still work on their branch and only there
    branch_t b = r.coin() ? b0 : b1, o = b == b0 ? b1 : b0;
    keypair_t k = other.KeyGen(b);
    POINT m = freshPoint(r);
    if (!eqp(d.Dec(k.sk, other.Enc(k.pk, b, m)), m)) viol("usable-branch", "decryption mode");
    if (eqp(d.Dec(k.sk, other.Enc(k.pk, o, m)), m)) viol("messy-decrypts", "decryption mode: the other branch opens with the same key");
}
static void plainMode(uint64_t i, Rng& r) {
    rmode(i % 2 ? 0 : 2, r.next());
    DME_DDH d, other(d.crs);
    crsShape(d.crs, "plain", seenCrs);
    branch_t b = r.coin() ? b0 : b1, o = b == b0 ? b1 : b0;
    keypair_t k = other.KeyGen(b);
    POINT m = freshPoint(r);
    if (!eqp(d.Dec(k.sk, other.Enc(k.pk, b, m)), m)) viol("usable-branch", "plain mode");
    if (eqp(d.Dec(k.sk, other.Enc(k.pk, o, m)), m)) viol("messy-decrypts", "plain mode");
}
// long histories under one key: nothing repeats
static void fresh(uint64_t i, Rng& r) {
    rmode(i % 2 || i < 2 ? 0 : 2, r.next());
    DME_DDH d(i % 4 < 2 ? messy : dec), e(d.crs);
    keypair_t k = d.KeyGen(i & 1 ? b1 : b0);
    std::set<std::string> u;
    POINT m = freshPoint(r);
    const int LONG = i < 2 ? 900 : 60;
    for (int q = 0; q < LONG; q++) {
        ctxt_t c = (q % 3 ? d : e).Enc(k.pk, q & 1 ? b1 : b0, m);
        for (const POINT* p : {&c.u, &c.mv}) if (p->isInf() || !u.insert(pstr(*p)).second) viol("repeat:component", "in a history of encryptions: " + pstr(*p));
        evald(hc(c));
    }
    std::set<std::string> pk;
    for (int q = 0; q < LONG / 3; q++) { keypair_t a = (q % 5 ? d : e).KeyGen(q & 1 ? b1 : b0); if (!pk.insert(pstr(a.pk.g)).second || !pk.insert(hex(a.sk.getRawValue())).second) viol("repeat:key", pstr(a.pk.g)); }
    if (i % 4 >= 2) {                                                   // trapdoor keys likewise, among encryptions and keys
        std::set<std::string> tk;
        for (int q = 0; q < (i < 2 || i % 8 == 2 ? 150 : 40); q++) {
            auto t = d.TrapKeyGen();
            for (const std::string& v : {hex(std::get<1>(t).getRawValue()), hex(std::get<2>(t).getRawValue())}) if (!tk.insert(v).second || pk.count(v)) viol("repeat:trap-key", v);
            if (!pk.insert(pstr(std::get<0>(t).g)).second) viol("repeat:trap-key", "public key " + pstr(std::get<0>(t).g));
            if (r.coin(1, 4)) { keypair_t a = d.KeyGen(q & 1 ? b1 : b0); if (!pk.insert(pstr(a.pk.g)).second || !pk.insert(hex(a.sk.getRawValue())).second || tk.count(hex(a.sk.getRawValue()))) viol("repeat:key", pstr(a.pk.g)); }
            if (r.coin(1, 4)) { ctxt_t c = d.Enc(std::get<0>(t), q & 1 ? b1 : b0, m); if (!u.insert(pstr(c.u)).second || !u.insert(pstr(c.mv)).second) viol("repeat:component", "under a trapdoor key"); }
            evald(hp(std::get<0>(t).g)); seen("history:trap");
        }
    }
    seen("history"); if (LONG > 60) seen("history:long", LONG);
}
// Are the exponents of one encryption, and of consecutive ones, independent? With draws confined to 1..8 and a CRS of
// known small logarithms they can be read off the ciphertext; every combination has to occur.
static void joint(uint64_t i, Rng& r) {
    static std::map<std::string, long> tab;
    const long L = 7200;
    if (tab.empty()) { ref::Pt q(Secp::G()), g = ref::Pt::gen(Secp::G(), ref::Bn(1L)); for (long k = 0; k <= L; k++) { tab[q.str()] = k; q = q + g; } }
    CURVE c;
    Logs l;
    l.g[0] = ref::Bn(1L); l.h[0] = ref::Bn(101L); l.g[1] = ref::mod(ref::Bn(-1L), Secp::G().n); l.h[1] = ref::mod(ref::Bn(-101L), Secp::G().n);
    rh::set(rh::SMALL, r.next(), 3);
    DME_DDH d(mkcrs(l, &c)), e(mkcrs(l, &c));
    branch_t kb = i & 1 ? b1 : b0;
    keypair_t k = d.KeyGen(kb);
    POINT m = freshPoint(r);
    Joint j;
    long ps = -1, pt = -1;
    for (int q = 0; q < 2600; q++) {
        branch_t eb = i & 2 ? (q & 1 ? b1 : b0) : kb == b0 ? b1 : b0;
        ctxt_t ct = (i & 4 && q % 3 == 0 ? e : d).Enc(k.pk, eb, m);
        auto it = tab.find((eb == b0 ? R(ct.u) : -R(ct.u)).str());
        if (it == tab.end() || it->second % 101 > 70) { seen("joint:unreadable"); return; }     // the exponents are not drawn the way this test expects
        long s = it->second % 101, t = it->second / 101;
        j.add("the two exponents of an encryption", s, t);
        if (q) { j.add("first exponents of consecutive encryptions", ps, s); j.add("second exponents of consecutive encryptions", pt, t); j.add("second exponent and the next first", pt, s); j.add("first exponent and the next second", ps, t); }
        ps = s; pt = t;
        j.seq("first exponents", s); j.seq("second exponents", t);
        evald(hp(ct.u) + q);
    }
    j.judgeSeq([&](const std::string& what, size_t lag, size_t k, size_t n) { viol("recurs:" + what, what + ": " + std::to_string(k) + " of " + std::to_string(n) + " are what came " + std::to_string(lag) + " before"); });
    j.judge([&](const std::string& what, size_t got, size_t of) { viol("dependent:" + what, what + ": " + std::to_string(got) + " of " + std::to_string(of) + " combinations occur"); });
    seen("joint-pairs", j.tested); seen("joint-sequences", j.testedSeq);
}
// The same for the values behind a CRS and its keys: with draws of 1..8 they can be read off the CRS.
static void jointCrs(uint64_t i, Rng& r) {
    static std::map<std::string, long> tab;
    const long L = 600;
    if (tab.empty()) { ref::Pt q(Secp::G()), g = ref::Pt::gen(Secp::G(), ref::Bn(1L)); for (long k = 0; k <= L; k++) { tab[(-q).str()] = -k; tab[q.str()] = k; q = q + g; } }
    auto log = [&](const POINT& P, long& v) { auto it = tab.find(R(P).str()); if (it == tab.end()) return false; v = it->second; return true; };
    rh::set(rh::SMALL, r.next(), 3);
    Joint j;
    long prev[6] = {0}; bool have = false;
    for (int q = 0; q < 1600; q++) {
        std::unique_ptr<DME_DDH> dp(i % 3 == 0 ? new DME_DDH(messy) : i % 3 == 1 ? new DME_DDH(dec) : new DME_DDH());
        const DME_DDH& d = *dp;
        long g0, g1, h0, h1;
        if (!log(d.crs.g0, g0) || !log(d.crs.g1, g1) || !log(d.crs.h0, h0) || !log(d.crs.h1, h1) || !g0 || !g1) { seen("joint:unreadable"); have = false; if (q > 50 && !j.h.size()) return; continue; }
        long v[6]; int n; const char* const* nm;
        static const char* const M[] = {"g0", "g1", "e0", "e1", "key"}; static const char* const D[] = {"g0", "y", "e", "key"}; static const char* const P[] = {"g0", "g1", "h0", "h1", "key"};
        long sk = 0; { mpz_class z = d.KeyGen(q & 1 ? b1 : b0).sk.getRawValue(); if (z.fits_slong_p()) sk = z.get_si(); }
        if (i % 3 == 0) { if (h0 % g0 || h1 % g1) { have = false; continue; } v[0] = g0; v[1] = g1; v[2] = h0 / g0; v[3] = h1 / g1; v[4] = sk; n = 5; nm = M; }
        else if (i % 3 == 1) { if (g1 % g0 || h0 % g0) { have = false; continue; } v[0] = g0; v[1] = g1 / g0; v[2] = h0 / g0; v[3] = sk; n = 4; nm = D; }
        else { v[0] = g0; v[1] = g1; v[2] = h0; v[3] = h1; v[4] = sk; n = 5; nm = P; }
        for (int a = 0; a < n; a++) {
            for (int b = 0; b < a; b++) j.add(std::string(nm[b]) + " and " + nm[a] + " of a CRS", v[b], v[a]);
            if (have) for (int b = 0; b < n; b++) j.add(std::string(nm[b]) + " of a CRS and " + nm[a] + " of the next", prev[b], v[a]);
        }
        for (int a = 0; a < n; a++) { prev[a] = v[a]; j.seq(std::string(nm[a]) + " of CRSs", v[a]); }
        have = true;
        evald(hz(g0 * 1000000 + g1 * 10000 + h0 * 100 + h1, i % 3));
    }
    j.judgeSeq([&](const std::string& what, size_t lag, size_t k, size_t n) { viol("recurs:" + what, what + ": " + std::to_string(k) + " of " + std::to_string(n) + " are what came " + std::to_string(lag) + " before"); });
    j.judge([&](const std::string& what, size_t got, size_t of) { viol("dependent-crs:" + what, what + ": " + std::to_string(got) + " of " + std::to_string(of) + " combinations occur"); });
    seen("joint-crs-pairs", j.tested); seen("joint-crs-sequences", j.testedSeq);
}
int main(int argc, char** argv) {
    section("joint", 8, 64, joint);
    section("joint-crs", 3, 24, jointCrs);
    section("width", 32, 3000, [](uint64_t i, Rng& r) {                   // every bit of the randomness matters
        rh::Width w; unsigned bit = rh::aBit(r); std::unique_ptr<DME_DDH> d; pkey_t pk; POINT m = freshPoint(r);
        branch_t kb = i & 1 ? b1 : b0, eb = i & 2 ? b1 : b0;
        auto mk = [&] { d.reset(i % 3 == 0 ? new DME_DDH(messy) : i % 3 == 1 ? new DME_DDH(dec) : new DME_DDH()); };
        auto bad = [&](const std::string& what, unsigned b) { viol("narrow:" + what, what + " does not depend on bit " + std::to_string(b) + " of any random value"); };
        w(r, bit, [&] { mk(); pk = d->KeyGen(kb).pk; }, [&] { ctxt_t c = d->Enc(pk, eb, m); return rh::Outputs{{"u", pstr(c.u)}, {"mask", pstr(c.mv)}}; }, bad);
        w(r, bit, mk, [&] { keypair_t k = d->KeyGen(kb); return rh::Outputs{{"secret key", hex(k.sk.getRawValue())}}; }, bad);
        if (i % 4 == 0) w(r, bit, [] {}, [&] { mk(); return rh::Outputs{{"g0", pstr(d->crs.g0)}, {"g1", pstr(d->crs.g1)}, {"h0", pstr(d->crs.h0)}, {"h1", pstr(d->crs.h1)}}; }, bad);
        if (i % 3 == 1) w(r, bit, mk, [&] { auto t = d->TrapKeyGen(); return rh::Outputs{{"trapdoor key 0", hex(std::get<1>(t).getRawValue())}, {"trapdoor key 1", hex(std::get<2>(t).getRawValue())}}; }, bad);
        {
            auto dep = [&](const std::string& what) { viol("dependent", what); };
            auto crsOut = [&] { mk(); return rh::Outputs{{"", pstr(d->crs.g0)}, {"", pstr(d->crs.g1)}, {"", pstr(d->crs.h0)}, {"", pstr(d->crs.h1)}}; };
            rh::Budget bu;
            if (i % 4 == 1) bu(r, i % 3 == 1 ? 768 : 1024, [] {}, crsOut, [&](const std::string& what) { dep(what + " of a CRS"); });
            auto encs = [&] {                                              // several encryptions under one key, on the messy branch
                rh::Outputs o; for (int q = 0; q < 6; q++) { ctxt_t c = d->Enc(pk, kb == b0 ? b1 : b0, m); o.emplace_back("", pstr(c.u)); o.emplace_back("", pstr(c.mv)); }
                return o; };
            if (i % 3 == 0) bu(r, 12 * 256, [&] { mk(); pk = d->KeyGen(kb).pk; }, encs, [&](const std::string& what) { dep(what + " of exponents of six encryptions"); });
            auto ks = [&] { rh::Outputs o; for (int q = 0; q < 12; q++) o.emplace_back("", hex(d->KeyGen(q & 1 ? b1 : b0).sk.getRawValue())); return o; };
            bu(r, 12 * 256, mk, ks, [&](const std::string& what) { dep(what + " of secret keys"); });
            seen("budget", bu.measured);
        }
        // u hides the message only if two exponents are behind it: where there are several draws, two of them show in u
        int best = 0; uint64_t n = 0;
        for (int q = 0; q < 8 && best < 2; q++) {
            uint64_t s0 = r.next(), s1 = r.next(); std::set<std::string> us; int moved = 0;
            for (long k = -1; k < (long)n || k < 0; k++) {
                rh::set(rh::SEEDED, s0); mk(); pk = d->KeyGen(kb).pk; rh::set(rh::SEEDED, s1);
                uint64_t before = rh::draws(); if (k >= 0) rh::twist(k, bit);
                ctxt_t c = d->Enc(pk, eb, m);
                if (k < 0) n = std::min<uint64_t>(rh::draws() - before, 40);
                if (us.insert(pstr(c.u)).second && k >= 0) moved++;
            }
            best = std::max(best, moved);
        }
        if (n >= 2 && best < 2) bad("second exponent", bit);
        if (n >= 2) seen("width:exponents");
        evald(r.next()); seen("width", w.tested); seen("width-runs", w.runs);
    });
    section("hiding", 256, 16000, hiding);
    section("messy", 160, 8000, messyMode);
    section("dec", 160, 8000, decMode);
    section("plain", 160, 8000, plainMode);
    section("fresh", 64, 2000, fresh);
    return run(argc, argv);
}
