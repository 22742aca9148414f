// C05: what the library's generators really produce (with interposed randomness only to reach the ends of a draw and to note seeds).
#include "pool.hpp"
#include "rng_hook.hpp"
#include "dme.hpp"
#include "elgamal.hpp"
#include "ot.hpp"
#include "puda.hpp"
#include "shamirss.hpp"
#include "utilities.hpp"
#include <atomic>
#include <fstream>
#include <sstream>
#include <sys/wait.h>
#include <thread>
#include <unordered_set>
using namespace mon;

// Every drawn value contributes all of its 96-bit windows at 32-bit steps, and its differences to the previous
// value of its source; any two equal windows mean that random output was replayed somewhere.
struct Replay {
    struct W { uint64_t a; uint32_t b; bool operator<(const W& o) const { return a < o.a || (a == o.a && b < o.b); } bool operator==(const W& o) const { return a == o.a && b == o.b; } };
    struct H { size_t operator()(const W& w) const { return mix(w.a ^ mix(w.b)); } };
    std::unordered_map<W, std::pair<std::string, uint64_t>, H> all;
    bool anyShift = false;               // also look for windows that recur out of step
    std::map<std::string, mpz_class> prev;
    uint64_t serial = 0, clashes = 0;
    void windows(const mpz_class& v, const std::string& origin, uint64_t id) {
        size_t bits = mpz_sizeinbase(v.get_mpz_t(), 2);
        if (anyShift) for (size_t s = 1; s + 96 <= bits; s++) {
            mpz_class t = v >> s; W w{mpz_getlimbn(t.get_mpz_t(), 0), (uint32_t)mpz_getlimbn(t.get_mpz_t(), 1)};
            auto it = all.find(w);
            if (s % 32 && it != all.end()) { clashes++; viol("replay:" + std::min(origin, it->second.first) + "+" + std::max(origin, it->second.first), "96 bits of " + origin + " value " + hex(v) + " from bit " + std::to_string(s) + " were drawn before by " + it->second.first); break; }
        }
        std::set<W> mine;
        for (size_t s = 0; s + 90 <= bits; s += 32) {
            mpz_class t = v >> s;
            W w{0, 0};
            mpz_class lo = t & ((mpz_class(1) << 64) - 1), hi = (t >> 64) & 0xffffffffUL;
            w.a = mpz_get_ui(lo.get_mpz_t()); w.b = mpz_get_ui(hi.get_mpz_t());
            if (s + 96 > bits && s) break;
            if (!mine.insert(w).second) { viol("replay-within:" + origin, origin + " " + hex(v)); continue; }
            auto it = all.find(w);
            if (it != all.end() && it->second.second != id) {
                clashes++;
                viol("replay:" + std::min(origin, it->second.first) + "+" + std::max(origin, it->second.first),
                     "a 96-bit window of " + origin + " value " + hex(v) + " was drawn before by " + it->second.first);
            } else all[w] = {origin, id};
        }
    }
    void value(const mpz_class& v, const std::string& origin) {
        windows(v, origin, ++serial);
        evald(hz(v));
        seen("draw:" + origin);
    }
    void diff(const mpz_class& v, const std::string& origin) {      // arithmetic progressions
        auto it = prev.find(origin);
        if (it != prev.end()) { mpz_class d = v - it->second; windows(abs(d), "difference of " + origin, ++serial); }
        prev[origin] = v;
    }
};

struct Source { std::string name; mpz_class bound; std::function<mpz_class()> draw; };
static std::vector<Source> sources() {
    static Secp::Curve sc; static Bn254::Curve bc; static sss::ShamirSS ss;
    static dme::DME_DDH dmx(dme::messy); static elgamal::ElGamal eg;
    mpz_class sn = ref::to(Secp::G().n), bn = ref::to(Bn254::G().n);
    std::vector<Source> v;
    v.push_back({"secp256r1 scalar", sn, [] { return sc.getRandomScalar().getRawValue(); }});
    v.push_back({"bn254 scalar", bn, [] { return bc.getRandomScalar().getRawValue(); }});
    v.push_back({"bits(256)", mpz_class(1) << 256, [] { return utils::getRandom(256); }});
    v.push_back({"bits(128)", mpz_class(1) << 128, [] { return utils::getRandom(128); }});
    v.push_back({"sharing coefficient", sn, [sn] {
        auto s = ss.getShares(2, 2, sss::FIELD(7));
        return mpz_class((s[1].val - s[0].val).getRawValue());
    }});
    return v;
}

static void statistics(const Source& s, uint64_t N, Replay& rep, uint64_t record) {
    const int B = 16;
    size_t bits = mpz_sizeinbase(mpz_class(s.bound - 1).get_mpz_t(), 2), flat = mpz_popcount(s.bound.get_mpz_t()) == 1 ? bits : bits - 14;
    std::vector<uint64_t> ones(bits), same(bits), bucket(B), selfs(bits > 64 ? bits - 63 : 0);
    mpz_class prev;
    for (uint64_t n = 0; n < N; n++) {
        mpz_class v = s.draw();
        if (v < 0 || v >= s.bound) { viol("range:" + s.name, hex(v) + " is outside [0," + hex(s.bound) + ")"); continue; }
        if (n < record) { rep.value(v, s.name); rep.diff(v, s.name); } else evald(hz(v));
        mpz_class b = v * B / s.bound;
        bucket[b.get_ui()]++;
        mpz_class x = v ^ prev;
        for (size_t i = 0; i < bits; i++) { ones[i] += mpz_tstbit(v.get_mpz_t(), i); same[i] += mpz_tstbit(x.get_mpz_t(), i); }
        if (n < 400) for (size_t l = 1; l + 64 <= bits; l++) { mpz_class y = v ^ (v >> l); mpz_fdiv_r_2exp(y.get_mpz_t(), y.get_mpz_t(), bits - l); selfs[l] += mpz_popcount(y.get_mpz_t()); }
        prev = v;
    }
    for (size_t l = 1; l + 64 <= bits; l++) {                             // a value repeating itself after l bits
        double m = double(std::min<uint64_t>(N, 400)) * (flat > l ? flat - l : 1), d = selfs[l] - m / 2;
        if (flat == bits && d * d > 100.0 * m / 4 + 400) { viol("self-similar:" + s.name, s.name + ": bits " + std::to_string(l) + " apart differ in " + std::to_string(selfs[l]) + " of " + std::to_string((uint64_t)m) + " places"); break; }
    }
    auto far = [&](double got, double p) { double d = got - N * p; return d * d > 64.0 * N * p * (1 - p) + 400; };    // more than 8 sigma
    for (size_t i = 0; i < flat; i++) {
        if (far(ones[i], 0.5)) { viol("bit-bias:" + s.name, s.name + " bit " + std::to_string(i) + " set in " + std::to_string(ones[i]) + " of " + std::to_string(N)); break; }
        if (far(same[i], 0.5)) { viol("bit-correlation:" + s.name, s.name + " bit " + std::to_string(i) + " changes in " + std::to_string(same[i]) + " of " + std::to_string(N)); break; }
    }
    for (int i = 0; i < B; i++)
        if (bits > 8 && far(bucket[i], 1.0 / B)) { viol("spread:" + s.name, s.name + " falls in sixteenth " + std::to_string(i) + " of its range " + std::to_string(bucket[i]) + " of " + std::to_string(N) + " times"); break; }
    seen("statistics:" + s.name);
}

// Everything drawn by one process or thread, as text: origin TAB hex
static void dumpAll(std::ostream& o, int n, bool heavy) {
    for (int i = 0; i < n; i++)
        for (auto& s : sources()) o << s.name << "\t" << s.draw().get_str(16) << "\n";
    if (!heavy) return;
    Secp::Curve sc; Bn254::Curve bc; dme::DME_DDH d(dme::messy); elgamal::ElGamal eg; puda::Puda pu; ot::OTsndr snd(d.crs);
    for (int i = 0; i < 2; i++) {
        o << "transfer message\t" << snd.getRandomMsg().getX().getRawValue().get_str(16) << "\n";
        o << "secp256r1 point\t" << sc.getRandomPoint().getX().getRawValue().get_str(16) << "\n";
        o << "bn254 point\t" << bc.getRandomPoint().getX().getRawValue().get_str(16) << "\n";
        o << "secp256r1 keypair\t" << sc.generateKeyPair().sk.get_str(16) << "\n";
        o << "bn254 keypair\t" << bc.generateKeyPair().sk.get_str(16) << "\n";
        o << "dme key\t" << d.KeyGen(dme::b0).sk.getRawValue().get_str(16) << "\n";
        o << "elgamal key\t" << eg.keyGen().sk.getRawValue().get_str(16) << "\n";
        auto st = pu.Setup(2);
        for (auto& e : std::get<0>(st)) o << "puda key\t" << e.getRawValue().get_str(16) << "\n";
        for (auto& e : std::get<1>(st)) o << "puda tag key\t" << e.tk.getRawValue().get_str(16) << "\n";
    }
    o << "crs\t" << d.crs.g0.getX().getRawValue().get_str(16) << "\n";
}
static void feed(Replay& rep, const std::string& text, const std::string& who) {
    std::istringstream is(text);
    std::string line;
    while (std::getline(is, line)) {
        size_t t = line.find('\t');
        if (t == std::string::npos) continue;
        rep.value(mpz_class(line.substr(t + 1), 16), line.substr(0, t) + "/" + who);
    }
}

template <class C> static void keys(Rng& r, Replay& rep) {
    Pool<C>* dummy = nullptr; (void)dummy;
    typename C::Curve c;
    std::string nm = C::name();
    for (int i = 0; i < 40; i++) {
        auto kp = c.generateKeyPair();
        typename C::Point pk; pk = static_cast<const typename C::Point&>(kp.pk);
        if (kp.sk < 0 || kp.sk >= c.getOrder()) viol("range:keypair " + nm, hex(kp.sk));
        if (!same<C>(pk, ref::Pt::gen(C::G(), ref::from(kp.sk)))) viol("keypair:" + nm, "sk=" + hex(kp.sk) + " pk=" + pstr(pk));
        rep.value(kp.sk, "keypair " + nm); rep.diff(kp.sk, "keypair " + nm);
        auto p = c.getRandomPoint();
        ref::Pt q(C::G());
        if (!p.isValid() || !toRef<C>(p, q)) viol("point-valid:" + nm, pstr(p));
        rep.value(p.getX().getRawValue(), "point " + nm);
        // not a multiple of the generator by anything small
        for (long k = 1; k < 4; k++) if (q == ref::Pt::gen(C::G(), ref::Bn(k))) viol("point-small:" + nm, pstr(p));
    }
}

int main(int argc, char** argv) {
    if (argc > 1 && !strcmp(argv[1], "--dump")) {
        std::ostringstream o; dumpAll(o, 3, true);
        std::string s = o.str();
        return write(1, s.data(), s.size()) == (ssize_t)s.size() ? 0 : 1;
    }
    auto S = sources();
    section("statistics", 8, 64, [&](uint64_t i, Rng&) {
        Replay rep;
        statistics(S[i % S.size()], opt.thorough ? 60000 : 20000, rep, 4000);
        if (i < 4) for (auto& s : S) statistics(s, 2000, rep, 2000);          // all sources against each other
    });
    section("bit-lengths", 32, 400, [&](uint64_t i, Rng& r) {
        Replay rep; rep.anyShift = true;
        for (size_t b : {1ul, 2ul, 7ul, 8ul, 9ul, 16ul, 31ul, 32ul, 33ul, 63ul, 64ul, 65ul, 127ul, 128ul, 129ul, 160ul, 255ul, 256ul, 257ul, 512ul, 1000ul, 2048ul, 3000ul, (size_t)(1 + r.below(1500))})
            statistics({"bits(" + std::to_string(b) + ")", mpz_class(1) << b, [b] { return utils::getRandom(b); }}, 400, rep, 400);
        if (utils::getRandom(0) != 0) viol("range:bits(0)", "not zero");
        seen("bit-lengths");
    });
    section("mixed", 64, 4000, [&](uint64_t, Rng& r) {                        // interleaved draws from every generator
        static Replay rep;
        for (int n = 0; n < 120; n++) { auto& s = r.pick(S); rep.value(s.draw(), s.name); }
        std::ostringstream o; dumpAll(o, 2, true); feed(rep, o.str(), "mixed");
        keys<Secp>(r, rep); keys<Bn254>(r, rep);
        {   // messages of long-lived senders, drawn in turn and between their transfers
            dme::DME_DDH d(dme::messy); ot::OTsndr a(d.crs), b(d.crs), e(a);
            ot::OTsndr* by[] = {&a, &b, &e};
            for (int n = 0; n < 60; n++) {
                ot::OTsndr& o = *by[r.below(3)];
                dme::msg_t m = o.getRandomMsg(); ref::Pt q(Secp::G());
                if (m.isInf() || !m.isValid() || !toRef<Secp>(m, q)) viol("point-valid:transfer message", pstr(m));
                rep.value(m.getX().getRawValue(), "transfer message");
                if (n % 20 == 19) o.encMsgs(d.KeyGen(dme::b0).pk, m, o.getRandomMsg());
                seen("transfer-message");
            }
        }
        // coefficients of larger sharings, recovered by taking differences
        sss::ShamirSS ss;
        for (int n = 0; n < 20; n++) {
            auto sh = ss.getShares(3, 3, sss::FIELD(5));      // a1 + 3 a2 and a1 + 5 a2
            auto d1 = sh[1].val - sh[0].val, d2 = sh[2].val - sh[1].val;
            auto a2 = (d2 - d1) / sss::FIELD(2);
            rep.value(a2.getRawValue(), "second coefficient");
            rep.value((d1 - a2 * sss::FIELD(3)).getRawValue(), "first coefficient");
        }
        seen("mixed");
    });
    section("threads", 8, 200, [&](uint64_t, Rng& r) {                        // simultaneous draws
        Replay rep;
        const int T = 8;
        std::vector<std::string> out(T);
        std::atomic<int> ready{0};
        std::vector<std::thread> th;
        for (int t = 0; t < T; t++) th.emplace_back([&, t] {
            ready++; while (ready < T) {}
            std::ostringstream o; dumpAll(o, 60, true); out[t] = o.str();
        });
        for (auto& t : th) t.join();
        for (int t = 0; t < T; t++) feed(rep, out[t], "thread");
        std::ostringstream o; dumpAll(o, 60, true); feed(rep, o.str(), "main");
        seen("threads", T);
    });
    section("thread-seeds", 1, 8, [&](uint64_t, Rng& r) {                     // the first draws of many threads: how many seeds are there?
        Replay rep;
        const int N = opt.thorough ? 40000 : 4000, T = 50;
        for (int n = 0; n < N; n += T) {
            std::vector<std::string> out(T);
            std::vector<std::thread> th;
            for (int t = 0; t < T; t++) th.emplace_back([&, t] { std::ostringstream o; dumpAll(o, 1, false); out[t] = o.str(); });
            for (auto& t : th) t.join();
            for (auto& s : out) feed(rep, s, "new thread");
            seen("new-thread", T);
        }
    });
    // the ends of every draw's range: a wrong bound that only one draw in 2^32 would show
    section("extremes", 64, 2000, [&](uint64_t i, Rng& r) {
        rh::set(rh::EDGE, r.next());
        struct Off { ~Off() { rh::set(rh::PASS, 0); } } off;
        auto rng = [&](const mpz_class& v, const mpz_class& bound, const std::string& what) {
            evald(hz(v, hz(bound))); seen("extreme");
            if (v < 0 || v >= bound) viol("range:" + what, hex(v) + " is outside [0," + hex(bound) + ")");
            if (v == bound - 1) seen("extreme:top");
            if (v == 0) seen("extreme:zero");
        };
        for (int q = 0; q < 12; q++) {
            for (auto& s : S) rng(s.draw(), s.bound, s.name);
            for (size_t b : {1ul, 8ul, 63ul, 64ul, 65ul, 127ul, 129ul, 255ul, 257ul, (size_t)(1 + r.below(700))}) rng(utils::getRandom(b), mpz_class(1) << b, "bits(" + std::to_string(b) + ")");
        }
        auto two = [&](auto* c, const char* nm) {
            typedef typename std::remove_pointer<decltype(c)>::type C;
            typename C::Curve cv;
            mpz_class n = ref::to(C::G().n);
            for (int q = 0; q < 3; q++) {
                auto kp = cv.generateKeyPair();
                rng(kp.sk, n, std::string("keypair ") + nm);
                typename C::Point pk; pk = static_cast<const typename C::Point&>(kp.pk);
                if (!same<C>(pk, ref::Pt::gen(C::G(), ref::from(kp.sk)))) viol(std::string("keypair:") + nm, "sk=" + hex(kp.sk) + " pk=" + pstr(pk));
                auto p = cv.getRandomPoint(); ref::Pt t(C::G());
                if (!toRef<C>(p, t) || !p.isValid()) viol(std::string("point-valid:") + nm, pstr(p));
                evald(hp(p));
            }
        };
        two((Secp*)0, "secp256r1"); two((Bn254*)0, "bn254");
        mpz_class n = ref::to(Secp::G().n);
        dme::DME_DDH m(dme::messy);
        rng(m.KeyGen(dme::b0).sk.getRawValue(), n, "dme key"); rng(elgamal::ElGamal().keyGen().sk.getRawValue(), n, "elgamal key");
        puda::Puda p; auto st = p.Setup(3);
        for (auto& e : std::get<0>(st)) rng(e.getRawValue(), n, "puda key");
        for (auto& e : std::get<1>(st)) { rng(e.tk.getRawValue(), n, "puda tag key"); rng(e.a, n, "puda tag factor"); }
        sss::ShamirSS ss;
        auto sh = ss.getShares(2, 2, sss::FIELD(5)); rng((sh[1].val - sh[0].val).getRawValue(), n, "sharing coefficient");
    });
    // every bit of what a generator delivers matters to every scalar, key and point made of it
    section("width", 40, 3000, [&](uint64_t i, Rng& r) {
        struct Off { ~Off() { rh::set(rh::PASS, 0); } } off;
        rh::Width w; unsigned bit = rh::aBit(r);
        auto bad = [](const std::string& what, unsigned b) { viol("narrow:" + what, what + " does not depend on bit " + std::to_string(b) + " of any random value"); };
        auto one = [&](const std::string& what, std::function<std::string()> f) { w(r, bit, [] {}, [&] { return rh::Outputs{{what, f()}}; }, bad); };
        Secp::Curve sc; Bn254::Curve bc; size_t nb = 1 + r.below(600);
        one("secp256r1 scalar", [&] { return hex(sc.getRandomScalar().getRawValue()); });
        one("secp256r1 key pair", [&] { return hex(sc.generateKeyPair().sk); });
        ot::OTsndr snd{dme::messy};
        one("transfer message", [&] { return pstr(snd.getRandomMsg()); });
        one("secp256r1 point", [&] { return pstr(sc.getRandomPoint()); });
        one("bits(" + std::to_string(nb) + ")@" + std::to_string(nb), [&] { return hex(utils::getRandom(nb)); });
        one("bits(128)@128", [&] { return hex(utils::getRandom(128)); });
        if (bit < 253) {
            one("bn254 scalar", [&] { return hex(bc.getRandomScalar().getRawValue()); });
            one("bn254 key pair", [&] { return hex(bc.generateKeyPair().sk); });
            one("bn254 point", [&] { return pstr(bc.getRandomPoint()); });
        }
        rh::Budget bu;
        auto dep = [&](const std::string& what) { viol("dependent", what); };
        bu(r, 16 * 256, [] {}, [&] { rh::Outputs o; for (int q = 0; q < 16; q++) o.emplace_back("", q % 4 ? hex(sc.getRandomScalar().getRawValue()) : hex(sc.generateKeyPair().sk)); return o; }, [&](const std::string& s) { dep(s + " of scalars and secret keys"); });
        size_t n2 = 1 + r.below(3000);
        bu(r, (unsigned)n2, [] {}, [&] { return rh::Outputs{{"", hex(utils::getRandom(n2))}}; }, [&](const std::string& s) { dep(s + " of one bit string"); });
        seen("budget", bu.measured);
        evald(r.next()); seen("width", w.tested); seen("width-runs", w.runs);
    });
    // how many seeds are there? Seeds of new threads' generators are noted by the interposed seeding function
    section("seeds", 1, 4, [&](uint64_t, Rng& r) {
        const int T = 8, N = opt.thorough ? 120000 : 24000;
        std::vector<std::vector<mpz_class>> per(T);
        std::vector<std::thread> th;
        for (int t = 0; t < T; t++) th.emplace_back([&, t] {
            for (int n = 0; n < N; n++) std::thread([&, t] {
                std::vector<mpz_class> v; rh::recordSeeds(&v);
                utils::getRandom(8); 
                if (n % 8 == 0) { Secp::Curve c; c.getRandomScalar(); sss::ShamirSS s; s.getShares(2, 2, sss::FIELD(1)); }
                rh::recordSeeds(nullptr);
                for (auto& s : v) per[t].push_back(s);
            }).join();
        });
        for (auto& t : th) t.join();
        std::unordered_set<std::string> all; size_t n = 0;
        for (auto& v : per) for (auto& s : v) {
            n++; seen("seed"); evald(hz(s));
            if (!all.insert(s.get_str(62)).second) { viol("seed-repeats", "two generators were seeded with " + hex(s)); return; }
        }
        sample("seeds", std::to_string(n) + " noted");
    });
    section("processes", 8, 64, [&](uint64_t, Rng& r) {                       // simultaneously started processes
        Replay rep;
        for (int batch = 0; batch < 3; batch++) {
            const int N = 8;
            int fd[N]; pid_t pid[N];
            for (int i = 0; i < N; i++) {
                int p[2]; if (pipe(p)) _exit(64);
                pid[i] = fork();
                if (!pid[i]) { dup2(p[1], 1); close(p[0]); close(p[1]); execl("/proc/self/exe", "c05", "--dump", (char*)0); _exit(127); }
                close(p[1]); fd[i] = p[0];
            }
            for (int i = 0; i < N; i++) {
                std::string s; char b[4096]; ssize_t n;
                while ((n = read(fd[i], b, sizeof b)) > 0) s.append(b, n);
                close(fd[i]);
                int st; waitpid(pid[i], &st, 0);
                if (st || s.empty()) { fprintf(stderr, "dump process failed: %d\n", st); _exit(64); }
                feed(rep, s, "process");
                if (batch == 0 && i < 2) sample("process " + std::to_string(i), s.substr(0, 160));
                seen("process");
            }
        }
        std::ostringstream o; dumpAll(o, 3, true); feed(rep, o.str(), "parent");
    });
    return run(argc, argv);
}
