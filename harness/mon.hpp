// Monitor core shared by every driver: case bookkeeping, breadcrumbs that survive a crash,
// violation reporting, deterministic workload randomness.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <exception>
#include <typeinfo>
#include <utility>
#include <vector>
#include <gmp.h>
#include <gmpxx.h>

namespace mon {

// ---------------------------------------------------------------- workload randomness
inline uint64_t mix(uint64_t z) {
    z += 0x9e3779b97f4a7c15ULL;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
inline uint64_t hstr(const std::string& s, uint64_t h = 1469598103934665603ULL) {
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL;
    return mix(h);
}
struct Rng {
    uint64_t s[4];
    explicit Rng(uint64_t seed = 1) { for (auto& x : s) x = seed = mix(seed); }
    uint64_t next() {
        auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
        uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
        return r;
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    bool coin(unsigned num = 1, unsigned den = 2) { return below(den) < num; }
    mpz_class bits(size_t n) {
        std::vector<uint64_t> w((n + 63) / 64 + 1);
        for (auto& x : w) x = next();
        mpz_class r;
        mpz_import(r.get_mpz_t(), w.size(), -1, 8, 0, 0, w.data());
        mpz_fdiv_r_2exp(r.get_mpz_t(), r.get_mpz_t(), n);
        return r;
    }
    mpz_class range(const mpz_class& n) {          // [0,n)
        mpz_class r = bits(mpz_sizeinbase(n.get_mpz_t(), 2) + 64);
        mpz_fdiv_r(r.get_mpz_t(), r.get_mpz_t(), n.get_mpz_t());
        return r;
    }
    template <class T> T& pick(std::vector<T>& v) { return v[below(v.size())]; }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template <class T> void shuffle(std::vector<T>& v) {
        for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[below(i)]);
    }
};

// A value that has much in common with v: for code that remembers, compares or indexes by part of its input.
inline mpz_class near(Rng& r, const mpz_class& v, size_t bits = 256) {
    static const unsigned W[] = {1, 8, 16, 31, 32, 63, 64, 96, 127, 128, 160, 192, 240, 248, 255};
    unsigned k = W[r.below(sizeof W / sizeof *W)];
    mpz_class lo, m = abs(v), t;
    switch (r.below(13)) {
        case 0: return v;
        case 1: return v + 1 + r.below(3);
        case 2: return v > 3 ? mpz_class(v - 1 - r.below(3)) : v;
        case 3: case 4: mpz_fdiv_r_2exp(lo.get_mpz_t(), m.get_mpz_t(), k); return lo + (r.bits(bits > k ? bits - k : 1) << k);     // the same low part
        case 5: case 6: mpz_fdiv_q_2exp(t.get_mpz_t(), m.get_mpz_t(), k); return (t << k) + r.bits(k);                             // the same high part
        case 7: mpz_fdiv_r_2exp(lo.get_mpz_t(), m.get_mpz_t(), bits / 2); return (lo << (bits / 2)) + (m >> (bits / 2));           // halves swapped
        case 8: return r.coin() ? mpz_class(m << (1 + r.below(8))) : mpz_class(m >> (1 + r.below(8)));
        case 9: return ((mpz_class(1) << bits) - 1) ^ m;
        case 10: { size_t a = 8 * r.below(bits / 8), b = 8 * r.below(bits / 8);                                                    // two bytes exchanged
            unsigned long x = mpz_class(mpz_class(m >> a) & 255).get_ui(), y = mpz_class(mpz_class(m >> b) & 255).get_ui();
            return m ^ (mpz_class(x ^ y) << a) ^ (a == b ? mpz_class(0) : mpz_class(mpz_class(x ^ y) << b)); }
        default: return m ^ (mpz_class(1) << r.below(bits));
    }
}

// Pairs of values that should be independent: all combinations of the values that occur have to occur.
struct Joint {
    std::map<std::string, std::map<std::pair<long, long>, int>> h;
    void add(const std::string& what, long a, long b) { h[what][{a, b}]++; }
    // calls bad(what, cells occupied, cells possible) for a pair that looks dependent; values must have small ranges
    template <class F> void judge(F bad) {
        for (auto& e : h) {
            std::set<long> A, B; long n = 0;
            for (auto& c : e.second) { A.insert(c.first.first); B.insert(c.first.second); n += c.second; }
            size_t cells = A.size() * B.size();
            if (A.size() < 2 || B.size() < 2 || A.size() > 16 || B.size() > 16 || n < 20 * (long)cells) continue;
            tested++;
            if (2 * e.second.size() <= cells) bad(e.first, e.second.size(), cells);
        }
    }
    // Sequences of values that should be independent: none may follow itself at any distance.
    std::map<std::string, std::vector<long>> s;
    void seq(const std::string& what, long v) { s[what].push_back(v); }
    // calls bad(what, distance, matches, compared)
    template <class F> void judgeSeq(F bad) {
        for (auto& e : s) {
            const std::vector<long>& v = e.second; size_t n = v.size();
            std::map<long, size_t> f; for (long x : v) f[x]++;
            double p = 0; for (auto& c : f) p += double(c.second) * c.second / (double(n) * n);
            if (n < 250 || p > 0.6) continue;
            testedSeq++;
            for (size_t lag = 1; lag + 150 <= n; lag++) {
                size_t m = n - lag, k = 0;
                for (size_t i = 0; i < m; i++) k += v[i] == v[i + lag];
                double d = k - m * p;
                if (d > 12 + 10 * std::sqrt(m * p * (1 - p))) { bad(e.first, lag, k, m); break; }
            }
        }
    }
    int tested = 0, testedSeq = 0;
};

// ---------------------------------------------------------------- options
struct Opt {
    uint64_t seed = 1;
    bool thorough = false;
    unsigned shard = 0, shards = 1;
    std::string out = "/dev/stdout", section, config = "rel";
    long only = -1;
    double scale = 1;
};
inline Opt opt;

// The breadcrumb lives in a file mapping so that the runner can read it after a crash.
struct Crumb { char section[64]; int64_t idx; char step[160]; };
inline Crumb dummy_crumb;
inline Crumb* crumb = &dummy_crumb;

inline std::mutex mu;
inline std::map<std::string, uint64_t> classes;
inline uint64_t evaluations = 0;
inline std::unordered_set<uint64_t> distinct_set;
inline std::vector<std::string> samples;
inline std::map<std::string, int> sample_per;
inline std::map<std::string, int> viol_per;
inline uint64_t violations = 0;

inline std::string jesc(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
        else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += (char)c;
    }
    return r + "\"";
}
inline void step(const char* s) { snprintf(crumb->step, sizeof crumb->step, "%s", s); }
inline void step(const std::string& s) { step(s.c_str()); }

// one observed event of class `cls`
inline void seen(const std::string& cls, uint64_t n = 1) { std::lock_guard<std::mutex> l(mu); classes[cls] += n; }
// one oracle evaluation; h identifies the (non-trivial) case for the distinctness count
inline void evald(uint64_t h) {
    std::lock_guard<std::mutex> l(mu);
    evaluations++;
    if (distinct_set.size() < 1000000) distinct_set.insert(h);
}
inline void evaltriv() { std::lock_guard<std::mutex> l(mu); evaluations++; }
inline void sample(const std::string& kind, const std::string& s) {
    std::lock_guard<std::mutex> l(mu);
    if (sample_per[kind]++ < 1 && samples.size() < 24) samples.push_back(kind + ": " + s.substr(0, 400));
}
inline void viol(const std::string& key, const std::string& detail) {
    std::lock_guard<std::mutex> l(mu);
    violations++;
    if (viol_per[key]++ >= 3) return;
    FILE* f = fopen((opt.out + ".viol").c_str(), "a");
    if (!f) return;
    fprintf(f, "{\"key\":%s,\"section\":%s,\"case\":%lld,\"step\":%s,\"detail\":%s}\n", jesc(key).c_str(),
            jesc(crumb->section).c_str(), (long long)crumb->idx, jesc(crumb->step).c_str(), jesc(detail.substr(0, 3000)).c_str());
    fclose(f);
}
// check: records an evaluation's verdict
inline bool check(bool ok, const std::string& key, const std::function<std::string()>& detail) {
    if (!ok) viol(key, detail());
    return ok;
}
#define CHECK(cond, key, detail) do { if (!(cond)) ::mon::viol((key), (detail)); } while (0)

struct Section { std::string name; uint64_t quick, thorough; std::function<void(uint64_t, Rng&)> fn; };
inline std::vector<Section> sections;
inline void section(const std::string& name, uint64_t quick, uint64_t thorough, std::function<void(uint64_t, Rng&)> fn) {
    sections.push_back({name, quick, thorough, fn});
}
inline std::function<void(uint64_t)> reseed_hook;   // called before every case with its seed

inline int run(int argc, char** argv) {
    std::string crumbfile;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--seed") opt.seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--tier") opt.thorough = val() == "thorough";
        else if (a == "--shard") { std::string v = val(); sscanf(v.c_str(), "%u/%u", &opt.shard, &opt.shards); }
        else if (a == "--out") opt.out = val();
        else if (a == "--section") opt.section = val();
        else if (a == "--case") opt.only = atol(val().c_str());
        else if (a == "--config") opt.config = val();
        else if (a == "--scale") opt.scale = atof(val().c_str());
        else if (a == "--crumb") crumbfile = val();
    }
    if (!crumbfile.empty()) {
        int fd = open(crumbfile.c_str(), O_RDWR | O_CREAT, 0600);
        if (fd >= 0 && ftruncate(fd, sizeof(Crumb)) == 0) {
            void* m = mmap(0, sizeof(Crumb), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (m != MAP_FAILED) crumb = (Crumb*)m;
            close(fd);
        }
    }
    for (auto& s : sections) {
        std::string want = "," + opt.section + ",";
        if (!opt.section.empty() && want.find("," + s.name + ",") == std::string::npos) continue;
        // long histories and statistics: nothing for a sanitizer that shorter ones do not have
        if (opt.config != "rel" && opt.only < 0 && (s.name == "long" || s.name == "joint" || s.name == "joint-crs" || s.name == "setups" || s.name == "width" || s.name == "budget")) continue;
        snprintf(crumb->section, sizeof crumb->section, "%s", s.name.c_str());
        uint64_t n = opt.thorough ? s.thorough : s.quick;
        if (opt.scale != 1 && n > 1) n = (uint64_t)(n * opt.scale) ? (uint64_t)(n * opt.scale) : 1;
        for (uint64_t i = 0; i < n; i++) {
            if (opt.only >= 0 ? i != (uint64_t)opt.only : (i + &s - &sections[0]) % opt.shards != opt.shard) continue;   // a section of one case does not always fall to the first process
            crumb->idx = (int64_t)i;
            crumb->step[0] = 0;
            uint64_t cs = mix(hstr(s.name) ^ mix(opt.seed) ^ mix(i * 2 + 1));
            Rng r(cs);
            srand((unsigned)cs);
            if (reseed_hook) reseed_hook(cs);
            try { s.fn(i, r); }
            catch (const std::exception& e) { viol("exception:" + s.name, std::string(typeid(e).name()) + ": " + e.what()); }
            seen("case:" + s.name);
        }
    }
    snprintf(crumb->section, sizeof crumb->section, "exit");
    FILE* f = fopen(opt.out.c_str(), "w");
    if (!f) return 3;
    fprintf(f, "{\"evaluations\":%llu,\"distinct\":%llu,\"violations\":%llu,\"classes\":{", (unsigned long long)evaluations,
            (unsigned long long)distinct_set.size(), (unsigned long long)violations);
    bool first = true;
    for (auto& c : classes) { fprintf(f, "%s%s:%llu", first ? "" : ",", jesc(c.first).c_str(), (unsigned long long)c.second); first = false; }
    fprintf(f, "},\"samples\":[");
    for (size_t i = 0; i < samples.size(); i++) fprintf(f, "%s%s", i ? "," : "", jesc(samples[i]).c_str());
    fprintf(f, "]}\n");
    fclose(f);
    f = fopen((opt.out + ".hashes").c_str(), "w");
    if (!f) return 3;
    for (uint64_t h : distinct_set) fwrite(&h, 8, 1, f);
    fclose(f);
    return 0;
}

inline std::string hex(const mpz_class& v) { return v.get_str(16); }
inline uint64_t hz(const mpz_class& v, uint64_t h = 0) {
    h = mix(h ^ (uint64_t)mpz_sgn(v.get_mpz_t()));
    size_t n = mpz_size(v.get_mpz_t());
    for (size_t i = 0; i < n; i++) h = mix(h ^ mpz_getlimbn(v.get_mpz_t(), i));
    return h;
}
} // namespace mon
