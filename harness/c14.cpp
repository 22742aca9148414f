// C14: CRC-32C and checksummed integers.
#include "bytelib.hpp"
#include "crc.hpp"
using namespace mon;

static uint32_t lib(uint32_t c, const uint8_t* p, size_t n) { return calculate_crc32c(c, (const unsigned char*)p, (unsigned)n); }
static mpz_class frameRef(const mpz_class& n) {
    Bytes b = be(n);
    uint32_t c = crcRef(0, b.data(), b.size());
    for (int i = 0; i < 4; i++) b.push_back((uint8_t)(c >> 8 * i));
    return toInt(b);
}
static bool validRef(const mpz_class& v) {
    Bytes b = be(v);
    if (b.size() < 4) return b.empty();
    uint32_t c = crcRef(0, b.data(), b.size() - 4), w = 0;
    for (int i = 0; i < 4; i++) w |= (uint32_t)b[b.size() - 4 + i] << 8 * i;
    return c == w;
}
static mpz_class anInteger(Rng& r, size_t maxbytes) {
    size_t n = std::min(aLen(r), maxbytes);
    Bytes b = content(r, n);
    if (n && !b[0] && r.coin()) b[0] = 1 + r.below(255);
    return toInt(b);
}
static mpz_class flip(const mpz_class& f, const mpz_class& m) { mpz_class r; mpz_xor(r.get_mpz_t(), f.get_mpz_t(), m.get_mpz_t()); return r; }
static void reject(const mpz_class& bad, const mpz_class& f, const char* how) {
    bool v = validateCRC(bad);
    seen(std::string("damage:") + how); evald(hz(bad));
    if (v) viol("damage-accepted", std::string(how) + ": frame " + hex(f) + " became " + hex(bad));
}
int main(int argc, char** argv) {
    section("checksum", 24000, 2000000, [](uint64_t i, Rng& r) {
        size_t n = i < 2400 ? i / 8 % 300 : aLen(r);
        size_t al = i % 8 + 8 * r.below(2);
        Bytes b = content(r, n);
        // exactly n bytes at the end of the allocation, at the wanted alignment
        std::vector<uint8_t> heap(al + n + 16);
        size_t off = (16 - ((uintptr_t)heap.data() & 15) + al) & 15;
        if (n) memcpy(heap.data() + off, b.data(), n);
        uint32_t init = r.coin() ? 0 : r.coin(1, 4) ? 0xffffffffu : (uint32_t)r.next();
        uint32_t want = crcRef(init, b.data(), n), got = lib(init, heap.data() + off, n);
        if (got != want) viol("checksum", "length " + std::to_string(n) + " alignment " + std::to_string(al) + " start " + std::to_string(init) + " of " + hexs(b));
        if (n > 1) {
            size_t c1 = r.below(n + 1), c2 = c1 + r.below(n - c1 + 1);
            uint32_t g = lib(init, heap.data() + off, c1);
            g = lib(g, heap.data() + off + c1, c2 - c1);
            g = lib(g, heap.data() + off + c2, n - c2);
            if (g != want) viol("checksum-piecewise", "cut at " + std::to_string(c1) + "," + std::to_string(c2) + " of " + std::to_string(n) + " bytes " + hexs(b));
        }
        if (n && memcmp(heap.data() + off, b.data(), n)) viol("checksum-writes", "");
        evald(hb(b, init + al)); seen("checksum"); seen("alignment:" + std::to_string(al & 3));
    });
    section("frame", 12000, 1500000, [](uint64_t i, Rng& r) {
        mpz_class n = i < 300 ? mpz_class((unsigned long)i) : i < 2000 ? (mpz_class(1) << (i - 300)) - (i & 1 ? 1 : 0) : anInteger(r, 70000);
        mpz_class keep = n;
        mpz_class f = appendCRC(n);
        if (f != frameRef(n)) viol("append", hex(n) + " -> " + hex(f) + ", expected " + hex(frameRef(n)));
        if (!validateCRC(f)) viol("validate-own", hex(n) + " -> " + hex(f));
        if (removeCRC(f) != n) viol("remove", hex(n) + " -> " + hex(f) + " -> " + hex(removeCRC(f)));
        if (n != keep) viol("input-changed", hex(keep));
        if (r.coin(1, 4)) {                                      // frames of frames
            mpz_class g = appendCRC(f), h = appendCRC(g);
            if (!validateCRC(h) || removeCRC(removeCRC(removeCRC(h))) != n) viol("nested", hex(n));
        }
        if (r.coin()) {                                          // frames of integers with much in common, one after the other
            mpz_class w = near(r, n, be(n).size() * 8 + 8), fw = appendCRC(w);
            if (fw != frameRef(w)) viol("append", hex(w) + " after " + hex(n) + " -> " + hex(fw));
            if (!validateCRC(fw) || removeCRC(fw) != w) viol("remove", hex(w) + " after " + hex(n));
            mpz_class g = near(r, f, be(f).size() * 8 + 8);
            if (validateCRC(g) != validRef(g)) viol("verdict", hex(g) + " after " + hex(f));
            if (!validateCRC(f) || removeCRC(f) != n) viol("validate-own", hex(n) + " -> " + hex(f) + ", again");
            evald(hz(w)); seen("frame:related");
        }
        evald(hz(n)); seen("frame"); seen(be(n).size() < 4 ? "frame:short" : be(n).size() > 128 ? "frame:long" : "frame:medium");
        sample("frame", hex(n) + " -> " + hex(f));
    });
    section("big", 6, 24, [](uint64_t i, Rng& r) {                        // a length that needs a third or a fourth byte
        static const size_t L[] = {0x10000, 0x100000, 0x1000000}; size_t n = L[i % 3] - 5 + r.below(7);
        Bytes b(n); for (auto& c : b) c = (uint8_t)r.next(); b[0] |= 1;
        uint32_t want = crcRef(0, b.data(), n);
        if (lib(0, b.data(), n) != want) viol("checksum", std::to_string(n) + " bytes");
        size_t cut = r.below(n); if (lib(lib(0, b.data(), cut), b.data() + cut, n - cut) != want) viol("checksum-piecewise", std::to_string(n) + " bytes");
        mpz_class m = toInt(b), f = appendCRC(m), lo = f & mpz_class(0xffffffffUL);
        if ((f >> 32) != m || lo != mpz_class((unsigned long)__builtin_bswap32(want))) viol("append", std::to_string(n) + " bytes");
        if (!validateCRC(f)) viol("validate-own", std::to_string(n) + " bytes");
        if (removeCRC(f) != m) viol("remove", std::to_string(n) + " bytes");
        if (validateCRC(f ^ (mpz_class(1 + r.below(255)) << 8 * r.below(n)))) viol("damage-accepted", "a byte of " + std::to_string(n));
        evald(hb(Bytes(b.begin(), b.begin() + 64), n)); seen("big");
    });
    section("arbitrary", 6000, 500000, [](uint64_t i, Rng& r) {        // anything at all: the verdict is the definition's
        mpz_class v = i < 1000 ? mpz_class((unsigned long)(i * (i < 300 ? 1 : 90001))) : anInteger(r, 6000);
        bool g = validateCRC(v);
        if (g != validRef(v)) viol("verdict", hex(v) + " judged " + (g ? "valid" : "invalid"));
        mpz_class rm = removeCRC(v), w;
        mpz_fdiv_q_2exp(w.get_mpz_t(), v.get_mpz_t(), 32);
        if (be(v).size() >= 4 ? rm != w : rm != 0) viol("remove-arbitrary", hex(v) + " -> " + hex(rm));
        evald(hz(v)); seen("arbitrary");
    });
    section("single-bits", 160, 6000, [](uint64_t i, Rng& r) {         // every single bit of a frame and of the zeros in front of it
        mpz_class n = i < 40 ? r.bits(8 * i) : anInteger(r, 651), f = appendCRC(n);
        size_t bits = std::min<size_t>(be(f).size() * 8 + 64, 655 * 8);
        for (size_t k = 0; k < bits; k++) reject(flip(f, mpz_class(1) << k), f, "1 bit");
    });
    section("few-bits", 30000, 3000000, [](uint64_t i, Rng& r) {
        mpz_class n = anInteger(r, 651), f = appendCRC(n), m = 0;
        size_t L = be(f).size(); if (r.coin(1, 8)) L = std::min<size_t>(655, L + r.below(8)); if (!L) L = 5;
        size_t k = 2 + r.below(4), near = r.coin() ? std::min<size_t>(L * 8, 96) : L * 8, base = r.below(L * 8 - near + 1);
        for (int q = 0; q < 1000 && mpz_popcount(m.get_mpz_t()) < k; q++) mpz_setbit(m.get_mpz_t(), base + r.below(near));
        reject(flip(f, m), f, k == 2 ? "2 bits" : k == 3 ? "3 bits" : k == 4 ? "4 bits" : "5 bits");
    });
    section("bursts", 20000, 2000000, [](uint64_t i, Rng& r) {
        mpz_class n = anInteger(r, 651), f = appendCRC(n);
        size_t L = be(f).size(), pos = L > 4 ? r.below(L - 3) : 0;
        if (r.coin(1, 6)) pos = 0;
        if (r.coin(1, 6) && L > 4) pos = L - 4;
        mpz_class m;
        if (r.coin(1, 4)) {                                      // the four bytes cleared, or all of them set
            mpz_class w = (f >> (8 * pos)) & mpz_class(0xffffffffUL);
            m = r.coin() ? w : (w ^ mpz_class(0xffffffffUL));
        } else if (r.coin(1, 4)) { uint32_t a = (uint32_t)mpz_class((f >> (8 * pos)) & mpz_class(0xffffffffUL)).get_ui(); m = mpz_class((unsigned long)(a ^ __builtin_bswap32(a))); }
        else m = r.bits(32);
        if (m == 0) return;
        reject(flip(f, m << (8 * pos)), f, "burst");
    });
    return run(argc, argv);
}
