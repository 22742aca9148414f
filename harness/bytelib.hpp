// Byte strings, integers and the reference checksum, computed without the library.
#pragma once
#include "mon.hpp"
#include <string>
typedef std::vector<uint8_t> Bytes;
// shortest big-endian bytes, by repeated division (not mpz_export)
inline Bytes be(const mpz_class& n) {
    Bytes r;
    std::string s = n.get_str(16);
    if (s == "0") return r;
    if (s.size() % 2) s = "0" + s;
    for (size_t i = 0; i < s.size(); i += 2) r.push_back((uint8_t)strtoul(s.substr(i, 2).c_str(), 0, 16));
    return r;
}
inline std::string hexs(const Bytes& b, size_t max = 80) {
    std::string r; char t[4];
    for (size_t i = 0; i < b.size() && i < max; i++) { snprintf(t, 4, "%02x", b[i]); r += t; }
    if (b.size() > max) r += "...(" + std::to_string(b.size()) + " bytes)";
    return r;
}
inline mpz_class toInt(const Bytes& b) {
    if (b.empty()) return 0;
    std::string s; char t[4];
    s.reserve(b.size() * 2);
    for (uint8_t c : b) { snprintf(t, 4, "%02x", c); s += t; }
    return mpz_class(s, 16);
}
// CRC-32C bit by bit: reflected polynomial 0x82F63B78, no initial or final inversion
inline uint32_t crcRef(uint32_t crc, const uint8_t* p, size_t n) {
    while (n--) {
        crc ^= *p++;
        for (int i = 0; i < 8; i++) crc = crc >> 1 ^ (crc & 1 ? 0x82F63B78u : 0);
    }
    return crc;
}
inline uint64_t hb(const Bytes& b, uint64_t h = 5) { for (uint8_t c : b) h = mon::mix(h ^ c); return mon::mix(h ^ b.size()); }
inline Bytes content(mon::Rng& r, size_t n) {
    Bytes b(n);
    switch (r.below(7)) {
        case 0: break;
        case 1: for (auto& c : b) c = 0xff; break;
        case 2: for (size_t i = 0; i < n; i++) b[i] = (uint8_t)i; break;
        case 3: if (n) b[r.below(n)] = (uint8_t)(1 << r.below(8)); break;
        case 4: { for (auto& c : b) c = (uint8_t)r.next(); size_t z = r.below(n + 1); for (size_t i = 0; i < z; i++) b[i] = 0; break; }
        default: for (auto& c : b) c = (uint8_t)r.next();
    }
    return b;
}
// byte lengths: every small one, around the old fixed buffers, the protocols' sizes, large ones
inline size_t aLen(mon::Rng& r, bool large = true) {
    static const size_t L[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 11, 12, 13, 15, 16, 17, 19, 20, 21, 27, 28, 31, 32, 33, 35, 36, 37, 63, 64, 65, 119, 120, 121,
                               123, 124, 125, 127, 128, 129, 131, 132, 133, 255, 256, 257, 511, 512, 513, 651, 655};
    switch (r.below(large ? 12 : 8)) {
        case 0: case 1: case 2: return L[r.below(sizeof L / sizeof *L)];
        case 3: case 4: case 5: return r.below(40);
        case 6: case 7: return r.below(200);
        case 8: case 9: return r.below(700);
        case 10: return r.below(3000);
        default: {
            static const size_t B[] = {1024, 2048, 4080, 4096, 8192, 16384, 32768, 65520, 65536, 65536, 98304, 131072};
            if (r.coin(1, 6)) return B[r.below(sizeof B / sizeof *B)] - 2 + r.below(5) + (r.coin(1, 3) ? r.below(2000) : 0);
            return r.coin(1, 20) ? r.below(70000) : r.below(5000);
        }
    }
}
