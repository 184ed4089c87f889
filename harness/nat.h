#pragma once
#include <vector>
#include <string>
#include <cstdint>
// reference naturals: little-endian base 10^9
struct Nat {
    std::vector<uint32_t> d;
    Nat(u64 v = 0) { while (v) { d.push_back(v % 1000000000u); v /= 1000000000u; } }
    void add(Nat const& o) { u64 c = 0; for (size_t i = 0; i < o.d.size() || c; ++i) { if (i >= d.size()) d.push_back(0); c += (u64)d[i] + (i < o.d.size() ? o.d[i] : 0); d[i] = c % 1000000000u; c /= 1000000000u; } }
    void mul(uint32_t k) { u64 c = 0; for (size_t i = 0; i < d.size(); ++i) { c += (u64)d[i] * k; d[i] = c % 1000000000u; c /= 1000000000u; } if (c) d.push_back((uint32_t)c); }
    std::string str() const {
        if (d.empty()) return "0";
        std::string r; for (size_t i = 0; i < d.size(); ++i) { uint32_t v = d[i]; for (int k = 0; k < 9 && (v || i + 1 < d.size()); ++k) { r.insert(r.begin(), (char)('0' + v % 10)); v /= 10; } }
        return r;
    }
    u64 low() const { u64 v = 0; for (size_t i = d.size(); i-- > 0;) v = v * 1000000000u + d[i]; return v; } // modulo 2^64
};
