// Hashes, encodings and the random source against independent references.
//  mode ""       every primitive, one thread
//  mode threads  one random source (and hashing) shared by many threads
#include "vh.hpp"

#include "bech32.h"
#include "crypto/sha256.h"
#include "crypto/siphash.h"
#include "util/common/buffer.hpp"
#include "util/common/hash.hpp"
#include "util/common/hashmap.hpp"
#include "util/common/random_source.hpp"

#include <cpuid.h>
#include <cmath>
#include <fstream>
#include <thread>

namespace sha256_sse4 {
    void Transform(uint32_t* s, const unsigned char* chunk, size_t blocks);
}
namespace sha256d64_sse41 {
    void Transform_4way(unsigned char* out, const unsigned char* in);
}
namespace sha256d64_avx2 {
    void Transform_8way(unsigned char* out, const unsigned char* in);
}
namespace sha256d64_shani {
    void Transform_2way(unsigned char* out, const unsigned char* in);
}
namespace sha256_shani {
    void Transform(uint32_t* s, const unsigned char* chunk, size_t blocks);
}

namespace {
    using bytes = std::vector<unsigned char>;

    // ---- FIPS 180-4, constants derived from the primes
    struct ref_sha {
        uint32_t k[64], h0[8];
        ref_sha() {
            size_t n = 0;
            for(uint32_t p = 2; n < 64; p++) {
                bool prime = true;
                for(uint32_t q = 2; q * q <= p; q++) {
                    prime = prime && p % q != 0;
                }
                if(!prime) {
                    continue;
                }
                if(n < 8) {
                    h0[n] = frac(p, 2);
                }
                k[n++] = frac(p, 3);
            }
        }
        // first 32 bits of the fraction of the square or cube root, exactly
        static uint32_t frac(uint32_t p, int e) {
            // floor(root(p) * 2^32): integer search
            unsigned __int128 lo = 0, hi = static_cast<unsigned __int128>(20) << 32;
            while(hi - lo > 1) {
                auto m = (lo + hi) / 2;
                bool le;
                if(e == 2) {
                    le = m * m <= (static_cast<unsigned __int128>(p) << 64);
                } else {
                    // m^3 <= p * 2^96, with m < 2^37: split to avoid overflow
                    auto m2 = m * m; // < 2^74
                    auto top = (m2 >> 32) * m, low = (m2 & 0xffffffffu) * m; // m^3 = top*2^32 + low
                    auto t2 = top + (low >> 32);
                    le = t2 < (static_cast<unsigned __int128>(p) << 64) || (t2 == (static_cast<unsigned __int128>(p) << 64) && (low & 0xffffffffu) == 0);
                }
                (le ? lo : hi) = m;
            }
            return static_cast<uint32_t>(lo);
        }
        static uint32_t rr(uint32_t x, int n) { return x >> n | x << (32 - n); }
        void block(uint32_t* h, const unsigned char* b) const {
            uint32_t w[64];
            for(int i = 0; i < 16; i++) {
                w[i] = uint32_t(b[4 * i]) << 24 | uint32_t(b[4 * i + 1]) << 16 | uint32_t(b[4 * i + 2]) << 8 | b[4 * i + 3];
            }
            for(int i = 16; i < 64; i++) {
                auto a = w[i - 15], c = w[i - 2];
                w[i] = w[i - 16] + (rr(a, 7) ^ rr(a, 18) ^ a >> 3) + w[i - 7] + (rr(c, 17) ^ rr(c, 19) ^ c >> 10);
            }
            uint32_t v[8];
            std::copy(h, h + 8, v);
            for(int i = 0; i < 64; i++) {
                auto t1 = v[7] + (rr(v[4], 6) ^ rr(v[4], 11) ^ rr(v[4], 25)) + ((v[4] & v[5]) ^ (~v[4] & v[6])) + k[i] + w[i];
                auto t2 = (rr(v[0], 2) ^ rr(v[0], 13) ^ rr(v[0], 22)) + ((v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]));
                for(int j = 7; j > 0; j--) {
                    v[j] = v[j - 1];
                }
                v[4] += t1;
                v[0] = t1 + t2;
            }
            for(int i = 0; i < 8; i++) {
                h[i] += v[i];
            }
        }
        cbdc::hash_t operator()(const unsigned char* d, size_t n) const {
            bytes m(d, d + n);
            m.push_back(0x80);
            while(m.size() % 64 != 56) {
                m.push_back(0);
            }
            for(int i = 7; i >= 0; i--) {
                m.push_back(static_cast<unsigned char>((uint64_t(n) * 8) >> (8 * i)));
            }
            uint32_t h[8];
            std::copy(h0, h0 + 8, h);
            for(size_t i = 0; i < m.size(); i += 64) {
                block(h, m.data() + i);
            }
            cbdc::hash_t out{};
            for(int i = 0; i < 32; i++) {
                out[i] = static_cast<unsigned char>(h[i / 4] >> (24 - 8 * (i % 4)));
            }
            return out;
        }
    };
    const ref_sha& REF() {
        static const ref_sha r;
        return r;
    }

    // ---- SipHash-2-4 from the paper
    uint64_t ref_sip(uint64_t k0, uint64_t k1, const unsigned char* d, size_t n) {
        uint64_t v[4] = {k0 ^ 0x736f6d6570736575ULL, k1 ^ 0x646f72616e646f6dULL, k0 ^ 0x6c7967656e657261ULL, k1 ^ 0x7465646279746573ULL};
        auto rot = [](uint64_t x, int b) {
            return x << b | x >> (64 - b);
        };
        auto round = [&](int times) {
            while(times-- > 0) {
                v[0] += v[1], v[2] += v[3];
                v[1] = rot(v[1], 13) ^ v[0], v[3] = rot(v[3], 16) ^ v[2];
                v[0] = rot(v[0], 32);
                v[2] += v[1], v[0] += v[3];
                v[1] = rot(v[1], 17) ^ v[2], v[3] = rot(v[3], 21) ^ v[0];
                v[2] = rot(v[2], 32);
            }
        };
        for(size_t i = 0; i <= n / 8; i++) {
            uint64_t m = 0;
            for(size_t j = 0; j < 8; j++) {
                auto p = 8 * i + j;
                if(p < n) {
                    m |= uint64_t(d[p]) << (8 * j);
                }
            }
            if(i == n / 8) {
                m |= uint64_t(n & 0xff) << 56;
            }
            v[3] ^= m;
            round(2);
            v[0] ^= m;
        }
        v[2] ^= 0xff;
        round(4);
        return v[0] ^ v[1] ^ v[2] ^ v[3];
    }

    // ---- Bech32: remainder of the polynomial division over GF(32)
    int gmul(int a, int b) {
        int r = 0;
        for(int i = 0; i < 5; i++) {
            if((b >> i & 1) != 0) {
                r ^= a << i;
            }
        }
        for(int i = 9; i >= 5; i--) {
            if((r >> i & 1) != 0) {
                r ^= 0b101001 << (i - 5);
            }
        }
        return r;
    }
    std::array<int, 6> ref_rem(const std::vector<int>& v) {
        static const int g[6] = {29, 22, 20, 21, 29, 18};
        std::array<int, 6> c{0, 0, 0, 0, 0, 1};
        for(auto x : v) {
            int top = c[0];
            for(int i = 0; i < 5; i++) {
                c[i] = c[i + 1];
            }
            c[5] = x;
            for(int i = 0; i < 6; i++) {
                c[i] ^= gmul(top, g[i]);
            }
        }
        return c;
    }
    const std::string ALPHABET = "qpzry9x8gf2tvdw0s3jn54khce6mua7l";
    std::vector<int> expand(const std::string& hrp) {
        std::vector<int> v;
        for(unsigned char ch : hrp) {
            v.push_back(ch >> 5);
        }
        v.push_back(0);
        for(unsigned char ch : hrp) {
            v.push_back(ch & 31);
        }
        return v;
    }
    std::string ref_enc(const std::string& hrp, const std::vector<uint8_t>& d) {
        auto v = expand(hrp);
        v.insert(v.end(), d.begin(), d.end());
        v.insert(v.end(), 6, 0);
        auto rem = ref_rem(v);
        rem[5] ^= 1;
        auto s = hrp + "1";
        for(auto x : d) {
            s += ALPHABET[x];
        }
        for(auto x : rem) {
            s += ALPHABET[static_cast<size_t>(x)];
        }
        return s;
    }
    std::optional<std::pair<std::string, std::vector<uint8_t>>> ref_dec(const std::string& s) {
        bool lo = false, up = false;
        for(unsigned char c : s) {
            if(c < 33 || c > 126) {
                return std::nullopt;
            }
            lo = lo || (c >= 'a' && c <= 'z');
            up = up || (c >= 'A' && c <= 'Z');
        }
        auto pos = s.rfind('1');
        if((lo && up) || s.size() > 90 || pos == std::string::npos || pos < 1 || s.size() - pos - 1 < 6) {
            return std::nullopt;
        }
        std::string l;
        for(unsigned char c : s) {
            l += static_cast<char>(c >= 'A' && c <= 'Z' ? c + 32 : c);
        }
        auto hrp = l.substr(0, pos);
        auto v = expand(hrp);
        std::vector<uint8_t> d;
        for(size_t i = pos + 1; i < l.size(); i++) {
            auto at = ALPHABET.find(l[i]);
            if(at == std::string::npos) {
                return std::nullopt;
            }
            v.push_back(static_cast<int>(at));
            d.push_back(static_cast<uint8_t>(at));
        }
        if(ref_rem(v) != std::array<int, 6>{0, 0, 0, 0, 0, 1}) {
            return std::nullopt;
        }
        d.resize(d.size() - 6);
        return std::make_pair(hrp, d);
    }

    bool has_shani() {
        unsigned a, b, c, d;
        return __get_cpuid_count(7, 0, &a, &b, &c, &d) != 0 && (b >> 29 & 1) != 0;
    }
    // exactly-sized heap copies, so that reading beyond is seen
    struct exact {
        std::unique_ptr<unsigned char[]> p;
        size_t n;
        exact(const unsigned char* d, size_t len, size_t skew = 0) : p(new unsigned char[len + skew]), n(len), off(skew) {
            if(len > 0) {
                std::memcpy(p.get() + skew, d, len);
            }
        }
        size_t off;
        unsigned char* data() { return p.get() + off; }
    };

    size_t a_len(vh::rng& r) {
        switch(r.below(4)) {
            case 0:
                return r.below(130);
            case 1:
                return 50 + r.below(20) + 64 * r.below(6);
            case 2:
                return r.below(1200);
            default:
                return r.below(20000);
        }
    }
    bytes a_data(vh::rng& r, size_t n) {
        bytes b(n);
        if(r.chance(80)) {
            r.bytes(b.data(), n);
        } else {
            std::fill(b.begin(), b.end(), std::array<unsigned char, 3>{0, 0xff, 0x80}[r.below(3)]);
        }
        return b;
    }
    std::string hx(const unsigned char* d, size_t n) {
        static const char* h = "0123456789abcdef";
        std::string s;
        for(size_t i = 0; i < n; i++) {
            s += h[d[i] >> 4];
            s += h[d[i] & 15];
        }
        return s;
    }

    void sha(vh::rng& r) {
        auto d = a_data(r, r.below(4000) == 0 ? (1U << 20) + r.below(1U << 21) : a_len(r));
        auto want = REF()(d.data(), d.size());
        exact e(d.data(), d.size(), r.below(4));
        auto got = cbdc::hash_data(reinterpret_cast<std::byte*>(e.data()), e.n);
        VCHECK(got == want, "hash-data", "hash_data of " << d.size() << " bytes differs from SHA-256");
        // in pieces, with an object used before
        CSHA256 s;
        if(r.chance(50)) {
            s.Write(e.data(), e.n);
            if(r.chance(50)) {
                cbdc::hash_t junk{};
                s.Finalize(junk.data());
            }
            s.Reset();
        }
        size_t at = 0;
        std::string cuts;
        while(at < d.size()) {
            size_t n = std::min<size_t>(d.size() - at, r.chance(50) ? r.below(140) : 64 * r.below(5) + r.below(3));
            exact piece(d.data() + at, n);
            s.Write(piece.data(), n);
            at += n;
            cuts += " " + std::to_string(n);
        }
        cbdc::hash_t got2{};
        s.Finalize(got2.data());
        VCHECK(got2 == want, "sha-pieces", "SHA-256 of " << d.size() << " bytes written in pieces differs, pieces" << cuts.substr(0, 300));
        vh::count("hashes", 2);
        // any number of 64-byte blocks at once
        size_t nb = r.below(20);
        auto in = a_data(r, nb * 64);
        exact ein(in.data(), in.size(), r.below(4));
        std::vector<cbdc::hash_t> wantd(nb);
        for(size_t i = 0; i < nb; i++) {
            auto one = REF()(in.data() + 64 * i, 64);
            wantd[i] = REF()(one.data(), 32);
        }
        exact eout(bytes(nb * 32).data(), nb * 32, r.below(4));
        SHA256D64(eout.data(), ein.data(), nb);
        for(size_t i = 0; i < nb; i++) {
            VCHECK(std::memcmp(eout.data() + 32 * i, wantd[i].data(), 32) == 0, "sha-double", "SHA256D64 of " << nb << " blocks differs in block " << i);
        }
        vh::count("double_hashes", nb);
        // each implementation by itself
        auto multi = [&](const char* name, size_t ways, void (*f)(unsigned char*, const unsigned char*)) {
            bytes src = a_data(r, ways * 64);
            exact ei(src.data(), src.size(), r.below(4));
            exact eo(bytes(ways * 32).data(), ways * 32, r.below(4));
            f(eo.data(), ei.data());
            for(size_t i = 0; i < ways; i++) {
                auto one = REF()(src.data() + 64 * i, 64);
                auto two = REF()(one.data(), 32);
                VCHECK(std::memcmp(eo.data() + 32 * i, two.data(), 32) == 0, std::string("implementation-") + name, "lane " << i << " differs from SHA-256 twice");
            }
            vh::count(std::string("impl_") + name);
        };
        auto single = [&](const char* name, void (*f)(uint32_t*, const unsigned char*, size_t)) {
            size_t blocks = r.below(6);
            bytes src = a_data(r, blocks * 64);
            exact ei(src.data(), src.size(), r.below(4));
            uint32_t h[8], g[8];
            for(int i = 0; i < 8; i++) {
                h[i] = g[i] = static_cast<uint32_t>(r.next());
            }
            f(h, ei.data(), blocks);
            for(size_t i = 0; i < blocks; i++) {
                REF().block(g, src.data() + 64 * i);
            }
            VCHECK(std::equal(h, h + 8, g), std::string("implementation-") + name, "state after " << blocks << " blocks differs");
            vh::count(std::string("impl_") + name);
        };
        if(__builtin_cpu_supports("sse4.1")) {
            multi("sse41", 4, sha256d64_sse41::Transform_4way);
            single("sse4", sha256_sse4::Transform);
        }
        if(__builtin_cpu_supports("avx2")) {
            multi("avx2", 8, sha256d64_avx2::Transform_8way);
        }
        if(has_shani() && __builtin_cpu_supports("sse4.1")) {
            multi("shani", 2, sha256d64_shani::Transform_2way);
            single("shani1", sha256_shani::Transform);
        }
    }

    void sip(vh::rng& r) {
        auto d = a_data(r, r.chance(50) ? r.below(80) : r.below(700));
        uint64_t k0 = r.next(), k1 = r.next();
        auto want = ref_sip(k0, k1, d.data(), d.size());
        CSipHasher h(k0, k1);
        size_t at = 0;
        while(at < d.size()) {
            size_t n = std::min<size_t>(d.size() - at, r.chance(30) ? d.size() : r.below(20));
            if(at % 8 == 0 && d.size() - at >= 8 && r.chance(20)) {
                uint64_t w;
                std::memcpy(&w, d.data() + at, 8);
                h.Write(w);
                at += 8;
                continue;
            }
            exact p(d.data() + at, n);
            h.Write(p.data(), n);
            at += n;
        }
        VCHECK(h.Finalize() == want && h.Finalize() == want, "siphash", "SipHash of " << d.size() << " bytes differs from SipHash-2-4");
        if(!d.empty()) {
            cbdc::buffer b;
            b.append(d.data(), d.size());
            auto x = cbdc::hashing::const_sip_hash<cbdc::buffer>()(b);
            VCHECK(x == ref_sip(0x1337, 0x1337, d.data(), d.size()), "key-hash", "the hash of a key of " << d.size() << " bytes is not SipHash under the fixed key");
        }
        cbdc::hash_t hv{};
        r.bytes(hv.data(), hv.size());
        VCHECK(cbdc::hashing::const_sip_hash<cbdc::hash_t>()(hv) == ref_sip(0x1337, 0x1337, hv.data(), hv.size()), "key-hash", "the hash of a 32-byte id is not SipHash under the fixed key");
        size_t nh = cbdc::hashing::null()(hv);
        cbdc::hash_t same = hv;
        VCHECK(cbdc::hashing::null()(same) == nh, "null-hash", "equal ids hash differently");
        vh::count("siphashes");
    }

    void hex(vh::rng& r) {
        auto d = a_data(r, r.below(300) == 0 ? 51200 : 1 + r.below(r.chance(90) ? 100 : 51200));
        cbdc::buffer b;
        b.append(d.data(), d.size());
        auto s = b.to_hex();
        VCHECK(s == hx(d.data(), d.size()), "to-hex", "to_hex of " << d.size() << " bytes is wrong");
        VCHECK(b.to_hex_prefixed("0x") == "0x" + s && b.to_hex_prefixed("") == s, "to-hex", "to_hex_prefixed does not prepend the prefix");
        auto mixed = s;
        for(auto& c : mixed) {
            if(r.chance(50)) {
                c = static_cast<char>(std::toupper(c));
            }
        }
        auto back = cbdc::buffer::from_hex(mixed);
        VCHECK(back.has_value() && *back == b, "hex-roundtrip", "from_hex(to_hex(x)) is not x for " << d.size() << " bytes");
        auto p1 = cbdc::buffer::from_hex_prefixed("0x" + mixed);
        auto p2 = cbdc::buffer::from_hex_prefixed(mixed);
        VCHECK(p1.has_value() && *p1 == b && p2.has_value() && *p2 == b, "hex-roundtrip", "from_hex_prefixed does not accept the text with and without its prefix");
        if(d[0] < 16) {
            auto odd = cbdc::buffer::from_hex_prefixed("0x" + s.substr(1));
            VCHECK(odd.has_value() && *odd == b, "hex-odd", "from_hex_prefixed of an odd number of digits does not read them as a number");
        }
        // damage it
        auto bad = mixed;
        static const std::string JUNK = " +-gGxX.zZ\t:/@`";
        switch(r.below(3)) {
            case 0:
                bad[r.below(bad.size())] = r.chance(10) ? '\0' : JUNK[r.below(JUNK.size())];
                break;
            case 1:
                bad.pop_back();
                break;
            default:
                bad += JUNK[r.below(JUNK.size())];
                if(bad.size() % 2 != 0) {
                    bad += "0";
                }
        }
        auto rej = cbdc::buffer::from_hex(bad);
        VCHECK(!rej.has_value(), "bad-hex-accepted", "from_hex accepts text which is not hexadecimal: " << bad.substr(0, 120));
        VCHECK(!cbdc::buffer::from_hex("").has_value(), "bad-hex-accepted", "from_hex accepts the empty text");
        vh::count("hex");
        // ids
        cbdc::hash_t h{};
        r.bytes(h.data(), h.size());
        auto t = cbdc::to_string(h);
        VCHECK(t == hx(h.data(), 32), "id-to-string", "to_string of an id gives " << t);
        VCHECK(cbdc::hash_from_hex(t) == h, "id-roundtrip", "hash_from_hex(to_string(x)) is not x");
        // any text at all: no access outside, and the same answer every time
        auto any = t;
        if(r.chance(50)) {
            any = t.substr(0, r.below(65));
        } else {
            any += t.substr(0, 1 + r.below(64)) + (r.chance(50) ? t : "");
        }
        if(r.chance(30)) {
            any[any.empty() ? 0 : r.below(any.size())] = 'z';
        }
        auto x1 = cbdc::hash_from_hex(any);
        volatile unsigned char dirt[256];
        for(auto& v : dirt) {
            v = static_cast<unsigned char>(r.next());
        }
        auto x2 = cbdc::hash_from_hex(any);
        VCHECK(x1 == x2, "id-undetermined", "hash_from_hex gives different ids for the same text of " << any.size() << " characters");
        vh::count("ids");
    }

    void b32(vh::rng& r) {
        std::string hrp;
        size_t hl = 1 + r.below(r.chance(80) ? 6 : 40);
        for(size_t i = 0; i < hl; i++) {
            char c;
            do {
                c = static_cast<char>(33 + r.below(94));
            } while(c >= 'A' && c <= 'Z');
            hrp += c;
        }
        std::vector<uint8_t> d(r.below(90));
        for(auto& x : d) {
            x = static_cast<uint8_t>(r.below(32));
        }
        auto s = bech32::Encode(hrp, d);
        auto want = ref_enc(hrp, d);
        VCHECK(s == want, "bech32-encode", "Encode gives " << s << ", expected " << want);
        auto check = [&](const std::string& t, const char* how) {
            auto w = ref_dec(t);
            auto g = bech32::Decode(t);
            bool gv = !g.first.empty();
            VCHECK(gv == w.has_value() && (!gv || g == *w), std::string("bech32-decode-") + how, "Decode of " << t << " " << (gv ? "succeeds" : "fails") << ", expected " << (w.has_value() ? "success" : "failure") << " or another payload");
            vh::count(w.has_value() ? "bech32_valid" : "bech32_invalid");
        };
        check(s, "valid");
        auto up = s;
        for(auto& c : up) {
            c = static_cast<char>(std::toupper(c));
        }
        check(up, "upper");
        // up to four wrong characters are always noticed
        if(s.size() <= 90) {
            auto t = s;
            size_t n = 1 + r.below(4);
            std::set<size_t> at;
            for(size_t i = 0; i < n; i++) {
                at.insert(hrp.size() + 1 + r.below(s.size() - hrp.size() - 1));
            }
            for(auto p : at) {
                char c;
                do {
                    c = ALPHABET[r.below(32)];
                } while(c == t[p]);
                t[p] = c;
            }
            VCHECK(bech32::Decode(t).first.empty(), "bech32-error-missed", "an address with " << at.size() << " wrong characters decodes: " << t);
            vh::count("bech32_errors");
        }
        // arbitrary edits
        auto t = s;
        for(size_t i = 0; i < 1 + r.below(3); i++) {
            switch(r.below(4)) {
                case 0:
                    t[r.below(t.size())] = static_cast<char>(r.below(256));
                    break;
                case 1:
                    t.erase(r.below(t.size()), 1);
                    break;
                case 2:
                    t.insert(r.below(t.size() + 1), 1, static_cast<char>(r.chance(50) ? '1' : 32 + r.below(100)));
                    break;
                default: {
                    auto p = r.below(t.size());
                    t[p] = static_cast<char>(std::toupper(t[p]));
                }
            }
            if(t.empty()) {
                t = "1";
            }
        }
        check(t, "edited");
    }

    // buffers against a plain vector
    void bufs(vh::rng& r) {
        cbdc::buffer b;
        bytes m;
        for(size_t i = 0; i < 30; i++) {
            switch(r.below(5)) {
                case 0: {
                    auto d = a_data(r, 1 + r.below(100));
                    exact e(d.data(), d.size());
                    b.append(e.data(), e.n);
                    m.insert(m.end(), d.begin(), d.end());
                    break;
                }
                case 1: {
                    size_t n = r.below(50);
                    b.extend(n);
                    m.resize(m.size() + n);
                    break;
                }
                case 2:
                    if(r.chance(20)) {
                        b.clear();
                        m.clear();
                    }
                    break;
                case 3:
                    if(!m.empty()) {
                        auto p = r.below(m.size());
                        auto v = static_cast<unsigned char>(r.next());
                        *static_cast<unsigned char*>(b.data_at(p)) = v;
                        m[p] = v;
                    }
                    break;
                default: {
                    cbdc::buffer o;
                    if(!m.empty()) {
                        o.append(m.data(), m.size());
                    }
                    VCHECK(o == b, "buffer-equal", "a buffer of the same " << m.size() << " bytes is unequal");
                    if(!m.empty()) {
                        *static_cast<unsigned char*>(o.data_at(r.below(m.size()))) ^= 1;
                        VCHECK(!(o == b), "buffer-equal", "buffers that differ in one bit are equal");
                    }
                    b = cbdc::buffer(b);
                }
            }
            VCHECK(b.size() == m.size() && (m.empty() || std::memcmp(b.data(), m.data(), m.size()) == 0), "buffer-content", "buffer of " << b.size() << " bytes differs from the " << m.size() << " bytes put into it");
            VCHECK(m.empty() || (b.c_ptr() == b.data() && static_cast<const void*>(b.c_str()) == b.data()), "buffer-pointers", "pointers to the content differ");
        }
        vh::count("buffers");
    }

    std::string seed_file(const std::string& name, const bytes& content) {
        auto p = vh::st().scratch + "/" + name + std::to_string(vh::st().shard);
        std::ofstream f(p, std::ios::binary | std::ios::trunc);
        f.write(reinterpret_cast<const char*>(content.data()), static_cast<std::streamsize>(content.size()));
        return p;
    }

    void random_one(vh::rng& r) {
        // Different entropy, different outputs; the same entropy, the same
        // outputs; nothing repeats; no byte is much more frequent.
        bytes e1(32), e2(32);
        r.bytes(e1.data(), 32);
        e2 = e1;
        e2[r.below(32)] ^= static_cast<unsigned char>(1 << r.below(8));
        cbdc::random_source a(seed_file("ra", e1)), b(seed_file("rb", e2)), c("/dev/urandom"), d(seed_file("rd", e1));
        std::set<cbdc::hash_t> all;
        std::array<uint64_t, 256> hist{};
        const size_t n = r.chance(20) ? 3000 : 400;
        for(size_t i = 0; i < n; i++) {
            auto x = a.random_hash(), y = b.random_hash(), z = c.random_hash();
            VCHECK(d.random_hash() == x, "random-undetermined", "two sources of the same entropy differ at output " << i);
            all.insert(x);
            all.insert(y);
            all.insert(z);
            for(auto* h : {&x, &y, &z}) {
                for(auto v : *h) {
                    hist[v]++;
                }
            }
        }
        VCHECK(all.size() == 3 * n, "random-repeats", 3 * n - all.size() << " of " << 3 * n << " random ids repeat");
        double exp = 3.0 * n * 32 / 256, chi = 0;
        for(auto v : hist) {
            chi += (static_cast<double>(v) - exp) * (static_cast<double>(v) - exp) / exp;
        }
        // 255 degrees of freedom: mean 255, deviation 22.6
        for(size_t v = 0; v < 256; v++) {
            VCHECK(hist[v] * 4 > exp, "random-skewed", "byte " << v << " occurs " << hist[v] << " times in " << 3 * n << " random ids");
        }
        VCHECK(chi < 255 + 12 * 22.6, "random-skewed", "bytes of random ids are not uniform: chi-square " << chi);
        vh::count("random_ids", 3 * n);
    }

    void one_case(vh::rng& r, uint64_t c) {
        vh::guard g("primitives");
        for(size_t i = 0; i < 4; i++) {
            sha(r);
            sip(r);
            hex(r);
            b32(r);
            bufs(r);
        }
        if(c % 16 == 0) {
            random_one(r);
        }
        vh::distinct(r.next());
    }

    // Threads share one source: together they take exactly what one thread
    // alone would, each output once.
    void threads(vh::rng& r, uint64_t) {
        vh::guard g("random source threads");
        bytes e(32);
        r.bytes(e.data(), 32);
        auto f = seed_file("rt", e);
        cbdc::random_source shared(f), alone(f);
        size_t nt = 2 + r.below(4), per = r.chance(10) ? 4000 : 200 + r.below(500);
        std::vector<std::vector<unsigned>> got(nt);
        std::vector<std::vector<cbdc::hash_t>> ids(nt);
        auto data = a_data(r, a_len(r));
        auto want = REF()(data.data(), data.size());
        std::vector<std::thread> ths;
        std::atomic<size_t> wrong{0};
        for(size_t t = 0; t < nt; t++) {
            ths.emplace_back([&, t] {
                for(size_t i = 0; i < per; i++) {
                    got[t].push_back(shared());
                    if(i % 50 == 0 && cbdc::hash_data(reinterpret_cast<const std::byte*>(data.data()), data.size()) != want) {
                        wrong++;
                    }
                }
            });
        }
        for(auto& t : ths) {
            t.join();
        }
        VCHECK(wrong == 0, "hash-threads", "hash_data gives a wrong result while other threads hash");
        std::multiset<unsigned> all, ref;
        for(auto& v : got) {
            all.insert(v.begin(), v.end());
        }
        for(size_t i = 0; i < nt * per; i++) {
            ref.insert(alone());
        }
        VCHECK(all == ref, "random-threads", "the numbers taken by " << nt << " threads are not the next " << nt * per << " of the source");
        vh::count("thread_numbers", nt * per);
        // did they interleave?
        uint64_t fp = 1;
        for(auto& v : got) {
            fp = vh::mix(fp, v.empty() ? 0 : v[v.size() / 2]);
        }
        vh::distinct(fp);
    }
}

int main(int argc, char** argv) {
    vh::init(argc, argv);
    auto impl = SHA256AutoDetect();
    vh::sample("SHA-256 implementation chosen: " + impl);
    if(vh::st().mode == "threads") {
        vh::run_cases(threads);
    } else {
        vh::run_cases(one_case);
    }
    return vh::finish();
}
