// Stand-in for NuRaft's buffer (the library is not installed here).  Bytes
// live in their own heap block so that the sanitizers see every overrun.
#ifndef VERIF_NURAFT_BUFFER_HXX
#define VERIF_NURAFT_BUFFER_HXX
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>

namespace nuraft {
    template<typename T>
    using ptr = std::shared_ptr<T>;
    template<typename T, typename... A>
    ptr<T> cs_new(A&&... a) {
        return std::make_shared<T>(std::forward<A>(a)...);
    }
    using byte = unsigned char;
    using ulong = uint64_t;
    using int32 = int32_t;

    class buffer {
      public:
        explicit buffer(size_t n) : m_d(new byte[n > 0 ? n : 1]()), m_n(n) {}
        buffer(const buffer&) = delete;
        buffer& operator=(const buffer&) = delete;
        static ptr<buffer> alloc(size_t n) { return std::make_shared<buffer>(n); }
        static ptr<buffer> copy(const buffer& b) {
            auto r = alloc(b.size() - b.pos());
            memcpy(r->m_d.get(), b.m_d.get() + b.m_p, r->size());
            return r;
        }
        static ptr<buffer> clone(const buffer& b) {
            auto r = alloc(b.size());
            memcpy(r->m_d.get(), b.m_d.get(), r->size());
            return r;
        }
        size_t container_size() const { return m_n; }
        size_t size() const { return m_n; }
        size_t pos() const { return m_p; }
        void pos(size_t p) { m_p = p < m_n ? p : m_n; }
        byte* data() { return m_d.get() + m_p; }
        const byte* data() const { return m_d.get() + m_p; }
        byte* data_begin() const { return m_d.get(); }
        void put_raw(const byte* p, size_t len) {
            need(len);
            memcpy(m_d.get() + m_p, p, len);
            m_p += len;
        }
        byte* get_raw(size_t len) {
            need(len);
            auto* r = m_d.get() + m_p;
            m_p += len;
            return r;
        }
        void put(ulong v) { put_raw(reinterpret_cast<byte*>(&v), 8); }
        void put(byte v) { put_raw(&v, 1); }
        void put(int32 v) { put_raw(reinterpret_cast<byte*>(&v), 4); }
        ulong get_ulong() {
            ulong v{};
            memcpy(&v, get_raw(8), 8);
            return v;
        }
        int32 get_int() {
            int32 v{};
            memcpy(&v, get_raw(4), 4);
            return v;
        }
        byte get_byte() { return *get_raw(1); }

      private:
        void need(size_t len) const {
            if(m_p > m_n || len > m_n - m_p) {
                // The library throws, which ends a program built without
                // exceptions.
                fprintf(stderr, "nuraft::buffer overflow: Assertion `pos + len <= size' failed\n");
                abort();
            }
        }
        std::unique_ptr<byte[]> m_d;
        size_t m_n;
        size_t m_p{0};
    };
}
#endif
