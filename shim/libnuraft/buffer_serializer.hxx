#ifndef VERIF_NURAFT_BUFFER_SERIALIZER_HXX
#define VERIF_NURAFT_BUFFER_SERIALIZER_HXX
#include "buffer.hxx"
namespace nuraft {
    class buffer_serializer {
      public:
        explicit buffer_serializer(buffer& b) : m_b(b) { m_b.pos(0); }
        explicit buffer_serializer(const ptr<buffer>& b) : m_b(*b) { m_b.pos(0); }
        size_t pos() const { return m_b.pos(); }
        void pos(size_t p) { m_b.pos(p); }
        size_t size() const { return m_b.size(); }
        void put_u64(uint64_t v) { m_b.put(v); }
        uint64_t get_u64() { return m_b.get_ulong(); }
        void put_u8(uint8_t v) { m_b.put(v); }
        uint8_t get_u8() { return m_b.get_byte(); }
        void put_raw(const void* p, size_t n) { m_b.put_raw(static_cast<const byte*>(p), n); }
        void* get_raw(size_t n) { return m_b.get_raw(n); }
        void get_buffer(ptr<buffer>& dst) {
            auto n = dst->size() - dst->pos();
            memcpy(dst->data(), m_b.get_raw(n), n);
        }

      private:
        buffer& m_b;
    };
}
#endif
