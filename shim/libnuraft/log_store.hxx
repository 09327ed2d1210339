#ifndef VERIF_NURAFT_LOG_STORE_HXX
#define VERIF_NURAFT_LOG_STORE_HXX
#include "buffer.hxx"
#include <cassert>
#include <vector>
namespace nuraft {
    enum log_val_type { app_log = 1, conf = 2 };
    class log_entry {
      public:
        log_entry(ulong term, const ptr<buffer>& buf, log_val_type t = app_log)
            : m_term(term), m_type(t), m_buf(buf) {}
        ulong get_term() const { return m_term; }
        void set_term(ulong t) { m_term = t; }
        log_val_type get_val_type() const { return m_type; }
        bool is_buf_null() const { return !m_buf; }
        buffer& get_buf() const {
            if(!m_buf) {
                fprintf(stderr, "nuraft::log_entry: Assertion `get_buf on an empty entry' failed\n");
                abort();
            }
            return *m_buf;
        }
        ptr<buffer> get_buf_ptr() const { return m_buf; }
        ptr<buffer> serialize() {
            auto n = m_buf ? m_buf->size() : 0;
            auto r = buffer::alloc(8 + 1 + n);
            r->put(m_term);
            r->put(static_cast<byte>(m_type));
            if(n > 0) {
                r->put_raw(m_buf->data_begin(), n);
            }
            r->pos(0);
            return r;
        }
        static ptr<log_entry> deserialize(buffer& b) {
            b.pos(0);
            auto term = b.get_ulong();
            auto t = static_cast<log_val_type>(b.get_byte());
            auto data = buffer::copy(b);
            return cs_new<log_entry>(term, data, t);
        }

      private:
        ulong m_term;
        log_val_type m_type;
        ptr<buffer> m_buf;
    };

    class log_store {
      public:
        virtual ~log_store() = default;
        virtual ulong next_slot() const = 0;
        virtual ulong start_index() const = 0;
        virtual ptr<log_entry> last_entry() const = 0;
        virtual ulong append(ptr<log_entry>& entry) = 0;
        virtual void write_at(ulong index, ptr<log_entry>& entry) = 0;
        virtual void end_of_append_batch(ulong, ulong) {}
        virtual ptr<std::vector<ptr<log_entry>>> log_entries(ulong start, ulong end) = 0;
        virtual ptr<log_entry> entry_at(ulong index) = 0;
        virtual ulong term_at(ulong index) = 0;
        virtual ptr<buffer> pack(ulong index, int32 cnt) = 0;
        virtual void apply_pack(ulong index, buffer& pack) = 0;
        virtual bool compact(ulong last_log_index) = 0;
        virtual bool flush() = 0;
        virtual ulong last_durable_index() { return next_slot() - 1; }
    };
}
#endif
