// U11: JSON-RPC over HTTP.  Modes: server (the real server, scripted clients
// on raw sockets), client (the real client, a scripted server), both.
#include "hnet.hpp"
#include "util/rpc/http/json_rpc_http_client.hpp"
#include "util/rpc/http/json_rpc_http_server.hpp"
#include "vh.hpp"

#include <json/json.h>
#include <map>
#include <memory>
#include <mutex>
#include <poll.h>
#include <set>
#include <sys/socket.h>
#include <thread>
#include <sys/epoll.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <netinet/tcp.h>

// libmicrohttpd 1.0.0 ends the process when MHD_quiesce_daemon and one of the
// daemon's threads take the listening socket out of the same epoll set at the
// same time.  That is the library's, so the second attempt succeeds here.
extern "C" int ___interceptor_epoll_ctl(int, int, int, struct epoll_event*) __attribute__((weak));
extern "C" __attribute__((visibility("default"))) int epoll_ctl(int e, int op, int fd, struct epoll_event* ev) {
    auto r = ___interceptor_epoll_ctl != nullptr ? ___interceptor_epoll_ctl(e, op, fd, ev) : static_cast<int>(::syscall(SYS_epoll_ctl, e, op, fd, ev));
    if(r != 0 && op == EPOLL_CTL_DEL && errno == ENOENT) {
        vh::count("library_race");
        return 0;
    }
    return r;
}

using namespace cbdc;

namespace {
    std::string filler(uint64_t t, size_t n) {
        std::string s;
        vh::rng r(t * 77 + 5);
        while(s.size() < n) {
            static const char* bits[] = {"abc", "\\n\"", "\xc3\xa9", " ", "{[", "\\", "0123456789", "}"};
            s += bits[r.below(8)];
        }
        return s;
    }

    // reads with a deadline; -1 = nothing in time
    ssize_t rd(int s, char* b, size_t n, int ms) {
        pollfd p{s, POLLIN, 0};
        if(::poll(&p, 1, ms) <= 0) {
            return -1;
        }
        auto k = ::recv(s, b, n, 0);
        return k < 0 ? 0 : k;
    }

    bool wr(int s, const std::string& d, vh::rng& r) {
        size_t o = 0;
        bool slow = r.chance(30);
        while(o < d.size()) {
            auto n = slow ? std::min<size_t>(d.size() - o, 1 + r.below(d.size() / 4 + 2)) : d.size() - o;
            auto k = ::send(s, d.data() + o, n, MSG_NOSIGNAL);
            if(k <= 0) {
                return false;
            }
            o += static_cast<size_t>(k);
            if(slow && r.chance(30)) {
                usleep(static_cast<useconds_t>(r.below(1500)));
            }
        }
        return true;
    }

    struct response {
        int m_code{};
        std::map<std::string, std::string> m_headers;
        std::string m_body;
    };

    std::string lower(std::string s) {
        for(auto& c : s) {
            c = static_cast<char>(::tolower(c));
        }
        return s;
    }

    // One response from the connection; buf keeps what follows.
    // 1 = got one, 0 = connection closed, -1 = time is up
    int read_response(int s, std::string& buf, response& out, int ms) {
        auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
        while(true) {
            auto h = buf.find("\r\n\r\n");
            if(h != std::string::npos) {
                out = response();
                out.m_code = std::atoi(buf.c_str() + 9);
                size_t p = buf.find("\r\n");
                while(p < h) {
                    auto e = buf.find("\r\n", p + 2);
                    auto l = buf.substr(p + 2, e - p - 2);
                    auto c = l.find(':');
                    if(c != std::string::npos) {
                        auto v = l.substr(c + 1);
                        v.erase(0, v.find_first_not_of(' '));
                        out.m_headers[lower(l.substr(0, c))] += v;
                    }
                    p = e;
                }
                if(out.m_code == 100) {
                    buf.erase(0, h + 4);
                    continue;
                }
                size_t len = out.m_headers.contains("content-length") ? std::stoul(out.m_headers["content-length"]) : 0;
                if(buf.size() >= h + 4 + len) {
                    out.m_body = buf.substr(h + 4, len);
                    buf.erase(0, h + 4 + len);
                    return 1;
                }
            }
            auto left = std::chrono::duration_cast<std::chrono::milliseconds>(end - std::chrono::steady_clock::now()).count();
            if(left <= 0) {
                return -1;
            }
            char b[16384];
            auto n = rd(s, b, sizeof(b), static_cast<int>(left));
            if(n == 0) {
                return 0;
            }
            if(n > 0) {
                buf.append(b, static_cast<size_t>(n));
            }
        }
    }

    // ---------------------------------------------------------------- server
    // What the application does with a request is in its parameters.
    struct application {
        vn::later_pool m_later{3};
        std::mutex m_m;
        std::map<uint64_t, size_t> m_seen;
        std::map<uint64_t, std::string> m_params;
        Json::StreamWriterBuilder m_w;

        static Json::Value result(uint64_t t, size_t n) {
            Json::Value v;
            v["result"]["t"] = Json::UInt64(t);
            v["result"]["f"] = filler(t, n);
            return v;
        }

        bool handle(const std::string& method, const Json::Value& p, const rpc::json_rpc_http_server::result_callback_type& cb) {
            if(method != "do") {
                // no parameters which could be read
                VCHECK(method == "plain" || method.empty() || method.find('\0') != std::string::npos || method == "m\"\n\xc3\xa9", "U11:method", "the application is given method " << method);
                vh::count("plain_requests");
                Json::Value v;
                v["result"] = p.isNull() ? "none" : "some";
                cb(v);
                return true;
            }
            auto t = p["t"].asUInt64();
            auto n = p["n"].asUInt64();
            auto d = std::chrono::microseconds(p["d"].asUInt64());
            {
                std::unique_lock<std::mutex> l(m_m);
                m_seen[t]++;
                auto it = m_params.find(t);
                VCHECK(it != m_params.end(), "U11:invented-request", "the application is given a request nobody sent");
                VCHECK(Json::writeString(m_w, p) == it->second, "U11:params", "the parameters of a request are changed");
            }
            vh::count("handled");
            switch(p["b"].asUInt64()) {
                case 0:
                    cb(result(t, n));
                    return true;
                case 1:
                    m_later.put(d, [=] {
                        cb(result(t, n));
                    });
                    return true;
                case 2:
                    cb(std::nullopt);
                    return true;
                case 3:
                    m_later.put(d, [=] {
                        cb(std::nullopt);
                    });
                    return true;
                case 5:
                    cb(Json::Value());
                    return true;
                default:
                    return false;
            }
        }
    };

    struct expectation {
        std::vector<int> m_codes;
        bool m_good{};
        uint64_t m_t{};
        uint64_t m_id{};
        size_t m_n{};
        int m_kind{};
        bool m_cors{};
        std::string m_origin;
        bool m_dies{}; // what the server may answer by closing
    };

    void server_case(vh::rng& r, uint64_t) {
        bool cors = r.chance(40);
        application app;
        auto ep = vn::endpoint();
        auto srv = std::make_unique<rpc::json_rpc_http_server>(ep, cors);
        srv->register_handler_callback([&](const std::string& m, const Json::Value& p, const rpc::json_rpc_http_server::result_callback_type& cb) {
            return app.handle(m, p, cb);
        });
        if(!srv->init()) {
            vh::count("port_taken");
            return;
        }
        if(r.chance(8)) {
            // a server which cannot listen can be thrown away
            auto other = std::make_unique<rpc::json_rpc_http_server>(ep, cors);
            VCHECK(!other->init(), "U11:port-shared", "two servers listen on one port");
            other.reset();
            vh::count("no_port");
        }
        auto clients = 1 + r.below(6);
        std::atomic<uint64_t> next{1};
        std::atomic<bool> stopping{false};
        bool early = r.chance(35);
        std::vector<std::thread> ts;
        for(size_t ci = 0; ci < clients; ci++) {
            auto seed = r.next();
            ts.emplace_back([&, seed] {
                vh::rng q(seed);
                int s = -1;
                std::string buf;
                bool fresh{};
                auto since = std::chrono::steady_clock::now();
                auto age = [&] {
                    return std::chrono::duration_cast<std::chrono::milliseconds>(std::chrono::steady_clock::now() - since).count();
                };
                auto rounds = 2 + q.below(12);
                for(size_t i = 0; i < rounds; i++) {
                    fresh = s < 0;
                    if(s < 0) {
                        since = std::chrono::steady_clock::now();
                        s = vn::raw_connect(ep.second);
                        buf.clear();
                        if(s < 0) {
                            VCHECK(stopping, "U11:refused", "the server takes no connection");
                            return;
                        }
                        int one = 1;
                        ::setsockopt(s, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
                    }
                    // some requests, perhaps before the answers to the first
                    auto k = q.chance(20) ? 2 + q.below(3) : 1;
                    std::vector<expectation> ex;
                    std::string out;
                    for(size_t j = 0; j < k; j++) {
                        expectation e;
                        std::string method = "POST";
                        std::string body;
                        auto kind = q.below(20);
                        e.m_kind = static_cast<int>(kind);
                        if(kind < 11) {
                            Json::Value v;
                            e.m_t = next++;
                            e.m_n = q.chance(10) ? q.below(200000) : q.below(50);
                            v["params"]["t"] = Json::UInt64(e.m_t);
                            v["params"]["n"] = Json::UInt64(e.m_n);
                            v["params"]["d"] = Json::UInt64(q.below(q.chance(10) ? 200000 : 3000));
                            auto b = q.below(10);
                            auto beh = b < 3 ? 0 : b < 7 ? 1 : b == 7 ? 2 + q.below(2) : b == 8 ? 4 : 5;
                            v["params"]["b"] = Json::UInt64(beh);
                            if(q.chance(10)) {
                                v["params"]["x"] = filler(e.m_t, q.below(100000));
                            }
                            v["method"] = "do";
                            if(q.chance(80)) {
                                e.m_id = q.chance(50) ? q.below(100) : q.next();
                                v["id"] = Json::UInt64(e.m_id);
                            } else if(q.chance(50)) {
                                v["id"] = q.chance(50) ? Json::Value("abc") : Json::Value(-4);
                            }
                            v["jsonrpc"] = "2.0";
                            Json::StreamWriterBuilder w;
                            body = Json::writeString(w, v);
                            {
                                std::unique_lock<std::mutex> l(app.m_m);
                                app.m_params[e.m_t] = Json::writeString(app.m_w, v["params"]);
                            }
                            e.m_good = beh == 0 || beh == 1 || beh == 5;
                            if(beh == 5) {
                                e.m_n = SIZE_MAX;
                            }
                            e.m_codes = {e.m_good ? 200 : beh == 4 ? 400 : 500};
                        } else if(kind < 15) {
                            e.m_codes = {400};
                            switch(q.below(14)) {
                                case 0:
                                    body = "";
                                    break;
                                case 1:
                                    body = "[]";
                                    break;
                                case 2:
                                    body = "[{\"method\":\"plain\",\"id\":1}]";
                                    break;
                                case 3:
                                    body = "3";
                                    break;
                                case 4:
                                    body = "\"method\"";
                                    break;
                                case 5:
                                    body = "{\"method\":";
                                    break;
                                case 6:
                                    body = "{\"id\":4}";
                                    break;
                                case 7:
                                    body = "{\"method\":[\"plain\"]}";
                                    break;
                                case 8:
                                    body = std::string(100 + q.below(5000), '[');
                                    break;
                                case 9: {
                                    auto n = 500 + q.below(5000);
                                    body = "{\"method\":" + std::string(n, '[') + std::string(n, ']') + "}";
                                    break;
                                }
                                case 10:
                                    body = "null";
                                    break;
                                case 11:
                                    body = "true";
                                    break;
                                case 12: {
                                    for(size_t x = 0; x < 1 + q.below(3000); x++) {
                                        body += "{\"a\":";
                                    }
                                    break;
                                }
                                default:
                                    body = "{\"method\":null,\"params\":1e999999}";
                                    break;
                            }
                            vh::count("bad_requests");
                        } else if(kind < 17) {
                            static const char* ms[] = {"GET", "PUT", "DELETE", "OPTIONS", "PATCH"};
                            method = ms[q.below(5)];
                            if(method != "GET" && q.chance(30)) {
                                body = filler(next++, q.below(2000));
                            }
                            e.m_codes = {method == "OPTIONS" && cors ? 200 : 405};
                            vh::count(body.empty() ? "other_methods" : "other_methods_with_body");
                        } else if(kind == 17) {
                            // strange, but allowed
                            static const std::string bs[] = {"{\"method\":\"plain\"}", "{\"method\":\"plain\",\"params\":[],\"id\":18446744073709551615}", "{\"method\":\"\",\"params\":null}",
                                                             "{\"method\":\"m\\\"\\n\xc3\xa9\",\"id\":[1]}", "{\"method\":\"plain\",\"method\":\"plain\",\"id\":{}}", "{\"method\":\"plain\",\"id\":1.5}"};
                            body = bs[q.below(6)];
                            e.m_codes = {200};
                        } else {
                            // not HTTP, or not finished
                            e.m_dies = true;
                            e.m_codes = {400, 405, 200, 500, 505, 501, 413, 414, 431, 411};
                            if(q.chance(50)) {
                                body = "{\"method\":\"plain\"}";
                                auto m = "POST / HTTP/1.1\r\nHost: a\r\nContent-Length: " + std::to_string(body.size() + 1 + q.below(50)) + "\r\n\r\n" + body;
                                out += m.substr(0, q.below(m.size() + 1));
                            } else {
                                auto n = 1 + q.below(300);
                                for(size_t x = 0; x < n; x++) {
                                    out += static_cast<char>(q.below(256));
                                }
                                out += "\r\n\r\n";
                            }
                            ex.push_back(e);
                            vh::count("broken_requests");
                            break;
                        }
                        out += method + " /" + (q.chance(20) ? "x?y=1" : "") + " HTTP/1.1\r\nHost: localhost\r\n";
                        if(q.chance(30)) {
                            e.m_origin = "http://o" + std::to_string(q.below(1000));
                            out += "Origin: " + e.m_origin + "\r\n";
                        }
                        if(q.chance(30) && !body.empty()) {
                            // in chunks
                            out += "Transfer-Encoding: chunked\r\n\r\n";
                            size_t o = 0;
                            while(o < body.size()) {
                                auto n = std::min<size_t>(body.size() - o, 1 + q.below(body.size()));
                                char h[32];
                                snprintf(h, sizeof(h), "%zx\r\n", n);
                                out += h + body.substr(o, n) + "\r\n";
                                o += n;
                            }
                            out += "0\r\n\r\n";
                        } else {
                            out += "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
                        }
                        e.m_cors = cors;
                        ex.push_back(e);
                    }
                    if(!wr(s, out, q) || q.chance(8)) {
                        // perhaps the server closed it, or we go away without reading
                        if(q.chance(50)) {
                            linger lg{1, 0};
                            ::setsockopt(s, SOL_SOCKET, SO_LINGER, &lg, sizeof(lg));
                        }
                        ::close(s);
                        s = -1;
                        vh::count("left");
                        continue;
                    }
                    bool closed = false;
                    for(auto& e : ex) {
                        if(e.m_dies && q.chance(97)) {
                            ::close(s);
                            closed = true;
                            s = -1;
                            break;
                        }
                        response resp;
                        auto got = read_response(s, buf, resp, 15000);
                        if(got <= 0) {
                            if(got < 0 && !ex.back().m_dies) {
                                vh::die("U11:no-answer", "a request of kind " + std::to_string(e.m_kind) + " is not answered and its connection not closed");
                            }
                            // (what follows the request may be no HTTP, then it ends
                            // the connection, with what was not delivered yet)
                            VCHECK(ex.back().m_dies || stopping, "U11:closed", "the server closes the connection instead of answering a request of kind " << e.m_kind << " (code " << e.m_codes[0] << ") round " << i << " of " << rounds << " index " << (&e - ex.data()) << " of " << ex.size() << " bytes " << out.size() << " fresh " << fresh << " age " << age() << " buf " << buf.size());
                            closed = true;
                            break;
                        }
                        vh::count("answers");
                        if(stopping && resp.m_code == 503) {
                            continue;
                        }
                        bool ok = false;
                        for(auto c : e.m_codes) {
                            ok = ok || c == resp.m_code;
                        }
                        VCHECK(ok, "U11:code", "request of kind " << e.m_kind << " expects " << e.m_codes[0] << ", got " << resp.m_code << " " << resp.m_body.substr(0, 60));
                        if(e.m_dies) {
                            ::close(s);
                            s = -1;
                            closed = true;
                            break;
                        }
                        if(e.m_cors) {
                            VCHECK(resp.m_headers["access-control-allow-origin"] == (e.m_origin.empty() ? "*" : e.m_origin), "U11:origin", "allowed origin " << resp.m_headers["access-control-allow-origin"] << " for " << e.m_origin);
                            vh::count("cors_answers");
                        } else {
                            VCHECK(!resp.m_headers.contains("access-control-allow-origin"), "U11:origin-open", "a server without CORS allows an origin");
                        }
                        if(e.m_kind < 11 && e.m_good) {
                            Json::Value v;
                            Json::Reader rr;
                            VCHECK(rr.parse(resp.m_body, v, false) && v.isObject(), "U11:body", "the answer is not JSON");
                            VCHECK(v["jsonrpc"] == "2.0" && v["id"].isUInt64() && v["id"].asUInt64() == e.m_id, "U11:id", "the answer to request " << e.m_id << " names another: " << resp.m_body.substr(0, 80));
                            if(e.m_n == SIZE_MAX) {
                                VCHECK(v.size() == 2, "U11:content", "an answer without result has one");
                            } else {
                                VCHECK(v["result"]["t"].asUInt64() == e.m_t && v["result"]["f"].asString() == filler(e.m_t, e.m_n), "U11:content", "an answer is of another request or changed");
                            }
                            vh::count("good_answers");
                        }
                    }
                    if(closed && s >= 0) {
                        ::close(s);
                        s = -1;
                    }
                    vh::tick();
                }
                if(s >= 0) {
                    ::close(s);
                }
            });
        }
        if(early) {
            usleep(static_cast<useconds_t>(r.below(20000)));
            stopping = true;
            srv.reset();
            vh::count("stopped_early");
        }
        for(auto& t : ts) {
            t.join();
        }
        if(srv) {
            stopping = true;
            srv.reset();
            vh::count("stopped_late");
        }
        app.m_later.finish();
        uint64_t fp = clients;
        for(auto& [t, n] : app.m_seen) {
            VCHECK(n == 1, "U11:handled-twice", "the application is given a request " << n << " times");
            fp = vh::mix(fp, t);
        }
        vh::distinct(vh::mix(fp, r.next()));
    }

    // ---------------------------------------------------------------- client
    struct plan {
        int m_kind{};
        size_t m_n{};
        size_t m_bad{}; // attempts that fail before one which does not
        std::atomic<size_t> m_tries{};
        uint64_t m_seed{};
    };

    std::string answer(uint64_t t, size_t n) {
        auto v = application::result(t, n);
        v["jsonrpc"] = "2.0";
        Json::StreamWriterBuilder w;
        if(t % 2 == 0) {
            w["indentation"] = "";
        }
        return Json::writeString(w, v);
    }

    struct scripted_server {
        uint16_t m_port{};
        int m_l{-1};
        std::atomic<bool> m_stop{false};
        std::map<uint64_t, plan>& m_plans;
        std::mutex m_m;
        std::vector<std::thread> m_ts;
        std::set<int> m_open;
        std::thread m_acc;

        explicit scripted_server(std::map<uint64_t, plan>& p) : m_plans(p) {}
        bool start() {
            m_port = vn::free_port();
            m_l = ::socket(AF_INET, SOCK_STREAM, 0);
            int one = 1;
            ::setsockopt(m_l, SOL_SOCKET, SO_REUSEADDR, &one, sizeof(one));
            sockaddr_in a{};
            a.sin_family = AF_INET;
            a.sin_port = htons(m_port);
            a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
            if(::bind(m_l, reinterpret_cast<sockaddr*>(&a), sizeof(a)) != 0 || ::listen(m_l, 100) != 0) {
                return false;
            }
            m_acc = std::thread([this] {
                while(true) {
                    auto s = ::accept(m_l, nullptr, nullptr);
                    if(s < 0 || m_stop) {
                        if(s >= 0) {
                            ::close(s);
                        }
                        return;
                    }
                    std::unique_lock<std::mutex> l(m_m);
                    m_open.insert(s);
                    m_ts.emplace_back([this, s] {
                        serve(s);
                        std::unique_lock<std::mutex> ll(m_m);
                        m_open.erase(s);
                        ::close(s);
                    });
                }
            });
            return true;
        }
        void serve(int s) {
            std::string buf;
            while(true) {
                size_t h{};
                size_t len{};
                while(true) {
                    h = buf.find("\r\n\r\n");
                    if(h != std::string::npos) {
                        auto low = lower(buf.substr(0, h));
                        auto c = low.find("content-length:");
                        VCHECK(c != std::string::npos && low.rfind("post ", 0) == 0 && low.find("content-type: application/json") != std::string::npos, "U11:request-form", "the client sends " << low.substr(0, 100));
                        len = std::stoul(low.substr(c + 15));
                        if(low.find("expect: 100-continue") != std::string::npos && buf.size() == h + 4) {
                            std::string ct = "HTTP/1.1 100 Continue\r\n\r\n";
                            (void)!::send(s, ct.data(), ct.size(), MSG_NOSIGNAL);
                        }
                        if(buf.size() >= h + 4 + len) {
                            break;
                        }
                    }
                    char b[16384];
                    auto n = rd(s, b, sizeof(b), 60000);
                    if(n <= 0) {
                        return;
                    }
                    buf.append(b, static_cast<size_t>(n));
                }
                Json::Value v;
                Json::Reader rr;
                VCHECK(rr.parse(buf.substr(h + 4, len), v, false) && v.isObject() && v["method"] == "do" && v["jsonrpc"] == "2.0" && v["params"]["t"].isUInt64(), "U11:request", "the client sends " << buf.substr(h + 4, 100));
                buf.erase(0, h + 4 + len);
                auto t = v["params"]["t"].asUInt64();
                auto it = m_plans.find(t);
                VCHECK(it != m_plans.end() && v["params"]["f"].asString() == filler(t, it->second.m_n / 2), "U11:request-content", "the client sends another request than it was given");
                auto& p = it->second;
                auto tr = p.m_tries++;
                vh::rng q(p.m_seed + tr);
                vh::count("requests_seen");
                if(q.chance(30)) {
                    usleep(static_cast<useconds_t>(q.below(3000)));
                }
                auto body = answer(t, p.m_n);
                if(tr < p.m_bad) {
                    // nothing, or part of the body
                    std::string m = "HTTP/1.1 200 OK\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n";
                    auto hl = m.size();
                    m += body;
                    m.resize(q.chance(20) ? 0 : hl + q.below(body.size()));
                    (void)!::send(s, m.data(), m.size(), MSG_NOSIGNAL);
                    vh::count(m.size() > hl ? "answers_cut" : "answers_missing");
                    if(q.chance(30)) {
                        usleep(2000);
                    }
                    ::shutdown(s, SHUT_RDWR);
                    return;
                }
                std::string m;
                auto code = "200 OK";
                if(p.m_kind == 1) {
                    static const char* cs[] = {"500 no", "404 no", "503 no", "400 no"};
                    code = cs[q.below(4)];
                } else if(p.m_kind == 2) {
                    switch(q.below(6)) {
                        case 0:
                            body = "";
                            break;
                        case 1:
                            body = "{\"result\":";
                            break;
                        case 2:
                            body = "}" + filler(t, 200);
                            break;
                        case 3:
                            body = std::string(500 + q.below(3000), '[');
                            break;
                        case 4:
                            body = body.substr(0, body.size() / 2);
                            break;
                        default: {
                            auto n = 1500 + q.below(3000);
                            body = "{\"result\":" + std::string(n, '[') + std::string(n, ']') + "}";
                        }
                    }
                }
                bool close = q.chance(15);
                bool until_end = close && q.chance(30);
                m = std::string("HTTP/1.1 ") + code + "\r\nContent-Type: application/json\r\n";
                if(close) {
                    m += "Connection: close\r\n";
                }
                if(until_end) {
                    m += "\r\n" + body;
                } else if(q.chance(25)) {
                    m += "Transfer-Encoding: chunked\r\n\r\n";
                    size_t o = 0;
                    while(o < body.size()) {
                        auto n = std::min<size_t>(body.size() - o, 1 + q.below(body.size()));
                        char hh[32];
                        snprintf(hh, sizeof(hh), "%zx\r\n", n);
                        m += hh + body.substr(o, n) + "\r\n";
                        o += n;
                    }
                    m += "0\r\n\r\n";
                } else {
                    m += "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
                }
                if(p.m_kind == 3) {
                    // never
                    continue;
                }
                if(!wr(s, m, q)) {
                    return;
                }
                vh::count("answers_given");
                if(close) {
                    return;
                }
            }
        }
        ~scripted_server() {
            m_stop = true;
            if(m_l >= 0) {
                ::shutdown(m_l, SHUT_RDWR);
            }
            if(m_acc.joinable()) {
                m_acc.join();
            }
            {
                std::unique_lock<std::mutex> l(m_m);
                for(auto s : m_open) {
                    ::shutdown(s, SHUT_RDWR);
                }
            }
            for(auto& t : m_ts) {
                t.join();
            }
            if(m_l >= 0) {
                ::close(m_l);
            }
        }
    };

    struct outcome {
        size_t m_n{};
        std::optional<Json::Value> m_v;
    };

    void client_case(vh::rng& r, uint64_t) {
        bool real = vh::st().mode == "both";
        auto log = std::make_shared<logging::log>(logging::log_level::fatal);
        auto k = 1 + r.below(40);
        std::map<uint64_t, plan> plans;
        bool never = r.chance(30);
        for(uint64_t t = 1; t <= k; t++) {
            auto& p = plans[t];
            auto x = r.below(100);
            p.m_kind = x < 70 ? 0 : x < 80 ? 1 : x < 92 ? 2 : never ? 3 : 0;
            p.m_n = r.chance(1) ? 1000000 + r.below(2000000) : r.chance(15) ? r.below(300000) : r.below(200);
            p.m_bad = r.chance(20) ? 1 + r.below(2) : 0;
            p.m_seed = r.next();
        }
        std::unique_ptr<scripted_server> fake[2];
        application app;
        std::unique_ptr<rpc::json_rpc_http_server> srv;
        std::vector<std::string> eps;
        if(real) {
            auto ep = vn::endpoint();
            srv = std::make_unique<rpc::json_rpc_http_server>(ep, false);
            srv->register_handler_callback([&](const std::string& m, const Json::Value& p, const rpc::json_rpc_http_server::result_callback_type& cb) {
                return app.handle(m, p, cb);
            });
            if(!srv->init()) {
                vh::count("port_taken");
                return;
            }
            eps.push_back("http://127.0.0.1:" + std::to_string(ep.second));
        } else {
            auto nf = 1 + r.below(2);
            for(size_t i = 0; i < nf; i++) {
                fake[i] = std::make_unique<scripted_server>(plans);
                if(!fake[i]->start()) {
                    vh::count("port_taken");
                    return;
                }
                eps.push_back("http://127.0.0.1:" + std::to_string(fake[i]->m_port) + (r.chance(50) ? "/rpc" : ""));
            }
        }
        std::map<uint64_t, outcome> res;
        std::map<uint64_t, int> behaviour;
        {
            auto c = std::make_unique<rpc::json_rpc_http_client>(eps, 0, log);
            uint64_t asked = 0;
            size_t open = 0;
            auto again = r.chance(60);
            bool ending = false;
            std::function<void()> ask = [&] {
                auto t = ++asked;
                auto& p = plans.at(t);
                Json::Value v;
                v["t"] = Json::UInt64(t);
                if(real) {
                    auto b = r.below(10);
                    auto beh = b < 3 ? 0 : b < 7 ? 1 : b == 7 ? 2 + r.below(2) : b == 8 ? 4 : 5;
                    v["b"] = Json::UInt64(beh);
                    v["n"] = Json::UInt64(p.m_n);
                    v["d"] = Json::UInt64(r.below(3000));
                    behaviour[t] = static_cast<int>(beh);
                    std::unique_lock<std::mutex> l(app.m_m);
                    app.m_params[t] = Json::writeString(app.m_w, v);
                } else {
                    v["f"] = filler(t, p.m_n / 2);
                }
                open++;
                c->call("do", v, [&, t](std::optional<Json::Value> x) {
                    auto& o = res[t];
                    VCHECK(o.m_n == 0, "U11:twice", "a call of the client is answered twice");
                    o.m_n++;
                    o.m_v = std::move(x);
                    open--;
                    // calls from within the callback
                    while(!ending && again && asked < k && r.chance(60)) {
                        ask();
                        vh::count("calls_from_callbacks");
                    }
                });
            };
            auto first = 1 + r.below(k);
            while(asked < first) {
                ask();
            }
            auto expected_silent = [&] {
                size_t n = 0;
                for(uint64_t t = 1; t <= asked; t++) {
                    n += !real && plans.at(t).m_kind == 3 ? 1U : 0U;
                }
                return n;
            };
            auto stalled = std::chrono::steady_clock::duration(0);
            bool leave = r.chance(20);
            auto leave_at = r.below(k);
            auto end = std::chrono::steady_clock::now() + std::chrono::seconds(60);
            while(open > expected_silent() || asked < k) {
                while(asked < k && (open <= expected_silent() || r.chance(30))) {
                    ask();
                }
                auto before = std::chrono::steady_clock::now();
                VCHECK(c->pump(), "U11:pump", "the client gives up");
                auto took = std::chrono::steady_clock::now() - before;
                if(took > std::chrono::milliseconds(900) && open > expected_silent()) {
                    // the servers answer at once
                    stalled += took;
                    VCHECK(stalled < std::chrono::seconds(8), "U11:stall", "the client stands still though the server is ready");
                }
                vh::count("pumps");
                if(leave && res.size() >= leave_at) {
                    break;
                }
                if(std::chrono::steady_clock::now() > end) {
                    vh::die("U11:client-no-answer", std::to_string(open) + " calls of the client are not answered");
                }
                vh::tick();
            }
            // those which remain end with the client
            ending = true;
            for(uint64_t t = 1; t <= asked; t++) {
                vh::count(res.contains(t) ? "answered" : "outstanding");
            }
            auto before = res;
            c.reset();
            for(uint64_t t = 1; t <= asked; t++) {
                VCHECK(res.contains(t) && res[t].m_n == 1, "U11:dropped", "a call is not answered though the client is gone");
                if(!before.contains(t)) {
                    VCHECK(!res[t].m_v.has_value(), "U11:invented", "an outstanding call succeeds when the client ends");
                }
            }
            for(auto& [t, o] : before) {
                auto& p = plans.at(t);
                bool good = real ? behaviour[t] == 0 || behaviour[t] == 1 || behaviour[t] == 5 : p.m_kind == 0;
                VCHECK(o.m_v.has_value() == good, "U11:client-result", "the server " << (good ? "answered" : "failed") << " a request (kind " << p.m_kind << ", tries " << p.m_tries << " of which bad " << p.m_bad << ") and the client says " << (o.m_v.has_value() ? "success" : "failure"));
                if(good) {
                    auto& v = *o.m_v;
                    if(real && behaviour[t] == 5) {
                        VCHECK(v.isObject() && v.size() == 2, "U11:client-content", "an answer without result has one");
                    } else {
                        VCHECK(v.isObject() && v["result"]["t"].asUInt64() == t && v["result"]["f"].asString() == filler(t, p.m_n), "U11:client-content", "an answer is of another request or changed");
                    }
                    vh::count("client_good");
                } else {
                    vh::count("client_failed");
                }
                if(!real && p.m_bad > 0) {
                    vh::count("retried");
                }
            }
        }
        fake[0].reset();
        fake[1].reset();
        srv.reset();
        app.m_later.finish();
        for(auto& [t, n] : app.m_seen) {
            VCHECK(n == 1, "U11:handled-twice", "the application is given a request " << n << " times");
        }
        vh::distinct(vh::mix(k, r.next()));
        vh::tick();
    }
}

int main(int argc, char** argv) {
    vh::init(argc, argv);
    if(vh::st().mode == "server") {
        vh::run_cases(server_case);
    } else {
        vh::run_cases(client_case);
    }
    return vh::finish();
}
