// Offline checker over a recorded history of transactions on a key/value
// store: atomicity, no dirty or stale reads, strict serializability.
// Every written value is unique and every write observed the value it
// replaced, so the order of versions of a key is read off the history.
#ifndef VERIF_SERCHECK_HPP
#define VERIF_SERCHECK_HPP
#include "vh.hpp"
#include <optional>

namespace ser {
    struct tx {
        uint64_t id{};
        enum { committed, unknown, aborted } outcome{unknown};
        uint64_t invoke{}, ret{~0ULL};
        std::map<std::string, std::string> reads; // includes the old value of written keys
        std::map<std::string, std::string> writes;
    };
    struct result {
        std::string key; // empty when the history is fine
        std::string detail;
        size_t edges{};
        size_t determined{};
    };
    // final: value of each key at the end (missing = "")
    inline result check(const std::vector<tx>& txs,
                        const std::map<std::string, std::string>& fin,
                        const std::string& init = "") {
        result r;
        std::map<std::string, size_t> writer; // value -> tx index
        for(size_t i = 0; i < txs.size(); i++) {
            for(auto& [k, v] : txs[i].writes) {
                writer[k + "=" + v] = i;
            }
        }
        auto bad = [&](const std::string& k, const std::string& d) {
            r.key = k;
            r.detail = d;
            return r;
        };
        std::set<size_t> D;
        std::vector<size_t> work;
        auto add = [&](size_t i) {
            if(D.insert(i).second) {
                work.push_back(i);
            }
        };
        for(size_t i = 0; i < txs.size(); i++) {
            if(txs[i].outcome == tx::committed) {
                add(i);
            }
        }
        std::string err;
        auto see = [&](const std::string& k, const std::string& v, const std::string& who) {
            if(v == init) {
                return true;
            }
            auto it = writer.find(k + "=" + v);
            if(it == writer.end()) {
                err = who + " saw value " + v + " of " + k + " that nobody wrote";
                return false;
            }
            if(txs[it->second].outcome == tx::aborted) {
                err = who + " saw value " + v + " of " + k + " written by aborted tx " + std::to_string(txs[it->second].id);
                return false;
            }
            add(it->second);
            return true;
        };
        for(auto& [k, v] : fin) {
            if(!see(k, v, "final state")) {
                return bad("aborted-or-invented-value", err);
            }
        }
        while(!work.empty()) {
            auto i = work.back();
            work.pop_back();
            for(auto& [k, v] : txs[i].reads) {
                if(!see(k, v, "tx " + std::to_string(txs[i].id))) {
                    return bad("aborted-or-invented-value", err);
                }
            }
        }
        r.determined = D.size();
        // chains
        std::map<std::string, std::vector<size_t>> chain; // key -> writers in order
        std::map<std::string, std::set<size_t>> writers_of;
        for(auto i : D) {
            for(auto& [k, v] : txs[i].writes) {
                writers_of[k].insert(i);
            }
        }
        for(auto& [k, ws] : writers_of) {
            auto fit = fin.find(k);
            std::string cur = fit == fin.end() ? init : fit->second;
            std::vector<size_t> c;
            std::set<size_t> seen;
            while(cur != init) {
                auto w = writer.at(k + "=" + cur);
                if(!seen.insert(w).second) {
                    return bad("version-cycle", "versions of " + k + " form a cycle");
                }
                c.push_back(w);
                auto rit = txs[w].reads.find(k);
                if(rit == txs[w].reads.end()) {
                    return bad("harness", "write without observing the old value");
                }
                cur = rit->second;
            }
            if(seen != ws) {
                for(auto w : ws) {
                    if(seen.count(w) == 0) {
                        return bad("lost-or-partial-update",
                                   "tx " + std::to_string(txs[w].id) + " ("
                                       + (txs[w].outcome == tx::committed ? "committed" : "unknown outcome, seen elsewhere")
                                       + ") wrote " + k + " but that version is not in the history of " + k
                                       + " (replaced " + txs[w].reads.at(k) + ")");
                    }
                }
            }
            std::reverse(c.begin(), c.end());
            chain[k] = c;
        }
        // graph over D
        std::map<size_t, std::set<size_t>> g;
        auto edge = [&](size_t a, size_t b) {
            if(a != b && g[a].insert(b).second) {
                r.edges++;
            }
        };
        for(auto& [k, c] : chain) {
            for(size_t j = 0; j + 1 < c.size(); j++) {
                edge(c[j], c[j + 1]);
            }
        }
        for(auto i : D) {
            for(auto& [k, v] : txs[i].reads) {
                auto& c = chain[k];
                size_t pos = 0; // number of versions at or before v
                if(v != init) {
                    auto w = writer.at(k + "=" + v);
                    auto it = std::find(c.begin(), c.end(), w);
                    if(it == c.end()) {
                        return bad("stale-version", "tx " + std::to_string(txs[i].id) + " read a version of " + k + " that is in no history");
                    }
                    edge(w, i);
                    pos = static_cast<size_t>(it - c.begin()) + 1;
                }
                if(pos < c.size()) {
                    edge(i, c[pos]);
                }
            }
        }
        for(auto a : D) {
            for(auto b : D) {
                if(txs[a].ret < txs[b].invoke) {
                    edge(a, b);
                }
            }
        }
        std::map<size_t, int> indeg;
        for(auto i : D) {
            indeg[i] += 0;
            for(auto j : g[i]) {
                indeg[j]++;
            }
        }
        std::vector<size_t> q;
        for(auto& [i, d] : indeg) {
            if(d == 0) {
                q.push_back(i);
            }
        }
        size_t n = 0;
        while(!q.empty()) {
            auto i = q.back();
            q.pop_back();
            n++;
            for(auto j : g[i]) {
                if(--indeg[j] == 0) {
                    q.push_back(j);
                }
            }
        }
        if(n != D.size()) {
            std::string s = "no serial order: transactions in a cycle:";
            for(auto& [i, d] : indeg) {
                if(d > 0) {
                    s += " [tx " + std::to_string(txs[i].id);
                    for(auto& [k, v] : txs[i].reads) {
                        s += " r(" + k + "=" + v + ")";
                    }
                    for(auto& [k, v] : txs[i].writes) {
                        s += " w(" + k + "=" + v + ")";
                    }
                    s += "]";
                }
            }
            return bad("not-serializable", s);
        }
        return r;
    }
}
#endif
