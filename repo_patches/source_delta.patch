From 52e9512968f4f20ded59116dd0c3b22bda2c32a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:31 +0000
Subject: [PATCH 01/74] fix: aborted tx must not release locks held by another
 tx

When applying a distributed transaction, a locking shard unlocked every
in-range input of an aborted transaction, even if the transaction never
acquired the lock. Inputs locked by another transaction became spendable
again, allowing a double spend.
---
 src/uhs/twophase/locking_shard/locking_shard.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/uhs/twophase/locking_shard/locking_shard.cpp b/src/uhs/twophase/locking_shard/locking_shard.cpp
index 92a325f..d9ed6c0 100644
--- a/src/uhs/twophase/locking_shard/locking_shard.cpp
+++ b/src/uhs/twophase/locking_shard/locking_shard.cpp
@@ -147,6 +147,7 @@ namespace cbdc::locking_shard {
             return true;
         }
         auto& dtx = prepared_dtx_it->second.m_txs;
+        const auto& lock_results = prepared_dtx_it->second.m_results;
         if(complete_txs.size() != dtx.size()) {
             // This would only happen due to a bug in the controller
             m_logger->fatal("Incorrect number of complete tx flags for apply",
@@ -166,6 +167,11 @@ namespace cbdc::locking_shard {
                     m_uhs.emplace(uhs_id);
                 }
             }
+            // Only release locks which this TX acquired during prepare. Other
+            // inputs could be locked by a different TX or dtx.
+            if(!lock_results[i]) {
+                continue;
+            }
             for(auto&& uhs_id : tx.m_tx.m_inputs) {
                 if(hash_in_shard_range(uhs_id)) {
                     auto was_locked = m_locked.erase(uhs_id);
-- 
2.43.0


From 6f4bc76b0465a83ac26697eae92d81f7a4ef935f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:31 +0000
Subject: [PATCH 02/74] fix: do not report aborted txs as completed

The locking shard added the ID of every transaction in an applied
distributed transaction to the completed TX cache, including aborted ones.
---
 src/uhs/twophase/locking_shard/locking_shard.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uhs/twophase/locking_shard/locking_shard.cpp b/src/uhs/twophase/locking_shard/locking_shard.cpp
index d9ed6c0..45e1bcc 100644
--- a/src/uhs/twophase/locking_shard/locking_shard.cpp
+++ b/src/uhs/twophase/locking_shard/locking_shard.cpp
@@ -158,7 +158,7 @@ namespace cbdc::locking_shard {
         }
         for(size_t i{0}; i < dtx.size(); i++) {
             auto&& tx = dtx[i];
-            if(hash_in_shard_range(tx.m_tx.m_id)) {
+            if(complete_txs[i] && hash_in_shard_range(tx.m_tx.m_id)) {
                 m_completed_txs.add(tx.m_tx.m_id);
             }
 
-- 
2.43.0


From 6c650b4e42d04009bb2cbe54b8ab970c14c90c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 03/74] fix: broker read its highest ticket number without
 holding the lock

---
 src/parsec/broker/impl.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parsec/broker/impl.cpp b/src/parsec/broker/impl.cpp
index 1776796..7aa59bd 100644
--- a/src/parsec/broker/impl.cpp
+++ b/src/parsec/broker/impl.cpp
@@ -68,6 +68,7 @@ namespace cbdc::parsec::broker {
     }
 
     auto impl::highest_ticket() -> ticket_number_type {
+        std::unique_lock l(m_mut);
         return m_highest_ticket;
     }
 
-- 
2.43.0


From 66bf8af1bc5f428af7e17e058fb267d7574123f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 04/74] fix: broker recovery iterated over tickets while
 erasing them

---
 src/parsec/broker/impl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parsec/broker/impl.cpp b/src/parsec/broker/impl.cpp
index 7aa59bd..7d67c37 100644
--- a/src/parsec/broker/impl.cpp
+++ b/src/parsec/broker/impl.cpp
@@ -973,7 +973,10 @@ namespace cbdc::parsec::broker {
 
     auto impl::do_recovery(const recover_callback_type& result_callback)
         -> std::optional<error_code> {
-        for(auto [ticket_number, ticket] : m_tickets) {
+        // Finishing a ticket erases it from m_tickets, possibly before the shard
+        // request returns. Iterate over a copy.
+        const auto tickets = m_tickets;
+        for(const auto& [ticket_number, ticket] : tickets) {
             size_t committed{};
             for(auto& [sidx, t_state] : ticket->m_shard_states) {
                 switch(t_state.m_state) {
-- 
2.43.0


From 1420ec0e91442a54c5e2841310db461bf7890dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 05/74] fix: broker kept an empty recovery result and used it
 in the next recovery

---
 src/parsec/broker/impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsec/broker/impl.cpp b/src/parsec/broker/impl.cpp
index 7d67c37..e6471e1 100644
--- a/src/parsec/broker/impl.cpp
+++ b/src/parsec/broker/impl.cpp
@@ -950,11 +950,11 @@ namespace cbdc::parsec::broker {
                                    }
                                }
                            }
+                           m_recovery_tickets.clear();
                            if(m_tickets.empty()) {
                                done = true;
                                return std::nullopt;
                            }
-                           m_recovery_tickets.clear();
                            return do_recovery(result_callback);
                        },
                        [&](const runtime_locking_shard::error_code& /* e */)
-- 
2.43.0


From 9949a69c43d130eb8e67f023e8ecf6c8533de210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:27 +0000
Subject: [PATCH 06/74] fix: broker never answered commit or finish of a ticket
 without locks

---
 src/parsec/broker/impl.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/parsec/broker/impl.cpp b/src/parsec/broker/impl.cpp
index e6471e1..02fd3da 100644
--- a/src/parsec/broker/impl.cpp
+++ b/src/parsec/broker/impl.cpp
@@ -378,6 +378,7 @@ namespace cbdc::parsec::broker {
                       state_update_type state_updates,
                       commit_callback_type result_callback) -> bool {
         m_log->trace(this, "Broker got commit request for", ticket_number);
+        auto done = false;
         auto maybe_error = [&]() -> std::optional<error_code> {
             std::unique_lock l(m_mut);
             auto it = m_tickets.find(ticket_number);
@@ -423,6 +424,14 @@ namespace cbdc::parsec::broker {
                 }
             }
 
+            if(t_state->m_shard_states.empty()) {
+                // No shard is involved in the ticket, so there will be no
+                // shard response to complete the commit.
+                t_state->m_state = ticket_state::committed;
+                done = true;
+                return std::nullopt;
+            }
+
             if(t_state->m_state == ticket_state::prepared) {
                 return do_commit(result_callback, ticket_number, t_state);
             }
@@ -438,6 +447,8 @@ namespace cbdc::parsec::broker {
                 "Broker calling commit callback with error from commit for",
                 ticket_number);
             result_callback(maybe_error.value());
+        } else if(done) {
+            result_callback(std::nullopt);
         }
 
         return true;
@@ -525,6 +536,13 @@ namespace cbdc::parsec::broker {
                     return std::nullopt;
             }
 
+            if(t_state->m_shard_states.empty()) {
+                // No shard was involved in the ticket. Just delete it.
+                m_tickets.erase(it);
+                done = true;
+                return std::nullopt;
+            }
+
             for(auto& shard : t_state->m_shard_states) {
                 m_log->trace(this,
                              "Broker requesting finish on",
-- 
2.43.0


From b5eb9986ddfb17275e2efc6c47691ea335bbd040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:23 +0000
Subject: [PATCH 07/74] fix: broker sent commit again to shards of a ticket
 that was already committed

---
 src/parsec/broker/impl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parsec/broker/impl.cpp b/src/parsec/broker/impl.cpp
index 02fd3da..3f86ffc 100644
--- a/src/parsec/broker/impl.cpp
+++ b/src/parsec/broker/impl.cpp
@@ -289,6 +289,11 @@ namespace cbdc::parsec::broker {
                              ticket_number);
                 break;
             }
+            if(ts->m_state == ticket_state::committed) {
+                // The last outstanding shard responded before returning from
+                // its request; the ticket might even be finished already.
+                break;
+            }
             if(shard.second.m_state == shard_state_type::committed) {
                 continue;
             }
-- 
2.43.0


From b985e29e6717d865076ff8b02350f0b2c1d2c320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:15 +0000
Subject: [PATCH 08/74] fix: wallet kept outputs spent elsewhere in its spend
 queue

---
 src/uhs/transaction/wallet.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/uhs/transaction/wallet.cpp b/src/uhs/transaction/wallet.cpp
index 059bd68..2886b77 100644
--- a/src/uhs/transaction/wallet.cpp
+++ b/src/uhs/transaction/wallet.cpp
@@ -225,9 +225,11 @@ namespace cbdc {
         }
 
         for(const auto& inp : debits) {
-            const auto erased = m_utxos_set.erase(inp) > 0;
-            if(erased) {
-                m_balance -= inp.m_prevout_data.m_value;
+            const auto utxo = m_utxos_set.find(inp);
+            if(utxo != m_utxos_set.end()) {
+                m_balance -= utxo->m_prevout_data.m_value;
+                m_spend_queue.remove(*utxo);
+                m_utxos_set.erase(utxo);
             }
         }
         assert(m_spend_queue.size() == m_utxos_set.size());
-- 
2.43.0


From ca5f4a7013b140448d63d018fe4035dcbcfeb832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:01 +0000
Subject: [PATCH 09/74] fix: wallet used its key shuffler from several threads
 under a shared lock

---
 src/uhs/transaction/wallet.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uhs/transaction/wallet.cpp b/src/uhs/transaction/wallet.cpp
index 2886b77..41ff91a 100644
--- a/src/uhs/transaction/wallet.cpp
+++ b/src/uhs/transaction/wallet.cpp
@@ -126,7 +126,7 @@ namespace cbdc {
         {
             // TODO: add config parameter where 0 = never reuse.
             static constexpr size_t max_keys = 10000;
-            std::shared_lock<std::shared_mutex> lg(m_keys_mut);
+            std::unique_lock<std::shared_mutex> lg(m_keys_mut);
             if(m_keys.size() > max_keys) {
                 std::uniform_int_distribution<size_t> keyshuffle_dist(
                     0,
-- 
2.43.0


From c0541e7582266f7bb3293d1b48bdd34526efe498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:08 +0000
Subject: [PATCH 10/74] fix: keep notifications of transactions without inputs
 within the atomizer's caches

An out-of-range notification is only refused for transactions with inputs, so
insert() indexed past the end of the incomplete transaction cache and
insert_complete() walked past the end of the spent cache (with a height above
the best one, for 2^64 entries) when the transaction had none.
---
 src/uhs/atomizer/atomizer/atomizer.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/uhs/atomizer/atomizer/atomizer.cpp b/src/uhs/atomizer/atomizer/atomizer.cpp
index cc83610..5d15198 100644
--- a/src/uhs/atomizer/atomizer/atomizer.cpp
+++ b/src/uhs/atomizer/atomizer/atomizer.cpp
@@ -10,6 +10,8 @@
 #include "util/serialization/buffer_serializer.hpp"
 #include "util/serialization/format.hpp"
 
+#include <algorithm>
+
 namespace cbdc::atomizer {
     auto atomizer::make_block()
         -> std::pair<block, std::vector<cbdc::watchtower::tx_error>> {
@@ -45,13 +47,17 @@ namespace cbdc::atomizer {
                           transaction::compact_tx tx,
                           std::unordered_set<uint32_t> attestations)
         -> std::optional<cbdc::watchtower::tx_error> {
-        const auto height_offset = get_notification_offset(block_height);
+        auto height_offset = get_notification_offset(block_height);
 
         auto offset_err = check_notification_offset(height_offset, tx);
         if(offset_err) {
             return offset_err;
         }
 
+        // TXs without inputs are accepted with any notification offset
+        height_offset
+            = std::min<uint64_t>(height_offset, m_spent_cache_depth);
+
         // Search the incomplete transactions vector for this notification's
         // block height offset. Note, we might be able to defer this insertion
         // until after we've checked if the transaction is complete.
@@ -225,7 +231,10 @@ namespace cbdc::atomizer {
         // oldest attestation we're using, check that the inputs have not
         // already been spent.
         auto err_set = std::unordered_set<hash_t, hashing::null>{};
-        for(size_t offset = 0; offset <= cache_check_range; offset++) {
+        // TXs without inputs may have a notification offset outside of the cache
+        const auto max_offset
+            = std::min<uint64_t>(cache_check_range, m_spent_cache_depth);
+        for(size_t offset = 0; offset <= max_offset; offset++) {
             for(const auto& inp : tx.m_inputs) {
                 if(m_spent[offset].find(inp) != m_spent[offset].end()) {
                     err_set.insert(inp);
-- 
2.43.0


From 50a2094ce7098636a6933c1a68aa3b1a02bb87dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 11/74] fix: error cache forgot recent errors when an older one
 for the same ID expired

A second error for a transaction or UHS ID was not stored under the ID, and
evicting the first removed the ID although the second was still in the cache.
---
 src/uhs/atomizer/watchtower/error_cache.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/uhs/atomizer/watchtower/error_cache.cpp b/src/uhs/atomizer/watchtower/error_cache.cpp
index 624842e..bb7cd94 100644
--- a/src/uhs/atomizer/watchtower/error_cache.cpp
+++ b/src/uhs/atomizer/watchtower/error_cache.cpp
@@ -17,19 +17,26 @@ namespace cbdc::watchtower {
         for(auto&& err : errs) {
             if((m_k_errs != 0) && (m_errs.size() == m_k_errs)) {
                 auto& old_err = m_errs.front();
-                m_tx_id_errs.erase(old_err->tx_id());
+                // Newer errors can have replaced this one under the same IDs
+                const auto erase_old = [&](auto& errs_by_id, const auto& id) {
+                    auto it = errs_by_id.find(id);
+                    if(it != errs_by_id.end() && it->second == old_err) {
+                        errs_by_id.erase(it);
+                    }
+                };
+                erase_old(m_tx_id_errs, old_err->tx_id());
 
                 std::visit(overloaded{
                                [](const tx_error_sync& /* unused */) {},
                                [&](const tx_error_inputs_dne& arg) {
                                    for(auto& uhs_id : arg.input_uhs_ids()) {
-                                       m_uhs_errs.erase(uhs_id);
+                                       erase_old(m_uhs_errs, uhs_id);
                                    }
                                },
                                [&](const tx_error_inputs_spent& arg) {
                                    for(const auto& uhs_id :
                                        arg.input_uhs_ids()) {
-                                       m_uhs_errs.erase(uhs_id);
+                                       erase_old(m_uhs_errs, uhs_id);
                                    }
                                },
                                [](const tx_error_stxo_range& /* unused */) {},
@@ -42,17 +49,17 @@ namespace cbdc::watchtower {
 
             auto new_err = std::make_shared<tx_error>(std::move(err));
             m_errs.push(new_err);
-            m_tx_id_errs.insert({new_err->tx_id(), new_err});
+            m_tx_id_errs.insert_or_assign(new_err->tx_id(), new_err);
             std::visit(overloaded{
                            [](const tx_error_sync& /* unused */) {},
                            [&](const tx_error_inputs_dne& arg) {
                                for(auto& uhs_id : arg.input_uhs_ids()) {
-                                   m_uhs_errs.insert({uhs_id, new_err});
+                                   m_uhs_errs.insert_or_assign(uhs_id, new_err);
                                }
                            },
                            [&](const tx_error_inputs_spent& arg) {
                                for(const auto& uhs_id : arg.input_uhs_ids()) {
-                                   m_uhs_errs.insert({uhs_id, new_err});
+                                   m_uhs_errs.insert_or_assign(uhs_id, new_err);
                                }
                            },
                            [](const tx_error_stxo_range& /* unused */) {},
-- 
2.43.0


From 53607ee0d5036aba4b5b9319ae75dcdc4a573822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 12/74] fix: watchtower reported two states for an ID of a
 transaction that succeeded after an error

The states no longer lined up with the requested IDs, and clients took the
stale error for the outcome.
---
 src/uhs/atomizer/watchtower/watchtower.cpp | 46 +++++++++++-----------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/src/uhs/atomizer/watchtower/watchtower.cpp b/src/uhs/atomizer/watchtower/watchtower.cpp
index 06a12af..e103a3f 100644
--- a/src/uhs/atomizer/watchtower/watchtower.cpp
+++ b/src/uhs/atomizer/watchtower/watchtower.cpp
@@ -66,27 +66,8 @@ namespace cbdc::watchtower {
         std::vector<status_update_state> states;
         states.reserve(uhs_ids.size());
         for(const auto& uhs_id : uhs_ids) {
-            auto found_status = false;
-            if(internal_err) {
-                states.emplace_back(
-                    status_update_state{search_status::internal_error,
-                                        best_height,
-                                        uhs_id});
-                found_status = true;
-            } else if(tx_err) {
-                if(auto uhs_err = m_ec.check_uhs_id(uhs_id)) {
-                    states.emplace_back(
-                        status_update_state{search_status::invalid_input,
-                                            best_height,
-                                            uhs_id});
-                } else {
-                    states.emplace_back(
-                        status_update_state{search_status::tx_rejected,
-                                            best_height,
-                                            uhs_id});
-                }
-                found_status = true;
-            }
+            // A transaction in a block succeeded, whatever errors earlier
+            // attempts to submit it caused.
             if(auto spent = m_bc.check_spent(uhs_id)) {
                 auto [height, s_tx_id] = spent.value();
                 if(s_tx_id == tx_id) {
@@ -94,7 +75,7 @@ namespace cbdc::watchtower {
                         status_update_state{search_status::spent,
                                             height,
                                             uhs_id});
-                    found_status = true;
+                    continue;
                 }
             } else if(auto unspent = m_bc.check_unspent(uhs_id)) {
                 auto [height, us_tx_id] = unspent.value();
@@ -103,10 +84,27 @@ namespace cbdc::watchtower {
                         status_update_state{search_status::unspent,
                                             height,
                                             uhs_id});
-                    found_status = true;
+                    continue;
                 }
             }
-            if(!found_status) {
+            if(internal_err) {
+                states.emplace_back(
+                    status_update_state{search_status::internal_error,
+                                        best_height,
+                                        uhs_id});
+            } else if(tx_err) {
+                if(auto uhs_err = m_ec.check_uhs_id(uhs_id)) {
+                    states.emplace_back(
+                        status_update_state{search_status::invalid_input,
+                                            best_height,
+                                            uhs_id});
+                } else {
+                    states.emplace_back(
+                        status_update_state{search_status::tx_rejected,
+                                            best_height,
+                                            uhs_id});
+                }
+            } else {
                 states.emplace_back(
                     status_update_state{search_status::no_history,
                                         best_height,
-- 
2.43.0


From a8509318d9c474103d8082439dccbdca885ffd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:23 +0000
Subject: [PATCH 13/74] fix: watchtower stopped forever on a late or repeated
 block

The archiver catch-up loop only ends at the block before the received one, so
for a block at or below the last height it ran on past the tip of the chain.
---
 src/uhs/atomizer/watchtower/controller.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/uhs/atomizer/watchtower/controller.cpp b/src/uhs/atomizer/watchtower/controller.cpp
index 7ffe9a2..6f36823 100644
--- a/src/uhs/atomizer/watchtower/controller.cpp
+++ b/src/uhs/atomizer/watchtower/controller.cpp
@@ -104,6 +104,10 @@ auto cbdc::watchtower::controller::atomizer_handler(
                     "with",
                     blk.m_transactions.size(),
                     "transactions.");
+    if(blk.m_height <= m_last_blk_height) {
+        m_logger->warn("Not processing duplicate block h:", blk.m_height);
+        return std::nullopt;
+    }
     if(blk.m_height != (m_last_blk_height + 1)) {
         m_logger->warn("Block not contiguous. Last block:", m_last_blk_height);
         while(blk.m_height != (m_last_blk_height + 1)) {
-- 
2.43.0


From b5a37aca02b646ba65ff6b5e18e8d861f55e0ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:39 +0000
Subject: [PATCH 14/74] fix: deserializing a bool from any other byte than 0 or
 1 was undefined behaviour

---
 src/util/serialization/format.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/util/serialization/format.hpp b/src/util/serialization/format.hpp
index 683db37..64015b0 100644
--- a/src/util/serialization/format.hpp
+++ b/src/util/serialization/format.hpp
@@ -86,7 +86,15 @@ namespace cbdc {
     auto operator>>(serializer& s, T& t) ->
         typename std::enable_if_t<std::is_integral_v<T> && !std::is_enum_v<T>,
                                   serializer&> {
-        s.read(&t, sizeof(t));
+        if constexpr(std::is_same_v<T, bool>) {
+            // Only 0 and 1 are valid representations of a bool
+            uint8_t val{};
+            if(s.read(&val, sizeof(val))) {
+                t = val != 0;
+            }
+        } else {
+            s.read(&t, sizeof(t));
+        }
         return s;
     }
 
-- 
2.43.0


From 6ff34e2ec8f7b56fd597c27f95575253dff39b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:12 +0000
Subject: [PATCH 15/74] fix: deserializing a buffer allocated whatever size the
 sender claimed

Twelve bytes made the receiver allocate any amount of memory (or abort). Only
allocate what arrives, as for the other containers.
---
 src/util/serialization/format.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/util/serialization/format.cpp b/src/util/serialization/format.cpp
index 8024d2a..3c0c9e6 100644
--- a/src/util/serialization/format.cpp
+++ b/src/util/serialization/format.cpp
@@ -29,9 +29,22 @@ namespace cbdc {
 
     auto operator>>(serializer& deser, buffer& b) -> serializer& {
         uint64_t sz{};
-        deser >> sz;
-        b.extend(sz);
-        deser.read(b.data(), sz);
+        if(!(deser >> sz)) {
+            return deser;
+        }
+        b.clear();
+        // Don't trust the size, see config::maximum_reservation
+        uint64_t allocated = 0;
+        while(allocated < sz) {
+            const auto len
+                = std::min(sz - allocated, config::maximum_reservation);
+            const auto offset = b.size();
+            b.extend(len);
+            if(!deser.read(b.data_at(offset), len)) {
+                return deser;
+            }
+            allocated += len;
+        }
         return deser;
     }
 }
-- 
2.43.0


From 137742eab3e5b15b1890ff616b90dfbc667b016a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:34 +0000
Subject: [PATCH 16/74] fix: a malformed variant index aborted the process

Refuse it like any other malformed data: mark the serializer as failed.
---
 src/util/raft/serialization.cpp              |  4 ++++
 src/util/raft/serialization.hpp              |  3 +++
 src/util/serialization/buffer_serializer.cpp |  4 ++++
 src/util/serialization/buffer_serializer.hpp |  3 +++
 src/util/serialization/format.hpp            | 14 +++++++++++---
 src/util/serialization/serializer.hpp        |  3 +++
 src/util/serialization/size_serializer.cpp   |  2 ++
 src/util/serialization/size_serializer.hpp   |  3 +++
 src/util/serialization/stream_serializer.cpp |  4 ++++
 src/util/serialization/stream_serializer.hpp |  3 +++
 10 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/src/util/raft/serialization.cpp b/src/util/raft/serialization.cpp
index e6c23d2..a20c012 100644
--- a/src/util/raft/serialization.cpp
+++ b/src/util/raft/serialization.cpp
@@ -50,4 +50,8 @@ namespace cbdc {
         std::memcpy(data, m_buf.get_raw(len), len);
         return true;
     }
+
+    void nuraft_serializer::invalidate() {
+        m_valid = false;
+    }
 }
diff --git a/src/util/raft/serialization.hpp b/src/util/raft/serialization.hpp
index 084ffd4..3f1ca0d 100644
--- a/src/util/raft/serialization.hpp
+++ b/src/util/raft/serialization.hpp
@@ -53,6 +53,9 @@ namespace cbdc {
         ///        from the buffer to the given destination.
         auto read(void* data, size_t len) -> bool final;
 
+        /// Marks the serialized data as malformed.
+        void invalidate() final;
+
       private:
         nuraft::buffer& m_buf;
         bool m_valid{true};
diff --git a/src/util/serialization/buffer_serializer.cpp b/src/util/serialization/buffer_serializer.cpp
index 1e4cc74..14a60a9 100644
--- a/src/util/serialization/buffer_serializer.cpp
+++ b/src/util/serialization/buffer_serializer.cpp
@@ -45,4 +45,8 @@ namespace cbdc {
         m_cursor += len;
         return true;
     }
+
+    void buffer_serializer::invalidate() {
+        m_valid = false;
+    }
 }
diff --git a/src/util/serialization/buffer_serializer.hpp b/src/util/serialization/buffer_serializer.hpp
index 97fd435..6738550 100644
--- a/src/util/serialization/buffer_serializer.hpp
+++ b/src/util/serialization/buffer_serializer.hpp
@@ -49,6 +49,9 @@ namespace cbdc {
         ///         from the buffer.
         auto read(void* data, size_t len) -> bool final;
 
+        /// Marks the serialized data as malformed.
+        void invalidate() final;
+
       private:
         cbdc::buffer& m_pkt;
         size_t m_cursor{};
diff --git a/src/util/serialization/format.hpp b/src/util/serialization/format.hpp
index 64015b0..c2849a5 100644
--- a/src/util/serialization/format.hpp
+++ b/src/util/serialization/format.hpp
@@ -396,8 +396,14 @@ namespace cbdc {
             std::variant_size_v<std::remove_reference_t<decltype(var)>> < std::
                 numeric_limits<S>::max());
         S idx{};
-        deser >> idx;
+        if(!(deser >> idx)) {
+            return deser;
+        }
         auto var_idx = static_cast<size_t>(idx);
+        if(var_idx >= sizeof...(Ts)) {
+            deser.invalidate();
+            return deser;
+        }
         var = expand_type<Ts...>(var_idx);
         std::visit(
             [&](auto&& arg) {
@@ -429,11 +435,13 @@ namespace cbdc {
             S idx{};
             deser >> idx;
             auto i = static_cast<size_t>(idx);
-            assert(i < std::variant_size_v<T>);
+            if(i >= std::variant_size_v<T>) {
+                deser.invalidate();
+                i = 0;
+            }
             static constexpr auto t = std::array{+[](serializer& d) {
                 return T{std::in_place_type<Ts>, d};
             }...};
-            // TODO: deserialization error handling for variant indexes.
             return t.at(i)(deser);
         }
     }
diff --git a/src/util/serialization/serializer.hpp b/src/util/serialization/serializer.hpp
index 54291c4..7901cfe 100644
--- a/src/util/serialization/serializer.hpp
+++ b/src/util/serialization/serializer.hpp
@@ -53,6 +53,9 @@ namespace cbdc {
         ///         from the buffer into the destination.
         virtual auto read(void* data, size_t len) -> bool = 0;
 
+        /// Marks the serialized data as malformed, as if a read had failed.
+        virtual void invalidate() = 0;
+
       protected:
         serializer() = default;
     };
diff --git a/src/util/serialization/size_serializer.cpp b/src/util/serialization/size_serializer.cpp
index 694a8cd..0f5800b 100644
--- a/src/util/serialization/size_serializer.cpp
+++ b/src/util/serialization/size_serializer.cpp
@@ -31,6 +31,8 @@ namespace cbdc {
         return false;
     }
 
+    void size_serializer::invalidate() {}
+
     [[nodiscard]] auto size_serializer::size() const -> size_t {
         return m_cursor;
     }
diff --git a/src/util/serialization/size_serializer.hpp b/src/util/serialization/size_serializer.hpp
index 00d8046..8f87ee0 100644
--- a/src/util/serialization/size_serializer.hpp
+++ b/src/util/serialization/size_serializer.hpp
@@ -44,6 +44,9 @@ namespace cbdc {
         /// \return false.
         auto read(void* data, size_t len) -> bool final;
 
+        /// Marks the serialized data as malformed.
+        void invalidate() final;
+
         /// Returns the number of bytes accumulated in the size counter during
         /// mock serialization.
         /// \return number of bytes a buffer would need for serialization.
diff --git a/src/util/serialization/stream_serializer.cpp b/src/util/serialization/stream_serializer.cpp
index 9a989bb..70cc12e 100644
--- a/src/util/serialization/stream_serializer.cpp
+++ b/src/util/serialization/stream_serializer.cpp
@@ -11,4 +11,8 @@ namespace cbdc {
     stream_serializer::operator bool() const {
         return m_str.good();
     }
+
+    void stream_serializer::invalidate() {
+        m_str.setstate(std::ios::failbit);
+    }
 }
diff --git a/src/util/serialization/stream_serializer.hpp b/src/util/serialization/stream_serializer.hpp
index d083406..222f2c8 100644
--- a/src/util/serialization/stream_serializer.hpp
+++ b/src/util/serialization/stream_serializer.hpp
@@ -25,6 +25,9 @@ namespace cbdc {
         /// \return true if the last serialization operation succeeded.
         explicit operator bool() const final;
 
+        /// Marks the serialized data as malformed.
+        void invalidate() final;
+
       private:
         std::ios& m_str;
     };
-- 
2.43.0


From 092d5584952103c1520d098f771e80f577d01403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:21 +0000
Subject: [PATCH 17/74] fix: appending or accessing nothing at the end of a
 buffer was undefined behaviour

---
 src/util/common/buffer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/common/buffer.cpp b/src/util/common/buffer.cpp
index b85491d..3956c75 100644
--- a/src/util/common/buffer.cpp
+++ b/src/util/common/buffer.cpp
@@ -18,7 +18,7 @@ namespace cbdc {
     void buffer::append(const void* data, size_t len) {
         const auto orig_size = m_data.size();
         m_data.resize(orig_size + len);
-        std::memcpy(&m_data[orig_size], data, len);
+        std::memcpy(m_data.data() + orig_size, data, len);
     }
 
     auto buffer::size() const -> size_t {
@@ -34,11 +34,11 @@ namespace cbdc {
     }
 
     auto buffer::data_at(size_t offset) -> void* {
-        return &m_data[offset];
+        return m_data.data() + offset;
     }
 
     auto buffer::data_at(size_t offset) const -> const void* {
-        return &m_data[offset];
+        return m_data.data() + offset;
     }
 
     auto buffer::operator==(const buffer& other) const -> bool {
-- 
2.43.0


From d83d5445969987b3f50a44f53055009f7e0bec03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:34 +0000
Subject: [PATCH 18/74] fix: cache set evicted its oldest value before it was
 full

---
 src/util/common/cache_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/common/cache_set.hpp b/src/util/common/cache_set.hpp
index 51ef4b2..338486b 100644
--- a/src/util/common/cache_set.hpp
+++ b/src/util/common/cache_set.hpp
@@ -40,7 +40,7 @@ namespace cbdc {
             auto added = m_vals.emplace(std::forward<T>(val));
             if(added.second) {
                 m_eviction_queue.push(std::ref(*added.first));
-                if(m_eviction_queue.size() >= m_max_size) {
+                if(m_eviction_queue.size() > m_max_size) {
                     auto& v = m_eviction_queue.front();
                     m_vals.erase(v);
                     m_eviction_queue.pop();
-- 
2.43.0


From 75439ce958aff57ad438a0d5f836f99318043c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:55 +0000
Subject: [PATCH 19/74] fix: accepted connections were reported as not
 connected

---
 src/util/network/tcp_listener.cpp | 3 ++-
 src/util/network/tcp_socket.hpp   | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/network/tcp_listener.cpp b/src/util/network/tcp_listener.cpp
index 3fd2f1c..6336be5 100644
--- a/src/util/network/tcp_listener.cpp
+++ b/src/util/network/tcp_listener.cpp
@@ -49,7 +49,8 @@ namespace cbdc::network {
         sockaddr cli_addr{};
         unsigned int cli_len = sizeof(cli_addr);
         sock.m_sock_fd = ::accept(m_sock_fd, &cli_addr, &cli_len);
-        return sock.m_sock_fd != -1;
+        sock.m_connected = sock.m_sock_fd != -1;
+        return sock.m_connected;
     }
 
     void tcp_listener::close() {
diff --git a/src/util/network/tcp_socket.hpp b/src/util/network/tcp_socket.hpp
index c9969ce..d81b1a7 100644
--- a/src/util/network/tcp_socket.hpp
+++ b/src/util/network/tcp_socket.hpp
@@ -85,6 +85,8 @@ namespace cbdc::network {
         [[nodiscard]] auto connected() const -> bool;
 
       private:
+        friend class tcp_listener;
+
         std::optional<ip_address> m_addr{};
         port_number_t m_port{};
         std::atomic_bool m_connected{false};
-- 
2.43.0


From 461c6f66ac82a1bd94309414e2e87319317df626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:55 +0000
Subject: [PATCH 20/74] fix: a peer could make the receiver allocate any amount
 of memory

---
 src/util/network/tcp_socket.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/util/network/tcp_socket.cpp b/src/util/network/tcp_socket.cpp
index 35fbd7c..01b803e 100644
--- a/src/util/network/tcp_socket.cpp
+++ b/src/util/network/tcp_socket.cpp
@@ -5,6 +5,9 @@
 
 #include "tcp_socket.hpp"
 
+#include "util/common/config.hpp"
+
+#include <algorithm>
 #include <array>
 #include <cstring>
 #include <unistd.h>
@@ -105,9 +108,14 @@ namespace cbdc::network {
         pkt.clear();
 
         total_read = 0;
-        auto buf = std::vector<std::byte>(pkt_sz);
+        // The peer chooses the packet size, so don't allocate memory for data
+        // it has not sent yet.
+        auto buf = std::vector<std::byte>(
+            std::min(pkt_sz,
+                     static_cast<uint64_t>(config::maximum_reservation)));
         while(total_read < pkt_sz) {
-            const auto buf_sz = pkt_sz - total_read;
+            const auto buf_sz = std::min(static_cast<uint64_t>(buf.size()),
+                                         pkt_sz - total_read);
             auto n = read(m_sock_fd, buf.data(), buf_sz);
             if(n <= 0) {
                 return false;
-- 
2.43.0


From acc005c411c654f779f2dc94fd6ba30daed1b7b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:55 +0000
Subject: [PATCH 21/74] fix: initializing a socket selector again leaked its
 pipe and kept closed sockets

---
 src/util/network/socket_selector.cpp | 20 ++++++++++++++++++--
 src/util/network/socket_selector.hpp |  2 ++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/util/network/socket_selector.cpp b/src/util/network/socket_selector.cpp
index 58affff..237831d 100644
--- a/src/util/network/socket_selector.cpp
+++ b/src/util/network/socket_selector.cpp
@@ -17,6 +17,10 @@ namespace cbdc::network {
         m_ready_fds = m_fds;
         const auto nfds
             = select(m_fd_max + 1, &m_ready_fds, nullptr, nullptr, nullptr);
+        if(nfds < 0) {
+            // The contents of m_ready_fds are unspecified
+            return false;
+        }
         // This macro does not bounds-check fd within m_fds. Since it comes
         // from the system library there's nothing we can do about it.
         // m_unblock_fds is set in init() and checked for validity so this
@@ -47,8 +51,12 @@ namespace cbdc::network {
     }
 
     auto socket_selector::init() -> bool {
+        close_pipe();
+        FD_ZERO(&m_fds);
+        m_fd_max = -1;
         auto pipe_res = pipe(m_unblock_fds.data());
         if(pipe_res != 0) {
+            m_unblock_fds = {-1, -1};
             return false;
         }
         auto add_res = add(m_unblock_fds[0]);
@@ -66,7 +74,15 @@ namespace cbdc::network {
 
     socket_selector::~socket_selector() {
         unblock();
-        close(m_unblock_fds[0]);
-        close(m_unblock_fds[1]);
+        close_pipe();
+    }
+
+    void socket_selector::close_pipe() {
+        for(auto& fd : m_unblock_fds) {
+            if(fd != -1) {
+                close(fd);
+                fd = -1;
+            }
+        }
     }
 }
diff --git a/src/util/network/socket_selector.hpp b/src/util/network/socket_selector.hpp
index ffb061c..af313f9 100644
--- a/src/util/network/socket_selector.hpp
+++ b/src/util/network/socket_selector.hpp
@@ -54,6 +54,8 @@ namespace cbdc::network {
         std::array<int, 2> m_unblock_fds{-1, -1};
 
         auto add(int fd) -> bool;
+
+        void close_pipe();
     };
 }
 
-- 
2.43.0


From 027bc4a1a16fd554b698d11652e6dc94da501039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:14 +0000
Subject: [PATCH 22/74] fix: closing a peer or connection manager could miss a
 thread about to wait

---
 src/util/network/connection_manager.cpp | 6 +++++-
 src/util/network/peer.cpp               | 5 ++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/util/network/connection_manager.cpp b/src/util/network/connection_manager.cpp
index 2a2f457..306c25f 100644
--- a/src/util/network/connection_manager.cpp
+++ b/src/util/network/connection_manager.cpp
@@ -182,7 +182,11 @@ namespace cbdc::network {
     }
 
     void connection_manager::close() {
-        m_running = false;
+        {
+            // Locked so that a handler about to wait can't miss the change
+            std::lock_guard<std::mutex> l(m_async_recv_mut);
+            m_running = false;
+        }
         m_listen_selector.unblock();
         m_listener.close();
         {
diff --git a/src/util/network/peer.cpp b/src/util/network/peer.cpp
index e2c477d..0ecd6b1 100644
--- a/src/util/network/peer.cpp
+++ b/src/util/network/peer.cpp
@@ -31,7 +31,10 @@ namespace cbdc::network {
     }
 
     void peer::shutdown() {
-        m_shut_down = true;
+        {
+            std::lock_guard<std::mutex> l(m_reconnect_mut);
+            m_shut_down = true;
+        }
         m_reconnect_cv.notify_one();
         if(m_reconnect_thread.joinable()) {
             m_reconnect_thread.join();
-- 
2.43.0


From c55951c7b52ceadc31f095c18f498f2bdd71217c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:14 +0000
Subject: [PATCH 23/74] fix: a broken connection could be replaced twice

---
 src/util/network/peer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/util/network/peer.cpp b/src/util/network/peer.cpp
index 0ecd6b1..a8d5b2b 100644
--- a/src/util/network/peer.cpp
+++ b/src/util/network/peer.cpp
@@ -95,6 +95,12 @@ namespace cbdc::network {
                 }
                 if(m_attempt_reconnect) {
                     close();
+                    {
+                        // Both threads have stopped, so any further signal is
+                        // about the old connection
+                        std::lock_guard<std::mutex> l(m_reconnect_mut);
+                        m_reconnect = false;
+                    }
                     while(!m_shut_down && !m_sock->reconnect()) {
                         static constexpr auto retry_delay
                             = std::chrono::seconds(3);
-- 
2.43.0


From 63605f82bbcb184f2e44f5928d35a22ab0a75713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:14 +0000
Subject: [PATCH 24/74] fix: data race on the random engine of a connection
 manager

---
 src/util/network/connection_manager.cpp | 5 ++++-
 src/util/network/connection_manager.hpp | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/util/network/connection_manager.cpp b/src/util/network/connection_manager.cpp
index 306c25f..3ad168d 100644
--- a/src/util/network/connection_manager.cpp
+++ b/src/util/network/connection_manager.cpp
@@ -246,7 +246,10 @@ namespace cbdc::network {
             // across connections
             auto dist
                 = std::uniform_int_distribution<size_t>(0, m_peers.size() - 1);
-            auto offset = dist(m_rnd);
+            auto offset = [&]() {
+                std::lock_guard<std::mutex> ll(m_rnd_mut);
+                return dist(m_rnd);
+            }();
             for(size_t i = 0; i < m_peers.size(); i++) {
                 auto idx = (i + offset) % m_peers.size();
                 const auto& p = m_peers[idx];
diff --git a/src/util/network/connection_manager.hpp b/src/util/network/connection_manager.hpp
index d3b373f..1ef5085 100644
--- a/src/util/network/connection_manager.hpp
+++ b/src/util/network/connection_manager.hpp
@@ -233,6 +233,7 @@ namespace cbdc::network {
 
         std::random_device m_r{cbdc::config::random_source};
         std::default_random_engine m_rnd{m_r()};
+        std::mutex m_rnd_mut;
     };
 }
 
-- 
2.43.0


From 3a329dc77cda57c1cdaeaee6ad25129f75b209e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:14 +0000
Subject: [PATCH 25/74] fix: a peer closed its socket while other threads were
 using it

---
 src/util/network/peer.cpp       |  3 ++-
 src/util/network/tcp_socket.cpp | 10 ++++++++--
 src/util/network/tcp_socket.hpp |  5 +++++
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/util/network/peer.cpp b/src/util/network/peer.cpp
index a8d5b2b..9011afb 100644
--- a/src/util/network/peer.cpp
+++ b/src/util/network/peer.cpp
@@ -126,7 +126,7 @@ namespace cbdc::network {
 
     void peer::close() {
         m_running = false;
-        m_sock->disconnect();
+        m_sock->shutdown();
         m_send_queue.clear();
         if(m_send_thread.joinable()) {
             m_send_thread.join();
@@ -134,6 +134,7 @@ namespace cbdc::network {
         if(m_recv_thread.joinable()) {
             m_recv_thread.join();
         }
+        m_sock->disconnect();
         m_send_queue.reset();
     }
 
diff --git a/src/util/network/tcp_socket.cpp b/src/util/network/tcp_socket.cpp
index 01b803e..d2de93a 100644
--- a/src/util/network/tcp_socket.cpp
+++ b/src/util/network/tcp_socket.cpp
@@ -49,13 +49,19 @@ namespace cbdc::network {
 
     void tcp_socket::disconnect() {
         if(m_sock_fd != -1) {
-            m_connected = false;
-            shutdown(m_sock_fd, SHUT_RDWR);
+            shutdown();
             close(m_sock_fd);
             m_sock_fd = -1;
         }
     }
 
+    void tcp_socket::shutdown() {
+        m_connected = false;
+        if(m_sock_fd != -1) {
+            ::shutdown(m_sock_fd, SHUT_RDWR);
+        }
+    }
+
     tcp_socket::~tcp_socket() {
         disconnect();
     }
diff --git a/src/util/network/tcp_socket.hpp b/src/util/network/tcp_socket.hpp
index d81b1a7..a7d1de3 100644
--- a/src/util/network/tcp_socket.hpp
+++ b/src/util/network/tcp_socket.hpp
@@ -71,6 +71,11 @@ namespace cbdc::network {
         /// any blocking calls to this socket.
         void disconnect();
 
+        /// Ends any communication with the peer and unblocks threads which are
+        /// sending or receiving, but keeps the socket descriptor. Unlike
+        /// \ref disconnect, can be called while other threads use the socket.
+        void shutdown();
+
         /// Reconnects to the previously connected endpoint. If connect was
         /// never called before, returns an error. Disconnects any previous
         /// endpoint before re-connecting.
-- 
2.43.0


From 8c1d89ea29ded5f464709f60d0f9dd5bd6e1d70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:25 +0000
Subject: [PATCH 26/74] fix: a listening socket could be closed while another
 thread was accepting on it

---
 src/util/network/connection_manager.cpp | 18 +++++++++++++-----
 src/util/network/connection_manager.hpp |  1 +
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/util/network/connection_manager.cpp b/src/util/network/connection_manager.cpp
index 3ad168d..ed1b1fe 100644
--- a/src/util/network/connection_manager.cpp
+++ b/src/util/network/connection_manager.cpp
@@ -27,11 +27,16 @@ namespace cbdc::network {
                 continue;
             }
             auto sock = std::make_unique<tcp_socket>();
-            if(m_listener.accept(*sock)) {
-                add(std::move(sock), false);
-            } else {
-                return false;
+            {
+                std::lock_guard<std::mutex> l(m_listener_mut);
+                if(!m_running) {
+                    break;
+                }
+                if(!m_listener.accept(*sock)) {
+                    return false;
+                }
             }
+            add(std::move(sock), false);
         }
 
         return true;
@@ -188,7 +193,10 @@ namespace cbdc::network {
             m_running = false;
         }
         m_listen_selector.unblock();
-        m_listener.close();
+        {
+            std::lock_guard<std::mutex> l(m_listener_mut);
+            m_listener.close();
+        }
         {
             std::shared_lock<std::shared_mutex> l(m_peer_mutex);
             for(auto&& peer : m_peers) {
diff --git a/src/util/network/connection_manager.hpp b/src/util/network/connection_manager.hpp
index 1ef5085..53c92ec 100644
--- a/src/util/network/connection_manager.hpp
+++ b/src/util/network/connection_manager.hpp
@@ -200,6 +200,7 @@ namespace cbdc::network {
 
       private:
         tcp_listener m_listener;
+        std::mutex m_listener_mut;
 
         struct m_peer_t {
             m_peer_t() = delete;
-- 
2.43.0


From baba60883bb6f806adb352b154de61e3ee222756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:12 +0000
Subject: [PATCH 27/74] fix: ticket machine client aborted when the ticket
 machine failed a request

---
 src/parsec/ticket_machine/client.cpp    | 30 +++++++++++++++----------
 src/parsec/ticket_machine/client.hpp    |  2 ++
 src/parsec/ticket_machine/interface.hpp |  2 ++
 3 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/parsec/ticket_machine/client.cpp b/src/parsec/ticket_machine/client.cpp
index 07dc623..60af042 100644
--- a/src/parsec/ticket_machine/client.cpp
+++ b/src/parsec/ticket_machine/client.cpp
@@ -49,27 +49,33 @@ namespace cbdc::parsec::ticket_machine::rpc {
         return m_client->call(
             std::monostate{},
             [this](std::optional<get_ticket_number_return_type> res) {
-                assert(res.has_value());
+                if(!res.has_value()) {
+                    handle_error(error_code::request_failed);
+                    return;
+                }
                 std::visit(overloaded{[&](ticket_number_range_type range) {
                                           handle_ticket_numbers(range);
                                       },
                                       [&](error_code e) {
-                                          auto callbacks
-                                              = decltype(m_callbacks)();
-                                          {
-                                              std::unique_lock ll(m_mut);
-                                              m_fetching_tickets = false;
-                                              callbacks.swap(m_callbacks);
-                                          }
-                                          while(!callbacks.empty()) {
-                                              callbacks.front()(e);
-                                              callbacks.pop();
-                                          }
+                                          handle_error(e);
                                       }},
                            res.value());
             });
     }
 
+    void client::handle_error(error_code e) {
+        auto callbacks = decltype(m_callbacks)();
+        {
+            std::unique_lock ll(m_mut);
+            m_fetching_tickets = false;
+            callbacks.swap(m_callbacks);
+        }
+        while(!callbacks.empty()) {
+            callbacks.front()(e);
+            callbacks.pop();
+        }
+    }
+
     void client::handle_ticket_numbers(ticket_number_range_type range) {
         auto callbacks = decltype(m_callbacks)();
         auto tickets = decltype(m_tickets)();
diff --git a/src/parsec/ticket_machine/client.hpp b/src/parsec/ticket_machine/client.hpp
index 52099d5..2416369 100644
--- a/src/parsec/ticket_machine/client.hpp
+++ b/src/parsec/ticket_machine/client.hpp
@@ -52,6 +52,8 @@ namespace cbdc::parsec::ticket_machine::rpc {
         auto fetch_tickets() -> bool;
 
         void handle_ticket_numbers(ticket_number_range_type range);
+
+        void handle_error(error_code e);
     };
 }
 
diff --git a/src/parsec/ticket_machine/interface.hpp b/src/parsec/ticket_machine/interface.hpp
index 8dc7d53..964d930 100644
--- a/src/parsec/ticket_machine/interface.hpp
+++ b/src/parsec/ticket_machine/interface.hpp
@@ -31,6 +31,8 @@ namespace cbdc::parsec::ticket_machine {
 
         /// Error codes returned by the ticket machine.
         enum class error_code : uint8_t {
+            /// The ticket machine failed to process the request.
+            request_failed
         };
 
         /// Return value from the ticket machine in the success case. An
-- 
2.43.0


From 3bfcc23cf9ad243641fa8c0fd5358545d6365a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:22 +0000
Subject: [PATCH 28/74] fix: ticket machine client destroyed its queues while
 its network thread was running

---
 src/parsec/ticket_machine/client.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parsec/ticket_machine/client.hpp b/src/parsec/ticket_machine/client.hpp
index 2416369..69ccdd0 100644
--- a/src/parsec/ticket_machine/client.hpp
+++ b/src/parsec/ticket_machine/client.hpp
@@ -41,7 +41,6 @@ namespace cbdc::parsec::ticket_machine::rpc {
             -> bool override;
 
       private:
-        std::unique_ptr<cbdc::rpc::tcp_client<request, response>> m_client;
         std::queue<ticket_number_type> m_tickets;
         bool m_fetching_tickets{false};
 
@@ -49,6 +48,10 @@ namespace cbdc::parsec::ticket_machine::rpc {
 
         std::queue<get_ticket_number_callback_type> m_callbacks;
 
+        // Declared last so that its threads stop before the members they use
+        // are destroyed
+        std::unique_ptr<cbdc::rpc::tcp_client<request, response>> m_client;
+
         auto fetch_tickets() -> bool;
 
         void handle_ticket_numbers(ticket_number_range_type range);
-- 
2.43.0


From 64c912838aefd1729b2615576e1b0ba1db312cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:30 +0000
Subject: [PATCH 29/74] fix: hash_from_hex wrote out of bounds for long text
 and left bytes unset for short text

---
 src/util/common/hash.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/common/hash.cpp b/src/util/common/hash.cpp
index f75dead..a481b5b 100644
--- a/src/util/common/hash.cpp
+++ b/src/util/common/hash.cpp
@@ -24,9 +24,9 @@ namespace cbdc {
     }
 
     auto hash_from_hex(const std::string& val) -> hash_t {
-        hash_t ret;
+        hash_t ret{};
 
-        for(size_t i = 0; i < val.size(); i += 2) {
+        for(size_t i = 0; i < val.size() && i / 2 < ret.size(); i += 2) {
             unsigned int v{};
             std::stringstream s;
             s << std::hex << val.substr(i, 2);
-- 
2.43.0


From 14b9f272dde3b933fd653475b099e36e2f86d746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:30 +0000
Subject: [PATCH 30/74] fix: buffer::from_hex accepted text which is not
 hexadecimal

---
 src/util/common/buffer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/util/common/buffer.cpp b/src/util/common/buffer.cpp
index 3956c75..ba4fc16 100644
--- a/src/util/common/buffer.cpp
+++ b/src/util/common/buffer.cpp
@@ -6,6 +6,7 @@
 #include "buffer.hpp"
 
 #include <array>
+#include <cctype>
 #include <cstring>
 #include <iomanip>
 #include <sstream>
@@ -92,6 +93,11 @@ namespace cbdc {
 
         for(size_t i = 0; i < hex.size(); i += 2) {
             unsigned int v{};
+            if((std::isxdigit(static_cast<unsigned char>(hex[i])) == 0)
+               || (std::isxdigit(static_cast<unsigned char>(hex[i + 1]))
+                   == 0)) {
+                return std::nullopt;
+            }
             std::stringstream s;
             // TODO: This function is likely very slow. At some point this
             //       could be converted to lookup table that we make ourselves.
-- 
2.43.0


From aa4770eaec6482163b9021091b1bb4aa0c1e41f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:22 +0000
Subject: [PATCH 31/74] fix: an empty environment variable crashed the
 configuration parser

---
 src/util/common/config.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/util/common/config.cpp b/src/util/common/config.cpp
index 02811f4..3ebd963 100644
--- a/src/util/common/config.cpp
+++ b/src/util/common/config.cpp
@@ -832,7 +832,10 @@ namespace cbdc::config {
                        });
         if(const auto* env_v = std::getenv(upper_key.c_str())) {
             auto value = std::string(env_v);
-            return parse_value(value);
+            // As in a configuration file, an empty value sets nothing.
+            if(!value.empty()) {
+                return parse_value(value);
+            }
         }
 
         auto it = m_options.find(key);
-- 
2.43.0


From 83069b1d8a316ddab1af1a28b8d09626b198fcb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:45 +0000
Subject: [PATCH 32/74] fix: address::decode read past the end of an empty
 payload

---
 src/uhs/client/client.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uhs/client/client.cpp b/src/uhs/client/client.cpp
index 4b3bc60..2c6b493 100644
--- a/src/uhs/client/client.cpp
+++ b/src/uhs/client/client.cpp
@@ -43,10 +43,10 @@ namespace cbdc {
                 enc_data.end());
 
             auto pubkey = cbdc::hash_t();
-            if(data[0]
-                   != static_cast<uint8_t>(
-                       cbdc::client::address_type::public_key)
-               || data.size() != pubkey.size() + 1) {
+            if(data.size() != pubkey.size() + 1
+               || data[0]
+                      != static_cast<uint8_t>(
+                          cbdc::client::address_type::public_key)) {
                 std::cout << "Address is not a supported type" << std::endl;
                 return std::nullopt;
             }
-- 
2.43.0


From e44ffb3ee194af35ad617e1f7b1c40d81bdae8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:45 +0000
Subject: [PATCH 33/74] fix: client lost all but one imported input of a
 transaction

---
 src/uhs/client/atomizer_client.cpp |  4 ++--
 src/uhs/client/client.cpp          | 16 ++++++++++------
 src/uhs/client/client.hpp          |  4 ++--
 src/uhs/client/twophase_client.cpp |  4 ++--
 4 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/uhs/client/atomizer_client.cpp b/src/uhs/client/atomizer_client.cpp
index 04274e8..2178bed 100644
--- a/src/uhs/client/atomizer_client.cpp
+++ b/src/uhs/client/atomizer_client.cpp
@@ -50,8 +50,8 @@ namespace cbdc {
                               ctx.m_uhs_outputs.end());
         }
 
-        for(const auto& [tx_id, in] : pending_inputs()) {
-            tus.insert({tx_id, {in.hash()}});
+        for(const auto& [uhs_id, in] : pending_inputs()) {
+            tus[in.m_prevout.m_tx_id].push_back(uhs_id);
         }
 
         cbdc::watchtower::status_update_request req{tus};
diff --git a/src/uhs/client/client.cpp b/src/uhs/client/client.cpp
index 2c6b493..94fc612 100644
--- a/src/uhs/client/client.cpp
+++ b/src/uhs/client/client.cpp
@@ -202,7 +202,7 @@ namespace cbdc {
 
     void client::import_send_input(const transaction::input& in) {
         if(m_wallet.is_spendable(in)) {
-            m_pending_inputs.insert({in.m_prevout.m_tx_id, in});
+            m_pending_inputs.insert({in.hash(), in});
             save();
         } else {
             m_logger->warn("Ignoring non-spendable input");
@@ -294,11 +294,15 @@ namespace cbdc {
             success = true;
         }
 
-        const auto pi_it = m_pending_inputs.find(tx_id);
-        if(pi_it != m_pending_inputs.end()) {
-            m_wallet.confirm_inputs({pi_it->second});
-            m_pending_inputs.erase(pi_it);
-            success = true;
+        for(auto pi_it = m_pending_inputs.begin();
+            pi_it != m_pending_inputs.end();) {
+            if(pi_it->second.m_prevout.m_tx_id == tx_id) {
+                m_wallet.confirm_inputs({pi_it->second});
+                pi_it = m_pending_inputs.erase(pi_it);
+                success = true;
+            } else {
+                ++pi_it;
+            }
         }
 
         save();
diff --git a/src/uhs/client/client.hpp b/src/uhs/client/client.hpp
index ae3cb6d..d2bb6cf 100644
--- a/src/uhs/client/client.hpp
+++ b/src/uhs/client/client.hpp
@@ -266,7 +266,7 @@ namespace cbdc {
         /// Returns the current set of pending inputs imported into this client
         /// via the \ref import_send_input method which the system has yet to
         /// confirm.
-        /// \return a map of transaction ID to pending input.
+        /// \return a map of UHS ID to pending input.
         [[nodiscard]] auto pending_inputs() const
             -> std::unordered_map<hash_t, transaction::input, hashing::null>;
 
@@ -288,7 +288,7 @@ namespace cbdc {
             m_pending_spend;
 
         /// List of pending inputs added by client::import_send_input, indexed
-        /// by the Tx ID of the transaction that created them.
+        /// by their UHS ID. One transaction can create several of them.
         std::unordered_map<hash_t, transaction::input, hashing::null>
             m_pending_inputs;
 
diff --git a/src/uhs/client/twophase_client.cpp b/src/uhs/client/twophase_client.cpp
index 5c1cb4b..366f61d 100644
--- a/src/uhs/client/twophase_client.cpp
+++ b/src/uhs/client/twophase_client.cpp
@@ -40,8 +40,8 @@ namespace cbdc {
         for(const auto& [tx_id, tx] : pending_txs()) {
             txids.insert(tx_id);
         }
-        for(const auto& [tx_id, inp] : pending_inputs()) {
-            txids.insert(tx_id);
+        for(const auto& [uhs_id, inp] : pending_inputs()) {
+            txids.insert(inp.m_prevout.m_tx_id);
         }
 
         for(const auto& tx_id : txids) {
-- 
2.43.0


From d295ca2cf48d983eb46fc172b9c3bb99f9909a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:45 +0000
Subject: [PATCH 34/74] fix: atomizer client stopped confirming transactions
 after the first unconfirmed one

---
 src/uhs/client/atomizer_client.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/uhs/client/atomizer_client.cpp b/src/uhs/client/atomizer_client.cpp
index 2178bed..90c6394 100644
--- a/src/uhs/client/atomizer_client.cpp
+++ b/src/uhs/client/atomizer_client.cpp
@@ -60,8 +60,14 @@ namespace cbdc {
 
         auto res = m_wc.request_status_update(req);
 
+        if(!res) {
+            m_logger->error("No response from watchtower");
+            return false;
+        }
+
         bool success{true};
         for(const auto& [tx_id, uhs_states] : res->states()) {
+            bool confirmed{false};
             for(const auto& s : uhs_states) {
                 if((s.status() != cbdc::watchtower::search_status::unspent)
                    && (s.status() != cbdc::watchtower::search_status::spent)) {
@@ -71,15 +77,14 @@ namespace cbdc {
                                    to_string(s.uhs_id()),
                                    ", status:",
                                    static_cast<uint32_t>(s.status()));
-                    success = false;
                     continue;
                 }
+                confirmed = true;
                 break;
             }
-            if(!success) {
-                continue;
+            if(!confirmed || !confirm_transaction(tx_id)) {
+                success = false;
             }
-            success = confirm_transaction(tx_id);
         }
 
         return success;
-- 
2.43.0


From 893b36f3dc86699f7f63bcd41f8c98338fe2061b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:45 +0000
Subject: [PATCH 35/74] fix: late coordinator response to a mint used a
 destroyed promise

---
 src/uhs/client/twophase_client.cpp | 33 +++++++++++++++---------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/uhs/client/twophase_client.cpp b/src/uhs/client/twophase_client.cpp
index 366f61d..d49cbda 100644
--- a/src/uhs/client/twophase_client.cpp
+++ b/src/uhs/client/twophase_client.cpp
@@ -81,23 +81,13 @@ namespace cbdc {
                 = ctx.sign(m_secp.get(), m_opts.m_sentinel_private_keys[i]);
             ctx.m_attestations.insert(att);
         }
-        auto done = std::promise<void>();
-        auto done_fut = done.get_future();
+        // The response can arrive after this method timed out.
+        auto done = std::make_shared<std::promise<std::optional<bool>>>();
+        auto done_fut = done->get_future();
         auto res = m_coordinator_client.execute_transaction(
             ctx,
-            [&, tx_id = ctx.m_id](std::optional<bool> success) {
-                if(!success.has_value()) {
-                    m_logger->error(
-                        "Coordinator error processing transaction");
-                    return;
-                }
-                if(!success.value()) {
-                    m_logger->error("Coordinator rejected transaction");
-                    return;
-                }
-                confirm_transaction(tx_id);
-                m_logger->info("Confirmed mint TX");
-                done.set_value();
+            [done](std::optional<bool> success) {
+                done->set_value(success);
             });
         if(!res) {
             m_logger->error("Failed to send transaction to coordinator");
@@ -109,6 +99,17 @@ namespace cbdc {
             m_logger->error("Timed out waiting for mint response");
             return false;
         }
-        return res;
+        auto success = done_fut.get();
+        if(!success.has_value()) {
+            m_logger->error("Coordinator error processing transaction");
+            return false;
+        }
+        if(!success.value()) {
+            m_logger->error("Coordinator rejected transaction");
+            return false;
+        }
+        confirm_transaction(ctx.m_id);
+        m_logger->info("Confirmed mint TX");
+        return true;
     }
 }
-- 
2.43.0


From 90929a7d9653e9b884777f16e8a9397269b7a54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 36/74] fix: coordinator could not stop while its handler
 waited for space in a batch

---
 src/uhs/twophase/coordinator/controller.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/uhs/twophase/coordinator/controller.cpp b/src/uhs/twophase/coordinator/controller.cpp
index 5ddfc5d..b08cf2b 100644
--- a/src/uhs/twophase/coordinator/controller.cpp
+++ b/src/uhs/twophase/coordinator/controller.cpp
@@ -187,8 +187,10 @@ namespace cbdc::coordinator {
             std::lock_guard<std::mutex> l(m_batch_mut);
             m_running = false;
         }
+        // Before closing the network: its handler may be waiting for space in
+        // the current batch.
+        m_batch_cv.notify_all();
         m_rpc_server.reset();
-        m_batch_cv.notify_one();
 
         // Stop each of the locking shard clients to cancel any pending RPCs
         // and unblock any of the current dtxs so they can mark themselves as
-- 
2.43.0


From 54b5ecd94ed83c905af86b5a26bc7d129dec3785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 37/74] fix: coordinator recovering a discard told no shard to
 discard

---
 src/uhs/twophase/coordinator/distributed_tx.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/uhs/twophase/coordinator/distributed_tx.cpp b/src/uhs/twophase/coordinator/distributed_tx.cpp
index 4aabaa6..77cdcaf 100644
--- a/src/uhs/twophase/coordinator/distributed_tx.cpp
+++ b/src/uhs/twophase/coordinator/distributed_tx.cpp
@@ -253,6 +253,11 @@ namespace cbdc::coordinator {
 
     void distributed_tx::recover_discard() {
         m_state = dtx_state::discard;
+        // Which shards took part is no longer known, so tell every shard.
+        // Discarding a dtx unknown to a shard does nothing.
+        for(auto& idxs : m_tx_idxs) {
+            idxs.emplace_back(0);
+        }
     }
 
     auto distributed_tx::size() const -> size_t {
-- 
2.43.0


From 1186403bf1ddea15da821bb69dfd46e0e44f34bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:12 +0000
Subject: [PATCH 38/74] fix: shard client destroyed its RPC client while other
 threads were calling it

---
 src/uhs/twophase/locking_shard/client.cpp | 3 ++-
 src/util/rpc/tcp_client.hpp               | 7 +++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/uhs/twophase/locking_shard/client.cpp b/src/uhs/twophase/locking_shard/client.cpp
index bfcb9a5..b6d74d4 100644
--- a/src/uhs/twophase/locking_shard/client.cpp
+++ b/src/uhs/twophase/locking_shard/client.cpp
@@ -70,6 +70,7 @@ namespace cbdc::locking_shard::rpc {
 
     void client::stop() {
         m_running = false;
-        m_client.reset();
+        // Not destroyed: other threads may be inside a call to it.
+        m_client->close();
     }
 }
diff --git a/src/util/rpc/tcp_client.hpp b/src/util/rpc/tcp_client.hpp
index 61cc3d3..1184e65 100644
--- a/src/util/rpc/tcp_client.hpp
+++ b/src/util/rpc/tcp_client.hpp
@@ -38,6 +38,13 @@ namespace cbdc::rpc {
         /// Destructor. Disconnects from the RPC servers and stops the response
         /// handler thread.
         ~tcp_client() override {
+            close();
+        }
+
+        /// Disconnects from the RPC servers, stops the response handler
+        /// thread and unblocks requests still waiting for a response. Requests
+        /// made afterward fail.
+        void close() {
             m_net.close();
             if(m_handler_thread.joinable()) {
                 m_handler_thread.join();
-- 
2.43.0


From 7511de01d10d106a7edd4b1c38a1d6ef79979b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 39/74] fix: servers accepted requests before registering the
 handler for them

---
 src/parsec/runtime_locking_shard/controller.cpp | 11 +++++++----
 src/uhs/atomizer/sentinel/controller.cpp        | 13 ++++++++-----
 src/uhs/twophase/coordinator/controller.cpp     | 11 +++++++----
 src/uhs/twophase/locking_shard/controller.cpp   | 13 ++++++++-----
 src/uhs/twophase/sentinel_2pc/controller.cpp    | 13 ++++++++-----
 5 files changed, 38 insertions(+), 23 deletions(-)

diff --git a/src/parsec/runtime_locking_shard/controller.cpp b/src/parsec/runtime_locking_shard/controller.cpp
index 65e5e49..0ec9563 100644
--- a/src/parsec/runtime_locking_shard/controller.cpp
+++ b/src/parsec/runtime_locking_shard/controller.cpp
@@ -103,16 +103,19 @@ namespace cbdc::parsec::runtime_locking_shard {
         auto rpc_server = std::make_unique<cbdc::rpc::tcp_server<
             cbdc::rpc::async_server<rpc::request, rpc::response>>>(
             m_server_endpoint);
-        if(!rpc_server->init()) {
-            m_logger->fatal("Failed to start RPC server");
-        }
-
+        // The server registers its handler, so create it before requests can
+        // arrive.
+        auto& listener = *rpc_server;
         m_server = std::make_unique<decltype(m_server)::element_type>(
             m_logger,
             m_shard,
             m_raft_client,
             std::move(rpc_server));
 
+        if(!listener.init()) {
+            m_logger->fatal("Failed to start RPC server");
+        }
+
         m_logger->info("Recovered shard and started RPC server");
     }
 }
diff --git a/src/uhs/atomizer/sentinel/controller.cpp b/src/uhs/atomizer/sentinel/controller.cpp
index ac2af00..a972175 100644
--- a/src/uhs/atomizer/sentinel/controller.cpp
+++ b/src/uhs/atomizer/sentinel/controller.cpp
@@ -71,15 +71,18 @@ namespace cbdc::sentinel {
         auto rpc_server = std::make_unique<
             cbdc::rpc::tcp_server<cbdc::rpc::async_server<request, response>>>(
             m_opts.m_sentinel_endpoints[m_sentinel_id]);
-        if(!rpc_server->init()) {
-            m_logger->error("Failed to start sentinel RPC server");
-            return false;
-        }
-
+        // The server registers its handler, so create it before requests can
+        // arrive.
+        auto& listener = *rpc_server;
         m_rpc_server = std::make_unique<decltype(m_rpc_server)::element_type>(
             this,
             std::move(rpc_server));
 
+        if(!listener.init()) {
+            m_logger->error("Failed to start sentinel RPC server");
+            return false;
+        }
+
         return true;
     }
 
diff --git a/src/uhs/twophase/coordinator/controller.cpp b/src/uhs/twophase/coordinator/controller.cpp
index b08cf2b..beeb292 100644
--- a/src/uhs/twophase/coordinator/controller.cpp
+++ b/src/uhs/twophase/coordinator/controller.cpp
@@ -646,13 +646,16 @@ namespace cbdc::coordinator {
         auto rpc_server = std::make_unique<cbdc::rpc::tcp_server<
             cbdc::rpc::async_server<rpc::request, rpc::response>>>(
             m_handler_endpoint);
-        if(!rpc_server->init()) {
-            m_logger->fatal("Failed to start RPC server");
-        }
-
+        // The server registers its handler, so create it before requests can
+        // arrive.
+        auto& listener = *rpc_server;
         m_rpc_server = std::make_unique<decltype(m_rpc_server)::element_type>(
             this,
             std::move(rpc_server));
+
+        if(!listener.init()) {
+            m_logger->fatal("Failed to start RPC server");
+        }
     }
 
     void controller::quit() {
diff --git a/src/uhs/twophase/locking_shard/controller.cpp b/src/uhs/twophase/locking_shard/controller.cpp
index 8b961f7..f69494b 100644
--- a/src/uhs/twophase/locking_shard/controller.cpp
+++ b/src/uhs/twophase/locking_shard/controller.cpp
@@ -98,16 +98,19 @@ namespace cbdc::locking_shard {
             cbdc::rpc::blocking_tcp_server<rpc::status_request,
                                            rpc::status_response>>(
             m_opts.m_locking_shard_readonly_endpoints[m_shard_id][m_node_id]);
-        if(!status_rpc_server->init()) {
-            m_logger->error("Failed to start status RPC server");
-            return false;
-        }
-
+        // The server registers its handler, so create it before requests can
+        // arrive.
+        auto& listener = *status_rpc_server;
         m_status_server
             = std::make_unique<decltype(m_status_server)::element_type>(
                 m_shard,
                 std::move(status_rpc_server));
 
+        if(!listener.init()) {
+            m_logger->error("Failed to start status RPC server");
+            return false;
+        }
+
         return true;
     }
 
diff --git a/src/uhs/twophase/sentinel_2pc/controller.cpp b/src/uhs/twophase/sentinel_2pc/controller.cpp
index 4c6fc79..9d2398a 100644
--- a/src/uhs/twophase/sentinel_2pc/controller.cpp
+++ b/src/uhs/twophase/sentinel_2pc/controller.cpp
@@ -83,15 +83,18 @@ namespace cbdc::sentinel_2pc {
             cbdc::rpc::async_server<cbdc::sentinel::request,
                                     cbdc::sentinel::response>>>(
             m_opts.m_sentinel_endpoints[m_sentinel_id]);
-        if(!rpc_server->init()) {
-            m_logger->error("Failed to start sentinel RPC server");
-            return false;
-        }
-
+        // The server registers its handler, so create it before requests can
+        // arrive.
+        auto& listener = *rpc_server;
         m_rpc_server = std::make_unique<decltype(m_rpc_server)::element_type>(
             this,
             std::move(rpc_server));
 
+        if(!listener.init()) {
+            m_logger->error("Failed to start sentinel RPC server");
+            return false;
+        }
+
         return true;
     }
 
-- 
2.43.0


From fcd69e4d3507c895213ad93d1177b663135df1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 40/74] fix: data race on the quit flag of the coordinator

---
 src/uhs/twophase/coordinator/controller.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uhs/twophase/coordinator/controller.hpp b/src/uhs/twophase/coordinator/controller.hpp
index b9ca620..67f1eed 100644
--- a/src/uhs/twophase/coordinator/controller.hpp
+++ b/src/uhs/twophase/coordinator/controller.hpp
@@ -170,7 +170,7 @@ namespace cbdc::coordinator {
         bool m_stop_flag{false};
         std::condition_variable m_start_cv;
         std::mutex m_start_mut;
-        bool m_quit{false};
+        std::atomic_bool m_quit{false};
 
         void start_stop_func();
 
-- 
2.43.0


From 8793585dd4c0039cd0b941cca7f4b4b8c4a54aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 41/74] fix: atomizer sentinel chose shards by the wrong input

---
 src/uhs/atomizer/sentinel/controller.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uhs/atomizer/sentinel/controller.cpp b/src/uhs/atomizer/sentinel/controller.cpp
index a972175..1d2677d 100644
--- a/src/uhs/atomizer/sentinel/controller.cpp
+++ b/src/uhs/atomizer/sentinel/controller.cpp
@@ -195,7 +195,7 @@ namespace cbdc::sentinel {
                 if(inputs_sent.find(j) != inputs_sent.end()) {
                     continue;
                 }
-                if(!config::hash_in_shard_range(range, ctx.m_inputs[i])) {
+                if(!config::hash_in_shard_range(range, ctx.m_inputs[j])) {
                     continue;
                 }
                 inputs_sent.insert(j);
-- 
2.43.0


From 2dcdc45087e970fe57c074b20a2a61a6253aa880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 42/74] fix: sentinel client aborted on a response of the wrong
 kind

---
 src/uhs/sentinel/client.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/uhs/sentinel/client.cpp b/src/uhs/sentinel/client.cpp
index c45eef1..5a319ce 100644
--- a/src/uhs/sentinel/client.cpp
+++ b/src/uhs/sentinel/client.cpp
@@ -26,7 +26,8 @@ namespace cbdc::sentinel::rpc {
     auto client::execute_transaction(cbdc::transaction::full_tx tx)
         -> std::optional<execute_response> {
         auto res = m_client.call(execute_request{std::move(tx)});
-        if(!res.has_value()) {
+        if(!res.has_value()
+           || !std::holds_alternative<execute_response>(res.value())) {
             return std::nullopt;
         }
         return std::get<execute_response>(res.value());
@@ -38,7 +39,8 @@ namespace cbdc::sentinel::rpc {
         return m_client.call(
             execute_request{std::move(tx)},
             [cb = std::move(result_callback)](std::optional<response> res) {
-                if(!res.has_value()) {
+                if(!res.has_value()
+                   || !std::holds_alternative<execute_response>(res.value())) {
                     cb(std::nullopt);
                     return;
                 }
@@ -49,7 +51,8 @@ namespace cbdc::sentinel::rpc {
     auto client::validate_transaction(cbdc::transaction::full_tx tx)
         -> std::optional<validate_response> {
         auto res = m_client.call(validate_request{std::move(tx)});
-        if(!res.has_value()) {
+        if(!res.has_value()
+           || !std::holds_alternative<validate_response>(res.value())) {
             return std::nullopt;
         }
         return std::get<validate_response>(res.value());
@@ -61,7 +64,9 @@ namespace cbdc::sentinel::rpc {
         return m_client.call(
             validate_request{std::move(tx)},
             [cb = std::move(result_callback)](std::optional<response> res) {
-                if(!res.has_value()) {
+                if(!res.has_value()
+                   || !std::holds_alternative<validate_response>(
+                       res.value())) {
                     cb(std::nullopt);
                     return;
                 }
-- 
2.43.0


From 507c85a3166dfc754f9877c6e2b1ddcfdd9d3e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 43/74] fix: sentinel looped forever once it had asked every
 other sentinel

---
 src/uhs/atomizer/sentinel/controller.cpp     |  5 +++++
 src/uhs/twophase/sentinel_2pc/controller.cpp | 11 ++++++++++-
 src/uhs/twophase/sentinel_2pc/controller.hpp |  2 ++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/uhs/atomizer/sentinel/controller.cpp b/src/uhs/atomizer/sentinel/controller.cpp
index 1d2677d..200d978 100644
--- a/src/uhs/atomizer/sentinel/controller.cpp
+++ b/src/uhs/atomizer/sentinel/controller.cpp
@@ -148,6 +148,11 @@ namespace cbdc::sentinel {
                                     const transaction::compact_tx& ctx,
                                     std::unordered_set<size_t> requested) {
         if(ctx.m_attestations.size() < m_opts.m_attestation_threshold) {
+            if(requested.size() >= m_sentinel_clients.size()) {
+                m_logger->error(cbdc::to_string(ctx.m_id),
+                                "not enough attestations from all sentinels");
+                return;
+            }
             auto success = false;
             while(!success) {
                 auto sentinel_id = [&]() {
diff --git a/src/uhs/twophase/sentinel_2pc/controller.cpp b/src/uhs/twophase/sentinel_2pc/controller.cpp
index 9d2398a..8569d5c 100644
--- a/src/uhs/twophase/sentinel_2pc/controller.cpp
+++ b/src/uhs/twophase/sentinel_2pc/controller.cpp
@@ -182,9 +182,18 @@ namespace cbdc::sentinel_2pc {
         const transaction::compact_tx& ctx,
         std::unordered_set<size_t> requested) {
         if(ctx.m_attestations.size() < m_opts.m_attestation_threshold) {
+            if(requested.size() >= m_sentinel_clients.size()) {
+                m_logger->error(to_string(ctx.m_id),
+                                "not enough attestations from all sentinels");
+                result_callback(std::nullopt);
+                return;
+            }
             auto success = false;
             while(!success) {
-                auto sentinel_id = m_dist(m_rand);
+                auto sentinel_id = [&]() {
+                    std::unique_lock l(m_rand_mut);
+                    return m_dist(m_rand);
+                }();
                 if(requested.find(sentinel_id) != requested.end()) {
                     continue;
                 }
diff --git a/src/uhs/twophase/sentinel_2pc/controller.hpp b/src/uhs/twophase/sentinel_2pc/controller.hpp
index b5485eb..f0f0de2 100644
--- a/src/uhs/twophase/sentinel_2pc/controller.hpp
+++ b/src/uhs/twophase/sentinel_2pc/controller.hpp
@@ -17,6 +17,7 @@
 #include "util/common/hashmap.hpp"
 #include "util/network/connection_manager.hpp"
 
+#include <mutex>
 #include <random>
 
 namespace cbdc::sentinel_2pc {
@@ -104,6 +105,7 @@ namespace cbdc::sentinel_2pc {
         std::random_device m_r{};
         std::default_random_engine m_rand{m_r()};
         std::uniform_int_distribution<size_t> m_dist{};
+        std::mutex m_rand_mut;
 
         privkey_t m_privkey{};
     };
-- 
2.43.0


From 2b9a869c81e4f53d4c73979288e46c03aca96bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:13 +0000
Subject: [PATCH 44/74] fix: sentinels destroyed members which their network
 threads were using

---
 src/uhs/atomizer/sentinel/controller.cpp     | 13 +++++++++++++
 src/uhs/atomizer/sentinel/controller.hpp     |  5 ++++-
 src/uhs/sentinel/client.cpp                  |  4 ++++
 src/uhs/sentinel/client.hpp                  |  4 ++++
 src/uhs/twophase/sentinel_2pc/controller.cpp | 18 ++++++++++++++++++
 src/uhs/twophase/sentinel_2pc/controller.hpp |  5 ++++-
 6 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/src/uhs/atomizer/sentinel/controller.cpp b/src/uhs/atomizer/sentinel/controller.cpp
index 200d978..cf2e7e1 100644
--- a/src/uhs/atomizer/sentinel/controller.cpp
+++ b/src/uhs/atomizer/sentinel/controller.cpp
@@ -19,6 +19,16 @@ namespace cbdc::sentinel {
           m_opts(std::move(opts)),
           m_logger(std::move(logger)) {}
 
+    controller::~controller() {
+        // Requests and responses in progress use the members below, so end
+        // them before those are destroyed.
+        m_running = false;
+        m_rpc_server.reset();
+        for(auto& client : m_sentinel_clients) {
+            client->stop();
+        }
+    }
+
     auto controller::init() -> bool {
         auto skey = m_opts.m_sentinel_private_keys.find(m_sentinel_id);
         if(skey == m_opts.m_sentinel_private_keys.end()) {
@@ -155,6 +165,9 @@ namespace cbdc::sentinel {
             }
             auto success = false;
             while(!success) {
+                if(!m_running) {
+                    return;
+                }
                 auto sentinel_id = [&]() {
                     std::unique_lock l(m_rand_mut);
                     return m_dist(m_rand);
diff --git a/src/uhs/atomizer/sentinel/controller.hpp b/src/uhs/atomizer/sentinel/controller.hpp
index 483433c..8dee1f1 100644
--- a/src/uhs/atomizer/sentinel/controller.hpp
+++ b/src/uhs/atomizer/sentinel/controller.hpp
@@ -14,6 +14,7 @@
 #include "util/network/connection_manager.hpp"
 
 #include <memory>
+#include <atomic>
 #include <random>
 
 namespace cbdc::sentinel {
@@ -34,7 +35,7 @@ namespace cbdc::sentinel {
                    config::options opts,
                    std::shared_ptr<logging::log> logger);
 
-        ~controller() override = default;
+        ~controller() override;
 
         /// Initializes the controller. Establishes connections to the shards
         /// \return true if initialization succeeded.
@@ -81,6 +82,8 @@ namespace cbdc::sentinel {
         std::uniform_int_distribution<size_t> m_shard_dist{};
         std::mutex m_rand_mut;
 
+        std::atomic_bool m_running{true};
+
         privkey_t m_privkey{};
 
         void send_transaction(const transaction::full_tx& tx);
diff --git a/src/uhs/sentinel/client.cpp b/src/uhs/sentinel/client.cpp
index 5a319ce..812ed24 100644
--- a/src/uhs/sentinel/client.cpp
+++ b/src/uhs/sentinel/client.cpp
@@ -23,6 +23,10 @@ namespace cbdc::sentinel::rpc {
         return true;
     }
 
+    void client::stop() {
+        m_client.close();
+    }
+
     auto client::execute_transaction(cbdc::transaction::full_tx tx)
         -> std::optional<execute_response> {
         auto res = m_client.call(execute_request{std::move(tx)});
diff --git a/src/uhs/sentinel/client.hpp b/src/uhs/sentinel/client.hpp
index a08f1fe..6a67f26 100644
--- a/src/uhs/sentinel/client.hpp
+++ b/src/uhs/sentinel/client.hpp
@@ -37,6 +37,10 @@ namespace cbdc::sentinel::rpc {
         /// \see \ref cbdc::rpc::tcp_client::init(std::optional<bool>)
         auto init(std::optional<bool> error_fatal = std::nullopt) -> bool;
 
+        /// Disconnects from the sentinel. Returns once no response callback is
+        /// running; requests made afterward fail.
+        void stop();
+
         /// Result type from execute_transaction.
         using execute_result_type
             = std::optional<cbdc::sentinel::execute_response>;
diff --git a/src/uhs/twophase/sentinel_2pc/controller.cpp b/src/uhs/twophase/sentinel_2pc/controller.cpp
index 8569d5c..d93cd16 100644
--- a/src/uhs/twophase/sentinel_2pc/controller.cpp
+++ b/src/uhs/twophase/sentinel_2pc/controller.cpp
@@ -24,6 +24,16 @@ namespace cbdc::sentinel_2pc {
                                                opts.m_coordinator_endpoints
                                                    .size())]) {}
 
+    controller::~controller() {
+        // Requests and responses in progress use the members below, so end
+        // them before those are destroyed.
+        m_running = false;
+        m_rpc_server.reset();
+        for(auto& client : m_sentinel_clients) {
+            client->stop();
+        }
+    }
+
     auto controller::init() -> bool {
         if(m_opts.m_sentinel_endpoints.empty()) {
             m_logger->error("No sentinel endpoints are defined.");
@@ -190,6 +200,10 @@ namespace cbdc::sentinel_2pc {
             }
             auto success = false;
             while(!success) {
+                if(!m_running) {
+                    result_callback(std::nullopt);
+                    return;
+                }
                 auto sentinel_id = [&]() {
                     std::unique_lock l(m_rand_mut);
                     return m_dist(m_rand);
@@ -235,6 +249,10 @@ namespace cbdc::sentinel_2pc {
             //       or queue to the network to remove this sleep.
             static constexpr auto retry_delay = std::chrono::milliseconds(100);
             std::this_thread::sleep_for(retry_delay);
+            if(!m_running) {
+                cb(std::nullopt);
+                return;
+            }
         };
     }
 }
diff --git a/src/uhs/twophase/sentinel_2pc/controller.hpp b/src/uhs/twophase/sentinel_2pc/controller.hpp
index f0f0de2..bb652e3 100644
--- a/src/uhs/twophase/sentinel_2pc/controller.hpp
+++ b/src/uhs/twophase/sentinel_2pc/controller.hpp
@@ -17,6 +17,7 @@
 #include "util/common/hashmap.hpp"
 #include "util/network/connection_manager.hpp"
 
+#include <atomic>
 #include <mutex>
 #include <random>
 
@@ -38,7 +39,7 @@ namespace cbdc::sentinel_2pc {
                    const config::options& opts,
                    std::shared_ptr<logging::log> logger);
 
-        ~controller() override = default;
+        ~controller() override;
 
         /// Initializes the controller. Connects to the shard coordinator
         /// network and launches a server thread for external clients.
@@ -107,6 +108,8 @@ namespace cbdc::sentinel_2pc {
         std::uniform_int_distribution<size_t> m_dist{};
         std::mutex m_rand_mut;
 
+        std::atomic_bool m_running{true};
+
         privkey_t m_privkey{};
     };
 }
-- 
2.43.0


From 9665cf8f14c941215f2f6215b767c1864b59afa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:26 +0000
Subject: [PATCH 45/74] fix: sentinel server hung on destruction if a request
 arrived meanwhile

---
 src/uhs/atomizer/sentinel/server.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/uhs/atomizer/sentinel/server.cpp b/src/uhs/atomizer/sentinel/server.cpp
index 3d9f8f4..52a2255 100644
--- a/src/uhs/atomizer/sentinel/server.cpp
+++ b/src/uhs/atomizer/sentinel/server.cpp
@@ -26,6 +26,8 @@ namespace cbdc::sentinel::rpc {
     }
 
     server::~server() {
+        // No more requests may enter the queue once it was cleared
+        m_srv.reset();
         m_queue.clear();
         for(auto& t : m_threads) {
             if(t.joinable()) {
-- 
2.43.0


From 75f30fe572df736be88ed4a2bb6c2c0a3dd4a60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:01 +0000
Subject: [PATCH 46/74] fix: sentinel without a private key aborted when asked
 for an attestation

---
 src/uhs/twophase/sentinel_2pc/controller.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/uhs/twophase/sentinel_2pc/controller.cpp b/src/uhs/twophase/sentinel_2pc/controller.cpp
index d93cd16..7b5eb8b 100644
--- a/src/uhs/twophase/sentinel_2pc/controller.cpp
+++ b/src/uhs/twophase/sentinel_2pc/controller.cpp
@@ -156,6 +156,14 @@ namespace cbdc::sentinel_2pc {
     auto controller::validate_transaction(
         transaction::full_tx tx,
         validate_result_callback_type result_callback) -> bool {
+        if(m_opts.m_sentinel_private_keys.find(m_sentinel_id)
+           == m_opts.m_sentinel_private_keys.end()) {
+            // Without a key we can't attest. It is only required if
+            // attestations are.
+            m_logger->error("No private key to attest with");
+            result_callback(std::nullopt);
+            return true;
+        }
         const auto validation_err = transaction::validation::check_tx(tx);
         if(validation_err.has_value()) {
             result_callback(std::nullopt);
-- 
2.43.0


From 2d05eb21888535b4e6fec4e598aa7ded485337a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:03 +0000
Subject: [PATCH 47/74] fix: coordinators crashed on the commands of a leader
 that had been replaced meanwhile

---
 src/uhs/twophase/coordinator/controller.cpp   | 13 ++++++--
 src/uhs/twophase/coordinator/controller.hpp   |  2 ++
 .../twophase/coordinator/state_machine.cpp    | 30 +++++++++++--------
 .../twophase/coordinator/state_machine.hpp    |  6 +++-
 4 files changed, 35 insertions(+), 16 deletions(-)

diff --git a/src/uhs/twophase/coordinator/controller.cpp b/src/uhs/twophase/coordinator/controller.cpp
index beeb292..119f41b 100644
--- a/src/uhs/twophase/coordinator/controller.cpp
+++ b/src/uhs/twophase/coordinator/controller.cpp
@@ -164,19 +164,26 @@ namespace cbdc::coordinator {
         // the prepare result to the RSM and check if it replicated.
         auto comm = sm_command{{state_machine::command::commit, dtx_id},
                                std::make_pair(complete_txs, tx_idxs)};
-        return replicate_sm_command(comm).has_value();
+        return replicate_phase(comm);
     }
 
     auto controller::discard_cb(const hash_t& dtx_id) -> bool {
         // Send the discard status for this dtx ID and check if it replicated.
         auto comm = sm_command{{state_machine::command::discard, dtx_id}};
-        return replicate_sm_command(comm).has_value();
+        return replicate_phase(comm);
     }
 
     auto controller::done_cb(const hash_t& dtx_id) -> bool {
         // Send the done status for this dtx ID and check if it replicated.
         auto comm = sm_command{{state_machine::command::done, dtx_id}};
-        return replicate_sm_command(comm).has_value();
+        return replicate_phase(comm);
+    }
+
+    auto controller::replicate_phase(const sm_command& c) -> bool {
+        // The state machine refuses the command if another leader has moved
+        // the dtx on since we were last known to be the leader.
+        const auto res = replicate_sm_command(c);
+        return res.has_value() && !res.value();
     }
 
     void controller::stop() {
diff --git a/src/uhs/twophase/coordinator/controller.hpp b/src/uhs/twophase/coordinator/controller.hpp
index 67f1eed..d3f3f05 100644
--- a/src/uhs/twophase/coordinator/controller.hpp
+++ b/src/uhs/twophase/coordinator/controller.hpp
@@ -201,6 +201,8 @@ namespace cbdc::coordinator {
         [[nodiscard]] auto replicate_sm_command(const sm_command& c)
             -> std::optional<nuraft::ptr<nuraft::buffer>>;
 
+        [[nodiscard]] auto replicate_phase(const sm_command& c) -> bool;
+
         void connect_shards();
 
         void schedule_exec(std::function<void(size_t)>&& f);
diff --git a/src/uhs/twophase/coordinator/state_machine.cpp b/src/uhs/twophase/coordinator/state_machine.cpp
index 2a54718..067eb75 100644
--- a/src/uhs/twophase/coordinator/state_machine.cpp
+++ b/src/uhs/twophase/coordinator/state_machine.cpp
@@ -41,10 +41,12 @@ namespace cbdc::coordinator {
                 auto res = m_state.m_prepare_txs.erase(comm.m_dtx_id.value());
                 if(res == 0U) {
                     // To be in the commit phase the dtx should have been in
-                    // the prepare phase. If it's not, that's a bug and we
-                    // crash to protect the system.
-                    m_logger->fatal("Prepare not found for commit dtx",
-                                    to_string(comm.m_dtx_id.value()));
+                    // the prepare phase. If it's not, another leader has
+                    // recovered it since and the sender lost and regained
+                    // leadership meanwhile.
+                    m_logger->warn("Prepare not found for commit dtx",
+                                   to_string(comm.m_dtx_id.value()));
+                    return refusal();
                 }
                 // Put the dtx in the commit map with associated data
                 m_state.m_commit_txs.emplace(comm.m_dtx_id.value(),
@@ -56,10 +58,10 @@ namespace cbdc::coordinator {
                 // Remove the dtx from the commit map
                 auto res = m_state.m_commit_txs.erase(comm.m_dtx_id.value());
                 if(res == 0U) {
-                    // If the dtx wasn't in the commit map a bug has occurred
-                    // and we crash
-                    m_logger->fatal("Commit not found for discard dtx",
-                                    to_string(comm.m_dtx_id.value()));
+                    // As above, another leader has moved the dtx on.
+                    m_logger->warn("Commit not found for discard dtx",
+                                   to_string(comm.m_dtx_id.value()));
+                    return refusal();
                 }
                 // Add the dtx to the discard set
                 m_state.m_discard_txs.emplace(comm.m_dtx_id.value());
@@ -69,10 +71,10 @@ namespace cbdc::coordinator {
                 // Remove the dtx from the discard map
                 auto res = m_state.m_discard_txs.erase(comm.m_dtx_id.value());
                 if(res == 0U) {
-                    // The dtx must have been discarded to be considered done.
-                    // If it wasn't in the map, crash.
-                    m_logger->fatal("Discard not found for done dtx",
-                                    to_string(comm.m_dtx_id.value()));
+                    // As above, another leader has moved the dtx on.
+                    m_logger->warn("Discard not found for done dtx",
+                                   to_string(comm.m_dtx_id.value()));
+                    return refusal();
                 }
                 break;
             }
@@ -91,6 +93,10 @@ namespace cbdc::coordinator {
         return nullptr;
     }
 
+    auto state_machine::refusal() -> nuraft::ptr<nuraft::buffer> {
+        return nuraft::buffer::alloc(1);
+    }
+
     void state_machine::commit_config(
         const nuraft::ulong log_idx,
         nuraft::ptr<nuraft::cluster_config>& /*new_conf*/) {
diff --git a/src/uhs/twophase/coordinator/state_machine.hpp b/src/uhs/twophase/coordinator/state_machine.hpp
index 571e363..952d9fe 100644
--- a/src/uhs/twophase/coordinator/state_machine.hpp
+++ b/src/uhs/twophase/coordinator/state_machine.hpp
@@ -61,7 +61,9 @@ namespace cbdc::coordinator {
         /// \param log_idx index of raft entry.
         /// \param data the buffer containing the command to commit.
         /// \return pointer to a buffer with the serialized execution result
-        ///         or nullptr.
+        ///         or nullptr. For commit, discard and done, a buffer if the
+        ///         dtx is not in the preceding phase; the command has no
+        ///         effect then.
         auto commit(uint64_t log_idx, nuraft::buffer& data)
             -> nuraft::ptr<nuraft::buffer> override;
 
@@ -88,6 +90,8 @@ namespace cbdc::coordinator {
             nuraft::async_result<bool>::handler_type& when_done) override;
 
       private:
+        static auto refusal() -> nuraft::ptr<nuraft::buffer>;
+
         std::atomic<uint64_t> m_last_committed_idx{0};
         coordinator_state m_state{};
         std::shared_ptr<logging::log> m_logger;
-- 
2.43.0


From 42fd530baa3d58117d47473da8cf06807a37ee5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:21 +0000
Subject: [PATCH 48/74] fix: archiver client never reconnected, so shards and
 watchtowers could not catch up after the archiver restarted

---
 src/uhs/atomizer/archiver/client.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/uhs/atomizer/archiver/client.cpp b/src/uhs/atomizer/archiver/client.cpp
index 953698b..816d767 100644
--- a/src/uhs/atomizer/archiver/client.cpp
+++ b/src/uhs/atomizer/archiver/client.cpp
@@ -23,8 +23,15 @@ namespace cbdc::archiver {
     auto client::get_block(uint64_t height)
         -> std::optional<cbdc::atomizer::block> {
         m_logger->info("Requesting block", height, "from archiver...");
+        if(!m_sock.connected() && !init()) {
+            m_logger->error("Error connecting to archiver.");
+            return std::nullopt;
+        }
+
+        // If the connection fails, the next request establishes a new one.
         if(!m_sock.send(height)) {
             m_logger->error("Error requesting block from archiver.");
+            m_sock.disconnect();
             return std::nullopt;
         }
 
@@ -32,6 +39,7 @@ namespace cbdc::archiver {
         cbdc::buffer resp_pkt;
         if(!m_sock.receive(resp_pkt)) {
             m_logger->error("Error receiving block from archiver.");
+            m_sock.disconnect();
             return std::nullopt;
         }
 
-- 
2.43.0


From 70f6f5bdfc3c6f72f832709dabebad4b4a160b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:22 +0000
Subject: [PATCH 49/74] fix: shards and watchtowers hung on destruction while
 waiting for blocks from the archiver

---
 src/uhs/atomizer/shard/controller.cpp      | 6 ++++--
 src/uhs/atomizer/shard/controller.hpp      | 2 ++
 src/uhs/atomizer/watchtower/controller.cpp | 4 ++++
 src/uhs/atomizer/watchtower/controller.hpp | 2 ++
 4 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/uhs/atomizer/shard/controller.cpp b/src/uhs/atomizer/shard/controller.cpp
index 12ab569..c6f028f 100644
--- a/src/uhs/atomizer/shard/controller.cpp
+++ b/src/uhs/atomizer/shard/controller.cpp
@@ -21,6 +21,7 @@ namespace cbdc::shard {
           m_archiver_client(m_opts.m_archiver_endpoints[0], m_logger) {}
 
     controller::~controller() {
+        m_running = false;
         m_shard_network.close();
         m_atomizer_network.close();
 
@@ -123,7 +124,7 @@ namespace cbdc::shard {
 
         // If the block is not contiguous, catch up by requesting
         // blocks from the archiver.
-        while(!m_shard.digest_block(blk)) {
+        while(m_running && !m_shard.digest_block(blk)) {
             m_logger->warn("Block",
                            blk.m_height,
                            "not contiguous with previous block",
@@ -134,7 +135,8 @@ namespace cbdc::shard {
             }
 
             // Attempt to catch up to the latest block
-            for(uint64_t i = m_shard.best_block_height() + 1; i < blk.m_height;
+            for(uint64_t i = m_shard.best_block_height() + 1;
+                m_running && i < blk.m_height;
                 i++) {
                 const auto past_blk = m_archiver_client.get_block(i);
                 if(past_blk) {
diff --git a/src/uhs/atomizer/shard/controller.hpp b/src/uhs/atomizer/shard/controller.hpp
index fde3870..f14dbbf 100644
--- a/src/uhs/atomizer/shard/controller.hpp
+++ b/src/uhs/atomizer/shard/controller.hpp
@@ -52,6 +52,8 @@ namespace cbdc::shard {
         cbdc::network::connection_manager m_atomizer_network;
         cbdc::network::connection_manager m_shard_network;
 
+        std::atomic_bool m_running{true};
+
         std::thread m_shard_server;
         std::thread m_atomizer_client;
 
diff --git a/src/uhs/atomizer/watchtower/controller.cpp b/src/uhs/atomizer/watchtower/controller.cpp
index 6f36823..884c24b 100644
--- a/src/uhs/atomizer/watchtower/controller.cpp
+++ b/src/uhs/atomizer/watchtower/controller.cpp
@@ -23,6 +23,7 @@ cbdc::watchtower::controller::controller(
       m_archiver_client(m_opts.m_archiver_endpoints[0], log) {}
 
 cbdc::watchtower::controller::~controller() {
+    m_running = false;
     m_internal_network.close();
     m_external_network.close();
     m_atomizer_network.close();
@@ -114,6 +115,9 @@ auto cbdc::watchtower::controller::atomizer_handler(
             auto missed_blk
                 = m_archiver_client.get_block(m_last_blk_height + 1);
             if(!missed_blk) {
+                if(!m_running) {
+                    return std::nullopt;
+                }
                 m_logger->warn("Waiting for archiver sync");
                 static constexpr auto archiver_wait_time
                     = std::chrono::milliseconds(100);
diff --git a/src/uhs/atomizer/watchtower/controller.hpp b/src/uhs/atomizer/watchtower/controller.hpp
index a503dc8..843e1dd 100644
--- a/src/uhs/atomizer/watchtower/controller.hpp
+++ b/src/uhs/atomizer/watchtower/controller.hpp
@@ -52,6 +52,8 @@ namespace cbdc::watchtower {
 
         cbdc::archiver::client m_archiver_client;
 
+        std::atomic_bool m_running{true};
+
         std::thread m_internal_server;
         std::thread m_external_server;
         std::thread m_atomizer_thread;
-- 
2.43.0


From be00cbd724d63b1332f067f6d17f6d667b9473c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:22 +0000
Subject: [PATCH 50/74] fix: archiver stopped for good if a request for a
 missing block was lost

---
 src/uhs/atomizer/archiver/controller.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/uhs/atomizer/archiver/controller.cpp b/src/uhs/atomizer/archiver/controller.cpp
index 7fc850c..9161789 100644
--- a/src/uhs/atomizer/archiver/controller.cpp
+++ b/src/uhs/atomizer/archiver/controller.cpp
@@ -197,12 +197,14 @@ namespace cbdc::archiver {
             }
 
             if(blk.m_height != m_best_height + 1) {
-                // Not contiguous, check prev block isn't deferred already
-                auto it = m_deferred.find(blk.m_height - 1);
-                if(it == m_deferred.end()) {
-                    // Request previous block from atomizer cluster
-                    request_block(blk.m_height - 1);
+                // Not contiguous, request the closest preceding block which
+                // isn't deferred already from the atomizer cluster. An earlier
+                // request for it might have been lost.
+                auto missing = blk.m_height - 1;
+                while(m_deferred.find(missing) != m_deferred.end()) {
+                    missing--;
                 }
+                request_block(missing);
                 m_deferred.emplace(blk.m_height, blk);
                 return;
             }
-- 
2.43.0


From 57a3e2eb0c1ee6dae86485e0e9de4cbbc9f03777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:44 +0000
Subject: [PATCH 51/74] fix: data race on the best block height of a shard

---
 src/uhs/atomizer/shard/shard.cpp | 4 +++-
 src/uhs/atomizer/shard/shard.hpp | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/uhs/atomizer/shard/shard.cpp b/src/uhs/atomizer/shard/shard.cpp
index c328acf..67c9265 100644
--- a/src/uhs/atomizer/shard/shard.cpp
+++ b/src/uhs/atomizer/shard/shard.cpp
@@ -167,7 +167,9 @@ namespace cbdc::shard {
     }
 
     auto shard::best_block_height() const -> uint64_t {
-        return m_best_block_height;
+        // The thread digesting blocks writes m_best_block_height
+        std::shared_lock<std::shared_mutex> l(m_snp_mut);
+        return m_snp_height;
     }
 
     auto shard::is_output_on_shard(const hash_t& uhs_hash) const -> bool {
diff --git a/src/uhs/atomizer/shard/shard.hpp b/src/uhs/atomizer/shard/shard.hpp
index 19ad733..a1515ad 100644
--- a/src/uhs/atomizer/shard/shard.hpp
+++ b/src/uhs/atomizer/shard/shard.hpp
@@ -79,7 +79,7 @@ namespace cbdc::shard {
 
         std::shared_ptr<const leveldb::Snapshot> m_snp;
         uint64_t m_snp_height{};
-        std::shared_mutex m_snp_mut;
+        mutable std::shared_mutex m_snp_mut;
 
         const std::string m_best_block_height_key = "bestBlockHeight";
 
-- 
2.43.0


From 6a0b47220380bb3eefa8a7ff457b4019f2154602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:02 +0000
Subject: [PATCH 52/74] fix: atomizer refused transactions as too old because
 of an earlier attestation which a newer one should have replaced

---
 src/uhs/atomizer/atomizer/atomizer_raft.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/uhs/atomizer/atomizer/atomizer_raft.cpp b/src/uhs/atomizer/atomizer/atomizer_raft.cpp
index 24681f2..e346b7c 100644
--- a/src/uhs/atomizer/atomizer/atomizer_raft.cpp
+++ b/src/uhs/atomizer/atomizer/atomizer_raft.cpp
@@ -69,9 +69,12 @@ namespace cbdc::atomizer {
                 for(auto n : notif.m_attestations) {
                     auto p = std::make_pair(n, notif.m_block_height);
                     auto n_it = it->second.find(p);
-                    if((n_it != it->second.end()
-                        && n_it->second < notif.m_block_height)
-                       || n_it == it->second.end()) {
+                    if(n_it != it->second.end()
+                       && n_it->second < notif.m_block_height) {
+                        // insert does not replace an older attestation
+                        it->second.erase(n_it);
+                        it->second.insert(std::move(p));
+                    } else if(n_it == it->second.end()) {
                         it->second.insert(std::move(p));
                     }
                 }
-- 
2.43.0


From 508c9c54472596c9192da099f53889e775d59461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:03 +0000
Subject: [PATCH 53/74] fix: compacted raft log lost its bounds on restart and
 reused log indices

---
 src/util/raft/log_store.cpp | 87 ++++++++++++++++++++-----------------
 1 file changed, 46 insertions(+), 41 deletions(-)

diff --git a/src/util/raft/log_store.cpp b/src/util/raft/log_store.cpp
index e276bc1..3c5f0d2 100644
--- a/src/util/raft/log_store.cpp
+++ b/src/util/raft/log_store.cpp
@@ -5,38 +5,50 @@
 
 #include "log_store.hpp"
 
-#include <array>
 #include <cstring>
 #include <leveldb/write_batch.h>
 #include <libnuraft/buffer_serializer.hxx>
 
 namespace cbdc::raft {
-    template<bool First>
-    auto get_first_or_last_index(leveldb::DB* db,
-                                 const leveldb::ReadOptions& opt) -> uint64_t {
-        auto it = std::unique_ptr<leveldb::Iterator>(db->NewIterator(opt));
-
-        if constexpr(First) {
-            it->SeekToFirst();
-            if(!it->Valid()) {
-                return 1;
-            }
-        } else {
-            it->SeekToLast();
-            if(!it->Valid()) {
-                return 0;
-            }
-        }
-
-        const auto last_log_key_slice = it->key();
+    // Log index 0 is never used for an entry. Once the log has been compacted,
+    // the last compacted log index is stored there so that the bounds of the
+    // log are known after a restart even if there are no entries left.
+    static constexpr uint64_t compacted_idx_key = 0;
 
+    auto get_key_index(const leveldb::Iterator& it) -> uint64_t {
+        const auto key_slice = it.key();
         uint64_t ret{};
-        assert(last_log_key_slice.size() == sizeof(ret));
-        std::memcpy(&ret, last_log_key_slice.data(), sizeof(ret));
-
+        assert(key_slice.size() == sizeof(ret));
+        std::memcpy(&ret, key_slice.data(), sizeof(ret));
         return ret;
     }
 
+    auto get_start_index(leveldb::DB* db, const leveldb::ReadOptions& opt)
+        -> uint64_t {
+        auto it = std::unique_ptr<leveldb::Iterator>(db->NewIterator(opt));
+        it->SeekToFirst();
+        uint64_t start_idx{1};
+        if(it->Valid() && get_key_index(*it) == compacted_idx_key) {
+            const auto val = it->value();
+            assert(val.size() == sizeof(start_idx));
+            std::memcpy(&start_idx, val.data(), sizeof(start_idx));
+            start_idx++;
+            it->Next();
+        }
+        return it->Valid() ? get_key_index(*it) : start_idx;
+    }
+
+    auto get_next_index(leveldb::DB* db,
+                        const leveldb::ReadOptions& opt,
+                        uint64_t start_idx) -> uint64_t {
+        auto it = std::unique_ptr<leveldb::Iterator>(db->NewIterator(opt));
+        it->SeekToLast();
+        if(!it->Valid() || get_key_index(*it) == compacted_idx_key) {
+            return start_idx;
+        }
+        return get_key_index(*it) + 1;
+    }
+
     auto log_store::load(const std::string& db_dir) -> bool {
         m_write_opt.sync = false;
 
@@ -54,10 +66,9 @@ namespace cbdc::raft {
             std::lock_guard<std::mutex> l(m_db_mut);
             m_db.reset(db_ptr);
 
+            m_start_idx = get_start_index(m_db.get(), m_read_opt);
             m_next_idx
-                = get_first_or_last_index<false>(m_db.get(), m_read_opt) + 1;
-            m_start_idx
-                = get_first_or_last_index<true>(m_db.get(), m_read_opt);
+                = get_next_index(m_db.get(), m_read_opt, m_start_idx);
         }
 
         return true;
@@ -91,7 +102,7 @@ namespace cbdc::raft {
 
             it->SeekToLast();
 
-            if(!it->Valid()) {
+            if(!it->Valid() || get_key_index(*it) == compacted_idx_key) {
                 auto null_entry
                     = nuraft::cs_new<nuraft::log_entry>(0, nullptr);
                 return null_entry;
@@ -195,8 +206,8 @@ namespace cbdc::raft {
         {
             std::lock_guard<std::mutex> l(m_db_mut);
             const auto status = m_db->Get(m_read_opt, key.first, &val);
-            if(!status.ok()) {
-                assert(status.IsNotFound());
+            if(!status.ok() || index == compacted_idx_key) {
+                assert(status.ok() || status.IsNotFound());
                 auto null_entry
                     = nuraft::cs_new<nuraft::log_entry>(0, nullptr);
                 return null_entry;
@@ -280,10 +291,9 @@ namespace cbdc::raft {
             const auto status = m_db->Write(m_write_opt, &batch);
             assert(status.ok());
 
-            m_start_idx
-                = get_first_or_last_index<true>(m_db.get(), m_read_opt);
+            m_start_idx = get_start_index(m_db.get(), m_read_opt);
             m_next_idx
-                = get_first_or_last_index<false>(m_db.get(), m_read_opt) + 1;
+                = get_next_index(m_db.get(), m_read_opt, m_start_idx);
         }
     }
 
@@ -301,6 +311,10 @@ namespace cbdc::raft {
                 data_slices[i - m_start_idx] = std::move(key.second);
             }
 
+            const auto compacted_key = get_key_slice(compacted_idx_key);
+            const auto compacted_val = get_key_slice(last_log_index);
+            batch.Put(compacted_key.first, compacted_val.first);
+
             const auto status = m_db->Write(m_write_opt, &batch);
             assert(status.ok());
 
@@ -313,22 +327,13 @@ namespace cbdc::raft {
 
     auto log_store::flush() -> bool {
         // LevelDB does not provide a way to issue a single "flush" call. As a
-        // workaround make a dummy write with no lasting effects where sync =
-        // true.
+        // workaround make an empty write where sync = true.
 
         leveldb::WriteOptions sync_opts;
         sync_opts.sync = true;
 
         leveldb::WriteBatch batch;
 
-        // Log entry 0 is always empty so we're not overwriting anything
-        // important
-        std::array<char, sizeof(uint64_t)> dummy_key_data{};
-        leveldb::Slice dummy_key_slice(dummy_key_data.data(),
-                                       dummy_key_data.size());
-        batch.Put(dummy_key_slice, dummy_key_slice);
-        batch.Delete(dummy_key_slice);
-
         {
             std::lock_guard<std::mutex> l(m_db_mut);
             const auto status = m_db->Write(sync_opts, &batch);
-- 
2.43.0


From 0cafca37b6ce74d9cf2c9b22b945e7e14d3abe29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:03 +0000
Subject: [PATCH 54/74] fix: failed write replaced the saved raft vote or
 configuration by a part of it

---
 src/util/raft/state_manager.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/util/raft/state_manager.cpp b/src/util/raft/state_manager.cpp
index 45b2ff8..151815f 100644
--- a/src/util/raft/state_manager.cpp
+++ b/src/util/raft/state_manager.cpp
@@ -7,6 +7,7 @@
 
 #include "log_store.hpp"
 
+#include <cstdlib>
 #include <cstring>
 #include <filesystem>
 #include <fstream>
@@ -39,6 +40,11 @@ namespace cbdc::raft {
                    static_cast<std::streamsize>(char_buf.size()));
         file.flush();
         file.close();
+        if(!file.good()) {
+            // Keep what was saved before rather than replace it by a part of
+            // the object. The server must not go on as if this was saved.
+            std::abort();
+        }
 
         std::filesystem::rename(tmp_file, filename);
     }
-- 
2.43.0


From 547b5552473c4091336cd4f36dc1e6300768cf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:45 +0000
Subject: [PATCH 55/74] fix: client interrupted while saving lost its keys,
 money or pending transactions

---
 src/uhs/client/client.cpp      | 42 ++++++++++++++++++++++++++++++----
 src/uhs/client/client.hpp      |  8 ++++++-
 src/uhs/transaction/wallet.cpp |  5 ++++
 3 files changed, 50 insertions(+), 5 deletions(-)

diff --git a/src/uhs/client/client.cpp b/src/uhs/client/client.cpp
index 94fc612..5faa7ab 100644
--- a/src/uhs/client/client.cpp
+++ b/src/uhs/client/client.cpp
@@ -69,6 +69,8 @@ namespace cbdc {
           m_wallet_file(std::move(wallet_file)) {}
 
     auto client::init() -> bool {
+        finish_save();
+
         if(std::filesystem::exists(m_wallet_file)) {
             m_wallet.load(m_wallet_file);
         } else {
@@ -324,8 +326,8 @@ namespace cbdc {
         }
     }
 
-    void client::save_client_state() {
-        std::ofstream client_file(m_client_file,
+    void client::save_client_state(const std::string& filename) {
+        std::ofstream client_file(filename,
                                   std::ios::binary | std::ios::trunc
                                       | std::ios::out);
         if(!client_file.good()) {
@@ -335,11 +337,43 @@ namespace cbdc {
         if(!(ser << m_pending_txs << m_pending_inputs << m_pending_spend)) {
             m_logger->fatal("Failed to write client data");
         }
+        client_file.flush();
+        if(!client_file.good()) {
+            m_logger->fatal("Failed to write client data");
+        }
     }
 
     void client::save() {
-        save_client_state();
-        m_wallet.save(m_wallet_file);
+        // Write both files completely before replacing either of them, so that
+        // being interrupted leaves the wallet and the client state as they
+        // were before or as they are now.
+        const auto wallet_tmp = m_wallet_file + m_tmp_suffix;
+        m_wallet.save(wallet_tmp);
+        save_client_state(m_client_file + m_tmp_suffix);
+
+        auto err = std::error_code();
+        std::filesystem::rename(wallet_tmp, m_wallet_file, err);
+        if(err) {
+            m_logger->fatal("Failed to replace wallet file");
+        }
+
+        finish_save();
+    }
+
+    void client::finish_save() {
+        // Without its temporary wallet file, a temporary client file belongs
+        // to the current wallet file.
+        const auto client_tmp = m_client_file + m_tmp_suffix;
+        if(std::filesystem::exists(m_wallet_file + m_tmp_suffix)
+           || !std::filesystem::exists(client_tmp)) {
+            return;
+        }
+
+        auto err = std::error_code();
+        std::filesystem::rename(client_tmp, m_client_file, err);
+        if(err) {
+            m_logger->fatal("Failed to replace client file");
+        }
     }
 
     auto client::pending_txs() const
diff --git a/src/uhs/client/client.hpp b/src/uhs/client/client.hpp
index d2bb6cf..c01f4fa 100644
--- a/src/uhs/client/client.hpp
+++ b/src/uhs/client/client.hpp
@@ -294,6 +294,8 @@ namespace cbdc {
 
         transaction::wallet m_wallet{};
 
+        static constexpr auto m_tmp_suffix = ".tmp";
+
         std::string m_client_file;
         std::string m_wallet_file;
 
@@ -303,10 +305,14 @@ namespace cbdc {
         void import_transaction(const transaction::full_tx& tx);
 
         void load_client_state();
-        void save_client_state();
+        void save_client_state(const std::string& filename);
 
         void save();
 
+        /// Completes a save that was interrupted after the wallet file was
+        /// replaced.
+        void finish_save();
+
         void register_pending_tx(const transaction::full_tx& tx);
     };
 }
diff --git a/src/uhs/transaction/wallet.cpp b/src/uhs/transaction/wallet.cpp
index 41ff91a..e521261 100644
--- a/src/uhs/transaction/wallet.cpp
+++ b/src/uhs/transaction/wallet.cpp
@@ -326,6 +326,11 @@ namespace cbdc {
             std::shared_lock<std::shared_mutex> lu(m_utxos_mut);
             ser << m_utxos_set;
         }
+
+        wal_file.flush();
+        if(!wal_file.good()) {
+            std::exit(EXIT_FAILURE);
+        }
     }
 
     void transaction::wallet::load(const std::string& wallet_file) {
-- 
2.43.0


From b08bc8e0d2229e0ff423218a40c7321359885d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:45 +0000
Subject: [PATCH 56/74] fix: client interrupted between saving a payment's
 inputs and the payment lost the inputs

---
 src/uhs/client/client.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/uhs/client/client.cpp b/src/uhs/client/client.cpp
index 5faa7ab..705f15b 100644
--- a/src/uhs/client/client.cpp
+++ b/src/uhs/client/client.cpp
@@ -138,12 +138,17 @@ namespace cbdc {
         static constexpr auto null_return
             = std::make_pair(std::nullopt, std::nullopt);
 
-        auto spend_tx = create_transaction(value, payee);
+        auto spend_tx = m_wallet.send_to(value, payee, true);
         if(!spend_tx.has_value()) {
             m_logger->error("Failed to generate wallet spend tx.");
             return null_return;
         }
 
+        // Saved together with the transaction's inputs
+        m_pending_txs.insert(
+            {transaction::tx_id(spend_tx.value()), spend_tx.value()});
+        register_pending_tx(spend_tx.value());
+
         auto res = send_transaction(spend_tx.value());
         if(!res.has_value()) {
             return null_return;
@@ -164,6 +169,8 @@ namespace cbdc {
             return null_return;
         }
 
+        // Saved together with the transaction's inputs
+        m_pending_txs.insert({transaction::tx_id(tx.value()), tx.value()});
         register_pending_tx(tx.value());
 
         auto res = send_transaction(tx.value());
-- 
2.43.0


From 1f8bd4d6ab166b80d2cf3e8ae3ad5511ef237f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:26 +0000
Subject: [PATCH 57/74] fix: failed write made an atomizer keep an incomplete
 snapshot in place of its last one

---
 src/uhs/atomizer/atomizer/state_machine.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/uhs/atomizer/atomizer/state_machine.cpp b/src/uhs/atomizer/atomizer/state_machine.cpp
index 6ebc000..a8b4b45 100644
--- a/src/uhs/atomizer/atomizer/state_machine.cpp
+++ b/src/uhs/atomizer/atomizer/state_machine.cpp
@@ -174,6 +174,9 @@ namespace cbdc::atomizer {
 
             ss.flush();
             ss.close();
+            if(!ss.good()) {
+                std::exit(EXIT_FAILURE);
+            }
 
             auto path = get_snapshot_path(s.get_last_log_idx());
             auto err = std::error_code();
@@ -240,6 +243,9 @@ namespace cbdc::atomizer {
 
             ss.flush();
             ss.close();
+            if(!ss.good()) {
+                std::exit(EXIT_FAILURE);
+            }
 
             auto err = std::error_code();
             std::filesystem::rename(tmp_path, path, err);
-- 
2.43.0


From 278b765208ad6646cb1384d4b9bff3a52a4913be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:44 +0000
Subject: [PATCH 58/74] fix: shard seeder ignored the shard ranges and the
 first seed of the configuration

---
 tools/shard-seeder/shard-seeder.cpp | 40 +++++++++++++++--------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/tools/shard-seeder/shard-seeder.cpp b/tools/shard-seeder/shard-seeder.cpp
index c2fba0c..20a648c 100644
--- a/tools/shard-seeder/shard-seeder.cpp
+++ b/tools/shard-seeder/shard-seeder.cpp
@@ -50,12 +50,14 @@ auto main(int argc, char** argv) -> int {
 
     auto start = std::chrono::system_clock::now();
 
-    auto unique_ranges
-        = std::vector<cbdc::config::shard_range_t>(cfg.m_shard_ranges);
-    std::sort(unique_ranges.begin(), unique_ranges.end());
-    unique_ranges.erase(unique(unique_ranges.begin(), unique_ranges.end()),
-                        unique_ranges.end());
-    auto num_shards = unique_ranges.size();
+    auto ranges = std::vector<cbdc::config::shard_range_t>(cfg.m_shard_ranges);
+    if(!cfg.m_twophase_mode) {
+        // Shards of the same range use copies of the same database. Two-phase
+        // shards look for a file with their own ID.
+        std::sort(ranges.begin(), ranges.end());
+        ranges.erase(unique(ranges.begin(), ranges.end()), ranges.end());
+    }
+    auto num_shards = ranges.size();
     auto num_utxos = cfg.m_seed_to - cfg.m_seed_from;
     auto utxo_val = cfg.m_seed_value;
     if(!cfg.m_seed_privkey.has_value()) {
@@ -72,22 +74,16 @@ auto main(int argc, char** argv) -> int {
         = cbdc::transaction::validation::get_p2pk_witness_commitment(pubkey);
 
     cbdc::transaction::wallet wal;
-    wal.seed_readonly(witness_commitment, utxo_val, 0, num_utxos);
+    wal.seed_readonly(witness_commitment,
+                      utxo_val,
+                      cfg.m_seed_from,
+                      cfg.m_seed_to);
 
-    auto shard_range
-        = (std::numeric_limits<cbdc::config::shard_range_t::first_type>::max()
-           + 1)
-        / num_shards;
     auto gen_threads = std::vector<std::thread>(num_shards);
     for(size_t i = 0; i < num_shards; i++) {
         std::thread t(
             [&](size_t shard_idx) {
-                auto shard_start = shard_idx * shard_range;
-                auto shard_end = (shard_idx + 1) * shard_range - 1;
-                if(shard_idx == num_shards - 1) {
-                    shard_end = std::numeric_limits<
-                        cbdc::config::shard_range_t::first_type>::max();
-                }
+                const auto& [shard_start, shard_end] = ranges[shard_idx];
 
                 std::stringstream shard_db_dir;
                 if(cfg.m_twophase_mode) {
@@ -126,7 +122,9 @@ auto main(int argc, char** argv) -> int {
                     auto tx = wal.create_seeded_transaction(0).value();
                     auto batch_size = 0;
                     leveldb::WriteBatch batch;
-                    for(size_t tx_idx = 0; tx_idx != num_utxos; tx_idx++) {
+                    for(size_t tx_idx = cfg.m_seed_from;
+                        tx_idx != cfg.m_seed_to;
+                        tx_idx++) {
                         tx.m_inputs[0].m_prevout.m_index = tx_idx;
                         cbdc::transaction::compact_tx ctx(tx);
                         const cbdc::hash_t& output_hash = ctx.m_uhs_outputs[0];
@@ -159,7 +157,9 @@ auto main(int argc, char** argv) -> int {
                     auto ser = cbdc::ostream_serializer(out);
                     ser << count;
                     auto tx = wal.create_seeded_transaction(0).value();
-                    for(size_t tx_idx = 0; tx_idx != num_utxos; tx_idx++) {
+                    for(size_t tx_idx = cfg.m_seed_from;
+                        tx_idx != cfg.m_seed_to;
+                        tx_idx++) {
                         tx.m_inputs[0].m_prevout.m_index = tx_idx;
                         cbdc::transaction::compact_tx ctx(tx);
                         const cbdc::hash_t& output_hash = ctx.m_uhs_outputs[0];
@@ -184,4 +184,6 @@ auto main(int argc, char** argv) -> int {
                         std::chrono::system_clock::now() - start)
                         .count();
     logger.info("Done in ", duration, "ms");
+
+    return 0;
 }
-- 
2.43.0


From 7b40ec51d8df1bf1fecbe7f9e31f0f1705100734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:31 +0000
Subject: [PATCH 59/74] fix: shard seeder claimed success when it could not
 write the seeds

---
 tools/shard-seeder/shard-seeder.cpp | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/tools/shard-seeder/shard-seeder.cpp b/tools/shard-seeder/shard-seeder.cpp
index 20a648c..b8f2fdc 100644
--- a/tools/shard-seeder/shard-seeder.cpp
+++ b/tools/shard-seeder/shard-seeder.cpp
@@ -12,6 +12,7 @@
 #include "util/serialization/ostream_serializer.hpp"
 
 #include <algorithm>
+#include <atomic>
 #include <chrono>
 #include <iostream>
 #include <leveldb/db.h>
@@ -79,6 +80,7 @@ auto main(int argc, char** argv) -> int {
                       cfg.m_seed_from,
                       cfg.m_seed_to);
 
+    auto failed = std::atomic<bool>(false);
     auto gen_threads = std::vector<std::thread>(num_shards);
     for(size_t i = 0; i < num_shards; i++) {
         std::thread t(
@@ -116,6 +118,7 @@ auto main(int argc, char** argv) -> int {
                                      shard_idx,
                                      ": ",
                                      res.ToString());
+                        failed = true;
                         return;
                     }
 
@@ -139,14 +142,22 @@ auto main(int argc, char** argv) -> int {
                             batch.Put(hash_key, leveldb::Slice());
                             batch_size++;
                             if(batch_size >= write_batch_size) {
-                                db->Write(wopt, &batch);
+                                if(!db->Write(wopt, &batch).ok()) {
+                                    logger.error("Failed to write to shard DB",
+                                                 shard_db_dir.str());
+                                    failed = true;
+                                    return;
+                                }
                                 batch.Clear();
                                 batch_size = 0;
                             }
                         }
                     }
-                    if(batch_size > 0) {
-                        db->Write(wopt, &batch);
+                    if(batch_size > 0 && !db->Write(wopt, &batch).ok()) {
+                        logger.error("Failed to write to shard DB",
+                                     shard_db_dir.str());
+                        failed = true;
+                        return;
                     }
                     logger.info("Shard ", shard_idx, " succesfully seeded");
                 } else if(cfg.m_twophase_mode) { // 2PC Shard
@@ -171,6 +182,12 @@ auto main(int argc, char** argv) -> int {
                     }
                     ser.reset();
                     ser << count;
+                    out.close();
+                    if(!out.good()) {
+                        logger.error("Failed to write preseed file",
+                                     shard_db_dir.str());
+                        failed = true;
+                    }
                 }
             },
             i);
@@ -185,5 +202,5 @@ auto main(int argc, char** argv) -> int {
                         .count();
     logger.info("Done in ", duration, "ms");
 
-    return 0;
+    return failed ? -1 : 0;
 }
-- 
2.43.0


From 219b6b472cd79300f272547374366f0c84a0f18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:32 +0000
Subject: [PATCH 60/74] fix: a shard which failed a request or closed the
 connection aborted the broker

---
 src/parsec/runtime_locking_shard/client.cpp | 56 ++++++++++++---------
 1 file changed, 31 insertions(+), 25 deletions(-)

diff --git a/src/parsec/runtime_locking_shard/client.cpp b/src/parsec/runtime_locking_shard/client.cpp
index 78be3f5..fd9a5ec 100644
--- a/src/parsec/runtime_locking_shard/client.cpp
+++ b/src/parsec/runtime_locking_shard/client.cpp
@@ -9,6 +9,19 @@
 #include "util/serialization/format.hpp"
 
 namespace cbdc::parsec::runtime_locking_shard::rpc {
+    namespace {
+        // There's no response if the shard could not process the request or
+        // the connection was lost before it did.
+        template<typename T, typename E>
+        auto result_of(const std::optional<response>& resp, E error) -> T {
+            if(!resp.has_value()
+               || !std::holds_alternative<T>(resp.value())) {
+                return T{std::move(error)};
+            }
+            return std::get<T>(resp.value());
+        }
+    }
+
     client::client(std::vector<network::endpoint_t> endpoints)
         : m_client(std::make_unique<decltype(m_client)::element_type>(
             std::move(endpoints))) {}
@@ -31,10 +44,9 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
         return m_client->call(
             std::move(req),
             [result_callback](std::optional<response> resp) {
-                assert(resp.has_value());
-                assert(std::holds_alternative<try_lock_return_type>(
-                    resp.value()));
-                result_callback(std::get<try_lock_return_type>(resp.value()));
+                result_callback(result_of<try_lock_return_type>(
+                    resp,
+                    shard_error{error_code::internal_error, std::nullopt}));
             });
     }
 
@@ -46,10 +58,9 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
         return m_client->call(
             std::move(req),
             [result_callback](std::optional<response> resp) {
-                assert(resp.has_value());
-                assert(
-                    std::holds_alternative<prepare_return_type>(resp.value()));
-                result_callback(std::get<prepare_return_type>(resp.value()));
+                result_callback(result_of<prepare_return_type>(
+                    resp,
+                    shard_error{error_code::internal_error, std::nullopt}));
             });
     }
 
@@ -59,10 +70,9 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
         return m_client->call(
             req,
             [result_callback](std::optional<response> resp) {
-                assert(resp.has_value());
-                assert(
-                    std::holds_alternative<commit_return_type>(resp.value()));
-                result_callback(std::get<commit_return_type>(resp.value()));
+                result_callback(result_of<commit_return_type>(
+                    resp,
+                    shard_error{error_code::internal_error, std::nullopt}));
             });
     }
 
@@ -72,10 +82,9 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
         return m_client->call(
             req,
             [result_callback](std::optional<response> resp) {
-                assert(resp.has_value());
-                assert(std::holds_alternative<rollback_return_type>(
-                    resp.value()));
-                result_callback(std::get<rollback_return_type>(resp.value()));
+                result_callback(result_of<rollback_return_type>(
+                    resp,
+                    shard_error{error_code::internal_error, std::nullopt}));
             });
     }
 
@@ -85,10 +94,9 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
         return m_client->call(
             req,
             [result_callback](std::optional<response> resp) {
-                assert(resp.has_value());
-                assert(
-                    std::holds_alternative<finish_return_type>(resp.value()));
-                result_callback(std::get<finish_return_type>(resp.value()));
+                result_callback(result_of<finish_return_type>(
+                    resp,
+                    shard_error{error_code::internal_error, std::nullopt}));
             });
     }
 
@@ -99,11 +107,9 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
         return m_client->call(
             req,
             [result_callback](std::optional<response> resp) {
-                assert(resp.has_value());
-                assert(std::holds_alternative<get_tickets_return_type>(
-                    resp.value()));
-                result_callback(
-                    std::get<get_tickets_return_type>(resp.value()));
+                result_callback(result_of<get_tickets_return_type>(
+                    resp,
+                    error_code::internal_error));
             });
     }
 }
-- 
2.43.0


From 9163aac0c936a336b3db93b79119d8ccb3dba6af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:32 +0000
Subject: [PATCH 61/74] fix: shard answered a failed prepare, commit, rollback
 or finish with a response to get_tickets

---
 src/parsec/runtime_locking_shard/server.cpp | 24 ++++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/parsec/runtime_locking_shard/server.cpp b/src/parsec/runtime_locking_shard/server.cpp
index 062c91e..c60783a 100644
--- a/src/parsec/runtime_locking_shard/server.cpp
+++ b/src/parsec/runtime_locking_shard/server.cpp
@@ -8,6 +8,14 @@
 #include "util/common/variant_overloaded.hpp"
 
 namespace cbdc::parsec::runtime_locking_shard::rpc {
+    namespace {
+        // An error code on its own is a response to get_tickets.
+        auto shard_error_response() -> response {
+            return interface::prepare_return_type{
+                shard_error{error_code::internal_error, std::nullopt}};
+        }
+    }
+
     server::server(
         std::shared_ptr<logging::log> logger,
         std::shared_ptr<interface> impl,
@@ -101,14 +109,14 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
             [this, callback](replicated_shard_interface::return_type res) {
                 if(res.has_value()) {
                     m_log->error("Error response during prepare replication");
-                    callback(error_code::internal_error);
+                    callback(shard_error_response());
                     return;
                 }
                 callback(interface::prepare_return_type{});
             });
         if(!success) {
             m_log->error("Error replicating prepare");
-            callback(error_code::internal_error);
+            callback(shard_error_response());
         }
     }
 
@@ -117,7 +125,7 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
                                const callback_type& callback) {
         if(ret.has_value()) {
             m_log->error("Error response during commit replication");
-            callback(error_code::internal_error);
+            callback(shard_error_response());
             return;
         }
 
@@ -128,7 +136,7 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
                              });
         if(!success) {
             m_log->error("Error initiating commit with internal shard");
-            callback(error_code::internal_error);
+            callback(shard_error_response());
         }
     }
 
@@ -138,7 +146,7 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
         if(ret.has_value()) {
             m_log->error("Error response during discard replication",
                          static_cast<int>(ret.value()));
-            callback(error_code::internal_error);
+            callback(shard_error_response());
             return;
         }
 
@@ -149,7 +157,7 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
             });
         if(!success) {
             m_log->error("Error initiating rollback with internal shard");
-            callback(error_code::internal_error);
+            callback(shard_error_response());
         }
     }
 
@@ -158,7 +166,7 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
                            const callback_type& callback) {
         if(ret.has_value()) {
             m_log->error("Error response during discard replication");
-            callback(error_code::internal_error);
+            callback(shard_error_response());
             return;
         }
 
@@ -169,7 +177,7 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
                              });
         if(!success) {
             m_log->error("Error initiating rollback with internal shard");
-            callback(error_code::internal_error);
+            callback(shard_error_response());
         }
     }
 }
-- 
2.43.0


From e42f45e22b8214015a5daf591630d2685148aed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:41 +0000
Subject: [PATCH 62/74] fix: shard server was used by pending replications
 after it was destroyed

---
 src/parsec/runtime_locking_shard/server.cpp | 91 ++++++++++++---------
 src/parsec/runtime_locking_shard/server.hpp | 35 +++++---
 2 files changed, 75 insertions(+), 51 deletions(-)

diff --git a/src/parsec/runtime_locking_shard/server.cpp b/src/parsec/runtime_locking_shard/server.cpp
index c60783a..7cd2d7c 100644
--- a/src/parsec/runtime_locking_shard/server.cpp
+++ b/src/parsec/runtime_locking_shard/server.cpp
@@ -53,33 +53,37 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
                         msg.m_ticket_number,
                         msg.m_broker_id,
                         msg.m_state_updates,
-                        [this, callback, msg](
+                        [log = m_log, repl = m_repl, callback, msg](
                             interface::prepare_return_type ret) {
-                            handle_prepare(std::move(ret), msg, callback);
+                            handle_prepare(log,
+                                           repl,
+                                           std::move(ret),
+                                           msg,
+                                           callback);
                         });
                 },
                 [&](rpc::commit_request msg) {
                     return m_repl->commit(
                         msg.m_ticket_number,
-                        [this, callback, msg](
+                        [log = m_log, impl = m_impl, callback, msg](
                             replicated_shard_interface::return_type ret) {
-                            handle_commit(ret, msg, callback);
+                            handle_commit(log, impl, ret, msg, callback);
                         });
                 },
                 [&](rpc::rollback_request msg) {
                     return m_repl->finish(
                         msg.m_ticket_number,
-                        [this, callback, msg](
+                        [log = m_log, impl = m_impl, callback, msg](
                             replicated_shard_interface::return_type ret) {
-                            do_rollback(ret, msg, callback);
+                            do_rollback(log, impl, ret, msg, callback);
                         });
                 },
                 [&](rpc::finish_request msg) {
                     return m_repl->finish(
                         msg.m_ticket_number,
-                        [this, callback, msg](
+                        [log = m_log, impl = m_impl, callback, msg](
                             replicated_shard_interface::return_type ret) {
-                            do_finish(ret, msg, callback);
+                            do_finish(log, impl, ret, msg, callback);
                         });
                 },
                 [&](rpc::get_tickets_request msg) {
@@ -93,90 +97,99 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
         return success;
     }
 
-    void server::handle_prepare(interface::prepare_return_type ret,
-                                const rpc::prepare_request& msg,
-                                const callback_type& callback) {
+    void server::handle_prepare(
+        const std::shared_ptr<logging::log>& log,
+        const std::shared_ptr<replicated_shard_interface>& repl,
+        interface::prepare_return_type ret,
+        const rpc::prepare_request& msg,
+        const callback_type& callback) {
         if(ret.has_value()) {
-            m_log->trace("Error response during prepare");
+            log->trace("Error response during prepare");
             callback(std::move(ret));
             return;
         }
 
-        auto success = m_repl->prepare(
+        auto success = repl->prepare(
             msg.m_ticket_number,
             msg.m_broker_id,
             msg.m_state_updates,
-            [this, callback](replicated_shard_interface::return_type res) {
+            [log, callback](replicated_shard_interface::return_type res) {
                 if(res.has_value()) {
-                    m_log->error("Error response during prepare replication");
+                    log->error("Error response during prepare replication");
                     callback(shard_error_response());
                     return;
                 }
                 callback(interface::prepare_return_type{});
             });
         if(!success) {
-            m_log->error("Error replicating prepare");
+            log->error("Error replicating prepare");
             callback(shard_error_response());
         }
     }
 
-    void server::handle_commit(replicated_shard_interface::return_type ret,
+    void server::handle_commit(const std::shared_ptr<logging::log>& log,
+                               const std::shared_ptr<interface>& impl,
+                               replicated_shard_interface::return_type ret,
                                rpc::commit_request msg,
                                const callback_type& callback) {
         if(ret.has_value()) {
-            m_log->error("Error response during commit replication");
+            log->error("Error response during commit replication");
             callback(shard_error_response());
             return;
         }
 
         auto success
-            = m_impl->commit(msg.m_ticket_number,
-                             [callback](interface::commit_return_type res) {
-                                 callback(std::move(res));
-                             });
+            = impl->commit(msg.m_ticket_number,
+                           [callback](interface::commit_return_type res) {
+                               callback(std::move(res));
+                           });
         if(!success) {
-            m_log->error("Error initiating commit with internal shard");
+            log->error("Error initiating commit with internal shard");
             callback(shard_error_response());
         }
     }
 
-    void server::do_rollback(replicated_shard_interface::return_type ret,
+    void server::do_rollback(const std::shared_ptr<logging::log>& log,
+                             const std::shared_ptr<interface>& impl,
+                             replicated_shard_interface::return_type ret,
                              rpc::rollback_request msg,
                              const callback_type& callback) {
         if(ret.has_value()) {
-            m_log->error("Error response during discard replication",
-                         static_cast<int>(ret.value()));
+            log->error("Error response during discard replication",
+                       static_cast<int>(ret.value()));
             callback(shard_error_response());
             return;
         }
 
-        auto success = m_impl->rollback(
-            msg.m_ticket_number,
-            [callback](interface::rollback_return_type res) {
-                callback(std::move(res));
-            });
+        auto success
+            = impl->rollback(msg.m_ticket_number,
+                             [callback](interface::rollback_return_type res) {
+                                 callback(std::move(res));
+                             });
         if(!success) {
-            m_log->error("Error initiating rollback with internal shard");
+            log->error("Error initiating rollback with internal shard");
             callback(shard_error_response());
         }
     }
 
-    void server::do_finish(replicated_shard_interface::return_type ret,
+    void server::do_finish(const std::shared_ptr<logging::log>& log,
+                           const std::shared_ptr<interface>& impl,
+                           replicated_shard_interface::return_type ret,
                            rpc::finish_request msg,
                            const callback_type& callback) {
         if(ret.has_value()) {
-            m_log->error("Error response during discard replication");
+            log->error("Error response during discard replication");
             callback(shard_error_response());
             return;
         }
 
         auto success
-            = m_impl->finish(msg.m_ticket_number,
-                             [callback](interface::finish_return_type res) {
-                                 callback(std::move(res));
-                             });
+            = impl->finish(msg.m_ticket_number,
+                           [callback](interface::finish_return_type res) {
+                               callback(std::move(res));
+                           });
         if(!success) {
-            m_log->error("Error initiating rollback with internal shard");
+            log->error("Error initiating rollback with internal shard");
             callback(shard_error_response());
         }
     }
diff --git a/src/parsec/runtime_locking_shard/server.hpp b/src/parsec/runtime_locking_shard/server.hpp
index eada310..7576901 100644
--- a/src/parsec/runtime_locking_shard/server.hpp
+++ b/src/parsec/runtime_locking_shard/server.hpp
@@ -38,21 +38,32 @@ namespace cbdc::parsec::runtime_locking_shard::rpc {
         auto handler_callback(const request& req, callback_type callback)
             -> bool;
 
-        void handle_prepare(interface::prepare_return_type ret,
-                            const rpc::prepare_request& msg,
-                            const callback_type& callback);
+        // The results may arrive after the server was destroyed, when the
+        // node has ceased to be the leader.
+        static void handle_prepare(
+            const std::shared_ptr<logging::log>& log,
+            const std::shared_ptr<replicated_shard_interface>& repl,
+            interface::prepare_return_type ret,
+            const rpc::prepare_request& msg,
+            const callback_type& callback);
 
-        void handle_commit(replicated_shard_interface::return_type ret,
-                           rpc::commit_request msg,
-                           const callback_type& callback);
+        static void handle_commit(const std::shared_ptr<logging::log>& log,
+                                  const std::shared_ptr<interface>& impl,
+                                  replicated_shard_interface::return_type ret,
+                                  rpc::commit_request msg,
+                                  const callback_type& callback);
 
-        void do_rollback(replicated_shard_interface::return_type ret,
-                         rpc::rollback_request msg,
-                         const callback_type& callback);
+        static void do_rollback(const std::shared_ptr<logging::log>& log,
+                                const std::shared_ptr<interface>& impl,
+                                replicated_shard_interface::return_type ret,
+                                rpc::rollback_request msg,
+                                const callback_type& callback);
 
-        void do_finish(replicated_shard_interface::return_type ret,
-                       rpc::finish_request msg,
-                       const callback_type& callback);
+        static void do_finish(const std::shared_ptr<logging::log>& log,
+                              const std::shared_ptr<interface>& impl,
+                              replicated_shard_interface::return_type ret,
+                              rpc::finish_request msg,
+                              const callback_type& callback);
     };
 }
 
-- 
2.43.0


From 6d7e09898127c2d99ec9de6d46cff6b709eb90d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:51 +0000
Subject: [PATCH 63/74] fix: shard controller was used by its recovery after it
 was destroyed or had lost the leadership

---
 .../runtime_locking_shard/controller.cpp      | 26 ++++++++++++++++---
 .../runtime_locking_shard/controller.hpp      | 15 +++++++++--
 2 files changed, 35 insertions(+), 6 deletions(-)

diff --git a/src/parsec/runtime_locking_shard/controller.cpp b/src/parsec/runtime_locking_shard/controller.cpp
index 0ec9563..b19d7e0 100644
--- a/src/parsec/runtime_locking_shard/controller.cpp
+++ b/src/parsec/runtime_locking_shard/controller.cpp
@@ -36,6 +36,10 @@ namespace cbdc::parsec::runtime_locking_shard {
           m_raft_endpoints(std::move(raft_endpoints)),
           m_server_endpoint(std::move(server_endpoint)) {}
 
+    controller::~controller() {
+        m_raft_serv->stop();
+    }
+
     auto controller::init() -> bool {
         auto params = nuraft::raft_params();
         params.snapshot_distance_ = 0; // TODO: implement snapshots
@@ -59,22 +63,29 @@ namespace cbdc::parsec::runtime_locking_shard {
         -> nuraft::cb_func::ReturnCode {
         if(type == nuraft::cb_func::Type::BecomeFollower) {
             m_logger->warn("Became follower, stopping listener");
+            std::unique_lock<std::mutex> l(m_mut);
+            m_leadership++;
             m_server.reset();
             return nuraft::cb_func::ReturnCode::Ok;
         }
         if(type == nuraft::cb_func::Type::BecomeLeader) {
             m_logger->warn("Became leader, starting listener");
             // Recover shard state from raft state machine
-            do_recovery();
+            auto leadership = [&]() {
+                std::unique_lock<std::mutex> l(m_mut);
+                return ++m_leadership;
+            }();
+            do_recovery(leadership);
         }
         return nuraft::cb_func::ReturnCode::Ok;
     }
 
-    void controller::do_recovery() {
+    void controller::do_recovery(uint64_t leadership) {
         // Request tickets from state machine
         auto success = m_raft_client->get_tickets(
-            [&](replicated_shard_interface::get_tickets_return_type res) {
-                handle_get_tickets(std::move(res));
+            [this, leadership](
+                replicated_shard_interface::get_tickets_return_type res) {
+                handle_get_tickets(leadership, std::move(res));
             });
         if(!success) {
             m_logger->error("Failed to request tickets from state machine");
@@ -82,6 +93,7 @@ namespace cbdc::parsec::runtime_locking_shard {
     }
 
     void controller::handle_get_tickets(
+        uint64_t leadership,
         replicated_shard_interface::get_tickets_return_type res) {
         if(!std::holds_alternative<replicated_shard_interface::tickets_type>(
                res)) {
@@ -89,6 +101,12 @@ namespace cbdc::parsec::runtime_locking_shard {
             return;
         }
 
+        std::unique_lock<std::mutex> l(m_mut);
+        if(leadership != m_leadership) {
+            m_logger->warn("Lost leadership before the shard was recovered");
+            return;
+        }
+
         m_shard = std::make_unique<impl>(m_logger);
 
         auto&& tickets
diff --git a/src/parsec/runtime_locking_shard/controller.hpp b/src/parsec/runtime_locking_shard/controller.hpp
index 6e1a223..d8284b9 100644
--- a/src/parsec/runtime_locking_shard/controller.hpp
+++ b/src/parsec/runtime_locking_shard/controller.hpp
@@ -13,6 +13,8 @@
 #include "util/raft/node.hpp"
 #include "util/rpc/tcp_server.hpp"
 
+#include <mutex>
+
 namespace cbdc::parsec::runtime_locking_shard {
     /// Manages a replicated runtime locking shard using Raft.
     class controller {
@@ -29,7 +31,9 @@ namespace cbdc::parsec::runtime_locking_shard {
                    network::endpoint_t server_endpoint,
                    std::vector<network::endpoint_t> raft_endpoints,
                    std::shared_ptr<logging::log> logger);
-        ~controller() = default;
+
+        /// Destructor. Stops the raft instance before what its callbacks use.
+        ~controller();
 
         controller() = delete;
         controller(const controller&) = delete;
@@ -47,9 +51,10 @@ namespace cbdc::parsec::runtime_locking_shard {
                            nuraft::cb_func::Param* param)
             -> nuraft::cb_func::ReturnCode;
 
-        void do_recovery();
+        void do_recovery(uint64_t leadership);
 
         void handle_get_tickets(
+            uint64_t leadership,
             replicated_shard_interface::get_tickets_return_type res);
 
         std::shared_ptr<logging::log> m_logger;
@@ -57,6 +62,12 @@ namespace cbdc::parsec::runtime_locking_shard {
         std::shared_ptr<state_machine> m_state_machine;
         std::shared_ptr<raft::node> m_raft_serv;
         std::shared_ptr<replicated_shard_client> m_raft_client;
+
+        // Guards the server and shard. Recovery results arrive in another
+        // thread than changes of the leader.
+        std::mutex m_mut;
+        // Counts gains and losses of the leadership.
+        uint64_t m_leadership{};
         std::unique_ptr<rpc::server> m_server;
         std::shared_ptr<impl> m_shard;
 
-- 
2.43.0


From 30435202ec2b017fcdd030e9a845bbd03bf38833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:51 +0000
Subject: [PATCH 64/74] fix: committing a ticket twice replaced its values by
 empty ones on the replicas of a shard

---
 src/parsec/runtime_locking_shard/replicated_shard.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parsec/runtime_locking_shard/replicated_shard.cpp b/src/parsec/runtime_locking_shard/replicated_shard.cpp
index 87672e3..bdfa250 100644
--- a/src/parsec/runtime_locking_shard/replicated_shard.cpp
+++ b/src/parsec/runtime_locking_shard/replicated_shard.cpp
@@ -31,6 +31,10 @@ namespace cbdc::parsec::runtime_locking_shard {
                 return error_code::unknown_ticket;
             }
             auto& t = it->second;
+            if(t.m_state == ticket_state::committed) {
+                // The updates were applied the first time.
+                return std::nullopt;
+            }
             t.m_state = ticket_state::committed;
             for(auto&& [k, v] : t.m_state_update) {
                 m_state[k] = std::move(v);
-- 
2.43.0


From 6153b4adffc029b9cc0a5e3097c15a87fb28fc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:27 +0000
Subject: [PATCH 65/74] fix: an agent which failed a request aborted its client

---
 src/parsec/agent/client.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parsec/agent/client.cpp b/src/parsec/agent/client.cpp
index 18efaa7..6de4ec1 100644
--- a/src/parsec/agent/client.cpp
+++ b/src/parsec/agent/client.cpp
@@ -26,8 +26,11 @@ namespace cbdc::parsec::agent::rpc {
             = request{std::move(function), std::move(param), is_readonly_run};
         return m_client->call(std::move(req),
                               [result_callback](std::optional<response> resp) {
-                                  assert(resp.has_value());
-                                  result_callback(resp.value());
+                                  // There's no response if the agent could
+                                  // not start processing the request.
+                                  result_callback(resp.value_or(
+                                      interface::error_code::
+                                          broker_unreachable));
                               });
     }
 }
-- 
2.43.0


From 68b06c48e17ab944d0417106cdd38c8d2af7294a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:27 +0000
Subject: [PATCH 66/74] fix: a contract returning a table with a numeric key
 aborted the agent

---
 src/parsec/agent/runners/lua/impl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parsec/agent/runners/lua/impl.cpp b/src/parsec/agent/runners/lua/impl.cpp
index 4c79dc1..c367bb5 100644
--- a/src/parsec/agent/runners/lua/impl.cpp
+++ b/src/parsec/agent/runners/lua/impl.cpp
@@ -102,7 +102,10 @@ namespace cbdc::parsec::agent::runner {
 
         lua_pushnil(m_state.get());
         while(lua_next(m_state.get(), -2) != 0) {
-            auto key_buf = get_stack_string(-2);
+            // Converting a numeric key to a string in place confuses lua_next
+            auto key_buf = lua_type(m_state.get(), -2) == LUA_TSTRING
+                             ? get_stack_string(-2)
+                             : std::nullopt;
             if(!key_buf.has_value()) {
                 m_log->error("Result key is not a string");
                 m_result_callback(error_code::result_key_type);
-- 
2.43.0


From 4ab25659cb47eb32b6d857a39cbae79fe73c6c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:27 +0000
Subject: [PATCH 67/74] fix: each failed signature check of a contract leaked
 the signed payload

---
 src/parsec/agent/runners/lua/impl.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/parsec/agent/runners/lua/impl.cpp b/src/parsec/agent/runners/lua/impl.cpp
index c367bb5..ff42de5 100644
--- a/src/parsec/agent/runners/lua/impl.cpp
+++ b/src/parsec/agent/runners/lua/impl.cpp
@@ -253,12 +253,15 @@ namespace cbdc::parsec::agent::runner {
 
         str = lua_tolstring(L, 3, &sz);
         assert(str != nullptr);
-        auto sha = CSHA256();
-        auto unsigned_str = std::vector<unsigned char>(sz);
-        std::memcpy(unsigned_str.data(), str, sz);
-        sha.Write(unsigned_str.data(), sz);
         hash_t sighash{};
-        sha.Finalize(sighash.data());
+        {
+            // lua_error does not return, destroy the copy before
+            auto sha = CSHA256();
+            auto unsigned_str = std::vector<unsigned char>(sz);
+            std::memcpy(unsigned_str.data(), str, sz);
+            sha.Write(unsigned_str.data(), sz);
+            sha.Finalize(sighash.data());
+        }
 
         if(secp256k1_schnorrsig_verify(secp_context.get(),
                                        sig.data(),
-- 
2.43.0


From 5eabad34f1b1d4720ef9a00b78f829ae0b77c41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:40 +0000
Subject: [PATCH 68/74] fix: an agent which could not get a ticket number ended
 the process

---
 src/parsec/agent/impl.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parsec/agent/impl.cpp b/src/parsec/agent/impl.cpp
index 7fd050c..309a478 100644
--- a/src/parsec/agent/impl.cpp
+++ b/src/parsec/agent/impl.cpp
@@ -544,9 +544,10 @@ namespace cbdc::parsec::agent {
                 break;
         }
         get_result_callback()(m_result.value());
+        // There's no ticket number if the broker could not assign one
         m_log->trace(this,
                      "Agent handled result for",
-                     m_ticket_number.value());
+                     m_ticket_number.value_or(0));
     }
 
     void impl::do_finish() {
@@ -656,7 +657,9 @@ namespace cbdc::parsec::agent {
 
     impl::~impl() {
         std::unique_lock l(m_mut);
-        if(m_state != state::finish_complete) {
+        // Without a ticket number there is nothing to finish
+        if(m_state != state::finish_complete
+           && m_state != state::begin_failed) {
             m_log->fatal(
                 this,
                 "Agent state wasn't finished at destruction, state was:",
-- 
2.43.0


From e5713523f3a85a21812b0d7c111c066b7c5ff715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:14 +0000
Subject: [PATCH 69/74] fix: an atomizer shard went on at the next height when
 a block could not be written

---
 src/uhs/atomizer/shard/shard.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/uhs/atomizer/shard/shard.cpp b/src/uhs/atomizer/shard/shard.cpp
index 67c9265..dedc5e5 100644
--- a/src/uhs/atomizer/shard/shard.cpp
+++ b/src/uhs/atomizer/shard/shard.cpp
@@ -38,9 +38,14 @@ namespace cbdc::shard {
             leveldb::Slice startBestBlockHeight(
                 height_arr.data(),
                 sizeof(this->m_best_block_height));
-            this->m_db->Put(this->m_write_options,
-                            m_best_block_height_key,
-                            startBestBlockHeight);
+            const auto putRes = this->m_db->Put(this->m_write_options,
+                                                m_best_block_height_key,
+                                                startBestBlockHeight);
+            if(!putRes.ok()) {
+                return putRes.ToString();
+            }
+        } else if(!bestBlockRes.ok()) {
+            return bestBlockRes.ToString();
         } else {
             assert(bestBlockHeight.size()
                    == sizeof(this->m_best_block_height));
@@ -95,7 +100,8 @@ namespace cbdc::shard {
         batch.Put(m_best_block_height_key, newBestBlockHeight);
 
         // Commit the changes atomically
-        this->m_db->Write(this->m_write_options, &batch);
+        const auto res = this->m_db->Write(this->m_write_options, &batch);
+        assert(res.ok());
 
         update_snapshot();
 
-- 
2.43.0


From b6175d26211a803f24fe3ae9b5e854967df5f360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:40 +0000
Subject: [PATCH 70/74] fix: malformed JSON from the network ended HTTP RPC
 servers and clients

---
 src/util/rpc/http/json_nesting.hpp         | 44 ++++++++++++++++++++++
 src/util/rpc/http/json_rpc_http_client.cpp |  6 ++-
 src/util/rpc/http/json_rpc_http_server.cpp | 10 ++++-
 3 files changed, 57 insertions(+), 3 deletions(-)
 create mode 100644 src/util/rpc/http/json_nesting.hpp

diff --git a/src/util/rpc/http/json_nesting.hpp b/src/util/rpc/http/json_nesting.hpp
new file mode 100644
index 0000000..dcfad79
--- /dev/null
+++ b/src/util/rpc/http/json_nesting.hpp
@@ -0,0 +1,44 @@
+// Copyright (c) 2022 MIT Digital Currency Initiative,
+//                    Federal Reserve Bank of Boston
+// Distributed under the MIT software license, see the accompanying
+// file COPYING or http://www.opensource.org/licenses/mit-license.php.
+
+#ifndef OPENCBDC_TX_SRC_RPC_HTTP_JSON_NESTING_H_
+#define OPENCBDC_TX_SRC_RPC_HTTP_JSON_NESTING_H_
+
+#include <cstddef>
+#include <string>
+
+namespace cbdc::rpc {
+    /// Determines whether the arrays and objects of a JSON document are nested
+    /// deeper than the parser supports. jsoncpp throws an exception when given
+    /// such a document rather than reporting a parsing error.
+    /// \param document JSON document to check.
+    /// \return true if the document should not be given to the parser.
+    inline auto is_nested_too_deep(const std::string& document) -> bool {
+        constexpr size_t max_depth = 500;
+        size_t depth{};
+        bool in_string{false};
+        for(size_t i = 0; i < document.size(); i++) {
+            const auto c = document[i];
+            if(in_string) {
+                if(c == '\\') {
+                    i++;
+                } else if(c == '"') {
+                    in_string = false;
+                }
+            } else if(c == '"') {
+                in_string = true;
+            } else if(c == '[' || c == '{') {
+                if(++depth > max_depth) {
+                    return true;
+                }
+            } else if((c == ']' || c == '}') && depth > 0) {
+                depth--;
+            }
+        }
+        return false;
+    }
+}
+
+#endif
diff --git a/src/util/rpc/http/json_rpc_http_client.cpp b/src/util/rpc/http/json_rpc_http_client.cpp
index 67fb5f1..1a14bb2 100644
--- a/src/util/rpc/http/json_rpc_http_client.cpp
+++ b/src/util/rpc/http/json_rpc_http_client.cpp
@@ -13,6 +13,8 @@
 #include "epoll_event_handler.hpp"
 #endif
 
+#include "json_nesting.hpp"
+
 #include <cassert>
 
 namespace cbdc::rpc {
@@ -197,7 +199,9 @@ namespace cbdc::rpc {
                 } else {
                     auto res = Json::Value();
                     auto r = Json::Reader();
-                    auto success = r.parse(tf->m_result.str(), res, false);
+                    const auto payload = tf->m_result.str();
+                    auto success = !is_nested_too_deep(payload)
+                                && r.parse(payload, res, false);
                     if(success) {
                         // TODO: sanity check the value of res
                         tf->m_cb(std::move(res));
diff --git a/src/util/rpc/http/json_rpc_http_server.cpp b/src/util/rpc/http/json_rpc_http_server.cpp
index db6ee30..2a61127 100644
--- a/src/util/rpc/http/json_rpc_http_server.cpp
+++ b/src/util/rpc/http/json_rpc_http_server.cpp
@@ -5,6 +5,8 @@
 
 #include "json_rpc_http_server.hpp"
 
+#include "json_nesting.hpp"
+
 #include <arpa/inet.h>
 #include <iostream>
 #include <thread>
@@ -218,8 +220,12 @@ namespace cbdc::rpc {
     auto json_rpc_http_server::handle_request(request* request_info) -> bool {
         auto req = Json::Value();
         auto r = Json::Reader();
-        auto success = r.parse(request_info->m_request.str(), req, false);
-        if(!success) {
+        const auto payload = request_info->m_request.str();
+        if(is_nested_too_deep(payload)) {
+            return false;
+        }
+        auto success = r.parse(payload, req, false);
+        if(!success || !req.isObject()) {
             return false;
         }
 
-- 
2.43.0


From 1830c0665eff3c5ebceea8b197282a54ca189a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:40 +0000
Subject: [PATCH 71/74] fix: HTTP RPC client kept part of a response when it
 sent the request again

---
 src/util/rpc/http/json_rpc_http_client.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/rpc/http/json_rpc_http_client.cpp b/src/util/rpc/http/json_rpc_http_client.cpp
index 1a14bb2..73ad64c 100644
--- a/src/util/rpc/http/json_rpc_http_client.cpp
+++ b/src/util/rpc/http/json_rpc_http_client.cpp
@@ -179,6 +179,8 @@ namespace cbdc::rpc {
                         m_log->error("Error removing multi handle");
                         return false;
                     }
+                    // Discard any part of the response received so far
+                    tf->m_result.str("");
                     if(curl_multi_add_handle(m_multi_handle, handle)
                        != CURLM_OK) {
                         m_log->error("Error adding multi handle");
-- 
2.43.0


From 397a41786c6da47a179f420a67a8b098f157cb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:40 +0000
Subject: [PATCH 72/74] fix: HTTP RPC server which could not listen could not
 be destroyed

---
 src/util/rpc/http/json_rpc_http_server.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/util/rpc/http/json_rpc_http_server.cpp b/src/util/rpc/http/json_rpc_http_server.cpp
index 2a61127..02a0ac9 100644
--- a/src/util/rpc/http/json_rpc_http_server.cpp
+++ b/src/util/rpc/http/json_rpc_http_server.cpp
@@ -19,6 +19,10 @@ namespace cbdc::rpc {
           m_enable_cors(enable_cors) {}
 
     json_rpc_http_server::~json_rpc_http_server() {
+        if(m_daemon == nullptr) {
+            return;
+        }
+
         // Set running flag
         m_running = false;
 
-- 
2.43.0


From 40c7a7b5d7c90fe3899e3b08261b694fdc236129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:13 +0000
Subject: [PATCH 73/74] fix: HTTP RPC server did not answer requests with a
 body it does not support

---
 src/util/rpc/http/json_rpc_http_server.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/util/rpc/http/json_rpc_http_server.cpp b/src/util/rpc/http/json_rpc_http_server.cpp
index 02a0ac9..a306e26 100644
--- a/src/util/rpc/http/json_rpc_http_server.cpp
+++ b/src/util/rpc/http/json_rpc_http_server.cpp
@@ -114,6 +114,15 @@ namespace cbdc::rpc {
 
         auto* req = static_cast<request*>(*con_cls);
 
+        // A response can only be queued once the whole request was received
+        if(*upload_data_size != 0) {
+            req->m_request.write(
+                upload_data,
+                static_cast<std::streamsize>(*upload_data_size));
+            *upload_data_size = 0;
+            return MHD_YES;
+        }
+
         // cors response if enabled
         if(method == std::string("OPTIONS") && req->m_server->m_enable_cors) {
             send_cors_response(req);
@@ -126,14 +135,6 @@ namespace cbdc::rpc {
             return MHD_YES;
         }
 
-        if(*upload_data_size != 0) {
-            req->m_request.write(
-                upload_data,
-                static_cast<std::streamsize>(*upload_data_size));
-            *upload_data_size = 0;
-            return MHD_YES;
-        }
-
         if(!req->m_server->m_running) {
             req->m_code = MHD_HTTP_SERVICE_UNAVAILABLE;
             send_response("Server is shutting down", req);
-- 
2.43.0


From 7b4af5fa52a6f915e375aa60a3e85c33ad5b0a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:56 +0000
Subject: [PATCH 74/74] fix: HTTP RPC client stalled after a partial write of a
 large request

---
 src/util/rpc/http/epoll_event_handler.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/rpc/http/epoll_event_handler.cpp b/src/util/rpc/http/epoll_event_handler.cpp
index d966c37..b9f2a0c 100644
--- a/src/util/rpc/http/epoll_event_handler.cpp
+++ b/src/util/rpc/http/epoll_event_handler.cpp
@@ -39,7 +39,9 @@ namespace cbdc::rpc {
         } else {
             epoll_event ev{};
             ev.data.fd = fd;
-            ev.events = EPOLLET;
+            // libcurl does not always read or write until a socket would
+            // block, so needs level-triggered events
+            ev.events = 0;
             if(et == event_type::in || et == event_type::inout) {
                 ev.events |= EPOLLIN;
             }
-- 
2.43.0

