From 55dbb1b77b6dc2263127373c522cc8033556f0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:07 +0000
Subject: [PATCH 01/77] fix: locking shard reports only completed transactions
 as completed

An aborted transaction was added to the completed transaction cache, so a
status query for it answered that it had been confirmed.
---
 src/uhs/twophase/locking_shard/locking_shard.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uhs/twophase/locking_shard/locking_shard.cpp b/src/uhs/twophase/locking_shard/locking_shard.cpp
index 92a325f..2fe5fc7 100644
--- a/src/uhs/twophase/locking_shard/locking_shard.cpp
+++ b/src/uhs/twophase/locking_shard/locking_shard.cpp
@@ -157,7 +157,7 @@ namespace cbdc::locking_shard {
         }
         for(size_t i{0}; i < dtx.size(); i++) {
             auto&& tx = dtx[i];
-            if(hash_in_shard_range(tx.m_tx.m_id)) {
+            if(hash_in_shard_range(tx.m_tx.m_id) && complete_txs[i]) {
                 m_completed_txs.add(tx.m_tx.m_id);
             }
 
-- 
2.43.0


From a538cd8124a0333dceb223b376de2919e6536517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:24 +0000
Subject: [PATCH 02/77] fix: aborting a batch releases only the inputs that
 batch locked

Applying an aborted transaction erased the lock of whichever batch held its
inputs and put them back in the unspent set, so an output that another batch
was spending (or had spent) could be spent again.
---
 src/uhs/twophase/locking_shard/locking_shard.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/uhs/twophase/locking_shard/locking_shard.cpp b/src/uhs/twophase/locking_shard/locking_shard.cpp
index 2fe5fc7..baffe6f 100644
--- a/src/uhs/twophase/locking_shard/locking_shard.cpp
+++ b/src/uhs/twophase/locking_shard/locking_shard.cpp
@@ -147,6 +147,7 @@ namespace cbdc::locking_shard {
             return true;
         }
         auto& dtx = prepared_dtx_it->second.m_txs;
+        const auto& results = prepared_dtx_it->second.m_results;
         if(complete_txs.size() != dtx.size()) {
             // This would only happen due to a bug in the controller
             m_logger->fatal("Incorrect number of complete tx flags for apply",
@@ -166,8 +167,10 @@ namespace cbdc::locking_shard {
                     m_uhs.emplace(uhs_id);
                 }
             }
+            // A transaction that failed to lock holds none of its inputs; they
+            // may be locked by a transaction in another batch.
             for(auto&& uhs_id : tx.m_tx.m_inputs) {
-                if(hash_in_shard_range(uhs_id)) {
+                if(hash_in_shard_range(uhs_id) && results[i]) {
                     auto was_locked = m_locked.erase(uhs_id);
                     if(!complete_txs[i] && (was_locked != 0U)) {
                         m_uhs.emplace(uhs_id);
-- 
2.43.0


From d332e1b31fe24ca8a4d0da7078520fa88c1ec5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:02 +0000
Subject: [PATCH 03/77] fix: recovering a discarded dtx tells the shards to
 forget it

---
 src/uhs/twophase/coordinator/distributed_tx.cpp | 5 ++++-
 src/uhs/twophase/coordinator/distributed_tx.hpp | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/uhs/twophase/coordinator/distributed_tx.cpp b/src/uhs/twophase/coordinator/distributed_tx.cpp
index 4aabaa6..77631a0 100644
--- a/src/uhs/twophase/coordinator/distributed_tx.cpp
+++ b/src/uhs/twophase/coordinator/distributed_tx.cpp
@@ -187,7 +187,7 @@ namespace cbdc::coordinator {
         }
         auto futures = std::vector<std::future<bool>>();
         for(size_t i{0}; i < m_shards.size(); i++) {
-            if(m_tx_idxs[i].empty()) {
+            if(m_tx_idxs[i].empty() && !m_discard_all) {
                 continue;
             }
             const auto& shard = m_shards[i];
@@ -253,6 +253,9 @@ namespace cbdc::coordinator {
 
     void distributed_tx::recover_discard() {
         m_state = dtx_state::discard;
+        // The recorded state of a dtx in this phase does not say which shards
+        // took part. Discarding is idempotent, so tell all of them.
+        m_discard_all = true;
     }
 
     auto distributed_tx::size() const -> size_t {
diff --git a/src/uhs/twophase/coordinator/distributed_tx.hpp b/src/uhs/twophase/coordinator/distributed_tx.hpp
index 83b9571..04f72e6 100644
--- a/src/uhs/twophase/coordinator/distributed_tx.hpp
+++ b/src/uhs/twophase/coordinator/distributed_tx.hpp
@@ -163,6 +163,7 @@ namespace cbdc::coordinator {
         done_cb_t m_done_cb;
         dtx_state m_state{dtx_state::start};
         std::vector<bool> m_complete_txs;
+        bool m_discard_all{false};
         std::shared_ptr<logging::log> m_logger;
     };
 }
-- 
2.43.0


From 5b3b49b84e468195895783a6fcb376561ac35f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 04/77] fix: a broker's recovery forgets the reports of an
 earlier recovery

---
 src/parsec/broker/impl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parsec/broker/impl.cpp b/src/parsec/broker/impl.cpp
index 1776796..d7d3a29 100644
--- a/src/parsec/broker/impl.cpp
+++ b/src/parsec/broker/impl.cpp
@@ -883,6 +883,8 @@ namespace cbdc::parsec::broker {
         // Do not allow recovery when tickets are in-flight
         auto maybe_tickets = [&]() {
             std::unique_lock l(m_mut);
+            // Forget what the shards reported to an earlier recovery
+            m_recovery_tickets.clear();
             return !m_tickets.empty();
         }();
         if(maybe_tickets) {
-- 
2.43.0


From d6df028a8f50e00241df9d835d81ac53730f7a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 05/77] fix: a broker's recovery does not iterate over the
 tickets it erases

---
 src/parsec/broker/impl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parsec/broker/impl.cpp b/src/parsec/broker/impl.cpp
index d7d3a29..e0bf9b3 100644
--- a/src/parsec/broker/impl.cpp
+++ b/src/parsec/broker/impl.cpp
@@ -974,7 +974,10 @@ namespace cbdc::parsec::broker {
 
     auto impl::do_recovery(const recover_callback_type& result_callback)
         -> std::optional<error_code> {
-        for(auto [ticket_number, ticket] : m_tickets) {
+        // The callbacks below erase finished tickets from m_tickets and may run
+        // before the request returns, so iterate over a copy.
+        auto tickets = m_tickets;
+        for(auto [ticket_number, ticket] : tickets) {
             size_t committed{};
             for(auto& [sidx, t_state] : ticket->m_shard_states) {
                 switch(t_state.m_state) {
-- 
2.43.0


From 38cbb76f1eb09ba33a4614a08fa914ba226c4341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:00 +0000
Subject: [PATCH 06/77] fix: a ticket without locks can be committed and
 finished

---
 src/parsec/broker/impl.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/parsec/broker/impl.cpp b/src/parsec/broker/impl.cpp
index e0bf9b3..3f35c0b 100644
--- a/src/parsec/broker/impl.cpp
+++ b/src/parsec/broker/impl.cpp
@@ -377,6 +377,7 @@ namespace cbdc::parsec::broker {
                       state_update_type state_updates,
                       commit_callback_type result_callback) -> bool {
         m_log->trace(this, "Broker got commit request for", ticket_number);
+        auto done = false;
         auto maybe_error = [&]() -> std::optional<error_code> {
             std::unique_lock l(m_mut);
             auto it = m_tickets.find(ticket_number);
@@ -422,6 +423,13 @@ namespace cbdc::parsec::broker {
                 }
             }
 
+            if(t_state->m_shard_states.empty()) {
+                // The ticket locked nothing, so no shard needs to commit.
+                t_state->m_state = ticket_state::committed;
+                done = true;
+                return std::nullopt;
+            }
+
             if(t_state->m_state == ticket_state::prepared) {
                 return do_commit(result_callback, ticket_number, t_state);
             }
@@ -437,6 +445,8 @@ namespace cbdc::parsec::broker {
                 "Broker calling commit callback with error from commit for",
                 ticket_number);
             result_callback(maybe_error.value());
+        } else if(done) {
+            result_callback(std::nullopt);
         }
 
         return true;
@@ -524,6 +534,13 @@ namespace cbdc::parsec::broker {
                     return std::nullopt;
             }
 
+            if(t_state->m_shard_states.empty()) {
+                // No shard knows about the ticket. Just delete the ticket.
+                m_tickets.erase(it);
+                done = true;
+                return std::nullopt;
+            }
+
             for(auto& shard : t_state->m_shard_states) {
                 m_log->trace(this,
                              "Broker requesting finish on",
-- 
2.43.0


From 785bbe5afd703c7ce099e606d72169a562006b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 07/77] fix: buffer: do not index past the end for zero-length
 data

---
 src/util/common/buffer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/util/common/buffer.cpp b/src/util/common/buffer.cpp
index b85491d..32544b5 100644
--- a/src/util/common/buffer.cpp
+++ b/src/util/common/buffer.cpp
@@ -16,6 +16,9 @@ namespace cbdc {
     }
 
     void buffer::append(const void* data, size_t len) {
+        if(len == 0) {
+            return;
+        }
         const auto orig_size = m_data.size();
         m_data.resize(orig_size + len);
         std::memcpy(&m_data[orig_size], data, len);
@@ -34,11 +37,11 @@ namespace cbdc {
     }
 
     auto buffer::data_at(size_t offset) -> void* {
-        return &m_data[offset];
+        return m_data.data() + offset;
     }
 
     auto buffer::data_at(size_t offset) const -> const void* {
-        return &m_data[offset];
+        return m_data.data() + offset;
     }
 
     auto buffer::operator==(const buffer& other) const -> bool {
-- 
2.43.0


From 88cf3dfcebc9665de3e2e383350c6ffd346017ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:12 +0000
Subject: [PATCH 08/77] fix: replicated_shard: apply a ticket's update only on
 its first commit

---
 src/parsec/runtime_locking_shard/replicated_shard.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parsec/runtime_locking_shard/replicated_shard.cpp b/src/parsec/runtime_locking_shard/replicated_shard.cpp
index 87672e3..dee626a 100644
--- a/src/parsec/runtime_locking_shard/replicated_shard.cpp
+++ b/src/parsec/runtime_locking_shard/replicated_shard.cpp
@@ -31,6 +31,11 @@ namespace cbdc::parsec::runtime_locking_shard {
                 return error_code::unknown_ticket;
             }
             auto& t = it->second;
+            if(t.m_state == ticket_state::committed) {
+                // The update was applied already and may have been
+                // superseded since.
+                return std::nullopt;
+            }
             t.m_state = ticket_state::committed;
             for(auto&& [k, v] : t.m_state_update) {
                 m_state[k] = std::move(v);
-- 
2.43.0


From ef55158ebf79955d2aafd6642b57b59876e7ecee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:43 +0000
Subject: [PATCH 09/77] fix: cache_set: hold as many values as its maximum size

---
 src/util/common/cache_set.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/common/cache_set.hpp b/src/util/common/cache_set.hpp
index 51ef4b2..338486b 100644
--- a/src/util/common/cache_set.hpp
+++ b/src/util/common/cache_set.hpp
@@ -40,7 +40,7 @@ namespace cbdc {
             auto added = m_vals.emplace(std::forward<T>(val));
             if(added.second) {
                 m_eviction_queue.push(std::ref(*added.first));
-                if(m_eviction_queue.size() >= m_max_size) {
+                if(m_eviction_queue.size() > m_max_size) {
                     auto& v = m_eviction_queue.front();
                     m_vals.erase(v);
                     m_eviction_queue.pop();
-- 
2.43.0


From aa87b843dc482f1ff8d0b28ee0e3f36797deb0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:59 +0000
Subject: [PATCH 10/77] fix: error_cache: the newest error for a key replaces
 and outlives an older one

---
 src/uhs/atomizer/watchtower/error_cache.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/uhs/atomizer/watchtower/error_cache.cpp b/src/uhs/atomizer/watchtower/error_cache.cpp
index 624842e..6e28ccb 100644
--- a/src/uhs/atomizer/watchtower/error_cache.cpp
+++ b/src/uhs/atomizer/watchtower/error_cache.cpp
@@ -17,19 +17,26 @@ namespace cbdc::watchtower {
         for(auto&& err : errs) {
             if((m_k_errs != 0) && (m_errs.size() == m_k_errs)) {
                 auto& old_err = m_errs.front();
-                m_tx_id_errs.erase(old_err->tx_id());
+                // A newer error for the same key replaced this one; keep it.
+                auto erase_old = [&](auto& errs_map, const hash_t& key) {
+                    auto it = errs_map.find(key);
+                    if(it != errs_map.end() && it->second == old_err) {
+                        errs_map.erase(it);
+                    }
+                };
+                erase_old(m_tx_id_errs, old_err->tx_id());
 
                 std::visit(overloaded{
                                [](const tx_error_sync& /* unused */) {},
                                [&](const tx_error_inputs_dne& arg) {
                                    for(auto& uhs_id : arg.input_uhs_ids()) {
-                                       m_uhs_errs.erase(uhs_id);
+                                       erase_old(m_uhs_errs, uhs_id);
                                    }
                                },
                                [&](const tx_error_inputs_spent& arg) {
                                    for(const auto& uhs_id :
                                        arg.input_uhs_ids()) {
-                                       m_uhs_errs.erase(uhs_id);
+                                       erase_old(m_uhs_errs, uhs_id);
                                    }
                                },
                                [](const tx_error_stxo_range& /* unused */) {},
@@ -42,17 +49,17 @@ namespace cbdc::watchtower {
 
             auto new_err = std::make_shared<tx_error>(std::move(err));
             m_errs.push(new_err);
-            m_tx_id_errs.insert({new_err->tx_id(), new_err});
+            m_tx_id_errs[new_err->tx_id()] = new_err;
             std::visit(overloaded{
                            [](const tx_error_sync& /* unused */) {},
                            [&](const tx_error_inputs_dne& arg) {
                                for(auto& uhs_id : arg.input_uhs_ids()) {
-                                   m_uhs_errs.insert({uhs_id, new_err});
+                                   m_uhs_errs[uhs_id] = new_err;
                                }
                            },
                            [&](const tx_error_inputs_spent& arg) {
                                for(const auto& uhs_id : arg.input_uhs_ids()) {
-                                   m_uhs_errs.insert({uhs_id, new_err});
+                                   m_uhs_errs[uhs_id] = new_err;
                                }
                            },
                            [](const tx_error_stxo_range& /* unused */) {},
-- 
2.43.0


From 8b3c42e858c8fabdd5c5a75a7640448f316a9e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:47 +0000
Subject: [PATCH 11/77] fix: atomizer state machine: do not keep a snapshot
 that was not fully written

---
 src/uhs/atomizer/atomizer/state_machine.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/uhs/atomizer/atomizer/state_machine.cpp b/src/uhs/atomizer/atomizer/state_machine.cpp
index 6ebc000..a8b4b45 100644
--- a/src/uhs/atomizer/atomizer/state_machine.cpp
+++ b/src/uhs/atomizer/atomizer/state_machine.cpp
@@ -174,6 +174,9 @@ namespace cbdc::atomizer {
 
             ss.flush();
             ss.close();
+            if(!ss.good()) {
+                std::exit(EXIT_FAILURE);
+            }
 
             auto path = get_snapshot_path(s.get_last_log_idx());
             auto err = std::error_code();
@@ -240,6 +243,9 @@ namespace cbdc::atomizer {
 
             ss.flush();
             ss.close();
+            if(!ss.good()) {
+                std::exit(EXIT_FAILURE);
+            }
 
             auto err = std::error_code();
             std::filesystem::rename(tmp_path, path, err);
-- 
2.43.0


From 767b78ffda6b9b1275659e31ac17fcc316b2c197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:12 +0000
Subject: [PATCH 12/77] fix: atomizer_raft: an attestation at height zero is
 the oldest one

---
 src/uhs/atomizer/atomizer/atomizer_raft.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/uhs/atomizer/atomizer/atomizer_raft.cpp b/src/uhs/atomizer/atomizer/atomizer_raft.cpp
index 24681f2..5ef18c7 100644
--- a/src/uhs/atomizer/atomizer/atomizer_raft.cpp
+++ b/src/uhs/atomizer/atomizer/atomizer_raft.cpp
@@ -105,13 +105,13 @@ namespace cbdc::atomizer {
         auto& tx = maybe_tx.value();
         auto agg = aggregate_tx_notification();
         agg.m_tx = std::move(tx.key());
-        uint64_t oldest{0};
+        auto oldest = std::optional<uint64_t>();
         for(const auto& att : tx.mapped()) {
-            if(oldest == 0 || att.second < oldest) {
+            if(!oldest.has_value() || att.second < *oldest) {
                 oldest = att.second;
             }
         }
-        agg.m_oldest_attestation = oldest;
+        agg.m_oldest_attestation = oldest.value_or(0);
 
         {
             std::lock_guard<std::mutex> l(m_complete_mut);
-- 
2.43.0


From 897bfcf9b27c1491f21d55d4ca0138199304653f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:49 +0000
Subject: [PATCH 13/77] fix: shard: a block counts as digested only once it is
 written

---
 src/uhs/atomizer/shard/shard.cpp | 14 ++++++++------
 src/uhs/atomizer/shard/shard.hpp |  2 +-
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/uhs/atomizer/shard/shard.cpp b/src/uhs/atomizer/shard/shard.cpp
index c328acf..cbe36d0 100644
--- a/src/uhs/atomizer/shard/shard.cpp
+++ b/src/uhs/atomizer/shard/shard.cpp
@@ -85,17 +85,19 @@ namespace cbdc::shard {
         }
 
         // Bump the best block height
-        this->m_best_block_height++;
+        const auto new_height = m_best_block_height + 1;
         std::array<char, sizeof(m_best_block_height)> height_arr{};
-        std::memcpy(height_arr.data(),
-                    &m_best_block_height,
-                    sizeof(m_best_block_height));
+        std::memcpy(height_arr.data(), &new_height, sizeof(new_height));
         leveldb::Slice newBestBlockHeight(height_arr.data(),
                                           sizeof(this->m_best_block_height));
         batch.Put(m_best_block_height_key, newBestBlockHeight);
 
-        // Commit the changes atomically
-        this->m_db->Write(this->m_write_options, &batch);
+        // Commit the changes atomically. The block only counts as digested
+        // once the database holds it.
+        if(!this->m_db->Write(this->m_write_options, &batch).ok()) {
+            return false;
+        }
+        m_best_block_height = new_height;
 
         update_snapshot();
 
diff --git a/src/uhs/atomizer/shard/shard.hpp b/src/uhs/atomizer/shard/shard.hpp
index 19ad733..d1fa02e 100644
--- a/src/uhs/atomizer/shard/shard.hpp
+++ b/src/uhs/atomizer/shard/shard.hpp
@@ -58,7 +58,7 @@ namespace cbdc::shard {
         /// whose block height is one greater than the previous best block
         /// height; rejects non-contiguous blocks.
         /// \param blk the block to digest.
-        /// \return true if the shard successfully digested the block. False if the block height is not contiguous.
+        /// \return true if the shard successfully digested the block. False if the block height is not contiguous or the block could not be written to the database.
         auto digest_block(const cbdc::atomizer::block& blk) -> bool;
 
         /// Returns the height of the most recently digested block.
-- 
2.43.0


From e12e341ab7b3965baa51c8454af9b585279237a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:31 +0000
Subject: [PATCH 14/77] fix: shard: a failed database read is neither a height
 nor an unspent input

---
 src/uhs/atomizer/shard/shard.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/uhs/atomizer/shard/shard.cpp b/src/uhs/atomizer/shard/shard.cpp
index cbe36d0..5f9a803 100644
--- a/src/uhs/atomizer/shard/shard.cpp
+++ b/src/uhs/atomizer/shard/shard.cpp
@@ -41,6 +41,8 @@ namespace cbdc::shard {
             this->m_db->Put(this->m_write_options,
                             m_best_block_height_key,
                             startBestBlockHeight);
+        } else if(!bestBlockRes.ok()) {
+            return bestBlockRes.ToString();
         } else {
             assert(bestBlockHeight.size()
                    == sizeof(this->m_best_block_height));
@@ -149,7 +151,7 @@ namespace cbdc::shard {
             const auto& res = m_db->Get(read_options, OutPointKey, &op);
             if(res.IsNotFound()) {
                 dne_inputs.push_back(inp);
-            } else {
+            } else if(res.ok()) {
                 attestations.insert(i);
             }
         }
-- 
2.43.0


From ab7e605040003f4b4d50e5c9acbb794b8d8fa787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:01 +0000
Subject: [PATCH 15/77] fix: watchtower: a block that was already received is
 ignored

---
 src/uhs/atomizer/watchtower/controller.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/uhs/atomizer/watchtower/controller.cpp b/src/uhs/atomizer/watchtower/controller.cpp
index 7ffe9a2..2d18356 100644
--- a/src/uhs/atomizer/watchtower/controller.cpp
+++ b/src/uhs/atomizer/watchtower/controller.cpp
@@ -104,6 +104,10 @@ auto cbdc::watchtower::controller::atomizer_handler(
                     "with",
                     blk.m_transactions.size(),
                     "transactions.");
+    if(blk.m_height <= m_last_blk_height) {
+        m_logger->warn("Ignoring block. Last block:", m_last_blk_height);
+        return std::nullopt;
+    }
     if(blk.m_height != (m_last_blk_height + 1)) {
         m_logger->warn("Block not contiguous. Last block:", m_last_blk_height);
         while(blk.m_height != (m_last_blk_height + 1)) {
-- 
2.43.0


From 10542cc9d1bed3a6243fe379204afcc591d67745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:46 +0000
Subject: [PATCH 16/77] fix: buffer decoding replaces the buffer and allocates
 only for data that is there

---
 src/util/serialization/format.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/util/serialization/format.cpp b/src/util/serialization/format.cpp
index 8024d2a..b05b3f8 100644
--- a/src/util/serialization/format.cpp
+++ b/src/util/serialization/format.cpp
@@ -28,10 +28,22 @@ namespace cbdc {
     }
 
     auto operator>>(serializer& deser, buffer& b) -> serializer& {
+        b.clear();
         uint64_t sz{};
-        deser >> sz;
-        b.extend(sz);
-        deser.read(b.data(), sz);
+        if(!(deser >> sz)) {
+            return deser;
+        }
+
+        // Only allocate further once the data received so far was there.
+        while(b.size() < sz) {
+            const auto offset = b.size();
+            const auto len
+                = std::min<uint64_t>(sz - offset, config::maximum_reservation);
+            b.extend(len);
+            if(!deser.read(b.data_at(offset), len)) {
+                return deser;
+            }
+        }
         return deser;
     }
 }
-- 
2.43.0


From 31cc1919731945a3cd2f9cf249d0da5747a3afe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:04 +0000
Subject: [PATCH 17/77] fix: decoding a variant with an unknown alternative
 fails instead of aborting

---
 src/util/raft/serialization.cpp              |  4 ++++
 src/util/raft/serialization.hpp              |  3 +++
 src/util/serialization/buffer_serializer.cpp |  4 ++++
 src/util/serialization/buffer_serializer.hpp |  3 +++
 src/util/serialization/format.hpp            | 15 ++++++++++++---
 src/util/serialization/serializer.hpp        |  4 ++++
 src/util/serialization/size_serializer.cpp   |  2 ++
 src/util/serialization/size_serializer.hpp   |  3 +++
 src/util/serialization/stream_serializer.cpp |  4 ++++
 src/util/serialization/stream_serializer.hpp |  3 +++
 10 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/src/util/raft/serialization.cpp b/src/util/raft/serialization.cpp
index e6c23d2..305ad8d 100644
--- a/src/util/raft/serialization.cpp
+++ b/src/util/raft/serialization.cpp
@@ -50,4 +50,8 @@ namespace cbdc {
         std::memcpy(data, m_buf.get_raw(len), len);
         return true;
     }
+
+    void nuraft_serializer::set_failed() {
+        m_valid = false;
+    }
 }
diff --git a/src/util/raft/serialization.hpp b/src/util/raft/serialization.hpp
index 084ffd4..e285bd4 100644
--- a/src/util/raft/serialization.hpp
+++ b/src/util/raft/serialization.hpp
@@ -53,6 +53,9 @@ namespace cbdc {
         ///        from the buffer to the given destination.
         auto read(void* data, size_t len) -> bool final;
 
+        /// Marks the last operation as failed.
+        void set_failed() final;
+
       private:
         nuraft::buffer& m_buf;
         bool m_valid{true};
diff --git a/src/util/serialization/buffer_serializer.cpp b/src/util/serialization/buffer_serializer.cpp
index 1e4cc74..98bdf1e 100644
--- a/src/util/serialization/buffer_serializer.cpp
+++ b/src/util/serialization/buffer_serializer.cpp
@@ -45,4 +45,8 @@ namespace cbdc {
         m_cursor += len;
         return true;
     }
+
+    void buffer_serializer::set_failed() {
+        m_valid = false;
+    }
 }
diff --git a/src/util/serialization/buffer_serializer.hpp b/src/util/serialization/buffer_serializer.hpp
index 97fd435..6d05fdf 100644
--- a/src/util/serialization/buffer_serializer.hpp
+++ b/src/util/serialization/buffer_serializer.hpp
@@ -49,6 +49,9 @@ namespace cbdc {
         ///         from the buffer.
         auto read(void* data, size_t len) -> bool final;
 
+        /// Marks the last operation as failed.
+        void set_failed() final;
+
       private:
         cbdc::buffer& m_pkt;
         size_t m_cursor{};
diff --git a/src/util/serialization/format.hpp b/src/util/serialization/format.hpp
index 683db37..154b673 100644
--- a/src/util/serialization/format.hpp
+++ b/src/util/serialization/format.hpp
@@ -388,8 +388,14 @@ namespace cbdc {
             std::variant_size_v<std::remove_reference_t<decltype(var)>> < std::
                 numeric_limits<S>::max());
         S idx{};
-        deser >> idx;
+        if(!(deser >> idx)) {
+            return deser;
+        }
         auto var_idx = static_cast<size_t>(idx);
+        if(var_idx >= sizeof...(Ts)) {
+            deser.set_failed();
+            return deser;
+        }
         var = expand_type<Ts...>(var_idx);
         std::visit(
             [&](auto&& arg) {
@@ -421,11 +427,14 @@ namespace cbdc {
             S idx{};
             deser >> idx;
             auto i = static_cast<size_t>(idx);
-            assert(i < std::variant_size_v<T>);
+            if(i >= std::variant_size_v<T>) {
+                // Fails the deserialization of the first alternative below.
+                deser.set_failed();
+                i = 0;
+            }
             static constexpr auto t = std::array{+[](serializer& d) {
                 return T{std::in_place_type<Ts>, d};
             }...};
-            // TODO: deserialization error handling for variant indexes.
             return t.at(i)(deser);
         }
     }
diff --git a/src/util/serialization/serializer.hpp b/src/util/serialization/serializer.hpp
index 54291c4..6fc4ea1 100644
--- a/src/util/serialization/serializer.hpp
+++ b/src/util/serialization/serializer.hpp
@@ -53,6 +53,10 @@ namespace cbdc {
         ///         from the buffer into the destination.
         virtual auto read(void* data, size_t len) -> bool = 0;
 
+        /// Marks the last operation as failed, for data which is present but
+        /// does not encode a value.
+        virtual void set_failed() = 0;
+
       protected:
         serializer() = default;
     };
diff --git a/src/util/serialization/size_serializer.cpp b/src/util/serialization/size_serializer.cpp
index 694a8cd..a2c1e94 100644
--- a/src/util/serialization/size_serializer.cpp
+++ b/src/util/serialization/size_serializer.cpp
@@ -31,6 +31,8 @@ namespace cbdc {
         return false;
     }
 
+    void size_serializer::set_failed() {}
+
     [[nodiscard]] auto size_serializer::size() const -> size_t {
         return m_cursor;
     }
diff --git a/src/util/serialization/size_serializer.hpp b/src/util/serialization/size_serializer.hpp
index 00d8046..6895612 100644
--- a/src/util/serialization/size_serializer.hpp
+++ b/src/util/serialization/size_serializer.hpp
@@ -44,6 +44,9 @@ namespace cbdc {
         /// \return false.
         auto read(void* data, size_t len) -> bool final;
 
+        /// Has no effect, serialization always succeeds for size serializer.
+        void set_failed() final;
+
         /// Returns the number of bytes accumulated in the size counter during
         /// mock serialization.
         /// \return number of bytes a buffer would need for serialization.
diff --git a/src/util/serialization/stream_serializer.cpp b/src/util/serialization/stream_serializer.cpp
index 9a989bb..a815bc3 100644
--- a/src/util/serialization/stream_serializer.cpp
+++ b/src/util/serialization/stream_serializer.cpp
@@ -11,4 +11,8 @@ namespace cbdc {
     stream_serializer::operator bool() const {
         return m_str.good();
     }
+
+    void stream_serializer::set_failed() {
+        m_str.setstate(std::ios::failbit);
+    }
 }
diff --git a/src/util/serialization/stream_serializer.hpp b/src/util/serialization/stream_serializer.hpp
index d083406..5b493b5 100644
--- a/src/util/serialization/stream_serializer.hpp
+++ b/src/util/serialization/stream_serializer.hpp
@@ -25,6 +25,9 @@ namespace cbdc {
         /// \return true if the last serialization operation succeeded.
         explicit operator bool() const final;
 
+        /// Sets the stream's failure state.
+        void set_failed() final;
+
       private:
         std::ios& m_str;
     };
-- 
2.43.0


From 4e7afe955c65c02e27e5913cb10c612cad83d0fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:04 +0000
Subject: [PATCH 18/77] fix: a decoded bool is true or false whatever the byte

---
 src/util/serialization/format.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/util/serialization/format.hpp b/src/util/serialization/format.hpp
index 154b673..32f27f4 100644
--- a/src/util/serialization/format.hpp
+++ b/src/util/serialization/format.hpp
@@ -86,7 +86,15 @@ namespace cbdc {
     auto operator>>(serializer& s, T& t) ->
         typename std::enable_if_t<std::is_integral_v<T> && !std::is_enum_v<T>,
                                   serializer&> {
-        s.read(&t, sizeof(t));
+        if constexpr(std::is_same_v<T, bool>) {
+            // A byte other than 0 or 1 must not be stored in a bool as it is.
+            uint8_t val{};
+            if(s.read(&val, sizeof(val))) {
+                t = val != 0;
+            }
+        } else {
+            s.read(&t, sizeof(t));
+        }
         return s;
     }
 
-- 
2.43.0


From 9298cf4716924c62454120dc5f9c36f419b895ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:17 +0000
Subject: [PATCH 19/77] fix: watchtower: a request that cannot be decoded is
 not answered

---
 src/uhs/atomizer/watchtower/controller.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/uhs/atomizer/watchtower/controller.cpp b/src/uhs/atomizer/watchtower/controller.cpp
index 2d18356..50c2bd3 100644
--- a/src/uhs/atomizer/watchtower/controller.cpp
+++ b/src/uhs/atomizer/watchtower/controller.cpp
@@ -146,6 +146,10 @@ auto cbdc::watchtower::controller::external_server_handler(
     cbdc::network::message_t&& pkt) -> std::optional<cbdc::buffer> {
     auto deser = cbdc::buffer_serializer(*pkt.m_pkt);
     auto req = request(deser);
+    if(!deser) {
+        m_logger->error("Invalid external request packet");
+        return std::nullopt;
+    }
     auto res_handler = overloaded{
         [&](const cbdc::watchtower::status_update_request& su_req)
             -> cbdc::buffer {
-- 
2.43.0


From 42e538ccea1f80307d885e5d51c905de2d5a9d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:40 +0000
Subject: [PATCH 20/77] fix: watchtower clients report a malformed response as
 a failure

---
 src/uhs/atomizer/watchtower/client.cpp | 26 +++++++++++++++++++-------
 src/uhs/client/atomizer_client.cpp     | 11 ++++++++++-
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/uhs/atomizer/watchtower/client.cpp b/src/uhs/atomizer/watchtower/client.cpp
index 8afee9d..e52547a 100644
--- a/src/uhs/atomizer/watchtower/client.cpp
+++ b/src/uhs/atomizer/watchtower/client.cpp
@@ -28,7 +28,8 @@ namespace cbdc::watchtower {
                 auto deser = cbdc::buffer_serializer(*pkt.m_pkt);
                 auto res = response(deser);
                 m_res_q.push(
-                    std::make_shared<cbdc::watchtower::response>(res));
+                    deser ? std::make_shared<cbdc::watchtower::response>(res)
+                          : nullptr);
                 return std::nullopt;
             });
 
@@ -48,11 +49,15 @@ namespace cbdc::watchtower {
         m_network.broadcast(pkt);
 
         std::shared_ptr<response> res;
-        if(!m_res_q.pop(res)) {
+        if(!m_res_q.pop(res) || !res) {
+            return nullptr;
+        }
+        const auto* payload
+            = std::get_if<best_block_height_response>(&res->payload());
+        if(payload == nullptr) {
             return nullptr;
         }
-        return std::make_shared<best_block_height_response>(
-            std::get<best_block_height_response>(res->payload()));
+        return std::make_shared<best_block_height_response>(*payload);
     }
 
     auto
@@ -63,11 +68,15 @@ namespace cbdc::watchtower {
         m_network.broadcast(pkt);
 
         std::shared_ptr<response> res;
-        if(!m_res_q.pop(res)) {
+        if(!m_res_q.pop(res) || !res) {
             return nullptr;
         }
-        return std::make_shared<status_request_check_success>(
-            std::get<status_request_check_success>(res->payload()));
+        const auto* payload
+            = std::get_if<status_request_check_success>(&res->payload());
+        if(payload == nullptr) {
+            return nullptr;
+        }
+        return std::make_shared<status_request_check_success>(*payload);
     }
 
     async_client::async_client(network::endpoint_t ep) : m_ep(std::move(ep)) {}
@@ -90,6 +99,9 @@ namespace cbdc::watchtower {
                 -> std::optional<cbdc::buffer> {
                 auto deser = cbdc::buffer_serializer(*pkt.m_pkt);
                 auto res = response(deser);
+                if(!deser) {
+                    return std::nullopt;
+                }
                 m_res_q.push(
                     std::make_shared<cbdc::watchtower::response>(res));
                 return std::nullopt;
diff --git a/src/uhs/client/atomizer_client.cpp b/src/uhs/client/atomizer_client.cpp
index 04274e8..4520758 100644
--- a/src/uhs/client/atomizer_client.cpp
+++ b/src/uhs/client/atomizer_client.cpp
@@ -59,6 +59,10 @@ namespace cbdc {
         m_logger->debug("Checking watchtower state...");
 
         auto res = m_wc.request_status_update(req);
+        if(!res) {
+            m_logger->error("No valid response from watchtower");
+            return false;
+        }
 
         bool success{true};
         for(const auto& [tx_id, uhs_states] : res->states()) {
@@ -95,7 +99,12 @@ namespace cbdc {
             ctx.m_attestations.insert(att);
         }
         msg.m_tx = std::move(ctx);
-        msg.m_block_height = m_wc.request_best_block_height()->height();
+        auto best_height = m_wc.request_best_block_height();
+        if(!best_height) {
+            m_logger->error("No valid response from watchtower");
+            return false;
+        }
+        msg.m_block_height = best_height->height();
         return m_atomizer_network.send_to_one(atomizer::request{msg});
     }
 }
-- 
2.43.0


From 05dafb75d622e5722b148ff7d5dbed76dc8509d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:40 +0000
Subject: [PATCH 21/77] fix: tcp_socket allocates for a message as its data
 arrives

---
 src/util/network/tcp_socket.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/util/network/tcp_socket.cpp b/src/util/network/tcp_socket.cpp
index 35fbd7c..9ec2194 100644
--- a/src/util/network/tcp_socket.cpp
+++ b/src/util/network/tcp_socket.cpp
@@ -5,6 +5,9 @@
 
 #include "tcp_socket.hpp"
 
+#include "util/common/config.hpp"
+
+#include <algorithm>
 #include <array>
 #include <cstring>
 #include <unistd.h>
@@ -105,9 +108,12 @@ namespace cbdc::network {
         pkt.clear();
 
         total_read = 0;
-        auto buf = std::vector<std::byte>(pkt_sz);
+        // The size is not to be trusted: allocate as the data arrives.
+        auto buf = std::vector<std::byte>(
+            std::min(pkt_sz, config::maximum_reservation));
         while(total_read < pkt_sz) {
-            const auto buf_sz = pkt_sz - total_read;
+            const auto buf_sz
+                = std::min<uint64_t>(pkt_sz - total_read, buf.size());
             auto n = read(m_sock_fd, buf.data(), buf_sz);
             if(n <= 0) {
                 return false;
-- 
2.43.0


From 36e38009c46e95ac6abe25520d77e63f8f4e2967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:46 +0000
Subject: [PATCH 22/77] fix: a snapshot that was cut short fails to decode

---
 src/uhs/atomizer/atomizer/format.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/uhs/atomizer/atomizer/format.cpp b/src/uhs/atomizer/atomizer/format.cpp
index 070919e..e9a82bf 100644
--- a/src/uhs/atomizer/atomizer/format.cpp
+++ b/src/uhs/atomizer/atomizer/format.cpp
@@ -10,6 +10,8 @@
 #include "util/serialization/format.hpp"
 #include "util/serialization/util.hpp"
 
+#include <cstring>
+
 namespace cbdc {
     auto operator<<(serializer& packet, const cbdc::atomizer::block& blk)
         -> serializer& {
@@ -35,10 +37,13 @@ namespace cbdc {
 
     auto operator>>(serializer& deser, atomizer::state_machine::snapshot& snp)
         -> serializer& {
-        uint64_t snp_sz{};
-        deser >> snp_sz;
-        auto snp_buf = nuraft::buffer::alloc(snp_sz);
-        deser.read(snp_buf->data_begin(), snp_buf->size());
+        // Same encoding as a size followed by that many bytes
+        auto snp_data = buffer();
+        if(!(deser >> snp_data)) {
+            return deser;
+        }
+        auto snp_buf = nuraft::buffer::alloc(snp_data.size());
+        std::memcpy(snp_buf->data_begin(), snp_data.data(), snp_data.size());
         auto nuraft_snp = nuraft::snapshot::deserialize(*snp_buf);
         snp.m_snp = std::move(nuraft_snp);
         snp.m_atomizer->deserialize(deser);
-- 
2.43.0


From ad44887d3c2783ae350bf03ebb4fb53ee464fbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 23/77] fix: a connection that is shut down cannot miss its
 wakeup

---
 src/util/network/connection_manager.cpp | 5 ++++-
 src/util/network/peer.cpp               | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/util/network/connection_manager.cpp b/src/util/network/connection_manager.cpp
index 2a2f457..8e66dd3 100644
--- a/src/util/network/connection_manager.cpp
+++ b/src/util/network/connection_manager.cpp
@@ -182,7 +182,10 @@ namespace cbdc::network {
     }
 
     void connection_manager::close() {
-        m_running = false;
+        {
+            std::lock_guard<std::mutex> l(m_async_recv_mut);
+            m_running = false;
+        }
         m_listen_selector.unblock();
         m_listener.close();
         {
diff --git a/src/util/network/peer.cpp b/src/util/network/peer.cpp
index e2c477d..0ecd6b1 100644
--- a/src/util/network/peer.cpp
+++ b/src/util/network/peer.cpp
@@ -31,7 +31,10 @@ namespace cbdc::network {
     }
 
     void peer::shutdown() {
-        m_shut_down = true;
+        {
+            std::lock_guard<std::mutex> l(m_reconnect_mut);
+            m_shut_down = true;
+        }
         m_reconnect_cv.notify_one();
         if(m_reconnect_thread.joinable()) {
             m_reconnect_thread.join();
-- 
2.43.0


From 847bc6c6479ff27dac2323ed9d9226fe0ed7982b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 24/77] fix: a connection lost once is re-established once

---
 src/util/network/peer.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/util/network/peer.cpp b/src/util/network/peer.cpp
index 0ecd6b1..b374473 100644
--- a/src/util/network/peer.cpp
+++ b/src/util/network/peer.cpp
@@ -95,6 +95,12 @@ namespace cbdc::network {
                 }
                 if(m_attempt_reconnect) {
                     close();
+                    {
+                        // Both threads may have reported the connection that
+                        // was just closed
+                        std::lock_guard<std::mutex> l(m_reconnect_mut);
+                        m_reconnect = false;
+                    }
                     while(!m_shut_down && !m_sock->reconnect()) {
                         static constexpr auto retry_delay
                             = std::chrono::seconds(3);
-- 
2.43.0


From 999c7771677512dc26f5214e7919434ededce270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 25/77] fix: a socket is closed only once nobody uses it

---
 src/util/network/peer.cpp       | 5 ++++-
 src/util/network/tcp_socket.cpp | 7 +++++++
 src/util/network/tcp_socket.hpp | 5 +++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/util/network/peer.cpp b/src/util/network/peer.cpp
index b374473..f389e2b 100644
--- a/src/util/network/peer.cpp
+++ b/src/util/network/peer.cpp
@@ -126,7 +126,7 @@ namespace cbdc::network {
 
     void peer::close() {
         m_running = false;
-        m_sock->disconnect();
+        m_sock->unblock();
         m_send_queue.clear();
         if(m_send_thread.joinable()) {
             m_send_thread.join();
@@ -134,6 +134,9 @@ namespace cbdc::network {
         if(m_recv_thread.joinable()) {
             m_recv_thread.join();
         }
+        // Only now, as the threads may not use a descriptor that could belong
+        // to another connection
+        m_sock->disconnect();
         m_send_queue.reset();
     }
 
diff --git a/src/util/network/tcp_socket.cpp b/src/util/network/tcp_socket.cpp
index 9ec2194..ff81a9d 100644
--- a/src/util/network/tcp_socket.cpp
+++ b/src/util/network/tcp_socket.cpp
@@ -56,6 +56,13 @@ namespace cbdc::network {
         }
     }
 
+    void tcp_socket::unblock() {
+        m_connected = false;
+        if(m_sock_fd != -1) {
+            shutdown(m_sock_fd, SHUT_RDWR);
+        }
+    }
+
     tcp_socket::~tcp_socket() {
         disconnect();
     }
diff --git a/src/util/network/tcp_socket.hpp b/src/util/network/tcp_socket.hpp
index c9969ce..a280621 100644
--- a/src/util/network/tcp_socket.hpp
+++ b/src/util/network/tcp_socket.hpp
@@ -71,6 +71,11 @@ namespace cbdc::network {
         /// any blocking calls to this socket.
         void disconnect();
 
+        /// Ends the connection with the remote host and unblocks any blocking
+        /// calls to this socket, but keeps the socket until disconnect() or
+        /// reconnect().
+        void unblock();
+
         /// Reconnects to the previously connected endpoint. If connect was
         /// never called before, returns an error. Disconnects any previous
         /// endpoint before re-connecting.
-- 
2.43.0


From 5687fe7868668b6a32ea1021bdb67f9f4b79e7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:55 +0000
Subject: [PATCH 26/77] fix: a thread pool finishes the tasks it was given
 before it is gone

The destructor cleared the queues, so a task that was pushed but had not
been picked up yet was dropped, and a task that pushed another one during
destruction deadlocked on the pool's mutex.
---
 src/util/common/thread_pool.cpp | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/util/common/thread_pool.cpp b/src/util/common/thread_pool.cpp
index 7b4b899..f5a4ddb 100644
--- a/src/util/common/thread_pool.cpp
+++ b/src/util/common/thread_pool.cpp
@@ -7,11 +7,24 @@
 
 namespace cbdc {
     thread_pool::~thread_pool() {
-        std::unique_lock l(m_mut);
-        for(auto& t : m_threads) {
-            t->m_queue.clear();
-            if(t->m_thread.joinable()) {
-                t->m_thread.join();
+        while(true) {
+            // Tasks may push more tasks while they are being finished.
+            auto threads = decltype(m_threads)();
+            {
+                std::unique_lock l(m_mut);
+                threads.swap(m_threads);
+            }
+            if(threads.empty()) {
+                break;
+            }
+            for(auto& t : threads) {
+                // An empty task behind a pending one ends the thread.
+                t->m_queue.push(nullptr);
+            }
+            for(auto& t : threads) {
+                if(t->m_thread.joinable()) {
+                    t->m_thread.join();
+                }
             }
         }
     }
@@ -44,7 +57,7 @@ namespace cbdc {
 
     void thread_pool::thread_loop(const std::shared_ptr<thread_type>& thr) {
         auto f = std::function<void()>();
-        while(thr->m_queue.pop(f)) {
+        while(thr->m_queue.pop(f) && f) {
             f();
             thr->m_running = false;
         }
-- 
2.43.0


From e8a9af9198a90dbe034fcbff31993917725babe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 27/77] fix: buffer::from_hex refuses characters that are no
 hexadecimal digits

---
 src/util/common/buffer.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/util/common/buffer.cpp b/src/util/common/buffer.cpp
index 32544b5..3131aa4 100644
--- a/src/util/common/buffer.cpp
+++ b/src/util/common/buffer.cpp
@@ -5,7 +5,9 @@
 
 #include "buffer.hpp"
 
+#include <algorithm>
 #include <array>
+#include <cctype>
 #include <cstring>
 #include <iomanip>
 #include <sstream>
@@ -91,6 +93,15 @@ namespace cbdc {
             return std::nullopt;
         }
 
+        // Streams skip white space, accept signs and prefixes, and stop at the
+        // first character that is no digit.
+        const auto is_hex_digit = [](unsigned char c) {
+            return std::isxdigit(c) != 0;
+        };
+        if(!std::all_of(hex.begin(), hex.end(), is_hex_digit)) {
+            return std::nullopt;
+        }
+
         auto ret = cbdc::buffer();
 
         for(size_t i = 0; i < hex.size(); i += 2) {
-- 
2.43.0


From 8465f8f6f0ea453a00ea5372c0c18fa43e5d1082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:29 +0000
Subject: [PATCH 28/77] fix: hash_from_hex writes no more than a hash

---
 src/util/common/hash.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/common/hash.cpp b/src/util/common/hash.cpp
index f75dead..04d7d37 100644
--- a/src/util/common/hash.cpp
+++ b/src/util/common/hash.cpp
@@ -24,9 +24,9 @@ namespace cbdc {
     }
 
     auto hash_from_hex(const std::string& val) -> hash_t {
-        hash_t ret;
+        hash_t ret{};
 
-        for(size_t i = 0; i < val.size(); i += 2) {
+        for(size_t i = 0; i < val.size() && (i / 2) < ret.size(); i += 2) {
             unsigned int v{};
             std::stringstream s;
             s << std::hex << val.substr(i, 2);
-- 
2.43.0


From 232de7fa3bb0ddc2e6cd2c9ba280d304dad56279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:33 +0000
Subject: [PATCH 29/77] fix: an address whose data is empty or malformed is
 refused

---
 src/uhs/client/client.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/uhs/client/client.cpp b/src/uhs/client/client.cpp
index 4b3bc60..0e17d73 100644
--- a/src/uhs/client/client.cpp
+++ b/src/uhs/client/client.cpp
@@ -35,18 +35,19 @@ namespace cbdc {
                 return std::nullopt;
             }
             auto data = std::vector<uint8_t>();
-            ConvertBits<bech32_bits_per_symbol, bits_per_byte, false>(
-                [&](uint8_t c) {
-                    data.push_back(c);
-                },
-                enc_data.begin(),
-                enc_data.end());
+            const auto converted
+                = ConvertBits<bech32_bits_per_symbol, bits_per_byte, false>(
+                    [&](uint8_t c) {
+                        data.push_back(c);
+                    },
+                    enc_data.begin(),
+                    enc_data.end());
 
             auto pubkey = cbdc::hash_t();
-            if(data[0]
-                   != static_cast<uint8_t>(
-                       cbdc::client::address_type::public_key)
-               || data.size() != pubkey.size() + 1) {
+            if(!converted || data.size() != pubkey.size() + 1
+               || data[0]
+                      != static_cast<uint8_t>(
+                          cbdc::client::address_type::public_key)) {
                 std::cout << "Address is not a supported type" << std::endl;
                 return std::nullopt;
             }
-- 
2.43.0


From 47aff420356f92122bc59eef608ef5193e8b927e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:33 +0000
Subject: [PATCH 30/77] fix: a malformed value in a configuration file is
 refused with an error

---
 src/util/common/config.cpp | 164 +++++++++++++++++++++++++++++--------
 src/util/common/config.hpp |  30 ++++++-
 2 files changed, 156 insertions(+), 38 deletions(-)

diff --git a/src/util/common/config.cpp b/src/util/common/config.cpp
index 02811f4..46b93a6 100644
--- a/src/util/common/config.cpp
+++ b/src/util/common/config.cpp
@@ -7,26 +7,47 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cerrno>
+#include <charconv>
+#include <cstdlib>
 #include <sstream>
 
 namespace cbdc::config {
-    auto parse_ip_port(const std::string& in_str) -> network::endpoint_t {
-        // TODO: error handling for string parsing
-        std::istringstream ss(in_str);
-
-        std::string host;
-        [[maybe_unused]] const auto& host_res = std::getline(ss, host, ':');
-        assert(host_res);
+    auto parse_ulong(const std::string& in_str) -> std::optional<size_t> {
+        auto val = size_t();
+        const auto* const end = in_str.data() + in_str.size();
+        const auto [ptr, err] = std::from_chars(in_str.data(), end, val);
+        if(err != std::errc{} || ptr != end) {
+            return std::nullopt;
+        }
+        return val;
+    }
 
-        std::string port_str;
-        [[maybe_unused]] const auto& port_res
-            = std::getline(ss, port_str, ':');
-        assert(port_res);
+    auto parse_decimal(const std::string& in_str) -> std::optional<double> {
+        char* end{};
+        errno = 0;
+        const auto val = std::strtod(in_str.c_str(), &end);
+        if(in_str.empty() || errno != 0
+           || end != in_str.c_str() + in_str.size()) {
+            return std::nullopt;
+        }
+        return val;
+    }
 
-        auto port = std::stoul(port_str);
-        assert(port <= std::numeric_limits<unsigned short>::max());
+    auto parse_ip_port(const std::string& in_str)
+        -> std::optional<network::endpoint_t> {
+        const auto sep = in_str.find(':');
+        if(sep == std::string::npos || sep == 0) {
+            return std::nullopt;
+        }
+        const auto port = parse_ulong(in_str.substr(sep + 1));
+        if(!port.has_value()
+           || port.value() > std::numeric_limits<unsigned short>::max()) {
+            return std::nullopt;
+        }
 
-        return {host, static_cast<unsigned short>(port)};
+        return network::endpoint_t{in_str.substr(0, sep),
+                                   static_cast<unsigned short>(port.value())};
     }
 
     void get_shard_key_prefix(std::stringstream& ss, size_t shard_id) {
@@ -241,14 +262,22 @@ namespace cbdc::config {
         return ss.str();
     }
 
+    auto parse_key(const std::string& in_str) -> std::optional<hash_t> {
+        const auto bytes = buffer::from_hex(in_str);
+        if(!bytes.has_value() || bytes->size() != sizeof(hash_t)) {
+            return std::nullopt;
+        }
+        return hash_from_hex(in_str);
+    }
+
     auto read_shard_endpoints(options& opts, const parser& cfg)
         -> std::optional<std::string> {
         const auto shard_count = cfg.get_ulong(shard_count_key).value_or(0);
         if(opts.m_twophase_mode) {
-            opts.m_locking_shard_endpoints.resize(shard_count);
-            opts.m_locking_shard_raft_endpoints.resize(shard_count);
-            opts.m_locking_shard_readonly_endpoints.resize(shard_count);
             for(size_t i{0}; i < shard_count; i++) {
+                opts.m_locking_shard_endpoints.emplace_back();
+                opts.m_locking_shard_raft_endpoints.emplace_back();
+                opts.m_locking_shard_readonly_endpoints.emplace_back();
                 const auto node_count_key = get_shard_node_count_key(i);
                 const auto node_count = cfg.get_ulong(node_count_key);
                 if(!node_count) {
@@ -331,6 +360,11 @@ namespace cbdc::config {
                 return "No range end specified for shard " + std::to_string(i)
                      + " (" + end_key + ")";
             }
+            if(*range_end > std::numeric_limits<uint8_t>::max()
+               || *range_start > *range_end) {
+                return "Invalid range specified for shard "
+                     + std::to_string(i);
+            }
             const auto shard_range
                 = std::make_pair(static_cast<uint8_t>(*range_start),
                                  static_cast<uint8_t>(*range_end));
@@ -351,7 +385,11 @@ namespace cbdc::config {
             if(priv_str.value().size() != sizeof(privkey_t) * 2) {
                 return "Invalid seed private key length";
             }
-            opts.m_seed_privkey = hash_from_hex(priv_str.value());
+            const auto key = parse_key(priv_str.value());
+            if(!key.has_value()) {
+                return "Invalid seed private key";
+            }
+            opts.m_seed_privkey = key.value();
             opts.m_seed_value
                 = cfg.get_ulong(seed_value).value_or(opts.m_seed_value);
         }
@@ -363,9 +401,9 @@ namespace cbdc::config {
         -> std::optional<std::string> {
         const auto coordinator_count
             = cfg.get_ulong(coordinator_count_key).value_or(0);
-        opts.m_coordinator_endpoints.resize(coordinator_count);
-        opts.m_coordinator_raft_endpoints.resize(coordinator_count);
         for(size_t i{0}; i < coordinator_count; i++) {
+            opts.m_coordinator_endpoints.emplace_back();
+            opts.m_coordinator_raft_endpoints.emplace_back();
             const auto loglevel_key = get_coordinator_loglevel_key(i);
             const auto coordinator_loglevel
                 = cfg.get_loglevel(loglevel_key).value_or(defaults::log_level);
@@ -434,8 +472,12 @@ namespace cbdc::config {
             const auto sentinel_private_key
                 = cfg.get_string(sentinel_private_key_key);
             if(sentinel_private_key.has_value()) {
-                auto key = hash_from_hex(sentinel_private_key.value());
-                opts.m_sentinel_private_keys[i] = key;
+                auto key = parse_key(sentinel_private_key.value());
+                if(!key.has_value()) {
+                    return "Invalid private key for sentinel "
+                         + std::to_string(i);
+                }
+                opts.m_sentinel_private_keys[i] = key.value();
             }
 
             const auto sentinel_public_key_key
@@ -450,8 +492,11 @@ namespace cbdc::config {
                      + std::to_string(i) + " (" + sentinel_public_key_key
                      + ")";
             }
-            auto key = hash_from_hex(sentinel_public_key.value());
-            opts.m_sentinel_public_keys.insert(key);
+            auto key = parse_key(sentinel_public_key.value());
+            if(!key.has_value()) {
+                return "Invalid public key for sentinel " + std::to_string(i);
+            }
+            opts.m_sentinel_public_keys.insert(key.value());
         }
         return std::nullopt;
     }
@@ -620,10 +665,14 @@ namespace cbdc::config {
         -> std::variant<options, std::string> {
         auto opts = options{};
         auto cfg = parser(config_file);
+        auto err = cfg.error();
+        if(err.has_value()) {
+            return err.value();
+        }
 
         opts.m_twophase_mode = cfg.get_ulong(two_phase_mode).value_or(0) != 0;
 
-        auto err = read_sentinel_options(opts, cfg);
+        err = read_sentinel_options(opts, cfg);
         if(err.has_value()) {
             return err.value();
         }
@@ -662,6 +711,12 @@ namespace cbdc::config {
 
         read_loadgen_options(opts, cfg);
 
+        // Values that are optional, or belong to another architecture.
+        err = cfg.error();
+        if(err.has_value()) {
+            return err.value();
+        }
+
         return opts;
     }
 
@@ -764,7 +819,10 @@ namespace cbdc::config {
 
     parser::parser(const std::string& filename) {
         std::ifstream file(filename);
-        assert(file.good());
+        if(!file.good()) {
+            m_error = "Could not open " + filename;
+            return;
+        }
 
         init(file);
     }
@@ -781,7 +839,12 @@ namespace cbdc::config {
             if(std::getline(line_stream, key, '=')) {
                 std::string value;
                 if(std::getline(line_stream, value)) {
-                    m_options.emplace(key, parse_value(value));
+                    const auto parsed = parse_value(value);
+                    if(parsed.has_value()) {
+                        m_options.emplace(key, parsed.value());
+                    } else {
+                        set_error(key, value);
+                    }
                 }
             }
         }
@@ -804,7 +867,11 @@ namespace cbdc::config {
             return std::nullopt;
         }
 
-        return parse_ip_port(val_str.value());
+        const auto ep = parse_ip_port(val_str.value());
+        if(!ep.has_value()) {
+            set_error(key, val_str.value());
+        }
+        return ep;
     }
 
     auto parser::get_loglevel(const std::string& key) const
@@ -818,7 +885,15 @@ namespace cbdc::config {
 
     auto parser::get_decimal(const std::string& key) const
         -> std::optional<double> {
-        return get_val<double>(key);
+        const auto val = get_val<double>(key);
+        if(!val.has_value()) {
+            // Written without a decimal point.
+            const auto as_int = get_ulong(key);
+            if(as_int.has_value()) {
+                return static_cast<double>(*as_int);
+            }
+        }
+        return val;
     }
 
     auto parser::find_or_env(const std::string& key) const
@@ -832,7 +907,11 @@ namespace cbdc::config {
                        });
         if(const auto* env_v = std::getenv(upper_key.c_str())) {
             auto value = std::string(env_v);
-            return parse_value(value);
+            auto parsed = parse_value(value);
+            if(!parsed.has_value()) {
+                set_error(key, value);
+            }
+            return parsed;
         }
 
         auto it = m_options.find(key);
@@ -843,14 +922,27 @@ namespace cbdc::config {
         return std::nullopt;
     }
 
-    auto parser::parse_value(const std::string& value) -> value_t {
-        if(value[0] != '\"' && value[value.size() - 1] != '\"') {
+    auto parser::error() const -> std::optional<std::string> {
+        return m_error;
+    }
+
+    void parser::set_error(const std::string& key,
+                           const std::string& value) const {
+        if(!m_error.has_value()) {
+            m_error = "Invalid value for " + key + ": " + value;
+        }
+    }
+
+    auto parser::parse_value(const std::string& val)
+        -> std::optional<value_t> {
+        const auto value = val.substr(0, val.find_last_not_of(" \t\r") + 1);
+        const auto quoted = value.size() > 1 && value.front() == '\"'
+                         && value.back() == '\"';
+        if(!quoted) {
             if(value.find('.') == std::string::npos) {
-                const auto as_int = static_cast<size_t>(std::stoull(value));
-                return as_int;
+                return parse_ulong(value);
             }
-            const auto as_dbl = std::stod(value);
-            return as_dbl;
+            return parse_decimal(value);
         }
 
         const auto unquoted = value.substr(1, value.size() - 2);
diff --git a/src/util/common/config.hpp b/src/util/common/config.hpp
index 9ed00fe..dd6f818 100644
--- a/src/util/common/config.hpp
+++ b/src/util/common/config.hpp
@@ -365,6 +365,11 @@ namespace cbdc::config {
         [[nodiscard]] auto get_decimal(const std::string& key) const
             -> std::optional<double>;
 
+        /// Returns what was malformed in the configuration as far as it has
+        /// been read: a file that cannot be read, or a value.
+        /// \return description of the first error, or std::nullopt.
+        [[nodiscard]] auto error() const -> std::optional<std::string>;
+
       private:
         using value_t = std::variant<std::string, size_t, double>;
 
@@ -388,12 +393,33 @@ namespace cbdc::config {
         void init(std::istream& stream);
 
         [[nodiscard]] static auto parse_value(const std::string& val)
-            -> value_t;
+            -> std::optional<value_t>;
+
+        void set_error(const std::string& key, const std::string& value) const;
 
         std::map<std::string, value_t> m_options;
+
+        // Environment variables are only parsed once they are asked for.
+        mutable std::optional<std::string> m_error;
     };
 
-    auto parse_ip_port(const std::string& in_str) -> network::endpoint_t;
+    /// Parses an unsigned integer written in decimal digits.
+    /// \param in_str string to parse.
+    /// \return the number, or std::nullopt if the string is not one or is out
+    ///         of range.
+    auto parse_ulong(const std::string& in_str) -> std::optional<size_t>;
+
+    /// Parses a decimal number.
+    /// \param in_str string to parse.
+    /// \return the number, or std::nullopt if the string is not one or is out
+    ///         of range.
+    auto parse_decimal(const std::string& in_str) -> std::optional<double>;
+
+    /// Parses an endpoint of the form host:port.
+    /// \param in_str string to parse.
+    /// \return the endpoint, or std::nullopt if the string is not one.
+    auto parse_ip_port(const std::string& in_str)
+        -> std::optional<network::endpoint_t>;
 }
 
 #endif // OPENCBDC_TX_SRC_COMMON_CONFIG_H_
-- 
2.43.0


From c52d7624430fb403336784e1e6a5aa4e77d0fb75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:33 +0000
Subject: [PATCH 31/77] fix: parsec: a malformed argument is refused instead of
 ending the program

---
 src/parsec/util.cpp | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/parsec/util.cpp b/src/parsec/util.cpp
index 4ac830f..56b602a 100644
--- a/src/parsec/util.cpp
+++ b/src/parsec/util.cpp
@@ -57,16 +57,22 @@ namespace cbdc::parsec {
         if(it == opts.end()) {
             return std::nullopt;
         }
-        auto count = std::stoull(it->second);
+        auto count = cbdc::config::parse_ulong(it->second);
+        if(!count.has_value()) {
+            return std::nullopt;
+        }
 
-        for(size_t i = 0; i < count; i++) {
+        for(size_t i = 0; i < count.value(); i++) {
             auto ep_key = component_name + std::to_string(i) + "_endpoint";
             it = opts.find(ep_key);
             if(it == opts.end()) {
                 return std::nullopt;
             }
             auto ep = cbdc::config::parse_ip_port(it->second);
-            ret.emplace_back(ep);
+            if(!ep.has_value()) {
+                return std::nullopt;
+            }
+            ret.emplace_back(ep.value());
         }
 
         return ret;
@@ -83,9 +89,12 @@ namespace cbdc::parsec {
         if(it == opts.end()) {
             return std::nullopt;
         }
-        auto count = std::stoull(it->second);
+        auto count = cbdc::config::parse_ulong(it->second);
+        if(!count.has_value()) {
+            return std::nullopt;
+        }
 
-        for(size_t i = 0; i < count; i++) {
+        for(size_t i = 0; i < count.value(); i++) {
             auto node_name = component_name + std::to_string(i);
             auto eps = read_endpoints(opts, node_name);
             if(!eps.has_value()) {
@@ -111,7 +120,11 @@ namespace cbdc::parsec {
         if(it == opts->end()) {
             return std::nullopt;
         }
-        cfg.m_component_id = std::stoull(it->second);
+        const auto component_id = cbdc::config::parse_ulong(it->second);
+        if(!component_id.has_value()) {
+            return std::nullopt;
+        }
+        cfg.m_component_id = component_id.value();
 
         cfg.m_loglevel = logging::log_level::trace;
         constexpr auto loglevel_key = "loglevel";
@@ -133,7 +146,10 @@ namespace cbdc::parsec {
         constexpr auto node_id_key = "node_id";
         it = opts->find(node_id_key);
         if(it != opts->end()) {
-            cfg.m_node_id = std::stoull(it->second);
+            cfg.m_node_id = cbdc::config::parse_ulong(it->second);
+            if(!cfg.m_node_id.has_value()) {
+                return std::nullopt;
+            }
         }
 
         auto shard_endpoints = read_cluster_endpoints(opts.value(), "shard");
@@ -165,7 +181,11 @@ namespace cbdc::parsec {
         constexpr auto contention_rate_key = "contention_rate";
         it = opts->find(contention_rate_key);
         if(it != opts->end()) {
-            cfg.m_contention_rate = std::stod(it->second);
+            const auto rate = cbdc::config::parse_decimal(it->second);
+            if(!rate.has_value()) {
+                return std::nullopt;
+            }
+            cfg.m_contention_rate = rate.value();
         }
 
         constexpr auto default_loadgen_accounts = 1000;
@@ -173,7 +193,11 @@ namespace cbdc::parsec {
         constexpr auto loadgen_accounts_key = "loadgen_accounts";
         it = opts->find(loadgen_accounts_key);
         if(it != opts->end()) {
-            cfg.m_loadgen_accounts = std::stoull(it->second);
+            const auto accounts = cbdc::config::parse_ulong(it->second);
+            if(!accounts.has_value()) {
+                return std::nullopt;
+            }
+            cfg.m_loadgen_accounts = accounts.value();
         }
 
         constexpr auto runner_type_key = "runner_type";
-- 
2.43.0


From e4d6c2ff8c23205d45ce248930e27197ba029ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:43 +0000
Subject: [PATCH 32/77] fix: a wallet also forgets a spent coin it could still
 choose

---
 src/uhs/transaction/wallet.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/uhs/transaction/wallet.cpp b/src/uhs/transaction/wallet.cpp
index 059bd68..a2264a3 100644
--- a/src/uhs/transaction/wallet.cpp
+++ b/src/uhs/transaction/wallet.cpp
@@ -228,6 +228,7 @@ namespace cbdc {
             const auto erased = m_utxos_set.erase(inp) > 0;
             if(erased) {
                 m_balance -= inp.m_prevout_data.m_value;
+                m_spend_queue.remove(inp);
             }
         }
         assert(m_spend_queue.size() == m_utxos_set.size());
-- 
2.43.0


From d7c32d9488f4ad8ad7a417814c7fd7d84f30410c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:29 +0000
Subject: [PATCH 33/77] fix: a client keeps every imported input of a
 transaction

---
 src/uhs/client/atomizer_client.cpp |  4 ++--
 src/uhs/client/client.cpp          | 16 ++++++++++------
 src/uhs/client/client.hpp          |  4 ++--
 src/uhs/client/twophase_client.cpp |  4 ++--
 4 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/uhs/client/atomizer_client.cpp b/src/uhs/client/atomizer_client.cpp
index 4520758..4173258 100644
--- a/src/uhs/client/atomizer_client.cpp
+++ b/src/uhs/client/atomizer_client.cpp
@@ -50,8 +50,8 @@ namespace cbdc {
                               ctx.m_uhs_outputs.end());
         }
 
-        for(const auto& [tx_id, in] : pending_inputs()) {
-            tus.insert({tx_id, {in.hash()}});
+        for(const auto& [in_hash, in] : pending_inputs()) {
+            tus[in.m_prevout.m_tx_id].push_back(in_hash);
         }
 
         cbdc::watchtower::status_update_request req{tus};
diff --git a/src/uhs/client/client.cpp b/src/uhs/client/client.cpp
index 0e17d73..d9d67f9 100644
--- a/src/uhs/client/client.cpp
+++ b/src/uhs/client/client.cpp
@@ -203,7 +203,7 @@ namespace cbdc {
 
     void client::import_send_input(const transaction::input& in) {
         if(m_wallet.is_spendable(in)) {
-            m_pending_inputs.insert({in.m_prevout.m_tx_id, in});
+            m_pending_inputs.insert({in.hash(), in});
             save();
         } else {
             m_logger->warn("Ignoring non-spendable input");
@@ -295,11 +295,15 @@ namespace cbdc {
             success = true;
         }
 
-        const auto pi_it = m_pending_inputs.find(tx_id);
-        if(pi_it != m_pending_inputs.end()) {
-            m_wallet.confirm_inputs({pi_it->second});
-            m_pending_inputs.erase(pi_it);
-            success = true;
+        for(auto pi_it = m_pending_inputs.begin();
+            pi_it != m_pending_inputs.end();) {
+            if(pi_it->second.m_prevout.m_tx_id == tx_id) {
+                m_wallet.confirm_inputs({pi_it->second});
+                pi_it = m_pending_inputs.erase(pi_it);
+                success = true;
+            } else {
+                pi_it++;
+            }
         }
 
         save();
diff --git a/src/uhs/client/client.hpp b/src/uhs/client/client.hpp
index ae3cb6d..00735aa 100644
--- a/src/uhs/client/client.hpp
+++ b/src/uhs/client/client.hpp
@@ -266,7 +266,7 @@ namespace cbdc {
         /// Returns the current set of pending inputs imported into this client
         /// via the \ref import_send_input method which the system has yet to
         /// confirm.
-        /// \return a map of transaction ID to pending input.
+        /// \return a map of input hash to pending input.
         [[nodiscard]] auto pending_inputs() const
             -> std::unordered_map<hash_t, transaction::input, hashing::null>;
 
@@ -288,7 +288,7 @@ namespace cbdc {
             m_pending_spend;
 
         /// List of pending inputs added by client::import_send_input, indexed
-        /// by the Tx ID of the transaction that created them.
+        /// by the hash of the input. Several may stem from one transaction.
         std::unordered_map<hash_t, transaction::input, hashing::null>
             m_pending_inputs;
 
diff --git a/src/uhs/client/twophase_client.cpp b/src/uhs/client/twophase_client.cpp
index 5c1cb4b..47b665f 100644
--- a/src/uhs/client/twophase_client.cpp
+++ b/src/uhs/client/twophase_client.cpp
@@ -40,8 +40,8 @@ namespace cbdc {
         for(const auto& [tx_id, tx] : pending_txs()) {
             txids.insert(tx_id);
         }
-        for(const auto& [tx_id, inp] : pending_inputs()) {
-            txids.insert(tx_id);
+        for(const auto& [in_hash, inp] : pending_inputs()) {
+            txids.insert(inp.m_prevout.m_tx_id);
         }
 
         for(const auto& tx_id : txids) {
-- 
2.43.0


From 58c407ee18a0c631fa2d745dfa5e123128a4bf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:29 +0000
Subject: [PATCH 34/77] fix: an unconfirmed transaction does not hold up the
 others of an atomizer client

---
 src/uhs/client/atomizer_client.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/uhs/client/atomizer_client.cpp b/src/uhs/client/atomizer_client.cpp
index 4173258..251f89a 100644
--- a/src/uhs/client/atomizer_client.cpp
+++ b/src/uhs/client/atomizer_client.cpp
@@ -66,6 +66,7 @@ namespace cbdc {
 
         bool success{true};
         for(const auto& [tx_id, uhs_states] : res->states()) {
+            bool confirmed{false};
             for(const auto& s : uhs_states) {
                 if((s.status() != cbdc::watchtower::search_status::unspent)
                    && (s.status() != cbdc::watchtower::search_status::spent)) {
@@ -75,15 +76,14 @@ namespace cbdc {
                                    to_string(s.uhs_id()),
                                    ", status:",
                                    static_cast<uint32_t>(s.status()));
-                    success = false;
                     continue;
                 }
+                confirmed = true;
                 break;
             }
-            if(!success) {
-                continue;
+            if(!confirmed || !confirm_transaction(tx_id)) {
+                success = false;
             }
-            success = confirm_transaction(tx_id);
         }
 
         return success;
-- 
2.43.0


From 890848c9d6fdc267105b18633fa788aecbf8717a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:53 +0000
Subject: [PATCH 35/77] fix: a late answer to a mint no longer reaches a caller
 that gave up

---
 src/uhs/client/twophase_client.cpp | 34 ++++++++++++++++--------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/uhs/client/twophase_client.cpp b/src/uhs/client/twophase_client.cpp
index 47b665f..a2e35fd 100644
--- a/src/uhs/client/twophase_client.cpp
+++ b/src/uhs/client/twophase_client.cpp
@@ -81,23 +81,14 @@ namespace cbdc {
                 = ctx.sign(m_secp.get(), m_opts.m_sentinel_private_keys[i]);
             ctx.m_attestations.insert(att);
         }
-        auto done = std::promise<void>();
-        auto done_fut = done.get_future();
+        // Shared with the callback, which may run after the wait below has
+        // timed out.
+        auto done = std::make_shared<std::promise<std::optional<bool>>>();
+        auto done_fut = done->get_future();
         auto res = m_coordinator_client.execute_transaction(
             ctx,
-            [&, tx_id = ctx.m_id](std::optional<bool> success) {
-                if(!success.has_value()) {
-                    m_logger->error(
-                        "Coordinator error processing transaction");
-                    return;
-                }
-                if(!success.value()) {
-                    m_logger->error("Coordinator rejected transaction");
-                    return;
-                }
-                confirm_transaction(tx_id);
-                m_logger->info("Confirmed mint TX");
-                done.set_value();
+            [done](std::optional<bool> success) {
+                done->set_value(success);
             });
         if(!res) {
             m_logger->error("Failed to send transaction to coordinator");
@@ -109,6 +100,17 @@ namespace cbdc {
             m_logger->error("Timed out waiting for mint response");
             return false;
         }
-        return res;
+        const auto success = done_fut.get();
+        if(!success.has_value()) {
+            m_logger->error("Coordinator error processing transaction");
+            return false;
+        }
+        if(!success.value()) {
+            m_logger->error("Coordinator rejected transaction");
+            return false;
+        }
+        confirm_transaction(ctx.m_id);
+        m_logger->info("Confirmed mint TX");
+        return true;
     }
 }
-- 
2.43.0


From adbaf4a6300bda4ae86db812698c1891bfd30010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:00 +0000
Subject: [PATCH 36/77] fix: seed the configured range of outputs in the shard
 seeder

The seeder wrote the outputs 0 to seed_to - seed_from whatever seed_from is,
while wallets claim the outputs seed_from to seed_to.
---
 tools/shard-seeder/shard-seeder.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/tools/shard-seeder/shard-seeder.cpp b/tools/shard-seeder/shard-seeder.cpp
index c2fba0c..16b7646 100644
--- a/tools/shard-seeder/shard-seeder.cpp
+++ b/tools/shard-seeder/shard-seeder.cpp
@@ -72,7 +72,10 @@ auto main(int argc, char** argv) -> int {
         = cbdc::transaction::validation::get_p2pk_witness_commitment(pubkey);
 
     cbdc::transaction::wallet wal;
-    wal.seed_readonly(witness_commitment, utxo_val, 0, num_utxos);
+    wal.seed_readonly(witness_commitment,
+                      utxo_val,
+                      cfg.m_seed_from,
+                      cfg.m_seed_to);
 
     auto shard_range
         = (std::numeric_limits<cbdc::config::shard_range_t::first_type>::max()
@@ -126,7 +129,9 @@ auto main(int argc, char** argv) -> int {
                     auto tx = wal.create_seeded_transaction(0).value();
                     auto batch_size = 0;
                     leveldb::WriteBatch batch;
-                    for(size_t tx_idx = 0; tx_idx != num_utxos; tx_idx++) {
+                    for(size_t tx_idx = cfg.m_seed_from;
+                        tx_idx != cfg.m_seed_to;
+                        tx_idx++) {
                         tx.m_inputs[0].m_prevout.m_index = tx_idx;
                         cbdc::transaction::compact_tx ctx(tx);
                         const cbdc::hash_t& output_hash = ctx.m_uhs_outputs[0];
@@ -159,7 +164,9 @@ auto main(int argc, char** argv) -> int {
                     auto ser = cbdc::ostream_serializer(out);
                     ser << count;
                     auto tx = wal.create_seeded_transaction(0).value();
-                    for(size_t tx_idx = 0; tx_idx != num_utxos; tx_idx++) {
+                    for(size_t tx_idx = cfg.m_seed_from;
+                        tx_idx != cfg.m_seed_to;
+                        tx_idx++) {
                         tx.m_inputs[0].m_prevout.m_index = tx_idx;
                         cbdc::transaction::compact_tx ctx(tx);
                         const cbdc::hash_t& output_hash = ctx.m_uhs_outputs[0];
-- 
2.43.0


From 17aa7c80ede0b9adc7b18c40b34fd185b50d7d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:00 +0000
Subject: [PATCH 37/77] fix: divide seeded outputs by the configured shard
 ranges

The seeder divided the hash space evenly between the distinct ranges instead
of using the ranges themselves, so with any other division an output was
missing from the shard responsible for it. Files for two-phase shards are
named by shard number, so they must keep the order of the configuration.
---
 tools/shard-seeder/shard-seeder.cpp | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/tools/shard-seeder/shard-seeder.cpp b/tools/shard-seeder/shard-seeder.cpp
index 16b7646..22ddd77 100644
--- a/tools/shard-seeder/shard-seeder.cpp
+++ b/tools/shard-seeder/shard-seeder.cpp
@@ -52,9 +52,12 @@ auto main(int argc, char** argv) -> int {
 
     auto unique_ranges
         = std::vector<cbdc::config::shard_range_t>(cfg.m_shard_ranges);
-    std::sort(unique_ranges.begin(), unique_ranges.end());
-    unique_ranges.erase(unique(unique_ranges.begin(), unique_ranges.end()),
-                        unique_ranges.end());
+    if(!cfg.m_twophase_mode) {
+        std::sort(unique_ranges.begin(), unique_ranges.end());
+        unique_ranges.erase(
+            unique(unique_ranges.begin(), unique_ranges.end()),
+            unique_ranges.end());
+    }
     auto num_shards = unique_ranges.size();
     auto num_utxos = cfg.m_seed_to - cfg.m_seed_from;
     auto utxo_val = cfg.m_seed_value;
@@ -77,20 +80,11 @@ auto main(int argc, char** argv) -> int {
                       cfg.m_seed_from,
                       cfg.m_seed_to);
 
-    auto shard_range
-        = (std::numeric_limits<cbdc::config::shard_range_t::first_type>::max()
-           + 1)
-        / num_shards;
     auto gen_threads = std::vector<std::thread>(num_shards);
     for(size_t i = 0; i < num_shards; i++) {
         std::thread t(
             [&](size_t shard_idx) {
-                auto shard_start = shard_idx * shard_range;
-                auto shard_end = (shard_idx + 1) * shard_range - 1;
-                if(shard_idx == num_shards - 1) {
-                    shard_end = std::numeric_limits<
-                        cbdc::config::shard_range_t::first_type>::max();
-                }
+                const auto [shard_start, shard_end] = unique_ranges[shard_idx];
 
                 std::stringstream shard_db_dir;
                 if(cfg.m_twophase_mode) {
-- 
2.43.0


From 445aa2aff2ceb1d8e29788ffde4b6ec1df49161c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:49 +0000
Subject: [PATCH 38/77] fix: look up each input's own hash when choosing shards

send_compact_tx compared the input numbered like the shard, not the input it
was looking for, with the shard's range: inputs did not reach the shard that
owns them, and with more shards than inputs it read past the inputs.
---
 src/uhs/atomizer/sentinel/controller.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uhs/atomizer/sentinel/controller.cpp b/src/uhs/atomizer/sentinel/controller.cpp
index ac2af00..d05164e 100644
--- a/src/uhs/atomizer/sentinel/controller.cpp
+++ b/src/uhs/atomizer/sentinel/controller.cpp
@@ -192,7 +192,7 @@ namespace cbdc::sentinel {
                 if(inputs_sent.find(j) != inputs_sent.end()) {
                     continue;
                 }
-                if(!config::hash_in_shard_range(range, ctx.m_inputs[i])) {
+                if(!config::hash_in_shard_range(range, ctx.m_inputs[j])) {
                     continue;
                 }
                 inputs_sent.insert(j);
-- 
2.43.0


From 4cbf2eb402fa5cd5d6bf955209ba703a65054f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:19 +0000
Subject: [PATCH 39/77] fix: compacting an already compacted part of the log is
 a no-op

compact() with an index below the first one computed a huge number of entries
to delete and aborted. The library asks for this after a snapshot was
installed, when it keeps a reserve of entries behind the next snapshot.
---
 src/util/raft/log_store.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/raft/log_store.cpp b/src/util/raft/log_store.cpp
index e276bc1..25bfecc 100644
--- a/src/util/raft/log_store.cpp
+++ b/src/util/raft/log_store.cpp
@@ -293,6 +293,11 @@ namespace cbdc::raft {
         {
             std::lock_guard<std::mutex> l(m_db_mut);
 
+            if(last_log_index < m_start_idx) {
+                // Already compacted
+                return true;
+            }
+
             const auto n_elems = last_log_index - m_start_idx + 1;
             std::vector<data_slice::second_type> data_slices(n_elems);
             for(uint64_t i{m_start_idx}; i <= last_log_index; i++) {
-- 
2.43.0


From 44256a61f22d914c3233b26547c355a5e4e67e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:38 +0000
Subject: [PATCH 40/77] fix: an emptied replication log keeps its position over
 a restart

Compacting the whole log left nothing in the database to tell where it
continues: after a restart the first and next index were 1 again. The first
index is now kept under key 0, which no entry uses, when a log is emptied.
---
 src/util/raft/log_store.cpp | 91 ++++++++++++++++++++++++-------------
 src/util/raft/log_store.hpp |  3 ++
 2 files changed, 62 insertions(+), 32 deletions(-)

diff --git a/src/util/raft/log_store.cpp b/src/util/raft/log_store.cpp
index 25bfecc..f764886 100644
--- a/src/util/raft/log_store.cpp
+++ b/src/util/raft/log_store.cpp
@@ -5,12 +5,22 @@
 
 #include "log_store.hpp"
 
-#include <array>
 #include <cstring>
 #include <leveldb/write_batch.h>
 #include <libnuraft/buffer_serializer.hxx>
 
 namespace cbdc::raft {
+    // Key of the record which holds the first index of a log without entries.
+    // Log entry 0 is always empty so the key isn't used otherwise.
+    static constexpr uint64_t marker_key{0};
+
+    auto is_marker(const leveldb::Slice& key) -> bool {
+        uint64_t val{};
+        assert(key.size() == sizeof(val));
+        std::memcpy(&val, key.data(), sizeof(val));
+        return val == marker_key;
+    }
+
     template<bool First>
     auto get_first_or_last_index(leveldb::DB* db,
                                  const leveldb::ReadOptions& opt) -> uint64_t {
@@ -18,6 +28,9 @@ namespace cbdc::raft {
 
         if constexpr(First) {
             it->SeekToFirst();
+            if(it->Valid() && is_marker(it->key())) {
+                it->Next();
+            }
             if(!it->Valid()) {
                 return 1;
             }
@@ -37,6 +50,15 @@ namespace cbdc::raft {
         return ret;
     }
 
+    using data_slice = std::pair<leveldb::Slice, std::vector<char>>;
+
+    auto get_key_slice(uint64_t key) -> data_slice {
+        std::vector<char> key_arr(sizeof(key));
+        std::memcpy(key_arr.data(), &key, key_arr.size());
+        auto slice = leveldb::Slice(key_arr.data(), key_arr.size());
+        return std::make_pair(slice, std::move(key_arr));
+    }
+
     auto log_store::load(const std::string& db_dir) -> bool {
         m_write_opt.sync = false;
 
@@ -54,15 +76,32 @@ namespace cbdc::raft {
             std::lock_guard<std::mutex> l(m_db_mut);
             m_db.reset(db_ptr);
 
-            m_next_idx
-                = get_first_or_last_index<false>(m_db.get(), m_read_opt) + 1;
-            m_start_idx
-                = get_first_or_last_index<true>(m_db.get(), m_read_opt);
+            read_bounds();
         }
 
         return true;
     }
 
+    void log_store::read_bounds() {
+        m_next_idx
+            = get_first_or_last_index<false>(m_db.get(), m_read_opt) + 1;
+        m_start_idx = get_first_or_last_index<true>(m_db.get(), m_read_opt);
+
+        if(m_next_idx > m_start_idx) {
+            return;
+        }
+
+        // No entries, but there may have been some before compaction
+        const auto key = get_key_slice(marker_key);
+        std::string val;
+        const auto status = m_db->Get(m_read_opt, key.first, &val);
+        if(status.ok()) {
+            assert(val.size() == sizeof(m_start_idx));
+            std::memcpy(&m_start_idx, val.data(), sizeof(m_start_idx));
+            m_next_idx = m_start_idx;
+        }
+    }
+
     auto log_store::next_slot() const -> uint64_t {
         std::lock_guard<std::mutex> l(m_db_mut);
         return m_next_idx;
@@ -91,7 +130,7 @@ namespace cbdc::raft {
 
             it->SeekToLast();
 
-            if(!it->Valid()) {
+            if(!it->Valid() || is_marker(it->key())) {
                 auto null_entry
                     = nuraft::cs_new<nuraft::log_entry>(0, nullptr);
                 return null_entry;
@@ -104,15 +143,6 @@ namespace cbdc::raft {
         return last_entry;
     }
 
-    using data_slice = std::pair<leveldb::Slice, std::vector<char>>;
-
-    auto get_key_slice(uint64_t key) -> data_slice {
-        std::vector<char> key_arr(sizeof(key));
-        std::memcpy(key_arr.data(), &key, key_arr.size());
-        auto slice = leveldb::Slice(key_arr.data(), key_arr.size());
-        return std::make_pair(slice, std::move(key_arr));
-    }
-
     auto get_value_slice(nuraft::ptr<nuraft::log_entry>& entry) -> data_slice {
         const auto buf = entry->serialize();
         std::vector<char> value_buf(buf->size());
@@ -195,8 +225,8 @@ namespace cbdc::raft {
         {
             std::lock_guard<std::mutex> l(m_db_mut);
             const auto status = m_db->Get(m_read_opt, key.first, &val);
-            if(!status.ok()) {
-                assert(status.IsNotFound());
+            if(!status.ok() || index == marker_key) {
+                assert(status.ok() || status.IsNotFound());
                 auto null_entry
                     = nuraft::cs_new<nuraft::log_entry>(0, nullptr);
                 return null_entry;
@@ -280,10 +310,7 @@ namespace cbdc::raft {
             const auto status = m_db->Write(m_write_opt, &batch);
             assert(status.ok());
 
-            m_start_idx
-                = get_first_or_last_index<true>(m_db.get(), m_read_opt);
-            m_next_idx
-                = get_first_or_last_index<false>(m_db.get(), m_read_opt) + 1;
+            read_bounds();
         }
     }
 
@@ -306,10 +333,18 @@ namespace cbdc::raft {
                 data_slices[i - m_start_idx] = std::move(key.second);
             }
 
+            const auto new_start = last_log_index + 1;
+            const auto marker = get_key_slice(marker_key);
+            const auto marker_val = get_key_slice(new_start);
+            if(new_start >= m_next_idx) {
+                // Nothing is left to tell where the log continues
+                batch.Put(marker.first, marker_val.first);
+            }
+
             const auto status = m_db->Write(m_write_opt, &batch);
             assert(status.ok());
 
-            m_start_idx = last_log_index + 1;
+            m_start_idx = new_start;
             m_next_idx = std::max(m_next_idx, m_start_idx);
         }
 
@@ -318,22 +353,14 @@ namespace cbdc::raft {
 
     auto log_store::flush() -> bool {
         // LevelDB does not provide a way to issue a single "flush" call. As a
-        // workaround make a dummy write with no lasting effects where sync =
-        // true.
+        // workaround write an empty batch, which has no lasting effects, where
+        // sync = true.
 
         leveldb::WriteOptions sync_opts;
         sync_opts.sync = true;
 
         leveldb::WriteBatch batch;
 
-        // Log entry 0 is always empty so we're not overwriting anything
-        // important
-        std::array<char, sizeof(uint64_t)> dummy_key_data{};
-        leveldb::Slice dummy_key_slice(dummy_key_data.data(),
-                                       dummy_key_data.size());
-        batch.Put(dummy_key_slice, dummy_key_slice);
-        batch.Delete(dummy_key_slice);
-
         {
             std::lock_guard<std::mutex> l(m_db_mut);
             const auto status = m_db->Write(sync_opts, &batch);
diff --git a/src/util/raft/log_store.hpp b/src/util/raft/log_store.hpp
index e993353..1c2ebe1 100644
--- a/src/util/raft/log_store.hpp
+++ b/src/util/raft/log_store.hpp
@@ -113,6 +113,9 @@ namespace cbdc::raft {
         leveldb::WriteOptions m_write_opt;
 
         index_comparator m_cmp;
+
+        /// Sets the first and next index from what the database holds.
+        void read_bounds();
     };
 }
 
-- 
2.43.0


From b45fbe4ff1c90acf4d1c4bbc2c3021153861b5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:59 +0000
Subject: [PATCH 41/77] fix: a full disk no longer replaces the saved consensus
 state by a part of it

save_object did not look at whether the file was written before renaming it
over the previous one. The process now ends, as the library expects of a
state manager that cannot save.
---
 src/util/raft/state_manager.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/util/raft/state_manager.cpp b/src/util/raft/state_manager.cpp
index 45b2ff8..726a2a8 100644
--- a/src/util/raft/state_manager.cpp
+++ b/src/util/raft/state_manager.cpp
@@ -7,6 +7,7 @@
 
 #include "log_store.hpp"
 
+#include <cstdlib>
 #include <cstring>
 #include <filesystem>
 #include <fstream>
@@ -26,21 +27,26 @@ namespace cbdc::raft {
           m_raft_endpoints(std::move(raft_endpoints)) {}
 
     template<typename T>
-    void save_object(const T& obj, const std::string& filename) {
+    [[nodiscard]] auto save_object(const T& obj, const std::string& filename)
+        -> bool {
         auto buf = obj.serialize();
         std::vector<char> char_buf(buf->size());
         std::memcpy(char_buf.data(), buf->data_begin(), char_buf.size());
 
         const auto tmp_file = filename + ".tmp";
         std::ofstream file(tmp_file, std::ios::binary | std::ios::trunc);
-        assert(file.good());
 
         file.write(char_buf.data(),
                    static_cast<std::streamsize>(char_buf.size()));
         file.flush();
         file.close();
+        if(!file.good()) {
+            return false;
+        }
 
-        std::filesystem::rename(tmp_file, filename);
+        std::error_code err;
+        std::filesystem::rename(tmp_file, filename, err);
+        return !err;
     }
 
     template<typename T>
@@ -86,11 +92,15 @@ namespace cbdc::raft {
     }
 
     void state_manager::save_config(const nuraft::cluster_config& config) {
-        save_object(config, m_config_file);
+        if(!save_object(config, m_config_file)) {
+            system_exit(EXIT_FAILURE);
+        }
     }
 
     void state_manager::save_state(const nuraft::srv_state& state) {
-        save_object(state, m_state_file);
+        if(!save_object(state, m_state_file)) {
+            system_exit(EXIT_FAILURE);
+        }
     }
 
     auto state_manager::read_state() -> nuraft::ptr<nuraft::srv_state> {
-- 
2.43.0


From afbb95185e4d59010ec7b93be7cc6272043e3740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:06 +0000
Subject: [PATCH 42/77] fix: servers register their request handlers before
 they accept requests

---
 src/parsec/runtime_locking_shard/controller.cpp | 11 +++++++----
 src/uhs/atomizer/sentinel/controller.cpp        | 13 ++++++++-----
 src/uhs/twophase/coordinator/controller.cpp     | 11 +++++++----
 src/uhs/twophase/locking_shard/controller.cpp   | 13 ++++++++-----
 src/uhs/twophase/sentinel_2pc/controller.cpp    | 13 ++++++++-----
 5 files changed, 38 insertions(+), 23 deletions(-)

diff --git a/src/parsec/runtime_locking_shard/controller.cpp b/src/parsec/runtime_locking_shard/controller.cpp
index 65e5e49..33e9345 100644
--- a/src/parsec/runtime_locking_shard/controller.cpp
+++ b/src/parsec/runtime_locking_shard/controller.cpp
@@ -103,16 +103,19 @@ namespace cbdc::parsec::runtime_locking_shard {
         auto rpc_server = std::make_unique<cbdc::rpc::tcp_server<
             cbdc::rpc::async_server<rpc::request, rpc::response>>>(
             m_server_endpoint);
-        if(!rpc_server->init()) {
-            m_logger->fatal("Failed to start RPC server");
-        }
-
+        auto* listener = rpc_server.get();
+        // This registers the request handler, so it has to come before the
+        // server accepts requests.
         m_server = std::make_unique<decltype(m_server)::element_type>(
             m_logger,
             m_shard,
             m_raft_client,
             std::move(rpc_server));
 
+        if(!listener->init()) {
+            m_logger->fatal("Failed to start RPC server");
+        }
+
         m_logger->info("Recovered shard and started RPC server");
     }
 }
diff --git a/src/uhs/atomizer/sentinel/controller.cpp b/src/uhs/atomizer/sentinel/controller.cpp
index d05164e..9bbcb6d 100644
--- a/src/uhs/atomizer/sentinel/controller.cpp
+++ b/src/uhs/atomizer/sentinel/controller.cpp
@@ -71,15 +71,18 @@ namespace cbdc::sentinel {
         auto rpc_server = std::make_unique<
             cbdc::rpc::tcp_server<cbdc::rpc::async_server<request, response>>>(
             m_opts.m_sentinel_endpoints[m_sentinel_id]);
-        if(!rpc_server->init()) {
-            m_logger->error("Failed to start sentinel RPC server");
-            return false;
-        }
-
+        auto* listener = rpc_server.get();
+        // This registers the request handler, so it has to come before the
+        // server accepts requests.
         m_rpc_server = std::make_unique<decltype(m_rpc_server)::element_type>(
             this,
             std::move(rpc_server));
 
+        if(!listener->init()) {
+            m_logger->error("Failed to start sentinel RPC server");
+            return false;
+        }
+
         return true;
     }
 
diff --git a/src/uhs/twophase/coordinator/controller.cpp b/src/uhs/twophase/coordinator/controller.cpp
index 5ddfc5d..6e2f943 100644
--- a/src/uhs/twophase/coordinator/controller.cpp
+++ b/src/uhs/twophase/coordinator/controller.cpp
@@ -644,13 +644,16 @@ namespace cbdc::coordinator {
         auto rpc_server = std::make_unique<cbdc::rpc::tcp_server<
             cbdc::rpc::async_server<rpc::request, rpc::response>>>(
             m_handler_endpoint);
-        if(!rpc_server->init()) {
-            m_logger->fatal("Failed to start RPC server");
-        }
-
+        auto* listener = rpc_server.get();
+        // This registers the request handler, so it has to come before the
+        // server accepts requests.
         m_rpc_server = std::make_unique<decltype(m_rpc_server)::element_type>(
             this,
             std::move(rpc_server));
+
+        if(!listener->init()) {
+            m_logger->fatal("Failed to start RPC server");
+        }
     }
 
     void controller::quit() {
diff --git a/src/uhs/twophase/locking_shard/controller.cpp b/src/uhs/twophase/locking_shard/controller.cpp
index 8b961f7..44bb2c3 100644
--- a/src/uhs/twophase/locking_shard/controller.cpp
+++ b/src/uhs/twophase/locking_shard/controller.cpp
@@ -98,16 +98,19 @@ namespace cbdc::locking_shard {
             cbdc::rpc::blocking_tcp_server<rpc::status_request,
                                            rpc::status_response>>(
             m_opts.m_locking_shard_readonly_endpoints[m_shard_id][m_node_id]);
-        if(!status_rpc_server->init()) {
-            m_logger->error("Failed to start status RPC server");
-            return false;
-        }
-
+        auto* listener = status_rpc_server.get();
+        // This registers the request handler, so it has to come before the
+        // server accepts requests.
         m_status_server
             = std::make_unique<decltype(m_status_server)::element_type>(
                 m_shard,
                 std::move(status_rpc_server));
 
+        if(!listener->init()) {
+            m_logger->error("Failed to start status RPC server");
+            return false;
+        }
+
         return true;
     }
 
diff --git a/src/uhs/twophase/sentinel_2pc/controller.cpp b/src/uhs/twophase/sentinel_2pc/controller.cpp
index 4c6fc79..70626ba 100644
--- a/src/uhs/twophase/sentinel_2pc/controller.cpp
+++ b/src/uhs/twophase/sentinel_2pc/controller.cpp
@@ -83,15 +83,18 @@ namespace cbdc::sentinel_2pc {
             cbdc::rpc::async_server<cbdc::sentinel::request,
                                     cbdc::sentinel::response>>>(
             m_opts.m_sentinel_endpoints[m_sentinel_id]);
-        if(!rpc_server->init()) {
-            m_logger->error("Failed to start sentinel RPC server");
-            return false;
-        }
-
+        auto* listener = rpc_server.get();
+        // This registers the request handler, so it has to come before the
+        // server accepts requests.
         m_rpc_server = std::make_unique<decltype(m_rpc_server)::element_type>(
             this,
             std::move(rpc_server));
 
+        if(!listener->init()) {
+            m_logger->error("Failed to start sentinel RPC server");
+            return false;
+        }
+
         return true;
     }
 
-- 
2.43.0


From ccea56947ccc355bf28d9ddaa65caa1feacdc105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:06 +0000
Subject: [PATCH 43/77] fix: a coordinator with a full batch can stop

---
 src/uhs/twophase/coordinator/controller.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/uhs/twophase/coordinator/controller.cpp b/src/uhs/twophase/coordinator/controller.cpp
index 6e2f943..564155e 100644
--- a/src/uhs/twophase/coordinator/controller.cpp
+++ b/src/uhs/twophase/coordinator/controller.cpp
@@ -187,8 +187,10 @@ namespace cbdc::coordinator {
             std::lock_guard<std::mutex> l(m_batch_mut);
             m_running = false;
         }
+        // A request handler may be waiting for room in the current batch; the
+        // RPC server waits for its handlers.
+        m_batch_cv.notify_all();
         m_rpc_server.reset();
-        m_batch_cv.notify_one();
 
         // Stop each of the locking shard clients to cancel any pending RPCs
         // and unblock any of the current dtxs so they can mark themselves as
-- 
2.43.0


From ed5a5f56cf1398c6ca58faa451353ba5921c323a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:13 +0000
Subject: [PATCH 44/77] fix: a shard client can be stopped while other threads
 use it

---
 src/uhs/twophase/locking_shard/client.cpp | 4 +++-
 src/util/rpc/tcp_client.hpp               | 6 ++++++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/uhs/twophase/locking_shard/client.cpp b/src/uhs/twophase/locking_shard/client.cpp
index bfcb9a5..75087c1 100644
--- a/src/uhs/twophase/locking_shard/client.cpp
+++ b/src/uhs/twophase/locking_shard/client.cpp
@@ -70,6 +70,8 @@ namespace cbdc::locking_shard::rpc {
 
     void client::stop() {
         m_running = false;
-        m_client.reset();
+        // Other threads may be in the middle of a request: the client has to
+        // outlive them.
+        m_client->stop();
     }
 }
diff --git a/src/util/rpc/tcp_client.hpp b/src/util/rpc/tcp_client.hpp
index 61cc3d3..5e91e1c 100644
--- a/src/util/rpc/tcp_client.hpp
+++ b/src/util/rpc/tcp_client.hpp
@@ -38,6 +38,12 @@ namespace cbdc::rpc {
         /// Destructor. Disconnects from the RPC servers and stops the response
         /// handler thread.
         ~tcp_client() override {
+            stop();
+        }
+
+        /// Disconnects from the servers. Outstanding requests fail, and so do
+        /// requests made by other threads from now on.
+        void stop() {
             m_net.close();
             if(m_handler_thread.joinable()) {
                 m_handler_thread.join();
-- 
2.43.0


From 1b6a855a18309d3a7079fa09d19ca5433e0c8075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:13 +0000
Subject: [PATCH 45/77] fix: a JSON-RPC request that is not an object is
 refused

---
 src/util/rpc/http/json_rpc_http_server.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/rpc/http/json_rpc_http_server.cpp b/src/util/rpc/http/json_rpc_http_server.cpp
index db6ee30..03608d7 100644
--- a/src/util/rpc/http/json_rpc_http_server.cpp
+++ b/src/util/rpc/http/json_rpc_http_server.cpp
@@ -223,7 +223,7 @@ namespace cbdc::rpc {
             return false;
         }
 
-        if(!req.isMember("method")) {
+        if(!req.isObject() || !req.isMember("method")) {
             return false;
         }
 
-- 
2.43.0


From a087b4131a3b1f8bab6d547529cb7e8ce948b7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:13 +0000
Subject: [PATCH 46/77] fix: a JSON-RPC answer carries the id of its request
 whatever its type

---
 src/util/rpc/http/json_rpc_http_server.cpp | 7 ++-----
 src/util/rpc/http/json_rpc_http_server.hpp | 2 +-
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/util/rpc/http/json_rpc_http_server.cpp b/src/util/rpc/http/json_rpc_http_server.cpp
index 03608d7..30d7053 100644
--- a/src/util/rpc/http/json_rpc_http_server.cpp
+++ b/src/util/rpc/http/json_rpc_http_server.cpp
@@ -238,10 +238,7 @@ namespace cbdc::rpc {
             params = req["params"];
         }
 
-        uint64_t id = 0;
-        if(req["id"].isUInt64()) {
-            id = req["id"].asUInt64();
-        }
+        auto id = req.get("id", Json::UInt64(0));
 
         MHD_suspend_connection(request_info->m_connection);
 
@@ -255,7 +252,7 @@ namespace cbdc::rpc {
     }
 
     void
-    json_rpc_http_server::handle_response(uint64_t id,
+    json_rpc_http_server::handle_response(const Json::Value& id,
                                           request* request_info,
                                           std::optional<Json::Value> resp) {
         if(!resp.has_value()) {
diff --git a/src/util/rpc/http/json_rpc_http_server.hpp b/src/util/rpc/http/json_rpc_http_server.hpp
index afcd524..9e566ba 100644
--- a/src/util/rpc/http/json_rpc_http_server.hpp
+++ b/src/util/rpc/http/json_rpc_http_server.hpp
@@ -90,7 +90,7 @@ namespace cbdc::rpc {
 
         auto handle_request(request* request_info) -> bool;
 
-        void handle_response(uint64_t id,
+        void handle_response(const Json::Value& id,
                              request* request_info,
                              std::optional<Json::Value> resp);
 
-- 
2.43.0


From 17f2c5ac7061c0c152dddb8e6981fcf6f366ec1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:13 +0000
Subject: [PATCH 47/77] fix: a JSON-RPC server that could not start can be
 destroyed

---
 src/util/rpc/http/json_rpc_http_server.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/util/rpc/http/json_rpc_http_server.cpp b/src/util/rpc/http/json_rpc_http_server.cpp
index 30d7053..d07ab9f 100644
--- a/src/util/rpc/http/json_rpc_http_server.cpp
+++ b/src/util/rpc/http/json_rpc_http_server.cpp
@@ -17,6 +17,11 @@ namespace cbdc::rpc {
           m_enable_cors(enable_cors) {}
 
     json_rpc_http_server::~json_rpc_http_server() {
+        if(m_daemon == nullptr) {
+            // The daemon was never started
+            return;
+        }
+
         // Set running flag
         m_running = false;
 
-- 
2.43.0


From afe238bb98479ae4d3b07e9912ce166651d1fd3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:13 +0000
Subject: [PATCH 48/77] fix: HTTP requests with a body that are not POST get an
 answer

---
 src/util/rpc/http/json_rpc_http_server.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/util/rpc/http/json_rpc_http_server.cpp b/src/util/rpc/http/json_rpc_http_server.cpp
index d07ab9f..6584a2e 100644
--- a/src/util/rpc/http/json_rpc_http_server.cpp
+++ b/src/util/rpc/http/json_rpc_http_server.cpp
@@ -113,6 +113,14 @@ namespace cbdc::rpc {
 
         auto* req = static_cast<request*>(*con_cls);
 
+        if(*upload_data_size != 0) {
+            req->m_request.write(
+                upload_data,
+                static_cast<std::streamsize>(*upload_data_size));
+            *upload_data_size = 0;
+            return MHD_YES;
+        }
+
         // cors response if enabled
         if(method == std::string("OPTIONS") && req->m_server->m_enable_cors) {
             send_cors_response(req);
@@ -125,14 +133,6 @@ namespace cbdc::rpc {
             return MHD_YES;
         }
 
-        if(*upload_data_size != 0) {
-            req->m_request.write(
-                upload_data,
-                static_cast<std::streamsize>(*upload_data_size));
-            *upload_data_size = 0;
-            return MHD_YES;
-        }
-
         if(!req->m_server->m_running) {
             req->m_code = MHD_HTTP_SERVICE_UNAVAILABLE;
             send_response("Server is shutting down", req);
-- 
2.43.0


From 0c2186c003f132a3eaacc9a96c94e1d2201357c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:13 +0000
Subject: [PATCH 49/77] fix: a JSON-RPC request nested too deeply is refused

---
 src/util/rpc/http/json_rpc_http_server.cpp | 37 ++++++++++++++++++++--
 1 file changed, 35 insertions(+), 2 deletions(-)

diff --git a/src/util/rpc/http/json_rpc_http_server.cpp b/src/util/rpc/http/json_rpc_http_server.cpp
index 6584a2e..4c1e7b5 100644
--- a/src/util/rpc/http/json_rpc_http_server.cpp
+++ b/src/util/rpc/http/json_rpc_http_server.cpp
@@ -9,6 +9,35 @@
 #include <iostream>
 #include <thread>
 
+namespace {
+    // Whether the values in the given text are nested more deeply than the
+    // parser accepts: it reports that with an exception.
+    auto nested_too_deeply(const std::string& text) -> bool {
+        constexpr auto max_depth = 999;
+        auto depth = 0;
+        auto in_string = false;
+        for(size_t i = 0; i < text.size(); i++) {
+            const auto c = text[i];
+            if(in_string) {
+                if(c == '\\') {
+                    i++;
+                } else if(c == '"') {
+                    in_string = false;
+                }
+            } else if(c == '"') {
+                in_string = true;
+            } else if(c == '[' || c == '{') {
+                if(++depth > max_depth) {
+                    return true;
+                }
+            } else if(c == ']' || c == '}') {
+                depth--;
+            }
+        }
+        return false;
+    }
+}
+
 namespace cbdc::rpc {
     json_rpc_http_server::json_rpc_http_server(network::endpoint_t endpoint,
                                                bool enable_cors)
@@ -222,8 +251,12 @@ namespace cbdc::rpc {
 
     auto json_rpc_http_server::handle_request(request* request_info) -> bool {
         auto req = Json::Value();
-        auto r = Json::Reader();
-        auto success = r.parse(request_info->m_request.str(), req, false);
+        auto r = Json::Reader(Json::Features::strictMode());
+        const auto payload = request_info->m_request.str();
+        if(nested_too_deeply(payload)) {
+            return false;
+        }
+        auto success = r.parse(payload, req, false);
         if(!success) {
             return false;
         }
-- 
2.43.0


From 613e6b0298e9f7a017da88ad2f9449a5da3d90b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:13 +0000
Subject: [PATCH 50/77] fix: a repeated JSON-RPC call discards the answer it
 got in part

---
 src/util/rpc/http/json_rpc_http_client.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/util/rpc/http/json_rpc_http_client.cpp b/src/util/rpc/http/json_rpc_http_client.cpp
index 67fb5f1..1be460d 100644
--- a/src/util/rpc/http/json_rpc_http_client.cpp
+++ b/src/util/rpc/http/json_rpc_http_client.cpp
@@ -171,6 +171,8 @@ namespace cbdc::rpc {
                 if(m->data.result != CURLE_OK) {
                     m_log->warn("CURL error:",
                                 curl_easy_strerror(m->data.result));
+                    // What was received so far is sent again
+                    tf->m_result.str({});
                     auto* handle = m->easy_handle;
                     if(curl_multi_remove_handle(m_multi_handle, handle)
                        != CURLM_OK) {
-- 
2.43.0


From 2a767d091270fc24a29d4d6241fa9535838ce100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:13 +0000
Subject: [PATCH 51/77] fix: a Lua contract returning a table with numeric keys
 gets an error

---
 src/parsec/agent/runners/lua/impl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parsec/agent/runners/lua/impl.cpp b/src/parsec/agent/runners/lua/impl.cpp
index 4c79dc1..aa3bc24 100644
--- a/src/parsec/agent/runners/lua/impl.cpp
+++ b/src/parsec/agent/runners/lua/impl.cpp
@@ -102,7 +102,10 @@ namespace cbdc::parsec::agent::runner {
 
         lua_pushnil(m_state.get());
         while(lua_next(m_state.get(), -2) != 0) {
-            auto key_buf = get_stack_string(-2);
+            // Converting a number to a string in place would confuse lua_next
+            auto key_buf = lua_type(m_state.get(), -2) == LUA_TSTRING
+                             ? get_stack_string(-2)
+                             : std::nullopt;
             if(!key_buf.has_value()) {
                 m_log->error("Result key is not a string");
                 m_result_callback(error_code::result_key_type);
-- 
2.43.0


From 063affce4d99a5d00e29ed99718d862a61c72bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:13 +0000
Subject: [PATCH 52/77] fix: a payment to oneself does not create money

---
 scripts/gen_bytecode.lua | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/gen_bytecode.lua b/scripts/gen_bytecode.lua
index 6970975..a5ad7a8 100644
--- a/scripts/gen_bytecode.lua
+++ b/scripts/gen_bytecode.lua
@@ -43,7 +43,7 @@ function gen_bytecode()
             error("insufficient balance")
         end
 
-        if value > 0 then
+        if value > 0 and to ~= from then
             to_balance, to_seq = get_account(to)
             to_balance = to_balance + value
             from_balance = from_balance - value
-- 
2.43.0


From 353b5f064b01130412ebbc5237adb17521f144b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:07 +0000
Subject: [PATCH 53/77] fix: an RLP value longer than its input is refused

---
 src/parsec/agent/runners/evm/rlp_reader.cpp | 25 +++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/parsec/agent/runners/evm/rlp_reader.cpp b/src/parsec/agent/runners/evm/rlp_reader.cpp
index d6fdf37..bc3acce 100644
--- a/src/parsec/agent/runners/evm/rlp_reader.cpp
+++ b/src/parsec/agent/runners/evm/rlp_reader.cpp
@@ -1,6 +1,23 @@
 #include "rlp.hpp"
 
 namespace cbdc {
+    namespace {
+        // Appends the given number of bytes to the buffer, without trusting
+        // that there are as many to read.
+        auto read_bytes(serializer& ser, buffer& buf, size_t size) -> bool {
+            static constexpr size_t chunk_size = 4096;
+            while(size > 0) {
+                const auto count = std::min(size, chunk_size);
+                const auto offset = buf.size();
+                buf.extend(count);
+                if(!ser.read(buf.data_at(offset), count)) {
+                    return false;
+                }
+                size -= count;
+            }
+            return true;
+        }
+    }
 
     auto operator>>(serializer& ser, cbdc::rlp_value& v) -> serializer& {
         v.read_from(ser);
@@ -58,16 +75,16 @@ namespace cbdc {
 
     void rlp_value::read_buffer_from(serializer& ser, size_t size) {
         m_type = rlp_value_type::buffer;
-        m_buffer.extend(size);
-        ser.read(m_buffer.data(), size);
+        read_bytes(ser, m_buffer, size);
     }
 
     void rlp_value::read_array_from(serializer& ser, size_t size) {
         m_type = rlp_value_type::array;
         if(size > 0) {
             auto array_buf = cbdc::buffer();
-            array_buf.extend(size);
-            ser.read(array_buf.data(), size);
+            if(!read_bytes(ser, array_buf, size)) {
+                return;
+            }
             auto array_deser = cbdc::buffer_serializer(array_buf);
             while(!array_deser.end_of_buffer()) {
                 auto v = rlp_value(rlp_value_type::buffer);
-- 
2.43.0


From e7b2f310cc64752b8b1879ca5740d66fb59defd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:07 +0000
Subject: [PATCH 54/77] fix: an RLP array with a malformed element is refused

---
 src/parsec/agent/runners/evm/rlp_reader.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parsec/agent/runners/evm/rlp_reader.cpp b/src/parsec/agent/runners/evm/rlp_reader.cpp
index bc3acce..ee723ed 100644
--- a/src/parsec/agent/runners/evm/rlp_reader.cpp
+++ b/src/parsec/agent/runners/evm/rlp_reader.cpp
@@ -88,7 +88,10 @@ namespace cbdc {
             auto array_deser = cbdc::buffer_serializer(array_buf);
             while(!array_deser.end_of_buffer()) {
                 auto v = rlp_value(rlp_value_type::buffer);
-                array_deser >> v;
+                if(!(array_deser >> v)) {
+                    ser.set_failed();
+                    return;
+                }
                 m_values.push_back(v);
             }
         }
-- 
2.43.0


From 799a6a916002a71983ee8044a274e40066e20f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:07 +0000
Subject: [PATCH 55/77] fix: RLP arrays nested too deeply are refused

---
 src/parsec/agent/runners/evm/rlp.hpp        |  3 ++-
 src/parsec/agent/runners/evm/rlp_reader.cpp | 21 +++++++++++++++++----
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/parsec/agent/runners/evm/rlp.hpp b/src/parsec/agent/runners/evm/rlp.hpp
index ca433db..4fcb934 100644
--- a/src/parsec/agent/runners/evm/rlp.hpp
+++ b/src/parsec/agent/runners/evm/rlp.hpp
@@ -107,8 +107,9 @@ namespace cbdc {
       private:
         void write_array_to(serializer& ser) const;
         void write_buffer_to(serializer& ser) const;
+        void read_from(serializer& ser, size_t depth);
         void read_buffer_from(serializer& ser, size_t size);
-        void read_array_from(serializer& ser, size_t size);
+        void read_array_from(serializer& ser, size_t size, size_t depth);
 
         buffer m_buffer{};
         std::vector<rlp_value> m_values{};
diff --git a/src/parsec/agent/runners/evm/rlp_reader.cpp b/src/parsec/agent/runners/evm/rlp_reader.cpp
index ee723ed..a520dee 100644
--- a/src/parsec/agent/runners/evm/rlp_reader.cpp
+++ b/src/parsec/agent/runners/evm/rlp_reader.cpp
@@ -25,6 +25,10 @@ namespace cbdc {
     }
 
     void rlp_value::read_from(serializer& ser) {
+        read_from(ser, 0);
+    }
+
+    void rlp_value::read_from(serializer& ser, size_t depth) {
         static constexpr unsigned char byte_size_offset = 0x80;
         static constexpr unsigned char array_size_offset = 0xc0;
         static constexpr unsigned char max_onebyte_length = 55;
@@ -58,7 +62,7 @@ namespace cbdc {
         } else if(b >= array_size_offset
                   && b <= array_size_offset + max_onebyte_length) {
             auto array_len = static_cast<size_t>(b - array_size_offset);
-            read_array_from(ser, array_len);
+            read_array_from(ser, array_len, depth);
         } else if(b > array_size_offset + max_onebyte_length) {
             // First we read the length of the length
             auto len_len = static_cast<size_t>(b - array_size_offset
@@ -69,7 +73,7 @@ namespace cbdc {
             ser.read(len_buf.data(), len_len);
             // Then we turn the read length into a size_t
             auto array_len = deserialize_size(len_buf);
-            read_array_from(ser, array_len);
+            read_array_from(ser, array_len, depth);
         }
     }
 
@@ -78,7 +82,15 @@ namespace cbdc {
         read_bytes(ser, m_buffer, size);
     }
 
-    void rlp_value::read_array_from(serializer& ser, size_t size) {
+    void rlp_value::read_array_from(serializer& ser,
+                                    size_t size,
+                                    size_t depth) {
+        // Every level of nesting takes stack space
+        static constexpr size_t max_depth = 64;
+        if(depth >= max_depth) {
+            ser.set_failed();
+            return;
+        }
         m_type = rlp_value_type::array;
         if(size > 0) {
             auto array_buf = cbdc::buffer();
@@ -88,7 +100,8 @@ namespace cbdc {
             auto array_deser = cbdc::buffer_serializer(array_buf);
             while(!array_deser.end_of_buffer()) {
                 auto v = rlp_value(rlp_value_type::buffer);
-                if(!(array_deser >> v)) {
+                v.read_from(array_deser, depth + 1);
+                if(!array_deser) {
                     ser.set_failed();
                     return;
                 }
-- 
2.43.0


From 8d1300ac62ee6205741f619f95c014749c6d528a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:40 +0000
Subject: [PATCH 56/77] fix: EVM transactions with elements of the wrong kind
 or size are refused

---
 src/parsec/agent/runners/evm/rlp_reader.cpp   | 21 ++++++++---
 .../agent/runners/evm/serialization.cpp       | 35 +++++++++++++++++--
 2 files changed, 49 insertions(+), 7 deletions(-)

diff --git a/src/parsec/agent/runners/evm/rlp_reader.cpp b/src/parsec/agent/runners/evm/rlp_reader.cpp
index a520dee..cde35b4 100644
--- a/src/parsec/agent/runners/evm/rlp_reader.cpp
+++ b/src/parsec/agent/runners/evm/rlp_reader.cpp
@@ -133,15 +133,26 @@ namespace cbdc {
             auto rlp_tuple = rlp.value_at(i);
             auto access_tuple
                 = cbdc::parsec::agent::runner::evm_access_tuple();
-            if(rlp_tuple.type() == rlp_value_type::array
-               && rlp_tuple.size() == 2) {
-                access_tuple.m_address
-                    = rlp_tuple.value_at(0).value<evmc::address>();
+            if(rlp_tuple.type() != rlp_value_type::array
+               || rlp_tuple.size() != 2) {
+                return std::nullopt;
             }
+            auto rlp_address = rlp_tuple.value_at(0);
             auto rlp_storage_keys = rlp_tuple.value_at(1);
+            if(rlp_address.type() != rlp_value_type::buffer
+               || rlp_address.size() != sizeof(evmc::address)
+               || rlp_storage_keys.type() != rlp_value_type::array) {
+                return std::nullopt;
+            }
+            access_tuple.m_address = rlp_address.value<evmc::address>();
             for(size_t j = 0; j < rlp_storage_keys.size(); j++) {
+                auto rlp_storage_key = rlp_storage_keys.value_at(j);
+                if(rlp_storage_key.type() != rlp_value_type::buffer
+                   || rlp_storage_key.size() != sizeof(evmc::bytes32)) {
+                    return std::nullopt;
+                }
                 access_tuple.m_storage_keys.push_back(
-                    rlp_storage_keys.value_at(j).value<evmc::bytes32>());
+                    rlp_storage_key.value<evmc::bytes32>());
             }
             access_list.push_back(access_tuple);
         }
diff --git a/src/parsec/agent/runners/evm/serialization.cpp b/src/parsec/agent/runners/evm/serialization.cpp
index 5529dc3..59d50df 100644
--- a/src/parsec/agent/runners/evm/serialization.cpp
+++ b/src/parsec/agent/runners/evm/serialization.cpp
@@ -29,6 +29,9 @@ namespace cbdc::parsec::agent::runner {
         static constexpr size_t elements_in_access_list_transaction = 11;
         static constexpr size_t elements_in_legacy_transaction = 9;
 
+        if(rlp_tx.type() != rlp_value_type::array) {
+            return false;
+        }
         if(type == evm_tx_type::dynamic_fee
            && rlp_tx.size() != elements_in_dynamic_fee_transaction) {
             return false;
@@ -41,6 +44,33 @@ namespace cbdc::parsec::agent::runner {
            && rlp_tx.size() != elements_in_legacy_transaction) {
             return false;
         }
+
+        // Every element is a number but the receiver, the input data and, in
+        // all but legacy transactions, the access list
+        const size_t to_idx = type == evm_tx_type::dynamic_fee ? 5
+                            : type == evm_tx_type::access_list ? 4
+                                                               : 3;
+        const auto data_idx = to_idx + 2;
+        const auto access_list_idx = to_idx + 3;
+        for(size_t i = 0; i < rlp_tx.size(); i++) {
+            const auto element = rlp_tx.value_at(i);
+            if(type != evm_tx_type::legacy && i == access_list_idx) {
+                // Checked when it is decoded
+                continue;
+            }
+            if(element.type() != rlp_value_type::buffer) {
+                return false;
+            }
+            if(i == to_idx) {
+                if(element.size() != 0
+                   && element.size() != sizeof(evmc::address)) {
+                    return false;
+                }
+            } else if(i != data_idx
+                      && element.size() > sizeof(evmc::uint256be)) {
+                return false;
+            }
+        }
         return true;
     }
 
@@ -125,9 +155,10 @@ namespace cbdc::parsec::agent::runner {
            || tx->m_type == evm_tx_type::access_list) {
             auto rlp_access_list = rlp_tx.value_at(element++);
             auto access_list = rlp_decode_access_list(rlp_access_list);
-            if(access_list.has_value()) {
-                tx->m_access_list = access_list.value();
+            if(!access_list.has_value()) {
+                return std::nullopt;
             }
+            tx->m_access_list = access_list.value();
         }
 
         tx->m_sig.m_v = rlp_tx.value_at(element++).value<evmc::uint256be>();
-- 
2.43.0


From 79461c8d1ba6c6114df0ab79a867b5a4a36194b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:40 +0000
Subject: [PATCH 57/77] fix: an empty EVM transaction is refused

---
 src/parsec/agent/runners/evm/serialization.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parsec/agent/runners/evm/serialization.cpp b/src/parsec/agent/runners/evm/serialization.cpp
index 59d50df..45b453a 100644
--- a/src/parsec/agent/runners/evm/serialization.cpp
+++ b/src/parsec/agent/runners/evm/serialization.cpp
@@ -79,6 +79,9 @@ namespace cbdc::parsec::agent::runner {
         const std::shared_ptr<logging::log>& logger,
         const std::shared_ptr<cbdc::parsec::agent::runner::evm_tx>& tx)
         -> std::optional<rlp_value> {
+        if(buf.size() == 0) {
+            return std::nullopt;
+        }
         uint8_t type_byte{};
         std::memcpy(&type_byte, buf.data_at(0), 1);
         size_t rlp_offset = 0;
@@ -312,6 +315,9 @@ namespace cbdc::parsec::agent::runner {
             return std::nullopt;
         }
         auto params_str = param.asString();
+        if(params_str.size() < 2) {
+            return std::nullopt;
+        }
         auto maybe_raw_tx = cbdc::buffer::from_hex(params_str.substr(2));
         if(!maybe_raw_tx.has_value()) {
             return std::nullopt;
-- 
2.43.0


From 9faea0ab2c2fb0265dc1b14f621ed88acdb2bf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:40 +0000
Subject: [PATCH 58/77] fix: all of the chain ID of an EVM transaction counts

---
 src/parsec/agent/runners/evm/serialization.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsec/agent/runners/evm/serialization.cpp b/src/parsec/agent/runners/evm/serialization.cpp
index 45b453a..788a4d7 100644
--- a/src/parsec/agent/runners/evm/serialization.cpp
+++ b/src/parsec/agent/runners/evm/serialization.cpp
@@ -125,7 +125,7 @@ namespace cbdc::parsec::agent::runner {
            || tx->m_type == evm_tx_type::access_list) {
             auto tx_chain_id
                 = rlp_tx.value_at(element++).value<evmc::uint256be>();
-            if(to_uint64(tx_chain_id) != chain_id) {
+            if(tx_chain_id != evmc::uint256be(chain_id)) {
                 if(logger) {
                     logger->error("tx is wrong chain ID");
                 }
-- 
2.43.0


From 8d0112d2909d28d8395deea5d937aee991e74c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:40 +0000
Subject: [PATCH 59/77] fix: quantities in EVM JSON requests are read with any
 number of digits

---
 src/parsec/agent/runners/evm/serialization.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/parsec/agent/runners/evm/serialization.cpp b/src/parsec/agent/runners/evm/serialization.cpp
index 788a4d7..a9687c7 100644
--- a/src/parsec/agent/runners/evm/serialization.cpp
+++ b/src/parsec/agent/runners/evm/serialization.cpp
@@ -278,13 +278,9 @@ namespace cbdc::parsec::agent::runner {
 
     auto uint256be_from_json(const Json::Value& val)
         -> std::optional<evmc::uint256be> {
-        auto maybe_val_buf = buffer_from_json(val);
-        if(maybe_val_buf) {
-            auto maybe_val
-                = cbdc::from_buffer<evmc::uint256be>(maybe_val_buf.value());
-            if(maybe_val) {
-                return maybe_val.value();
-            }
+        // Quantities have no leading zeroes
+        if(!val.empty() && val.isString()) {
+            return uint256be_from_hex(val.asString());
         }
         return std::nullopt;
     }
-- 
2.43.0


From d0b5f5320961c89efab9912eb2024a5786adeeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:40 +0000
Subject: [PATCH 60/77] fix: log blooms set the bits Ethereum clients look for

---
 src/parsec/agent/runners/evm/util.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/parsec/agent/runners/evm/util.cpp b/src/parsec/agent/runners/evm/util.cpp
index b1fd24f..58799fc 100644
--- a/src/parsec/agent/runners/evm/util.cpp
+++ b/src/parsec/agent/runners/evm/util.cpp
@@ -59,11 +59,12 @@ namespace cbdc::parsec::agent::runner {
         auto hash = cbdc::make_buffer(keccak_data(entry.data(), entry.size()));
 
         for(size_t i = 0; i <= 4; i += 2) {
-            auto uint16_buf = cbdc::buffer();
-            uint16_buf.extend(2);
-            std::memcpy(uint16_buf.data(), hash.data_at(i), 2);
-            uint16_t byte_pair
-                = cbdc::from_buffer<uint16_t>(uint16_buf).value();
+            auto bytes = std::array<uint8_t, 2>();
+            std::memcpy(bytes.data(), hash.data_at(i), bytes.size());
+            // Big-endian
+            constexpr auto byte_width = 8;
+            const auto byte_pair
+                = static_cast<uint16_t>((bytes[0] << byte_width) | bytes[1]);
             static constexpr uint16_t bloom_bits = 0x07FF;
             auto bit_to_set = byte_pair & bloom_bits;
             auto bit_index = bloom_bits - bit_to_set;
-- 
2.43.0


From c7147ca891feaf728fc1ddcc801acfcfebe3bcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:50 +0000
Subject: [PATCH 61/77] fix: an EVM JSON transaction that is not an object or
 of no known type is refused

---
 src/parsec/agent/runners/evm/serialization.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/parsec/agent/runners/evm/serialization.cpp b/src/parsec/agent/runners/evm/serialization.cpp
index a9687c7..ccb3b58 100644
--- a/src/parsec/agent/runners/evm/serialization.cpp
+++ b/src/parsec/agent/runners/evm/serialization.cpp
@@ -326,10 +326,18 @@ namespace cbdc::parsec::agent::runner {
     auto tx_from_json(const Json::Value& json, uint64_t /*chain_id*/)
         -> std::optional<
             std::shared_ptr<cbdc::parsec::agent::runner::evm_tx>> {
+        if(!json.isObject()) {
+            return std::nullopt;
+        }
         auto tx = std::make_shared<cbdc::parsec::agent::runner::evm_tx>();
         tx->m_type = evm_tx_type::legacy;
         if(!json["type"].empty() && json["type"].isNumeric()) {
-            tx->m_type = static_cast<evm_tx_type>(json["type"].asInt());
+            if(!json["type"].isUInt()
+               || json["type"].asUInt()
+                      > static_cast<unsigned>(evm_tx_type::dynamic_fee)) {
+                return std::nullopt;
+            }
+            tx->m_type = static_cast<evm_tx_type>(json["type"].asUInt());
         }
 
         auto maybe_to = address_from_json(json["to"]);
-- 
2.43.0


From a60bad6b7e82175c937320fbc7a98e04284ff182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:58 +0000
Subject: [PATCH 62/77] fix: the gas an EVM transaction used includes its base
 gas

---
 src/parsec/agent/runners/evm/impl.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parsec/agent/runners/evm/impl.cpp b/src/parsec/agent/runners/evm/impl.cpp
index aa4c682..8a1c3a2 100644
--- a/src/parsec/agent/runners/evm/impl.cpp
+++ b/src/parsec/agent/runners/evm/impl.cpp
@@ -587,6 +587,11 @@ namespace cbdc::parsec::agent::runner {
             m_log->trace("Result status: ", result.status_code);
             auto fn = [this, gas_left = result.gas_left]() {
                 auto gas_used = m_msg.gas - gas_left;
+                if(!m_is_readonly_run) {
+                    // The gas charged up front counts as used as well
+                    gas_used += static_cast<int64_t>(to_uint64(
+                        check_base_gas(m_tx, m_is_readonly_run).first));
+                }
                 m_host->finalize(gas_left, gas_used);
                 auto state_updates = m_host->get_state_updates();
                 m_result_callback(state_updates);
-- 
2.43.0


From 99c7ad06db221e1bf122b9dce643cf0a85f30616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:58 +0000
Subject: [PATCH 63/77] fix: an EVM transaction whose cost is out of range is
 refused

---
 src/parsec/agent/runners/evm/impl.cpp | 43 +++++++++++++++++++++++----
 src/parsec/agent/runners/evm/impl.hpp |  3 ++
 2 files changed, 41 insertions(+), 5 deletions(-)

diff --git a/src/parsec/agent/runners/evm/impl.cpp b/src/parsec/agent/runners/evm/impl.cpp
index 8a1c3a2..8076282 100644
--- a/src/parsec/agent/runners/evm/impl.cpp
+++ b/src/parsec/agent/runners/evm/impl.cpp
@@ -454,9 +454,34 @@ namespace cbdc::parsec::agent::runner {
             min_gas = min_gas + creation_gas;
         }
 
-        return std::make_pair(
-            min_gas,
-            !(evmtx.m_gas_limit < min_gas && !is_readonly_run));
+        // More gas than the EVM can count can neither be given to the contract
+        // nor refunded afterwards
+        constexpr auto max_gas = evmc::uint256be(
+            static_cast<uint64_t>(std::numeric_limits<int64_t>::max()));
+
+        return std::make_pair(min_gas,
+                              is_readonly_run
+                                  || (min_gas <= evmtx.m_gas_limit
+                                      && evmtx.m_gas_limit <= max_gas));
+    }
+
+    auto evm_runner::gas_cost(const evmc::uint256be& gas_limit,
+                              const evmc::uint256be& gas_price)
+        -> std::optional<evmc::uint256be> {
+        auto ret = evmc::uint256be{};
+        for(auto b : gas_price.bytes) {
+            // The gas limit is at most 64 bits, so the cost for one byte of
+            // the price is always in range
+            auto row = gas_limit * evmc::uint256be(b);
+            if(ret.bytes[0] != 0) {
+                return std::nullopt;
+            }
+            ret = (ret << 1) + row;
+            if(ret < row) {
+                return std::nullopt;
+            }
+        }
+        return ret;
     }
 
     auto evm_runner::make_message(const evmc::address& from,
@@ -655,10 +680,18 @@ namespace cbdc::parsec::agent::runner {
         }
 
         // TODO: Priority fees for V2 transactions
-        auto total_gas_cost = m_tx.m_gas_limit * m_tx.m_gas_price;
+        auto maybe_gas_cost = gas_cost(m_tx.m_gas_limit, m_tx.m_gas_price);
+        if(!maybe_gas_cost.has_value()) {
+            m_log->error("Cost of gas is greater than any balance");
+            m_result_callback(error_code::exec_error);
+            return;
+        }
+        auto total_gas_cost = maybe_gas_cost.value();
         auto required_funds = m_tx.m_value + total_gas_cost;
 
-        if(from_acc.m_balance < required_funds) {
+        // The sum is less than one of its terms if it's out of range
+        if(required_funds < total_gas_cost
+           || from_acc.m_balance < required_funds) {
             m_log->error("From account has insufficient funds to cover gas "
                          "and tx value",
                          to_hex(from_acc.m_balance),
diff --git a/src/parsec/agent/runners/evm/impl.hpp b/src/parsec/agent/runners/evm/impl.hpp
index 16c0a6c..ec16e4f 100644
--- a/src/parsec/agent/runners/evm/impl.hpp
+++ b/src/parsec/agent/runners/evm/impl.hpp
@@ -98,6 +98,9 @@ namespace cbdc::parsec::agent::runner {
         [[nodiscard]] static auto check_base_gas(const evm_tx& tx,
                                                  bool is_readonly_run)
             -> std::pair<evmc::uint256be, bool>;
+        [[nodiscard]] static auto gas_cost(const evmc::uint256be& gas_limit,
+                                           const evmc::uint256be& gas_price)
+            -> std::optional<evmc::uint256be>;
         [[nodiscard]] static auto make_tx_context(const evmc::address& from,
                                                   const evm_tx& tx,
                                                   bool is_readonly_run)
-- 
2.43.0


From 9c3b57ac1161ee45452b98d6992a3f4ffe0256f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:58 +0000
Subject: [PATCH 64/77] fix: an account that is missing does not stop the agent

---
 src/parsec/agent/runners/evm/host.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/parsec/agent/runners/evm/host.cpp b/src/parsec/agent/runners/evm/host.cpp
index 52aaf72..ab8e46a 100644
--- a/src/parsec/agent/runners/evm/host.cpp
+++ b/src/parsec/agent/runners/evm/host.cpp
@@ -110,11 +110,10 @@ namespace cbdc::parsec::agent::runner {
 
         auto ret_val = std::optional<evmc_storage_status>();
         auto maybe_acc = get_account(addr, false);
+        if(!maybe_acc.has_value() && !m_is_readonly_run) {
+            maybe_acc = get_account(addr, true);
+        }
         if(!maybe_acc.has_value()) {
-            if(!m_is_readonly_run) {
-                maybe_acc = get_account(addr, true);
-                assert(!maybe_acc.has_value());
-            }
             maybe_acc = evm_account();
             ret_val = EVMC_STORAGE_ADDED;
             maybe_acc.value().m_modified.insert(key);
@@ -551,7 +550,11 @@ namespace cbdc::parsec::agent::runner {
         const auto* log_str = "evm_transfer";
         m_log->trace(log_str, to_hex(from), to_hex(to));
         auto maybe_acc = get_account(from, !m_is_readonly_run);
-        assert(maybe_acc.has_value());
+        if(!maybe_acc.has_value()) {
+            // A contract under construction, the sender of a dry-run, or an
+            // account whose lock was not granted
+            maybe_acc = evm_account();
+        }
         auto& acc = maybe_acc.value();
         auto val = value;
         if(evmc::is_zero(value)) {
-- 
2.43.0


From b1fdffd259e7d12c0f03a223acd420ec65b483e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:59 +0000
Subject: [PATCH 65/77] fix: calling or paying a precompile address does not
 stop the agent

---
 src/parsec/agent/runners/evm/host.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/parsec/agent/runners/evm/host.cpp b/src/parsec/agent/runners/evm/host.cpp
index ab8e46a..1dfe141 100644
--- a/src/parsec/agent/runners/evm/host.cpp
+++ b/src/parsec/agent/runners/evm/host.cpp
@@ -44,12 +44,6 @@ namespace cbdc::parsec::agent::runner {
                      "- Write:",
                      write);
 
-        if(is_precompile(addr)) {
-            // Precompile contract, return empty account
-            m_accessed_addresses.insert(addr);
-            return evm_account{};
-        }
-
         auto it = m_accounts.find(addr);
         if(it != m_accounts.end() && (it->second.second || !write)) {
             return it->second.first;
@@ -324,7 +318,7 @@ namespace cbdc::parsec::agent::runner {
                 : msg.recipient;
 
         const auto code_size = get_code_size(code_addr);
-        if(code_size == 0) {
+        if(code_size == 0 || is_precompile(code_addr)) {
             // TODO: deduct simple send fixed gas amount
             const auto gas_refund = 0;
             auto res = evmc::make_result(evmc_status_code::EVMC_SUCCESS,
-- 
2.43.0


From e7ef732176b1145323a4ce5c21bd62d251045c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:59 +0000
Subject: [PATCH 66/77] fix: an EVM transaction of no value to an account
 without code succeeds

---
 src/parsec/agent/runners/evm/host.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/parsec/agent/runners/evm/host.cpp b/src/parsec/agent/runners/evm/host.cpp
index 1dfe141..35768fa 100644
--- a/src/parsec/agent/runners/evm/host.cpp
+++ b/src/parsec/agent/runners/evm/host.cpp
@@ -304,9 +304,7 @@ namespace cbdc::parsec::agent::runner {
         }
 
         // Transfer message value from sender account to recipient
-        bool is_native_value_transfer{false};
         if(!evmc::is_zero(msg.value) && msg.kind == EVMC_CALL) {
-            is_native_value_transfer = true;
             // TODO: do DELETEGATECALL and CALLCODE transfer value as
             // well?
             transfer(msg.sender, msg.recipient, msg.value);
@@ -327,9 +325,7 @@ namespace cbdc::parsec::agent::runner {
                                          nullptr,
                                          0);
 
-            // TODO: Is it possible to have a case where this is not a native
-            // value transfer (i.e. is else-block needed here)?
-            if(is_native_value_transfer) {
+            if(msg.depth == 0) {
                 m_receipt.m_success = true;
             }
 
-- 
2.43.0


From fc6b4ceb3e6c2ab898b68716e097accc4d48c35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:59 +0000
Subject: [PATCH 67/77] fix: an EVM transaction that fails leaves no changes
 behind

---
 src/parsec/agent/runners/evm/host.cpp | 3 +++
 src/parsec/agent/runners/evm/impl.cpp | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parsec/agent/runners/evm/host.cpp b/src/parsec/agent/runners/evm/host.cpp
index 35768fa..d46d5fe 100644
--- a/src/parsec/agent/runners/evm/host.cpp
+++ b/src/parsec/agent/runners/evm/host.cpp
@@ -586,6 +586,9 @@ namespace cbdc::parsec::agent::runner {
 
     void evm_host::revert() {
         m_accounts = m_init_state;
+        m_account_storage.clear();
+        m_account_code.clear();
+        m_receipt.m_logs.clear();
     }
 
     auto evm_host::is_precompile(const evmc::address& addr) -> bool {
diff --git a/src/parsec/agent/runners/evm/impl.cpp b/src/parsec/agent/runners/evm/impl.cpp
index 8076282..41a7d11 100644
--- a/src/parsec/agent/runners/evm/impl.cpp
+++ b/src/parsec/agent/runners/evm/impl.cpp
@@ -600,8 +600,8 @@ namespace cbdc::parsec::agent::runner {
             m_log->trace("Contract was wounded");
             m_result_callback(error_code::wounded);
         } else {
-            if(result.status_code == EVMC_REVERT) {
-                m_log->trace("Contract reverted");
+            if(result.status_code != EVMC_SUCCESS) {
+                m_log->trace("Contract reverted or failed");
                 m_host->revert();
             }
 
-- 
2.43.0


From c7f2f12c9f4c70ecea22a17af9fc92d29c4b3a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:59 +0000
Subject: [PATCH 68/77] fix: an EVM call that fails leaves no changes behind

---
 src/parsec/agent/runners/evm/host.cpp | 24 ++++++++++++++++
 src/parsec/agent/runners/evm/host.hpp | 41 ++++++++++++++++++---------
 2 files changed, 52 insertions(+), 13 deletions(-)

diff --git a/src/parsec/agent/runners/evm/host.cpp b/src/parsec/agent/runners/evm/host.cpp
index d46d5fe..f0b9263 100644
--- a/src/parsec/agent/runners/evm/host.cpp
+++ b/src/parsec/agent/runners/evm/host.cpp
@@ -240,6 +240,8 @@ namespace cbdc::parsec::agent::runner {
                                          bytecode_hash);
         }
 
+        auto before = save();
+
         // Transfer endowment to deployed contract account
         if(!evmc::is_zero(msg.value)) {
             transfer(msg.sender, new_addr, msg.value);
@@ -284,6 +286,8 @@ namespace cbdc::parsec::agent::runner {
             code.resize(res.output_size);
             std::memcpy(code.data(), res.output_data, res.output_size);
             m_account_code[new_addr] = {code, !m_is_readonly_run};
+        } else {
+            restore(std::move(before));
         }
 
         if(msg.depth == 0) {
@@ -303,6 +307,8 @@ namespace cbdc::parsec::agent::runner {
             return create(msg);
         }
 
+        auto before = save();
+
         // Transfer message value from sender account to recipient
         if(!evmc::is_zero(msg.value) && msg.kind == EVMC_CALL) {
             // TODO: do DELETEGATECALL and CALLCODE transfer value as
@@ -348,6 +354,10 @@ namespace cbdc::parsec::agent::runner {
 
         auto res = execute(msg, code_buf.data(), code_buf.size());
 
+        if(res.status_code != EVMC_SUCCESS) {
+            restore(std::move(before));
+        }
+
         if(msg.depth == 0) {
             // TODO: refactor branch into call epilog method
             m_receipt.m_output_data.resize(res.output_size);
@@ -584,6 +594,20 @@ namespace cbdc::parsec::agent::runner {
                 .count());
     }
 
+    auto evm_host::save() const -> saved_state {
+        return {m_accounts,
+                m_account_storage,
+                m_account_code,
+                m_receipt.m_logs.size()};
+    }
+
+    void evm_host::restore(saved_state&& s) {
+        m_accounts = std::move(s.m_accounts);
+        m_account_storage = std::move(s.m_account_storage);
+        m_account_code = std::move(s.m_account_code);
+        m_receipt.m_logs.resize(s.m_log_count);
+    }
+
     void evm_host::revert() {
         m_accounts = m_init_state;
         m_account_storage.clear();
diff --git a/src/parsec/agent/runners/evm/host.hpp b/src/parsec/agent/runners/evm/host.hpp
index 9df41a5..cb4775d 100644
--- a/src/parsec/agent/runners/evm/host.hpp
+++ b/src/parsec/agent/runners/evm/host.hpp
@@ -149,17 +149,29 @@ namespace cbdc::parsec::agent::runner {
       private:
         std::shared_ptr<logging::log> m_log;
         runner::interface::try_lock_callback_type m_try_lock_callback;
-        mutable std::map<evmc::address,
-                         std::pair<std::optional<evm_account>, bool>>
-            m_accounts;
-        mutable std::map<
-            evmc::address,
-            std::map<evmc::bytes32,
-                     std::pair<std::optional<evmc::bytes32>, bool>>>
-            m_account_storage;
-        mutable std::map<evmc::address,
-                         std::pair<std::optional<evm_account_code>, bool>>
-            m_account_code;
+
+        using accounts_type
+            = std::map<evmc::address,
+                       std::pair<std::optional<evm_account>, bool>>;
+        using account_storage_type
+            = std::map<evmc::address,
+                       std::map<evmc::bytes32,
+                                std::pair<std::optional<evmc::bytes32>, bool>>>;
+        using account_code_type
+            = std::map<evmc::address,
+                       std::pair<std::optional<evm_account_code>, bool>>;
+
+        /// State to return to if a call fails.
+        struct saved_state {
+            accounts_type m_accounts;
+            account_storage_type m_account_storage;
+            account_code_type m_account_code;
+            size_t m_log_count{};
+        };
+
+        mutable accounts_type m_accounts;
+        mutable account_storage_type m_account_storage;
+        mutable account_code_type m_account_code;
         evmc_tx_context m_tx_context;
         std::unique_ptr<evmc::VM> m_vm;
         evm_tx m_tx;
@@ -171,8 +183,7 @@ namespace cbdc::parsec::agent::runner {
 
         mutable bool m_retry{false};
 
-        std::map<evmc::address, std::pair<std::optional<evm_account>, bool>>
-            m_init_state;
+        accounts_type m_init_state;
 
         evm_tx_receipt m_receipt;
         cbdc::buffer m_tx_id;
@@ -199,6 +210,10 @@ namespace cbdc::parsec::agent::runner {
                       const evmc::address& to,
                       const evmc::uint256be& value);
 
+        [[nodiscard]] auto save() const -> saved_state;
+
+        void restore(saved_state&& s);
+
         static auto is_precompile(const evmc::address& addr) -> bool;
 
         [[nodiscard]] auto get_key(const cbdc::buffer& key, bool write) const
-- 
2.43.0


From a6d5aab925f0296f2bae84ec05d4fad6e62c7fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:59 +0000
Subject: [PATCH 69/77] fix: a created contract does not take the address of
 another

---
 src/parsec/agent/runners/evm/host.cpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/parsec/agent/runners/evm/host.cpp b/src/parsec/agent/runners/evm/host.cpp
index f0b9263..08ae1be 100644
--- a/src/parsec/agent/runners/evm/host.cpp
+++ b/src/parsec/agent/runners/evm/host.cpp
@@ -227,7 +227,7 @@ namespace cbdc::parsec::agent::runner {
                                   nullptr,
                                   0));
         }
-        auto& sender_acc = maybe_sender_acc.value();
+        auto sender_acc = maybe_sender_acc.value();
 
         auto new_addr = evmc::address();
         if(msg.kind == EVMC_CREATE) {
@@ -240,6 +240,27 @@ namespace cbdc::parsec::agent::runner {
                                          bytecode_hash);
         }
 
+        if(msg.depth > 0) {
+            // The nonce of a contract counts the contracts it created, so
+            // that no two of them get the same address. The nonce of the
+            // sender of the transaction was incremented at the start.
+            auto maybe_acc = get_account(msg.sender, !m_is_readonly_run);
+            auto acc = maybe_acc.value_or(evm_account());
+            acc.m_nonce = acc.m_nonce + evmc::uint256be(1);
+            m_accounts[msg.sender] = {acc, !m_is_readonly_run};
+        }
+
+        if(get_code_size(new_addr) != 0) {
+            m_log->warn("EVM CREATE: there is a contract at the address");
+            constexpr auto gas_left = 0;
+            return evmc::Result(
+                evmc::make_result(evmc_status_code::EVMC_FAILURE,
+                                  gas_left,
+                                  0,
+                                  nullptr,
+                                  0));
+        }
+
         auto before = save();
 
         // Transfer endowment to deployed contract account
-- 
2.43.0


From e68d90635cb3cd9e9fc037fc62e33253e8380af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:59 +0000
Subject: [PATCH 70/77] fix: a contract that destroyed itself no longer runs

---
 src/parsec/agent/runners/evm/host.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parsec/agent/runners/evm/host.cpp b/src/parsec/agent/runners/evm/host.cpp
index 08ae1be..be070d8 100644
--- a/src/parsec/agent/runners/evm/host.cpp
+++ b/src/parsec/agent/runners/evm/host.cpp
@@ -211,8 +211,10 @@ namespace cbdc::parsec::agent::runner {
                                 const evmc::address& beneficiary) noexcept
         -> bool {
         m_log->trace("EVM selfdestruct:", to_hex(addr), to_hex(beneficiary));
-        // TODO: delete storage keys and code
+        // TODO: delete storage keys
         transfer(addr, beneficiary, evmc::uint256be{});
+        // Lock the code for it to be deleted with the account
+        get_account_code(addr, !m_is_readonly_run);
         return true;
     }
 
@@ -520,7 +522,12 @@ namespace cbdc::parsec::agent::runner {
                 continue;
             }
             auto key = make_buffer(code_key{addr});
-            auto val = make_buffer(*code);
+            auto val = cbdc::buffer();
+            auto it = m_accounts.find(addr);
+            if(it == m_accounts.end() || !it->second.first.has_value()
+               || !it->second.first->m_destruct) {
+                val = make_buffer(*code);
+            }
             ret[key] = val;
         }
 
-- 
2.43.0


From d062eed8f54c37ebc743673c19a1268dd0be7e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:59 +0000
Subject: [PATCH 71/77] fix: the code hash contracts see is the Keccak hash

---
 src/parsec/agent/runners/evm/host.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/parsec/agent/runners/evm/host.cpp b/src/parsec/agent/runners/evm/host.cpp
index be070d8..8610a79 100644
--- a/src/parsec/agent/runners/evm/host.cpp
+++ b/src/parsec/agent/runners/evm/host.cpp
@@ -175,10 +175,9 @@ namespace cbdc::parsec::agent::runner {
             return {};
         }
         auto& code = maybe_code.value();
-        auto sha = CSHA256();
-        sha.Write(code.data(), code.size());
+        auto code_hash = cbdc::keccak_data(code.data(), code.size());
         auto ret = evmc::bytes32();
-        sha.Finalize(&ret.bytes[0]);
+        std::memcpy(&ret.bytes[0], code_hash.data(), sizeof(ret.bytes));
         return ret;
     }
 
-- 
2.43.0


From 6976327b2bfa4821ac32e5730b8851aa7b569dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:59 +0000
Subject: [PATCH 72/77] fix: contracts see the chain ID, and the origin in a
 dry run

---
 src/parsec/agent/runners/evm/impl.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parsec/agent/runners/evm/impl.cpp b/src/parsec/agent/runners/evm/impl.cpp
index 41a7d11..52b7999 100644
--- a/src/parsec/agent/runners/evm/impl.cpp
+++ b/src/parsec/agent/runners/evm/impl.cpp
@@ -533,8 +533,9 @@ namespace cbdc::parsec::agent::runner {
         auto timestamp
             = std::chrono::time_point_cast<std::chrono::seconds>(now);
         tx_ctx.block_timestamp = timestamp.time_since_epoch().count();
+        tx_ctx.chain_id = evmc::uint256be(opencbdc_chain_id);
+        tx_ctx.tx_origin = from;
         if(!is_readonly_run) {
-            tx_ctx.tx_origin = from;
             tx_ctx.tx_gas_price = evmtx.m_gas_price;
             tx_ctx.block_gas_limit
                 = static_cast<int64_t>(to_uint64(evmtx.m_gas_limit));
-- 
2.43.0


From 7182fded9cd9a86f84488dd1251de09ad7321159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:59 +0000
Subject: [PATCH 73/77] fix: EVM logs are not written without a lock on their
 index

---
 src/parsec/agent/runners/evm/impl.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/parsec/agent/runners/evm/impl.cpp b/src/parsec/agent/runners/evm/impl.cpp
index 52b7999..c84039c 100644
--- a/src/parsec/agent/runners/evm/impl.cpp
+++ b/src/parsec/agent/runners/evm/impl.cpp
@@ -633,15 +633,25 @@ namespace cbdc::parsec::agent::runner {
             return;
         }
         auto acquired = std::make_shared<std::atomic<size_t>>();
+        auto failed = std::make_shared<std::atomic<bool>>(false);
         for(auto& key : keys) {
             auto success = m_try_lock_callback(
                 key,
                 broker::lock_type::write,
-                [acquired, callback, key_count = keys.size()](
-                    const broker::interface::try_lock_return_type&) {
-                    if(++(*acquired) == key_count) {
-                        callback();
+                [this, acquired, failed, callback, key_count = keys.size()](
+                    const broker::interface::try_lock_return_type& res) {
+                    if(!std::holds_alternative<broker::value_type>(res)) {
+                        *failed = true;
                     }
+                    if(++(*acquired) != key_count) {
+                        return;
+                    }
+                    if(*failed) {
+                        m_log->debug("Failed to lock logs index key");
+                        m_result_callback(error_code::wounded);
+                        return;
+                    }
+                    callback();
                 });
             if(!success) {
                 m_log->error("Unable to lock logs index key");
-- 
2.43.0


From 873572d4263d6e9e289dc055df0c9b47b7880fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:59 +0000
Subject: [PATCH 74/77] fix: a request for the code of no address is refused

---
 src/parsec/agent/runners/evm/impl.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parsec/agent/runners/evm/impl.cpp b/src/parsec/agent/runners/evm/impl.cpp
index c84039c..acfbe04 100644
--- a/src/parsec/agent/runners/evm/impl.cpp
+++ b/src/parsec/agent/runners/evm/impl.cpp
@@ -392,6 +392,10 @@ namespace cbdc::parsec::agent::runner {
 
     auto evm_runner::run_get_account_code() -> bool {
         auto addr = evmc::address();
+        if(m_param.size() != sizeof(addr.bytes)) {
+            m_log->error("Parameter is not an account address");
+            return false;
+        }
         std::memcpy(addr.bytes, m_param.data(), m_param.size());
         auto key = make_buffer(code_key{addr});
         auto success = m_try_lock_callback(
-- 
2.43.0


From b28ffc3e5470a218bee6011d8c35e725b819762c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:27 +0000
Subject: [PATCH 75/77] fix: a dry run of a contract that logs gets its result

---
 src/parsec/agent/runners/evm/impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parsec/agent/runners/evm/impl.cpp b/src/parsec/agent/runners/evm/impl.cpp
index acfbe04..08b7db0 100644
--- a/src/parsec/agent/runners/evm/impl.cpp
+++ b/src/parsec/agent/runners/evm/impl.cpp
@@ -632,7 +632,7 @@ namespace cbdc::parsec::agent::runner {
 
     void evm_runner::lock_index_keys(const std::function<void()>& callback) {
         auto keys = m_host->get_log_index_keys();
-        if(keys.empty()) {
+        if(keys.empty() || m_is_readonly_run) {
             callback();
             return;
         }
-- 
2.43.0


From 2b68d7378b06bd3c3925b7caf486e38aa7fb699d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:04 +0000
Subject: [PATCH 76/77] fix: the constructor of a contract can create contracts

---
 src/parsec/agent/runners/evm/host.cpp | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/parsec/agent/runners/evm/host.cpp b/src/parsec/agent/runners/evm/host.cpp
index 8610a79..9492379 100644
--- a/src/parsec/agent/runners/evm/host.cpp
+++ b/src/parsec/agent/runners/evm/host.cpp
@@ -218,17 +218,10 @@ namespace cbdc::parsec::agent::runner {
     }
 
     auto evm_host::create(const evmc_message& msg) noexcept -> evmc::Result {
-        auto maybe_sender_acc = get_account(msg.sender, false);
-        if(!maybe_sender_acc.has_value()) {
-            m_log->warn("EVM CREATE: sender account not found");
-            return evmc::Result(
-                evmc::make_result(evmc_status_code::EVMC_REVERT,
-                                  0,
-                                  0,
-                                  nullptr,
-                                  0));
-        }
-        auto sender_acc = maybe_sender_acc.value();
+        // The sender might not have an account yet if it's a contract under
+        // construction
+        auto sender_acc
+            = get_account(msg.sender, false).value_or(evm_account());
 
         auto new_addr = evmc::address();
         if(msg.kind == EVMC_CREATE) {
-- 
2.43.0


From 7a6af81d26e86a01220a582ecc4e0333236d634c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:55 +0000
Subject: [PATCH 77/77] fix: an EVM runner is not destroyed while it starts a
 thread

---
 src/parsec/agent/runners/evm/impl.cpp | 10 +++++++++-
 src/parsec/agent/runners/evm/impl.hpp |  2 ++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parsec/agent/runners/evm/impl.cpp b/src/parsec/agent/runners/evm/impl.cpp
index 08b7db0..148c76d 100644
--- a/src/parsec/agent/runners/evm/impl.cpp
+++ b/src/parsec/agent/runners/evm/impl.cpp
@@ -39,7 +39,14 @@ namespace cbdc::parsec::agent::runner {
                     ticket_number) {}
 
     evm_runner::~evm_runner() {
-        for(auto& t : m_evm_threads) {
+        // The thread that started the one reporting the result might not have
+        // recorded it yet
+        auto threads = std::vector<std::thread>();
+        {
+            std::unique_lock<std::mutex> l(m_evm_threads_mut);
+            threads.swap(m_evm_threads);
+        }
+        for(auto& t : threads) {
             if(t.joinable()) {
                 t.join();
             }
@@ -778,6 +785,7 @@ namespace cbdc::parsec::agent::runner {
             m_threads->push(fn);
             return;
         }
+        std::unique_lock<std::mutex> l(m_evm_threads_mut);
         m_evm_threads.emplace_back(fn);
     }
 
diff --git a/src/parsec/agent/runners/evm/impl.hpp b/src/parsec/agent/runners/evm/impl.hpp
index ec16e4f..fcf6be8 100644
--- a/src/parsec/agent/runners/evm/impl.hpp
+++ b/src/parsec/agent/runners/evm/impl.hpp
@@ -11,6 +11,7 @@
 #include "parsec/util.hpp"
 
 #include <evmc/evmc.h>
+#include <mutex>
 #include <secp256k1.h>
 #include <thread>
 
@@ -77,6 +78,7 @@ namespace cbdc::parsec::agent::runner {
         static constexpr auto initial_lock_type = broker::lock_type::write;
 
       private:
+        std::mutex m_evm_threads_mut;
         std::vector<std::thread> m_evm_threads;
 
         std::unique_ptr<evm_host> m_host;
-- 
2.43.0

