From a229e34a09196b161407e861b9c92998f1d07099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 1/8] fix: DepositIndex keeps the interest of blocks with no
 net deposit change

---
 src/CryptoNoteCore/DepositIndex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CryptoNoteCore/DepositIndex.cpp b/src/CryptoNoteCore/DepositIndex.cpp
index 29979c0..923e439 100644
--- a/src/CryptoNoteCore/DepositIndex.cpp
+++ b/src/CryptoNoteCore/DepositIndex.cpp
@@ -71,7 +71,7 @@ void DepositIndex::pushBlock(DepositAmount amount, DepositInterest interest) {
   assert(!sumWillOverflow(amount, lastAmount));
   assert(!sumWillOverflow(interest, lastInterest));
   assert(amount + lastAmount >= 0);
-  if (amount != 0) {
+  if (amount != 0 || interest != 0) {
     index.push_back({blockCount, amount + lastAmount, interest + lastInterest});
   }
 
-- 
2.43.0


From c2afd9011a6a8e971123b56e8e41542428e386c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 2/8] fix: rolling back the chain also undoes the deposit index

---
 src/CryptoNoteCore/Blockchain.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 4d88c20..eac3782 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -3284,6 +3284,7 @@ namespace cn
     m_timestampIndex.remove(m_blocks.back().bl.timestamp, blockHash);
     m_generatedTransactionsIndex.remove(m_blocks.back().bl);
 
+    m_depositIndex.popBlock();
     m_blocks.pop_back();
     m_blockIndex.pop();
 
-- 
2.43.0


From c46cea37a2ed799da093a5b4c6a20d69ecb5042d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 3/8] fix: rebuilding the cache starts from an empty deposit
 index

---
 src/CryptoNoteCore/Blockchain.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index eac3782..ffb478e 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -690,6 +690,7 @@ namespace cn
       m_spent_keys.clear();
       m_outputs.clear();
       m_multisignatureOutputs.clear();
+      m_depositIndex = DepositIndex();
       for (uint32_t b = 0; b < m_blocks.size(); ++b)
       {
         if (b % 1000 == 0)
-- 
2.43.0


From 52ccc43079dc292093e0b0768f754b18ca350c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 4/8] fix: resetting the chain clears multisignature outputs
 and the deposit index

---
 src/CryptoNoteCore/Blockchain.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index ffb478e..b67cb23 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -902,6 +902,8 @@ namespace cn
     m_spent_keys.clear();
     m_alternative_chains.clear();
     m_outputs.clear();
+    m_multisignatureOutputs.clear();
+    m_depositIndex = DepositIndex();
 
     m_paymentIdIndex.clear();
     m_timestampIndex.clear();
-- 
2.43.0


From 945db9bd75a47a8b42e42d6d9ebcbf49d0c2f62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:40 +0000
Subject: [PATCH 5/8] fix: a block refused for its size leaves no transactions
 behind

---
 src/CryptoNoteCore/Blockchain.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index b67cb23..4df6295 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -2767,6 +2767,7 @@ namespace cn
     if (!checkCumulativeBlockSize(blockHash, cumulative_block_size, block.height))
     {
       bvc.m_verification_failed = true;
+      popTransactions(block, minerTransactionHash);
       return false;
     }
 
-- 
2.43.0


From 086c824788c3a95e99fc617a808cb9bde79ed1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 6/8] fix: a block spending its own outputs is refused without
 leaving traces

---
 src/CryptoNoteCore/Blockchain.cpp | 8 ++++++++
 src/CryptoNoteCore/Blockchain.h   | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/src/CryptoNoteCore/Blockchain.cpp b/src/CryptoNoteCore/Blockchain.cpp
index 4df6295..11af7b7 100644
--- a/src/CryptoNoteCore/Blockchain.cpp
+++ b/src/CryptoNoteCore/Blockchain.cpp
@@ -3179,6 +3179,14 @@ namespace cn
       return false;
     }
 
+    /* outputs of the block being added are known already, but cannot be spent in the same block */
+    if (outputIndex.transactionIndex.block >= m_blocks.size())
+    {
+      logger(DEBUGGING) << "Transaction << " << transactionHash << " contains multisignature input that spends an output of the same block.";
+
+      return false;
+    }
+
     const Transaction &outputTransaction = m_blocks[outputIndex.transactionIndex.block].transactions[outputIndex.transactionIndex.transaction].tx;
     if (!is_tx_spendtime_unlocked(outputTransaction.unlockTime))
     {
diff --git a/src/CryptoNoteCore/Blockchain.h b/src/CryptoNoteCore/Blockchain.h
index 79506dc..2f40275 100644
--- a/src/CryptoNoteCore/Blockchain.h
+++ b/src/CryptoNoteCore/Blockchain.h
@@ -399,6 +399,13 @@ namespace cn
         return false;
       }
 
+      /* outputs of the block being added are known already, but cannot be spent in the same block */
+      if (amount_outs_vec[i].first.block >= m_blocks.size())
+      {
+        logger(logging::INFO) << "Output " << i << " of amount " << tx_in_to_key.amount << " belongs to a block that is not part of the chain yet";
+        return false;
+      }
+
       const TransactionEntry &tx = transactionByIndex(amount_outs_vec[i].first);
 
       if (!(amount_outs_vec[i].second < tx.tx.outputs.size()))
-- 
2.43.0


From bffe2866222b73568408d9158c234a3a1034e769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:01 +0000
Subject: [PATCH 7/8] fix: clearing the generated transactions index resets its
 running total

---
 src/CryptoNoteCore/BlockchainIndices.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CryptoNoteCore/BlockchainIndices.cpp b/src/CryptoNoteCore/BlockchainIndices.cpp
index a23a733..f79df48 100644
--- a/src/CryptoNoteCore/BlockchainIndices.cpp
+++ b/src/CryptoNoteCore/BlockchainIndices.cpp
@@ -207,6 +207,7 @@ bool GeneratedTransactionsIndex::find(uint32_t height, uint64_t& generatedTransa
 
 void GeneratedTransactionsIndex::clear() {
   index.clear();
+  lastGeneratedTxNumber = 0;
 }
 
 void GeneratedTransactionsIndex::serialize(ISerializer& s) {
-- 
2.43.0


From 6e5aa9016e7313469c14826bc113d7e5956dfc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:35 +0000
Subject: [PATCH 8/8] fix: the pool indexes the payment id of the transaction
 it stored, not of the moved-from copy

---
 src/CryptoNoteCore/TransactionPool.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CryptoNoteCore/TransactionPool.cpp b/src/CryptoNoteCore/TransactionPool.cpp
index c8ffa06..286f1da 100644
--- a/src/CryptoNoteCore/TransactionPool.cpp
+++ b/src/CryptoNoteCore/TransactionPool.cpp
@@ -257,8 +257,8 @@ namespace cn
         logger(WARNING, BRIGHT_YELLOW) << " Transaction already exists at inserting in memory pool";
         return false;
       }
-      m_paymentIdIndex.add(txd.tx);
-      m_timestampIndex.add(txd.receiveTime, txd.id);
+      m_paymentIdIndex.add(txd_p.first->tx);
+      m_timestampIndex.add(txd_p.first->receiveTime, txd_p.first->id);
 
       if (ttl.ttl != 0)
       {
-- 
2.43.0

