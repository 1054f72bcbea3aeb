From 33ee6c4283ffa5dfd83e0136d50774c1d6d1ca54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:32 +0000
Subject: [PATCH 01/43] fix: set the stop flag of the thread pool under its
 mutex (a lost wake-up made the destructor hang)

---
 nntl/interface/threads/workers.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nntl/interface/threads/workers.h b/nntl/interface/threads/workers.h
index 177f22c..106183c 100644
--- a/nntl/interface/threads/workers.h
+++ b/nntl/interface/threads/workers.h
@@ -92,11 +92,12 @@ namespace threads {
 
 	public:
 		~Workers()noexcept {
+			//the flag must be changed under the mutex, or a worker that has just found it unset, but hasn't fallen asleep yet,
+			//misses the notification and never wakes up
+			m_mutex.lock();
 			m_bStop = true;
-
-			//m_mutex.lock();
 			m_waitingOrders.notify_all();
-			//m_mutex.unlock();
+			m_mutex.unlock();
 
 			for (auto& t : m_threads)  t.join();
 		}
-- 
2.43.0


From 766db9354a0c0737b5e8df8253aac8cd1d775ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:09 +0000
Subject: [PATCH 02/43] fix: data race between a background worker and exec()
 on the per-thread exec flag

---
 nntl/interface/threads/bgworkers.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nntl/interface/threads/bgworkers.h b/nntl/interface/threads/bgworkers.h
index fee760a..4a14c30 100644
--- a/nntl/interface/threads/bgworkers.h
+++ b/nntl/interface/threads/bgworkers.h
@@ -289,15 +289,17 @@ namespace threads {
 			while (true) {
 				::std::atomic_thread_fence(::std::memory_order_acquire);//for m_taskWaitTO usage before mutex acquisition.
 				const auto sleepUntil = ::std::chrono::steady_clock::now() + m_taskWaitTO;
+				bool bDoExec = false;//bHas2Exec must be read under the lock only, because the main thread writes it in exec()
 				Sync_t::lockShared_waitFor_unlock(m_mutexTasks, m_waitingOrders, m_taskWaitTO
 					, [&bStop = m_bStop, &bGo2Waiting = m_bGo2Waiting
-					, &tasks = m_tasks, &utime = sleepUntil, &h2e = bHas2Exec]()noexcept
+					, &tasks = m_tasks, &utime = sleepUntil, &h2e = bHas2Exec, &bDoExec]()noexcept
 				{
-					return bStop || (::std::chrono::steady_clock::now() > utime && !bGo2Waiting && tasks.size() > 0) || h2e;
+					bDoExec = !!h2e;
+					return bStop || (::std::chrono::steady_clock::now() > utime && !bGo2Waiting && tasks.size() > 0) || bDoExec;
 				});
 				if (m_bStop) break;
 
-				if (bHas2Exec) {
+				if (bDoExec) {
 					m_execFn(id);
 
 					m_mutexTasks.lock_shared();
-- 
2.43.0


From dca8131f76fab668fb21b71d8025cf2c1054209c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:09 +0000
Subject: [PATCH 03/43] fix: data race between a background worker and
 set_task_wait_timeout()

---
 nntl/interface/threads/bgworkers.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nntl/interface/threads/bgworkers.h b/nntl/interface/threads/bgworkers.h
index 4a14c30..07ebfc0 100644
--- a/nntl/interface/threads/bgworkers.h
+++ b/nntl/interface/threads/bgworkers.h
@@ -287,10 +287,12 @@ namespace threads {
 
 			auto& bHas2Exec = m_threadHasSmth2Exec[id];
 			while (true) {
-				::std::atomic_thread_fence(::std::memory_order_acquire);//for m_taskWaitTO usage before mutex acquisition.
-				const auto sleepUntil = ::std::chrono::steady_clock::now() + m_taskWaitTO;
+				m_mutexTasks.lock_shared();
+				const auto taskWaitTO = m_taskWaitTO;//the main thread may change it in set_task_wait_timeout()
+				m_mutexTasks.unlock_shared();
+				const auto sleepUntil = ::std::chrono::steady_clock::now() + taskWaitTO;
 				bool bDoExec = false;//bHas2Exec must be read under the lock only, because the main thread writes it in exec()
-				Sync_t::lockShared_waitFor_unlock(m_mutexTasks, m_waitingOrders, m_taskWaitTO
+				Sync_t::lockShared_waitFor_unlock(m_mutexTasks, m_waitingOrders, taskWaitTO
 					, [&bStop = m_bStop, &bGo2Waiting = m_bGo2Waiting
 					, &tasks = m_tasks, &utime = sleepUntil, &h2e = bHas2Exec, &bDoExec]()noexcept
 				{
-- 
2.43.0


From 31085ab768b0ad0ff3672e7af0288b4e011b5715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:20 +0000
Subject: [PATCH 04/43] fix: producers of an empty, but completely claimed ring
 buffer were told to make more data than fits

---
 nntl/utils/data_buffer.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nntl/utils/data_buffer.h b/nntl/utils/data_buffer.h
index 34e19e9..2428376 100644
--- a/nntl/utils/data_buffer.h
+++ b/nntl/utils/data_buffer.h
@@ -186,6 +186,7 @@ namespace utils {
 		size_t m_afterLastValidIdx{ 0 }; //last initialized element+1, so for a full container it is either 
 										 // equals to m_curIdx if m_curIdx!=0, or equals to m_total. Modifiable only by a one of bgthreads
 		size_t m_afterLastClaimedIdx{ 0 };//last claimed by bgthread element+1. zero means uninitialized
+		size_t m_beingMade{ 0 };//number of elements claimed by bgthreads, but not delivered yet
 		bool m_bEmpty{ true };
 
 	public:
@@ -294,12 +295,12 @@ namespace utils {
 			NNTL_ASSERT(bStateOK());
 
 			size_t r;
-			if (!m_bEmpty && ((m_afterLastClaimedIdx && m_afterLastClaimedIdx == m_curIdx) || (!m_curIdx && m_afterLastClaimedIdx == m_total))) {
+			if ((!m_bEmpty || m_beingMade) && ((m_afterLastClaimedIdx && m_afterLastClaimedIdx == m_curIdx) || (!m_curIdx && m_afterLastClaimedIdx == m_total))) {
 				//the buffer is either already full or will been generated to its full condition soon. Nothing should be done.
 				r = 0;
 			} else {
 				r = n;
-				NNTL_ASSERT(m_curIdx != m_afterLastClaimedIdx || m_bEmpty);
+				NNTL_ASSERT(m_curIdx != m_afterLastClaimedIdx || (m_bEmpty && !m_beingMade));
 				if (m_curIdx <= m_afterLastClaimedIdx) {
 					if (m_afterLastClaimedIdx < m_total) {
 						//zone to generate spans from [m_afterLastClaimedIdx to m_total)
@@ -343,6 +344,7 @@ namespace utils {
 				}
 			}
 			NNTL_ASSERT(r <= n);
+			m_beingMade += r;
 			NNTL_ASSERT(m_afterLastClaimedIdx > 0);
 			NNTL_ASSERT(bStateOK());
 			//m_bufMutex.unlock();
@@ -359,7 +361,8 @@ namespace utils {
 
 			NNTL_ASSERT(bStateOK());
 			//NNTL_ASSERT(!m_afterLastValidIdx || m_curIdx != m_afterLastValidIdx);
-			NNTL_ASSERT(m_afterLastValidIdx != m_afterLastClaimedIdx);
+			NNTL_ASSERT(n <= m_beingMade);
+			m_beingMade -= n;
 
 			//deciding where to put the data
 			if (m_afterLastValidIdx < m_afterLastClaimedIdx) {
-- 
2.43.0


From e49f751cf1fdb2dc5348d106851405cf8c471d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:57 +0000
Subject: [PATCH 05/43] fix: clone_to_no_bias() into a bias-emulating matrix
 left an extra column in it

---
 nntl/interface/math/smatrix.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nntl/interface/math/smatrix.h b/nntl/interface/math/smatrix.h
index 4d7ef4a..5c15f12 100644
--- a/nntl/interface/math/smatrix.h
+++ b/nntl/interface/math/smatrix.h
@@ -496,7 +496,8 @@ namespace math {
 					NNTL_ASSERT(!"Wrong dest matrix!");
 					return false;
 				}
-			} else {				
+			} else {
+				dest.m_bEmulateBiases = false;//to make resize() work correctly if dest.m_bEmulateBiases==true
 				if (!dest.resize(m_rows, cnb)) {
 					NNTL_ASSERT(!"resize failed!");
 					return false;
-- 
2.43.0


From 97c737624b3547c87b396743fbe42b776d9e5e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:10 +0000
Subject: [PATCH 06/43] fix: strided binary vector test ran past the end of
 data (bias row check of a holey batch-in-row matrix)

---
 nntl/interface/math/smatrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nntl/interface/math/smatrix.h b/nntl/interface/math/smatrix.h
index 5c15f12..3a5bc78 100644
--- a/nntl/interface/math/smatrix.h
+++ b/nntl/interface/math/smatrix.h
@@ -169,7 +169,7 @@ namespace math {
 			//#todo for C++17 must change to ::std::launder(reinterpret_cast< ... 
 			auto ptr = reinterpret_cast<const similar_FWI_t*__restrict>(pData);
 
-			const auto pE = ptr + ne;
+			const auto pE = ptr + ne * ld;
 			similar_FWI_t cond = similar_FWI_t(1);
 			while (ptr != pE) {
 				const auto v = *ptr;
@@ -198,7 +198,7 @@ namespace math {
 			//#todo for C++17 must change to ::std::launder(reinterpret_cast< ... 
 			auto ptr = reinterpret_cast<const similar_FWI_t*__restrict>(pData);
 
-			const auto pE = ptr + ne;
+			const auto pE = ptr + ne * ld;
 			similar_FWI_t cond = similar_FWI_t(1);
 			while (ptr != pE) {
 				const auto v = *ptr;
@@ -217,7 +217,7 @@ namespace math {
 			const auto _one = T(1);
 			const auto _zero = T(0);
 
-			const auto pE = ptr + ne;
+			const auto pE = ptr + ne * ld;
 			T cond = T(1);
 			while (ptr != pE) {
 				const auto v = *ptr;
-- 
2.43.0


From f89fcdd08110eaa15f4a65779780dc91334bdc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:29 +0000
Subject: [PATCH 07/43] fix: K-best aggregator loses or misattributes samples
 when values repeat

---
 nntl/interface/math/_mcwFindKOrdered_hlpr.h | 34 +++++----------------
 1 file changed, 8 insertions(+), 26 deletions(-)

diff --git a/nntl/interface/math/_mcwFindKOrdered_hlpr.h b/nntl/interface/math/_mcwFindKOrdered_hlpr.h
index 194350e..b28c6b8 100644
--- a/nntl/interface/math/_mcwFindKOrdered_hlpr.h
+++ b/nntl/interface/math/_mcwFindKOrdered_hlpr.h
@@ -324,6 +324,12 @@ namespace math {
 						//invalid cache index (<0) signifies the values left from previous batches. If the index is valid,
 						//the value is from current batch.
 						// We should traverse cache now to properly aggregate it into m_allData
+						// Only the worst element of the cache is ever pushed out, so the values left from previous batches are
+						// always the last elements of the corresponding m_allData column (in the same order, duplicates included).
+						vec_len_t oldR = k;
+						for (vec_len_t hr = 0; hr < k; ++hr) {
+							if (pIdxs[hr] < 0) --oldR;
+						}
 						for (vec_len_t hr = 0; hr < k; ++hr) {
 							//cache are written in ascending order, i.e. biggest - last
 							//NNTL_ASSERT(hr + 1 >= k || pVals[hr] < pVals[hr + 1]);
@@ -333,32 +339,8 @@ namespace math {
 							// new value at hr index could only be equal to or bigger than stored in m_allData.
 							if (nI < 0) {
 								//invalid index means that the value nV is left from old batch.
-								//NNTL_ASSERT(nV >= pDSE[hr].val);
-								NNTL_ASSERT(!OrderFunctor_t::first_better(pDSE[hr].val, nV));
-								if (nV == pDSE[hr].val) {
-									//nothing else should be done here. Every higher indexes must be the same, b/c any difference
-									//will lead to shifting values
-								#ifdef NNTL_DEBUG
-									for (vec_len_t r = hr + 1; r < k; ++r) {
-										NNTL_ASSERT(pDSE[r].val == pVals[r]);
-									}
-								#endif // NNTL_DEBUG
-									break;
-								} else {
-									// We must find corresponding entry in range [hr+1..k) and move it to the current position.
-									vec_len_t r = hr + 1;
-									for (; r < k; ++r) {
-										const auto& dse = pDSE[r];
-										//NNTL_ASSERT(nV >= dse.val);
-										NNTL_ASSERT(!OrderFunctor_t::first_better(dse.val, nV));
-										if (nV == dse.val) {
-											//moving dse to the hr index
-											pDSE[hr] = dse;
-											break;
-										}
-									}
-									NNTL_ASSERT(r < k || !"DatasetElement not found! WTF?!");
-								}
+								NNTL_ASSERT(oldR >= hr && oldR < k && nV == pDSE[oldR].val);
+								pDSE[hr] = pDSE[oldR++];
 							} else {
 								//valid index means that the value nV is from the current batch. We must store it under hr index
 								auto& dse = pDSE[hr];
-- 
2.43.0


From dc5e085eb3844dda2ee89d4c02d36d69d957296d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:24 +0000
Subject: [PATCH 08/43] fix: ILR_props(decr,incr,low,high) constructor did not
 compile (missing comma)

---
 nntl/grad_works/ILR_Props.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/grad_works/ILR_Props.h b/nntl/grad_works/ILR_Props.h
index d4df737..e425995 100644
--- a/nntl/grad_works/ILR_Props.h
+++ b/nntl/grad_works/ILR_Props.h
@@ -61,7 +61,7 @@ namespace GW { //GW namespace is for grad_works mixins and other stuff, that hel
 			: mulDecr(decr), mulIncr(incr), capLow(cLow), capHigh(cHigh) {}
 
 		ILR_props(const real_t& decr, const real_t& incr, const real_t& cLow, const real_t& cHigh)noexcept {
-			set(decr, incr, cLow cHigh);
+			set(decr, incr, cLow, cHigh);
 		}
 		void set(const real_t& decr, const real_t& incr, const real_t& cLow, const real_t& cHigh)noexcept {
 			NNTL_ASSERT((decr > 0 && decr < 1 && incr > 1 && cHigh > cLow && cLow > 0) || (decr == 0 && incr == 0 && cHigh == 0 && cLow == 0));
-- 
2.43.0


From 9dca1bc83638fe3d0aaa743687df71fb077824d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:12 +0000
Subject: [PATCH 09/43] fix: grad_works::gw_init used the math interface before
 it was set when individual learning rates are on

---
 nntl/grad_works/grad_works.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/grad_works/grad_works.h b/nntl/grad_works/grad_works.h
index fd24878..cede406 100644
--- a/nntl/grad_works/grad_works.h
+++ b/nntl/grad_works/grad_works.h
@@ -300,9 +300,9 @@ namespace nntl {
 				if (!m_optMtxB.resize(weightsSize))return false;
 			}
 
+			set_common_data(cd);
 			if (!ILR_init(weightsSize))return false;
 
-			set_common_data(cd);
 
 			//we would need twice weightsNumel to make LRDropout for NesterovMomentum if necessary
 			//Currently also see implementation of max_norm2 enforcer mCheck_normalize_rows()
-- 
2.43.0


From 82ca061eb0238f38bce1522420529e2eb4fa9c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:33 +0000
Subject: [PATCH 10/43] fix: is_initialized4train() must leave its arguments
 untouched on a negative answer and know full-batch mode

With datasets initialised for inference only, the call overwrote the requested forward size and then answered
false; with the whole training set as a batch it accepted smaller batches (on_next_epoch() then returns the whole
set) and denied the very sizes init4train() had set up.
---
 nntl/train_data/_train_data_simple.h | 8 +++++---
 nntl/train_data/transf_train_data.h  | 6 ++++--
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/nntl/train_data/_train_data_simple.h b/nntl/train_data/_train_data_simple.h
index 094bad4..579efd8 100644
--- a/nntl/train_data/_train_data_simple.h
+++ b/nntl/train_data/_train_data_simple.h
@@ -162,13 +162,15 @@ namespace nntl {
 			}
 
 			bool is_initialized4train(vec_len_t& fpropBs, vec_len_t& trainBs, bool& bMiniBatch)const noexcept {
-				if (!get_self().is_initialized4inference(fpropBs)) return false;
+				auto fbs = fpropBs;//fpropBs must be left untouched if we are to return false
+				if (!get_self().is_initialized4inference(fbs)) return false;
 				const auto tbs = trainBs ? trainBs : m_maxTrainBatchSize;
 				//fullbatch mode must support only exactly specified batch sizes				
 				if (0 == m_maxTrainBatchSize || tbs > m_maxTrainBatchSize 
-					|| (tbs < m_maxFPropSize && m_batch_x.empty()) || tbs > fpropBs) return false;
+					|| (tbs < m_maxTrainBatchSize && !m_bMiniBatchTraining) || tbs > fbs) return false;
+				fpropBs = fbs;
 				trainBs = tbs;
-				bMiniBatch = !m_batch_x.empty();
+				bMiniBatch = m_bMiniBatchTraining;
 				return true;
 			}
 
diff --git a/nntl/train_data/transf_train_data.h b/nntl/train_data/transf_train_data.h
index 51d2262..10c817b 100644
--- a/nntl/train_data/transf_train_data.h
+++ b/nntl/train_data/transf_train_data.h
@@ -280,12 +280,14 @@ namespace nntl {
 			}
 
 			bool is_initialized4train(vec_len_t& fpropBs, vec_len_t& trainBs, bool& bMiniBatch)const noexcept {
-				if (!get_self().is_initialized4inference(fpropBs)) return false;
+				auto fbs = fpropBs;//fpropBs must be left untouched if we are to return false
+				if (!get_self().is_initialized4inference(fbs)) return false;
 				const auto tbs = trainBs ? trainBs : m_maxTrainBatchSize;
 				//fullbatch mode must support only exactly specified batch sizes
 				const auto dr = ::std::div(tbs, m_TFunct.samplesInBaseSample());
 				if (0 == m_maxTrainBatchSize || tbs > m_maxTrainBatchSize 
-					|| 0 != dr.rem || tbs > fpropBs) return false;
+					|| 0 != dr.rem || tbs > fbs) return false;
+				fpropBs = fbs;
 				trainBs = tbs;
 				bMiniBatch = dr.quot < get_self().base_trainset_samples_count();
 				return true;
-- 
2.43.0


From 148d89ff2d3ad92ccc9fdf926335bbb88bb4427a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:10 +0000
Subject: [PATCH 11/43] fix: inmem_train_data_stor must check batch-in-row
 datasets by samples, not by rows

absorb(), dupe() and replace_Y() compared rows()/cols(), which for batch-in-row matrices refuses consistent datasets
and accepts ones whose X and Y have a different number of samples.
---
 nntl/train_data/inmem_train_data_stor.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/nntl/train_data/inmem_train_data_stor.h b/nntl/train_data/inmem_train_data_stor.h
index 00ff57c..d505589 100644
--- a/nntl/train_data/inmem_train_data_stor.h
+++ b/nntl/train_data/inmem_train_data_stor.h
@@ -176,10 +176,10 @@ namespace nntl {
 			static bool absorbsion_will_succeed(const x_mtxdef_t& _train_x, const y_mtxdef_t& _train_y
 				, const x_mtxdef_t& _test_x, const y_mtxdef_t& _test_y)noexcept //, const bool noBiasEmulationNecessary) noexcept
 			{
-				return !_train_x.empty() && !_train_y.empty() && _train_x.rows() == _train_y.rows()
-					&& !_test_x.empty() && !_test_y.empty() && _test_x.rows() == _test_y.rows()
-					&& _train_y.cols() == _test_y.cols()
-					&& _train_x.cols() == _test_x.cols()
+				return !_train_x.empty() && !_train_y.empty() && _train_x.batch_size() == _train_y.batch_size()
+					&& !_test_x.empty() && !_test_y.empty() && _test_x.batch_size() == _test_y.batch_size()
+					&& _train_y.sample_size() == _test_y.sample_size()
+					&& _train_x.sample_size() == _test_x.sample_size()
 					&& !_train_y.emulatesBiases() && !_test_y.emulatesBiases()
 					&& _train_x.emulatesBiases() && _test_x.emulatesBiases()
 					&& !_train_x.bDontManageStorage() && !_test_x.bDontManageStorage()
@@ -191,9 +191,9 @@ namespace nntl {
 			// #supportsBatchInRow
 			bool replace_Y_will_succeed(const y_mtxdef_t& _train_y, const y_mtxdef_t& _test_y)const noexcept
 			{
-				return !_train_y.empty() && _train_y.rows() == train_y().rows()
-					&& !_test_y.empty() && _test_y.rows() == test_y().rows()
-					&& _train_y.cols() == _test_y.cols()
+				return !_train_y.empty() && _train_y.batch_size() == train_y().batch_size()
+					&& !_test_y.empty() && _test_y.batch_size() == test_y().batch_size()
+					&& _train_y.sample_size() == _test_y.sample_size()
 					&& !_train_y.emulatesBiases() && !_test_y.emulatesBiases()
 					&& !_train_y.bDontManageStorage() && !_test_y.bDontManageStorage()
 					;
-- 
2.43.0


From 09c702cd2862f82c4948f51e09d64fed4ba23499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:10 +0000
Subject: [PATCH 12/43] fix: walking over a dataset must not skip a last subset
 of a single sample

walk_over_set() promises the number of calls needed to walk over the whole set, but did not count a remainder
of exactly one sample.
---
 nntl/train_data/_train_data_simple.h | 2 +-
 nntl/train_data/transf_train_data.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/nntl/train_data/_train_data_simple.h b/nntl/train_data/_train_data_simple.h
index 579efd8..b145202 100644
--- a/nntl/train_data/_train_data_simple.h
+++ b/nntl/train_data/_train_data_simple.h
@@ -368,7 +368,7 @@ namespace nntl {
 				}
 
 				const auto _dr = ::std::div(dsNumel, static_cast<numel_cnt_t>(batchSize));
-				const auto numBatches = _dr.quot + (_dr.rem > 1);
+				const auto numBatches = _dr.quot + (_dr.rem > 0);
 				NNTL_ASSERT(numBatches > 0);
 				return numBatches;
 			}
diff --git a/nntl/train_data/transf_train_data.h b/nntl/train_data/transf_train_data.h
index 10c817b..e271091 100644
--- a/nntl/train_data/transf_train_data.h
+++ b/nntl/train_data/transf_train_data.h
@@ -444,7 +444,7 @@ namespace nntl {
 				m_TFunct.walk(m_tdStor, dataSetId, cd, m_curBatchSize, excludeDataFlag, &m_pCurBatchX, &m_pCurBatchY);
 
 				const auto _dr = ::std::div(dsNumel, static_cast<numel_cnt_t>(batchSize));
-				const auto numBatches = _dr.quot + (_dr.rem > 1);
+				const auto numBatches = _dr.quot + (_dr.rem > 0);
 				NNTL_ASSERT(numBatches > 0);
 				return numBatches;
 			}
-- 
2.43.0


From 220cf1292cd3f972e806fc24b3e9c402fc145688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:56 +0000
Subject: [PATCH 13/43] fix: the loss of a dataset must not depend on how the
 dataset is split into batches

---
 nntl/nnet.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index 9383a1b..5396c53 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -276,6 +276,7 @@ namespace nntl {
 			const auto& cd = get_const_common_data();
 			const auto& activations = *m_Layers.output_layer().get_activations_storage();//we won't touch it until it's valid
 			real_t lossVal(0);
+			numel_cnt_t samplesCnt(0);
 
 			const numel_cnt_t batchesCnt = td.walk_over_set(dataSetId, cd);
 			NNTL_ASSERT(batchesCnt > 0);
@@ -284,12 +285,15 @@ namespace nntl {
 
 			for (numel_cnt_t bi = 0; bi < batchesCnt; ++bi) {
 				td.next_subset(bi, cd);
-				lossVal += _calcLoss4batch(td.batchX(), td.batchY());
+				//the loss of a dataset is a mean over its samples and must not depend on how the dataset was split into batches
+				lossVal += _calcLoss4batch_nonnormalized(td.batchX(), td.batchY());
+				samplesCnt += td.batchY().batch_size();
 
 				NNTL_ASSERT(m_Layers.output_layer().is_activations_valid());
 				NNTL_ASSERT(&activations == m_Layers.output_layer().get_activations_storage());//sanity check
 				obs.report_results(bi, activations, td.batchY(), cd);
 			}
+			lossVal /= samplesCnt;
 
 			//after calculating loss based on batch data, we must add a loss based on layers properties/parameters
 			if (m_bCalcFullLossValue) lossVal += m_Layers.calcLossAddendum();
-- 
2.43.0


From a5818a826c2d47a3a3d7dee95b6a5cb4face75f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:56 +0000
Subject: [PATCH 14/43] fix: train() must use the requested batch size even
 when the nnet is initialized for a bigger one

---
 nntl/nnet.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index 5396c53..3f66d92 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -583,7 +583,9 @@ namespace nntl {
 			
 			// #note should depend on bPrioritizeThreads value to relax priorities for callbacks?
 			_report_training_progress(-1, td, ::std::chrono::nanoseconds(0), opts.observer());
-			_set_mode_and_batch_size(0);//prepare for training (sets to maxBatchSize, that's already stored in common_data structure)
+			//prepare for training. Must not rely on the batch size stored in common_data structure, because it might be bigger than
+			// the requested one, if the nnet has already been initialized for a bigger batch
+			_set_training_mode_and_batch_size(maxBatchSize);
 
 #if NNTL_DEBUG_CHECK_DENORMALS_ON_EACH_EPOCH
 			STDCOUTL("Denormals check... " << (get_iMath().ithreads().denormalsOnInAnyThread() ? "FAILED!!!" : "passed.") 
@@ -659,8 +661,8 @@ namespace nntl {
 					// #note should depend on bPrioritizeThreads value to relax priorities for callbacks?
 					if (!onEpochEndCB(/**this, opts,*/ epochIdx)) break;
 
-					//should always call _set_mode_and_batch_size(0) because onEpochEndCB could change this object state
-					_set_mode_and_batch_size(0);
+					//should always call it because onEpochEndCB could change this object state
+					_set_training_mode_and_batch_size(maxBatchSize);
 				}
 			}
 
-- 
2.43.0


From ebe312651e712ba64819b6c504794e42ac20413b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:56 +0000
Subject: [PATCH 15/43] fix: train() must not leave train data initialized for
 another maxFPropSize than the nnet is

---
 nntl/nnet.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index 3f66d92..612c0d8 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -355,7 +355,11 @@ namespace nntl {
 		ErrorCode _init4train(TdT& td, vec_len_t& maxFPropSize, vec_len_t& maxBatchSize, bool& bMiniBatch
 			, const numel_cnt_t maxEpoch, const bool bForceReinitTrainData)noexcept
 		{
-			if (bForceReinitTrainData || !td.is_initialized4train(maxFPropSize, maxBatchSize, bMiniBatch)) {
+			//td walks over its sets with the maxFPropSize it was initialized with, so it must be exactly the one we're about to use
+			vec_len_t tdFPropSize = 0;
+			if (bForceReinitTrainData || !td.is_initialized4train(maxFPropSize, maxBatchSize, bMiniBatch)
+				|| !td.is_initialized4inference(tdFPropSize) || tdFPropSize != maxFPropSize)
+			{
 				const auto ec = td.init4train(get_iMath(), maxFPropSize, maxBatchSize, &bMiniBatch);
 				if (ErrorCode::Success != ec) return _set_last_error(ec);
 			}
-- 
2.43.0


From e01032052c76197ba4f0e90922edd04f013e5101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:56 +0000
Subject: [PATCH 16/43] fix: ConfusionMtx::MCC() overflowed on a moderate
 number of samples

---
 nntl/utils/confusion_mtx.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nntl/utils/confusion_mtx.h b/nntl/utils/confusion_mtx.h
index 54f7dcc..d322f4e 100644
--- a/nntl/utils/confusion_mtx.h
+++ b/nntl/utils/confusion_mtx.h
@@ -108,8 +108,9 @@ namespace nntl {
 			real_t Markedness()const noexcept { return PPV() + NPV() - real_t(1.); }
 			
 			real_t MCC()const noexcept {
-				const auto den = (TP() + FP())*(TP() + FN())*(TN() + FP())*(TN() + FN());
-				return den ? static_cast<real_t>(TP()*TN() - FP()*FN()) / ::std::sqrt(static_cast<real_t>(den))  : real_t(0.);
+				//products of counts don't fit vec_len_t even for a moderate number of samples
+				const auto den = static_cast<real_t>(TP() + FP())*(TP() + FN())*(TN() + FP())*(TN() + FN());
+				return den > 0 ? (static_cast<real_t>(TP())*TN() - static_cast<real_t>(FP())*FN()) / ::std::sqrt(den) : real_t(0.);
 			}
 
 			real_t Jaccard()const noexcept {
-- 
2.43.0


From 0023cdfc7b5b9ec042b5c4d3185b5112f4af2d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:21 +0000
Subject: [PATCH 17/43] fix: binfile: free the conversion buffer when reading
 the data fails

---
 nntl/_supp/io/binfile.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nntl/_supp/io/binfile.h b/nntl/_supp/io/binfile.h
index cb1ed54..d3cc207 100644
--- a/nntl/_supp/io/binfile.h
+++ b/nntl/_supp/io/binfile.h
@@ -393,8 +393,10 @@ namespace nntl_supp {
 
 #pragma warning(disable:28020)
 			//MSVC SAL goes "slightly" mad here
-			if (1 != fread_s(pReadTo, readSize, readSize, 1, fp))
+			if (1 != fread_s(pReadTo, readSize, readSize, 1, fp)) {
+				if (!bSameTypes) free(pReadTo);
 				return _set_last_error(ErrorCode::FailedToReadData);
+			}
 #pragma warning(default:28020)
 
 			if (!bSameTypes) {
-- 
2.43.0


From 9fe6d500e2d9a62ee1768a3f3b6902fb91670074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:21 +0000
Subject: [PATCH 18/43] fix: binfile: reject field sizes a matrix can not have

---
 nntl/_supp/io/binfile.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/nntl/_supp/io/binfile.h b/nntl/_supp/io/binfile.h
index d3cc207..f148631 100644
--- a/nntl/_supp/io/binfile.h
+++ b/nntl/_supp/io/binfile.h
@@ -357,6 +357,14 @@ namespace nntl_supp {
 			const auto bSameTypes = bin_file::correct_data_type<T_>(fieldDataType);
 
 			if (fe.dwRows <= 0 || fe.dwCols <= 0) return _set_last_error(ErrorCode::InvalidDataSize);
+			//the matrix (with a possible bias column) must be addressable
+			if (fe.dwRows > static_cast<::std::uint32_t>(::std::numeric_limits<vec_len_t>::max())
+				|| fe.dwCols >= static_cast<::std::uint32_t>(::std::numeric_limits<vec_len_t>::max())
+				|| static_cast<::std::uint64_t>(fe.dwRows)*(static_cast<::std::uint64_t>(fe.dwCols) + 1)
+					> static_cast<::std::uint64_t>(::std::numeric_limits<numel_cnt_t>::max()) / sizeof(double))
+			{
+				return _set_last_error(ErrorCode::InvalidDataSize);
+			}
 
 			fe.bDataType = 0;
 			if (pTdFieldId) {
-- 
2.43.0


From e1d0e6057b532b119198224bc19896fea8f202d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:21 +0000
Subject: [PATCH 19/43] fix: binfile: a successful read resets the last error

---
 nntl/_supp/io/binfile.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/_supp/io/binfile.h b/nntl/_supp/io/binfile.h
index f148631..f91898e 100644
--- a/nntl/_supp/io/binfile.h
+++ b/nntl/_supp/io/binfile.h
@@ -205,7 +205,7 @@ namespace nntl_supp {
 			if (hdr.sSignature != hdr.dwSignature) return _set_last_error(ErrorCode::WrongHeaderSignature);
 			if (hdr.sLatestVersion != hdr.wVersionNum) return _set_last_error(ErrorCode::UnsupportedFormatVersion);
 
-			return _read_into(fp, dest, static_cast<int>(hdr.wFieldsCount), static_cast<int>(hdr.wSeqClassCount));
+			return _set_last_error(_read_into(fp, dest, static_cast<int>(hdr.wFieldsCount), static_cast<int>(hdr.wSeqClassCount)));
 		}
 
 	protected:
-- 
2.43.0


From 862b7dc035752142b2e55bc981556c74d46849ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:21 +0000
Subject: [PATCH 20/43] fix: jsonreader: report malformed fields as invalid
 instead of missing

---
 nntl/_supp/io/jsonreader.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/nntl/_supp/io/jsonreader.h b/nntl/_supp/io/jsonreader.h
index 3ab4373..935a3dc 100644
--- a/nntl/_supp/io/jsonreader.h
+++ b/nntl/_supp/io/jsonreader.h
@@ -203,8 +203,7 @@ namespace nntl_supp {
 
 		template <typename MembersEnumId>
 		const ErrorCode _members2ErrorCode(const ErrorCode b, const MembersEnumId rm)noexcept {
-			NNTL_UNREF(b);
-			const ErrorCode e = static_cast<ErrorCode>((int)ErrorCode::NoTrainX + (int)rm);
+			const ErrorCode e = static_cast<ErrorCode>((int)b + (int)rm);
 			return _set_last_error(e);
 		}
 
-- 
2.43.0


From 958ab9cecf0b18129151c60a99db15b4d30d79f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:30 +0000
Subject: [PATCH 21/43] fix: rng_helper::normal_vector used the element count
 as the standard deviation

---
 nntl/interface/_i_rng.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nntl/interface/_i_rng.h b/nntl/interface/_i_rng.h
index e453a25..256ab24 100644
--- a/nntl/interface/_i_rng.h
+++ b/nntl/interface/_i_rng.h
@@ -235,9 +235,9 @@ namespace rng {
 		//////////////////////////////////////////////////////////////////////////
 		//////////////////////////////////////////////////////////////////////////
 		void normal_vector(real_t*const ptr, const numel_cnt_t n, const real_t m = real_t(0.), const real_t st = real_t(1.))noexcept {
-			::std::normal_distribution<real_t> distr(m,n);
+			::std::normal_distribution<real_t> distr(m, st);
 			for (numel_cnt_t i = 0; i < n; ++i) {
-				ptr[i] = distr(*this);
+				ptr[i] = distr(get_self());
 			}
 		}
 		void normal_matrix(realmtx_t& A, const real_t m = real_t(0.), const real_t st = real_t(1.))noexcept {
-- 
2.43.0


From f013d250937fa4e4a3d15636acdad43b449fa963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:50 +0000
Subject: [PATCH 22/43] fix: CStd must announce the range std::rand() really
 has, or normal distributions over it never finish

---
 nntl/interface/rng/cstd.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nntl/interface/rng/cstd.h b/nntl/interface/rng/cstd.h
index 53825d0..07e4af8 100644
--- a/nntl/interface/rng/cstd.h
+++ b/nntl/interface/rng/cstd.h
@@ -77,6 +77,12 @@ namespace rng {
 
 		static int_4_distribution_t gen_int()noexcept { return static_cast<int_4_distribution_t>(_rand()); }
 
+#ifndef _CRT_RAND_S
+		//::std::rand() doesn't use the full range of int_4_distribution_t
+		static constexpr int_4_distribution_t min() noexcept { return 0; }
+		static constexpr int_4_distribution_t max() noexcept { return RAND_MAX; }
+#endif // !_CRT_RAND_S
+
 		//////////////////////////////////////////////////////////////////////////
 		//generate FP value in range [0,a]
 		//static real_t gen_f(const real_t a)noexcept { return a*gen_f_norm(); }
-- 
2.43.0


From 6b6ceef51be92575ee7db5e110b2f661c29f80ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:39 +0000
Subject: [PATCH 23/43] fix: layer_settings::set_default must return the object
 it promises

---
 nntl/utils/layers_settings.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nntl/utils/layers_settings.h b/nntl/utils/layers_settings.h
index bc01183..700e506 100644
--- a/nntl/utils/layers_settings.h
+++ b/nntl/utils/layers_settings.h
@@ -80,6 +80,7 @@ namespace utils {
 			if (!m_keeper.empty())
 				m_keeper.pop_front();
 			m_keeper.push_front(::std::forward<ST>(def));
+			return *this;
 		}
 
 		const setts_t& get(const layer_index_t idx)const noexcept {
-- 
2.43.0


From 7b5ba62121c35d803e6896989438781192f6b84d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:36 +0000
Subject: [PATCH 24/43] fix: matlab::fill_data_no_bias() must not read signed
 integers as unsigned

---
 nntl/utils/matlab.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nntl/utils/matlab.h b/nntl/utils/matlab.h
index ac508da..507f458 100644
--- a/nntl/utils/matlab.h
+++ b/nntl/utils/matlab.h
@@ -92,14 +92,20 @@ namespace matlab {
 				d.fill_from_array_no_bias(static_cast<const float*>(pSrc));
 				break;
 			case mxINT64_CLASS:
+				d.fill_from_array_no_bias(static_cast<const ::std::int64_t*>(pSrc));
+				break;
 			case mxUINT64_CLASS:
 				d.fill_from_array_no_bias(static_cast<const ::std::uint64_t*>(pSrc));
 				break;
 			case mxINT32_CLASS:
+				d.fill_from_array_no_bias(static_cast<const ::std::int32_t*>(pSrc));
+				break;
 			case mxUINT32_CLASS:
 				d.fill_from_array_no_bias(static_cast<const ::std::uint32_t*>(pSrc));
 				break;
 			case mxINT8_CLASS:
+				d.fill_from_array_no_bias(static_cast<const ::std::int8_t*>(pSrc));
+				break;
 			case mxUINT8_CLASS:
 				d.fill_from_array_no_bias(static_cast<const ::std::uint8_t*>(pSrc));
 				break;
-- 
2.43.0


From fa93df7426b07f107de9717fd11473be6c2e3847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:36 +0000
Subject: [PATCH 25/43] fix: matfile: updating an existing nested struct freed
 it before storing

---
 nntl/_supp/io/matfile.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nntl/_supp/io/matfile.h b/nntl/_supp/io/matfile.h
index aa9c73b..90ff9ae 100644
--- a/nntl/_supp/io/matfile.h
+++ b/nntl/_supp/io/matfile.h
@@ -195,7 +195,8 @@ namespace nntl_supp {
 				} else {
 					//check whether the old field contains value and free it if needed
 					const auto oldVal = mxGetFieldByNumber(pStruct, 0, fieldNum);
-					if (oldVal) mxDestroyArray(oldVal);
+					//(a nested struct loaded for an update by save_struct_begin() is the old value itself)
+					if (oldVal && oldVal != pA) mxDestroyArray(oldVal);
 				}
 				if (ErrorCode::Success == ec) {
 					mxSetFieldByNumber(pStruct, 0, fieldNum, pA);
-- 
2.43.0


From 10592aeadc897d5df419ba21a1f36b88936b70c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:36 +0000
Subject: [PATCH 26/43] fix: matfile: a variable that could not be added to a
 struct leaked

---
 nntl/_supp/io/matfile.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nntl/_supp/io/matfile.h b/nntl/_supp/io/matfile.h
index 90ff9ae..63abdce 100644
--- a/nntl/_supp/io/matfile.h
+++ b/nntl/_supp/io/matfile.h
@@ -201,8 +201,8 @@ namespace nntl_supp {
 				if (ErrorCode::Success == ec) {
 					mxSetFieldByNumber(pStruct, 0, fieldNum, pA);
 					m_curVarName = nullptr;
-				}
-				//we mustn't free pA here, it'll be automatically (?) deleted when the struct will be disposed
+				} else mxDestroyArray(pA);
+				//we mustn't free pA here in case of success, it'll be automatically (?) deleted when the struct will be disposed
 			} else {
 				if (matPutVariable(m_matFile, m_curVarName, pA)) {
 					ec = ErrorCode::FailedToTransferVariable;
-- 
2.43.0


From 693dc08beeb6249646e27c65bc0cdff3cf2b0d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:36 +0000
Subject: [PATCH 27/43] fix: nnet::write_weights() must not report success when
 closing the file fails

---
 nntl/nnet.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index 612c0d8..1537ef3 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -216,6 +216,8 @@ namespace nntl {
 			if (decltype(mf)::ErrorCode::Success == ec) {
 				mf << *this;
 				ec = mf.get_last_error();
+				//data may be flushed only when the file is being closed
+				if (decltype(mf)::ErrorCode::Success == ec) ec = mf.close();
 				if (decltype(mf)::ErrorCode::Success == ec) {
 					STDCOUTL(pfx << "Success!");
 					return true;
-- 
2.43.0


From 3903520ca33fe96c71dc7a1a2ad5626683307fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:36 +0000
Subject: [PATCH 28/43] fix: loading a tile pack must not replace its tiles
 count

---
 nntl/layer/pack_tile.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nntl/layer/pack_tile.h b/nntl/layer/pack_tile.h
index 30aa4fc..3b9fe66 100644
--- a/nntl/layer/pack_tile.h
+++ b/nntl/layer/pack_tile.h
@@ -439,7 +439,13 @@ namespace nntl {
 			if (utils::binary_option<true>(ar, serialization::serialize_activations)) ar & NNTL_SERIALIZATION_NVP(m_activations);
 			if (utils::binary_option<true>(ar, serialization::serialize_data_x)) ar & NNTL_SERIALIZATION_NVP(m_innerLowerLayerActivations);
 			
-			ar & NNTL_SERIALIZATION_NVP(m_tiles_count);
+			//the tiles count is a part of the architecture, so it can't be changed by loading
+			auto tilesCnt = m_tiles_count;
+			ar & serialization::make_nvp("m_tiles_count", tilesCnt);
+			if (tilesCnt != m_tiles_count) {
+				STDCOUTL("*** Wrong tiles count in the archive for layer " << get_self().get_layer_name_str());
+				ar.mark_invalid_var();
+			}
 
 			ar & serialization::make_named_struct(m_tiledLayer.get_layer_name_str().c_str(), m_tiledLayer);
 		}
-- 
2.43.0


From 2c7ac2460b01aecb846d09d37a44eb856f1c6155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:35 +0000
Subject: [PATCH 29/43] fix: dumper conditions wrote out of bounds for the
 idx_before_start epoch index

---
 nntl/interface/inspectors/dumper.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nntl/interface/inspectors/dumper.h b/nntl/interface/inspectors/dumper.h
index 749f433..beea2ff 100644
--- a/nntl/interface/inspectors/dumper.h
+++ b/nntl/interface/inspectors/dumper.h
@@ -58,9 +58,10 @@ namespace nntl {
 
 					m_dumpEpochCond.clear().resize(totalEpochs, false);
 					for (const auto etd : m_epochsToDump) {
-						if (etd < totalEpochs) {
-							m_dumpEpochCond.verbose(etd);
-						} else m_dumpEpochCond.verbose(lastEpochIdx);
+						//negative index (idx_before_start) doesn't designate an epoch, derived conditions deal with it on their own
+						if (etd >= totalEpochs) {
+							m_dumpEpochCond.verbose(lastEpochIdx);
+						} else if (etd >= 0) m_dumpEpochCond.verbose(etd);
 					}
 				}
 
-- 
2.43.0


From 80119f235c3e2e4426de69f49b716c43a1c5e0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:35 +0000
Subject: [PATCH 30/43] fix: epochs_props set a flag past the end of its
 storage

---
 nntl/utils/epochs_props.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nntl/utils/epochs_props.h b/nntl/utils/epochs_props.h
index 93842b5..92e10b6 100644
--- a/nntl/utils/epochs_props.h
+++ b/nntl/utils/epochs_props.h
@@ -43,11 +43,11 @@ namespace nntl {
 		epochs_props(size_t maxEpoch)noexcept:m_flgEvalPerf(maxEpoch,true){ NNTL_ASSERT(maxEpoch > 0); }
 		epochs_props(size_t maxEpoch,size_t stride)noexcept : m_flgEvalPerf(maxEpoch, false) {
 			NNTL_ASSERT(maxEpoch > 0);
-			for (size_t i = 0; i <= maxEpoch; i+=stride)  m_flgEvalPerf[i] = true;
+			for (size_t i = 0; i < maxEpoch; i+=stride)  m_flgEvalPerf[i] = true;
 		}
 		epochs_props(size_t maxEpoch, size_t startsAt, size_t stride)noexcept : m_flgEvalPerf(maxEpoch, false) {
 			NNTL_ASSERT(maxEpoch > 0 && startsAt<=maxEpoch);
-			for (size_t i = startsAt; i <= maxEpoch; i += stride)  m_flgEvalPerf[i] = true;
+			for (size_t i = startsAt; i < maxEpoch; i += stride)  m_flgEvalPerf[i] = true;
 		}
 
 		size_t maxEpoch()const noexcept { return m_flgEvalPerf.size(); }
-- 
2.43.0


From db32c853290ed359a3fcd66de67ded04350ce1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:01 +0000
Subject: [PATCH 31/43] fix: dumper forgot layers and their filtering on every
 subsequent training of a nnet

---
 nntl/interface/inspectors/dumper.h | 13 ++++++++++++-
 nntl/utils/bwlist.h                |  8 +++-----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/nntl/interface/inspectors/dumper.h b/nntl/interface/inspectors/dumper.h
index beea2ff..13ae3d6 100644
--- a/nntl/interface/inspectors/dumper.h
+++ b/nntl/interface/inspectors/dumper.h
@@ -200,6 +200,7 @@ namespace nntl {
 			cond_dump_t m_condDump;
 			
 			layer_names_t m_layerNames;
+			::std::vector<layer_type_id_t> m_layerTypeIds;
 			size_t m_layersCount;
 			numel_cnt_t m_epochIdx, m_batchIdx;
 
@@ -404,17 +405,26 @@ namespace nntl {
 			void init_nnet(const size_t totalLayers, const numel_cnt_t totalEpochs)noexcept {
 				NNTL_ASSERT(!m_DirToDump.empty());
 				NNTL_ASSERT(totalLayers && totalEpochs);
+				//nnet doesn't call init_layer() for layers that are already initialized (that is on the second and subsequent
+				//training), so we must not lose what is already known about them
+				if (m_layersCount != totalLayers) {
+					m_layerNames.clear();
+					m_layerTypeIds.clear();
+				}
 				m_layersCount = totalLayers;
 				m_bDoDump = false;
 				m_epochIdx = idx_before_start;
 				m_batchIdx = idx_before_start;
 
 				//#exceptions STL
-				m_layerNames.clear();
 				m_layerNames.resize(m_layersCount);
 				m_layerNames.shrink_to_fit();
+				m_layerTypeIds.resize(m_layersCount);
 
 				_bwlist_init(totalLayers);
+				for (size_t i = 0; i < m_layersCount; ++i) {
+					if (!m_layerNames[i].empty()) _bwlist_updateLayer(static_cast<layer_index_t>(i), m_layerTypeIds[i]);
+				}
 
 				m_condDump.on_init_nnet(totalEpochs);
 				//if (!m_pDirToDump) STDCOUTL("*beware, dumping has been disabled due to unset directory to dump");
@@ -425,6 +435,7 @@ namespace nntl {
 				NNTL_ASSERT(lIdx < m_layersCount);
 				//#exceptions STL
 				m_layerNames[lIdx].assign(::std::forward<StrT>(LayerName));
+				m_layerTypeIds[lIdx] = layerTypeId;
 				_bwlist_updateLayer(lIdx, layerTypeId);
 			};
 
diff --git a/nntl/utils/bwlist.h b/nntl/utils/bwlist.h
index 06204d9..905b565 100644
--- a/nntl/utils/bwlist.h
+++ b/nntl/utils/bwlist.h
@@ -102,15 +102,13 @@ namespace utils {
 		void _bwlist_updateLayer(const layer_index_t lIdx, const layer_type_id_t layerTypeId)noexcept {
 			NNTL_ASSERT(lIdx < m_dumpLayerCond.size());
 
-			if (
+			const bool bListed =
 				(m_layerTypes.size() && ::std::any_of(m_layerTypes.begin(), m_layerTypes.end(), [layerTypeId](const layer_type_id_t& e)->bool {
 				return e == layerTypeId;
 			})) || (m_layerIdxs.size() && ::std::any_of(m_layerIdxs.begin(), m_layerIdxs.end(), [lIdx](const layer_index_t& e)->bool {
 				return e == lIdx;
-			}))
-				) {
-				m_dumpLayerCond.set(lIdx, m_bWhiteList);
-			}
+			}));
+			m_dumpLayerCond.set(lIdx, bListed == m_bWhiteList);
 		}
 
 		const bool _bwlist_layerAllowed(const layer_index_t lIdx)const noexcept {
-- 
2.43.0


From 24797605ad31e0aeec95a0046ca3bdaee2c98991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:40 +0000
Subject: [PATCH 32/43] fix: nnet: fprop() or gradcheck() with a bigger batch
 in the middle of training left the nnet without memory for the training

---
 nntl/nnet.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index 1537ef3..c2c2b8d 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -353,6 +353,14 @@ namespace nntl {
 			return _full_init(biggestFprop, batchSize, bMiniBatch, maxEpoch);
 		}
 
+		//the same as _init(), but if the nnet has to be reinitialized, it stays ready for the batches it has already been initialized for
+		// (the function may be called by a onEpochEndCB functor when the training isn't finished yet)
+		ErrorCode _init4more(const vec_len_t biggestFprop, const vec_len_t batchSize = 0)noexcept {
+			const auto& cd = get_const_common_data();
+			if (!cd.is_initialized()) return _init(biggestFprop, batchSize);
+			return _init(::std::max(biggestFprop, cd.input_max_fprop_batch_size()), ::std::max(batchSize, cd.input_training_batch_size()));
+		}
+
 		template<typename TdT>
 		ErrorCode _init4train(TdT& td, vec_len_t& maxFPropSize, vec_len_t& maxBatchSize, bool& bMiniBatch
 			, const numel_cnt_t maxEpoch, const bool bForceReinitTrainData)noexcept
@@ -692,7 +700,7 @@ namespace nntl {
 		//Better use the init4fixedBatchFprop() with 2 arguments
 		ErrorCode init4fixedBatchFprop(const vec_len_t fpropBatchSize)noexcept {
 			NNTL_ASSERT(fpropBatchSize);
-			const auto ec = _init(fpropBatchSize);
+			const auto ec = _init4more(fpropBatchSize);
 			if (ErrorCode::Success != ec) return _set_last_error(ec);
 			_set_inference_mode_and_batch_size(fpropBatchSize);
 			return _set_last_error(ec);
@@ -733,7 +741,7 @@ namespace nntl {
 		// note that if the data_x is from TD that requires .preinit_iMath() call with subsequent get_iMath().init() call, then
 		// there will be blood. So better use init4fixedBatchFprop() with 2 arguments and then doFixedBatchFprop
 		ErrorCode fprop(const realmtx_t& data_x)noexcept {
-			const auto ec = _init(data_x.batch_size());
+			const auto ec = _init4more(data_x.batch_size());
 			if (ErrorCode::Success != ec) return _set_last_error(ec);
 
 			_fprop(data_x);
@@ -1205,7 +1213,7 @@ namespace nntl {
 				STDCOUTL("*** warning: it's significantly better to perform gradient check with double floating point precision.");
 			}
 			//////////////////////////////////////////////////////////////////////////
-			const auto ec = _init(biggestBatchSize, biggestBatchSize, false);
+			const auto ec = _init4more(biggestBatchSize, biggestBatchSize);
 			if (ErrorCode::Success != ec) {
 				STDCOUTL("Failed to init nnet object for gradcheck. Reason: " << get_error_str(ec));
 				return false;
-- 
2.43.0


From 7697546b0022b2a73f58e7212783ad43003b6ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:40 +0000
Subject: [PATCH 33/43] fix: gradcheck: one of the batch sizes may be equal to
 the size of the dataset

---
 nntl/nnet.h             | 5 ++++-
 nntl/utils/dataHolder.h | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index c2c2b8d..ce64734 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -803,7 +803,10 @@ namespace nntl {
 
 			bool performCheck(const vec_len_t batchSize, const realmtx_t& data_x, const realmtx_t& data_y)noexcept {
 				const vec_len_t biggestBatch = ::std::max(batchSize, m_ngcSetts.onlineBatchSize);
-				m_data.init(biggestBatch == data_x.batch_size() ? 0 : biggestBatch, data_x, &data_y);
+				const vec_len_t smallestBatch = ::std::min(batchSize, m_ngcSetts.onlineBatchSize);
+				//when the biggest batch is the whole dataset, the data holder still must have a storage for the other, smaller batches
+				m_data.init(biggestBatch < data_x.batch_size() ? biggestBatch : (smallestBatch < data_x.batch_size() ? smallestBatch : 0)
+					, data_x, &data_y);
 				
 				bool bRet = false;
 				NNTL_ASSERT(m_ngcSetts.onlineBatchSize > 0);
diff --git a/nntl/utils/dataHolder.h b/nntl/utils/dataHolder.h
index 83ee29b..6655855 100644
--- a/nntl/utils/dataHolder.h
+++ b/nntl/utils/dataHolder.h
@@ -152,6 +152,7 @@ namespace utils {
 				};
 			}
 			NNTL_ASSERT(m_pBatchX->test_biases_strict());
+			m_next = m_rowsIdxs.cend();//batches of the new size start with a new shuffle
 		}
 		vec_len_t curBatchSize()const noexcept { return m_pBatchX->rows(); }
 
-- 
2.43.0


From 3e2a58b17aa167c12162a3bc83ab48b24f313953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:40 +0000
Subject: [PATCH 34/43] fix: gradcheck: a gradient or a loss value that is not
 a number must not pass

---
 nntl/nnet.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index ce64734..feb34dc 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -1116,7 +1116,8 @@ namespace nntl {
 					const real_t relErr = ::std::abs(dLan - dLnum) / ::std::max(::std::abs(dLan), ::std::abs(dLnum));
 					NNTL_ASSERT(!::std::isnan(relErr) && !::std::isinf(relErr));
 
-					if (relErr > *warnThrsh) {
+					//NaN (there's no gradient or the loss value isn't a number) is an error too
+					if (!(relErr <= *warnThrsh)) {
 						if (relErr < *failThrsh) {
 							char _s[128];
 							sprintf_s(_s, "Relative error = %g (thrsh %g). Probably not an error.", relErr, *warnThrsh);
-- 
2.43.0


From 59419a8d892a05ec4f159591ec8d0f2c48efbc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:40 +0000
Subject: [PATCH 35/43] fix: penalized LPHO: loss value must not include a
 penalty of the gating layer

---
 nntl/layer/extender.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/nntl/layer/extender.h b/nntl/layer/extender.h
index bd99e10..7a052de 100644
--- a/nntl/layer/extender.h
+++ b/nntl/layer/extender.h
@@ -143,7 +143,7 @@ namespace nntl {
 			// 			return _PAB_t::_pab_lossAddendum(get_activations(), get_iMath())
 			// 				+ (_base_class_t::hasLossAddendum() ? _base_class_t::lossAddendum() : real_t(0));
 			// 			//the commented code above costs about 2% of run time comparing to variant without _base_class_t::hasLossAddendum() call
-			return _PAB_t::_pab_lossAddendum(get_activations(), get_common_data())
+			return _lossAddendum4PA()
 				+ _base_class_t::lossAddendum();
 		}
 		template<bool c = bActivationPenalizationAvailable>
@@ -220,6 +220,20 @@ namespace nntl {
 		}
 
 	protected:
+		//the gating layer isn't penalized (see _fprop4PA() and _update_dLdA4PA()), so it mustn't contribute to the loss value
+		template<typename T = _base_class_t, bool ba = bActivationPenalizationAvailable>
+		::std::enable_if_t< ba && is_pack_gated<T>::value, real_t> _lossAddendum4PA()const noexcept {
+			//we won't modify activations, just a trick to create a wrapper matrix 
+			auto& act = const_cast<realmtxdef_t&>(get_activations());
+			auto nogateAct = act.submatrix_cols_no_bias(_base_class_t::gate_neurons_count, act.cols_no_bias() - _base_class_t::gate_neurons_count);
+			return _PAB_t::_pab_lossAddendum(nogateAct, get_common_data());
+		}
+
+		template<typename T = _base_class_t, bool ba = bActivationPenalizationAvailable>
+		::std::enable_if_t<ba && !is_pack_gated<T>::value, real_t> _lossAddendum4PA()const noexcept {
+			return _PAB_t::_pab_lossAddendum(get_activations(), get_common_data());
+		}
+
 		//////////////////////////////////////////////////////////////////////////
 		// fprop() handling for various underlying layer types
 		//////////////////////////////////////////////////////////////////////////		
-- 
2.43.0


From a7c84a0f599faba58f25094d3973c99a20588222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:15 +0000
Subject: [PATCH 36/43] fix: jsonreader read numbers an integral type can't
 hold as garbage

---
 nntl/_supp/io/jsonreader.h | 39 +++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/nntl/_supp/io/jsonreader.h b/nntl/_supp/io/jsonreader.h
index 935a3dc..59b51d3 100644
--- a/nntl/_supp/io/jsonreader.h
+++ b/nntl/_supp/io/jsonreader.h
@@ -246,12 +246,11 @@ namespace nntl_supp {
 				vec_len_t j = 0;
 				rapidjson::Document::ValueType::ConstValueIterator eiend = itr->End();
 				for (rapidjson::Document::ValueType::ConstValueIterator ei = itr->Begin(); ei != eiend; ++ei, ++j) {
-					if (!ei->IsNumber()) {
+					T_ v;
+					if (!ei->IsNumber() || !_extract_value(ei, v)) {
 						dest.clear();
 						return _members2ErrorCode(ErrorCode::InvalidTrainX, memberId);
 					}
-					//const mtx_value_t v = ei->GetDouble();
-					const T_ v = _extract_value<T_>(ei);
 					dest.set(j, i, v);
 				}
 			}
@@ -269,29 +268,39 @@ namespace nntl_supp {
 			vec_len_t i = 0;
 			rapidjson::Document::ValueType::ConstValueIterator itrend = vec.End();
 			for (rapidjson::Document::ValueType::ConstValueIterator itr = vec.Begin(); itr != itrend; ++itr, ++i) {
-				if (!itr->IsNumber()) {
+				T_ v;
+				if (!itr->IsNumber() || !_extract_value(itr, v)) {
 					dest.clear();
 					return _members2ErrorCode(ErrorCode::InvalidTrainX, memberId);
 				}
-
-				//const mtx_value_t v = itr->GetDouble();
-				const T_ v = _extract_value<T_>(itr);
 				dest.set(i, 0, v);
 			}
 			return ErrorCode::Success;
 		}
 		
 		template <typename mvt>
-		typename ::std::enable_if_t< ::std::is_floating_point<mvt>::value, mvt > _extract_value(rapidjson::Document::ValueType::ConstValueIterator & itr)const noexcept {
-			return static_cast<mvt>(itr->GetDouble());
-		}
-		template <typename mvt>
-		typename ::std::enable_if_t< ::std::is_integral<mvt>::value && ::std::is_signed<mvt>::value, mvt > _extract_value(rapidjson::Document::ValueType::ConstValueIterator & itr)const noexcept {
-			return static_cast<mvt>(itr->GetInt64());
+		static typename ::std::enable_if_t< ::std::is_floating_point<mvt>::value, bool > _extract_value(rapidjson::Document::ValueType::ConstValueIterator & itr, mvt& v)noexcept {
+			v = static_cast<mvt>(itr->GetDouble());
+			return true;
 		}
+		//a number that can't be represented by an integral type must be refused
 		template <typename mvt>
-		typename ::std::enable_if_t< ::std::is_integral<mvt>::value && ::std::is_unsigned<mvt>::value, mvt > _extract_value(rapidjson::Document::ValueType::ConstValueIterator & itr)const noexcept {
-			return static_cast<mvt>(itr->GetUint64());
+		static typename ::std::enable_if_t< ::std::is_integral<mvt>::value, bool > _extract_value(rapidjson::Document::ValueType::ConstValueIterator & itr, mvt& v)noexcept {
+			typedef ::std::numeric_limits<mvt> lim_t;
+			if (itr->IsInt64()) {
+				const auto n = itr->GetInt64();
+				v = static_cast<mvt>(n);
+				return (n < 0) == (v < mvt(0)) && static_cast<decltype(n)>(v) == n;
+			}
+			if (itr->IsUint64()) {
+				const auto n = itr->GetUint64();
+				v = static_cast<mvt>(n);
+				return v >= mvt(0) && static_cast<decltype(n)>(v) == n;
+			}
+			const double d = itr->GetDouble();
+			if (!(d >= static_cast<double>(lim_t::lowest()) && d < ::std::ldexp(1., lim_t::digits))) return false;
+			v = static_cast<mvt>(d);
+			return static_cast<double>(v) == d;
 		}
 
 		/*template <typename readInto_t, typename T_ = readInto_t::value_type>
-- 
2.43.0


From 54e341e48c12fe46b0c41de060af883b6f6cb83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:53 +0000
Subject: [PATCH 37/43] fix: SMath::init() terminated the process instead of
 answering false when there's no memory

---
 nntl/interface/math/smath.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nntl/interface/math/smath.h b/nntl/interface/math/smath.h
index b051392..deb1de9 100644
--- a/nntl/interface/math/smath.h
+++ b/nntl/interface/math/smath.h
@@ -230,8 +230,11 @@ namespace math {
 		// #note that init() as well as preinit() MUST allow subsequent calls without doing deinit() first.
 		bool init()noexcept {
 			if (conform_sign(m_threadTempRawStorage.size()) < m_minTempStorageSize) {
-				//TODO: memory allocation exception handling here!
-				m_threadTempRawStorage.resize(m_minTempStorageSize);
+				try {
+					m_threadTempRawStorage.resize(m_minTempStorageSize);
+				} catch (const ::std::exception&) {
+					return false;
+				}
 			}
 			NNTL_ASSERT(m_curStorElementsAllocated == 0 || !"WTF?! Internal storage MUST NOT be in use at this moment!");
 			m_curStorElementsAllocated = 0;
-- 
2.43.0


From fce4ea296f44511b5bc3eb7e3d30d27785b8090f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:54 +0000
Subject: [PATCH 38/43] fix: nnet: no memory for temporary storage terminated
 the process instead of being reported

---
 nntl/nnet.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nntl/nnet.h b/nntl/nnet.h
index feb34dc..fa01f39 100644
--- a/nntl/nnet.h
+++ b/nntl/nnet.h
@@ -421,7 +421,11 @@ namespace nntl {
 			const numel_cnt_t totalTempMemSize = _totalTrainingMemSize(bMiniBatch, batchSize);
 			//m_pTmpStor.reset(new(::std::nothrow)real_t[totalTempMemSize]);
 			//if (nullptr == m_pTmpStor.get()) return ErrorCode::CantAllocateMemoryForTempData;
-			m_pTmpStor.resize(totalTempMemSize);
+			try {
+				m_pTmpStor.resize(totalTempMemSize);
+			} catch (const ::std::exception&) {
+				return ErrorCode::CantAllocateMemoryForTempData;
+			}
 
 			const auto _memUsed = _processTmpStor(bMiniBatch, batchSize);
 			NNTL_ASSERT(totalTempMemSize == _memUsed);
-- 
2.43.0


From 71f7273c3298a358cb4de6909e446210aea22a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:54 +0000
Subject: [PATCH 39/43] fix: smatrix: resize() after a failed resize() to the
 same size answered true with no storage

---
 nntl/interface/math/smatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/interface/math/smatrix.h b/nntl/interface/math/smatrix.h
index 3a5bc78..4778324 100644
--- a/nntl/interface/math/smatrix.h
+++ b/nntl/interface/math/smatrix.h
@@ -1058,7 +1058,7 @@ namespace math {
 				NNTL_ASSERT(!"Wrong row or col count!");
 				return false;
 			}
-			if (r == m_rows && c == m_cols) return true;
+			if (r == m_rows && c == m_cols && !empty()) return true;
 			m_rows = r;
 			m_cols = c;
 			_realloc();
-- 
2.43.0


From 3673e1ae6f605c5419dc755d2399915711ded6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:54 +0000
Subject: [PATCH 40/43] fix: smatrix: constructors wrote biases to a null
 pointer when there was no memory

---
 nntl/interface/math/smatrix.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nntl/interface/math/smatrix.h b/nntl/interface/math/smatrix.h
index 4778324..9a16818 100644
--- a/nntl/interface/math/smatrix.h
+++ b/nntl/interface/math/smatrix.h
@@ -342,7 +342,7 @@ namespace math {
 			m_cols += (_bEmulBias & !bBatchInR);
 			m_rows += (_bEmulBias & bBatchInR);
 			_realloc();
-			if (_bEmulBias) set_biases();
+			if (_bEmulBias && !empty()) set_biases();
 		}
 
 		// #supportsBatchInRow
@@ -354,7 +354,7 @@ namespace math {
 			m_cols += (_bEmulBias & !bBatchInR);
 			m_rows += (_bEmulBias & bBatchInR);
 			_realloc();
-			if (_bEmulBias) set_biases();
+			if (_bEmulBias && !empty()) set_biases();
 		}
 
 		// #supportsBatchInRow
@@ -366,7 +366,7 @@ namespace math {
 			m_cols += (_bEmulBias & !bBatchInR);
 			m_rows += (_bEmulBias & bBatchInR);
 			_realloc();
-			if (m_bEmulateBiases) set_biases();
+			if (m_bEmulateBiases && !empty()) set_biases();
 		}
 		
 		//useExternalStorage(value_ptr_t ptr, const smatrix& sizeLikeThis) variation
-- 
2.43.0


From 22c78c4f4f3bd16385e6d09820e9b255b2151eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:54 +0000
Subject: [PATCH 41/43] fix: eval_classification_one_hot_cached: init() ignored
 a failure of iMath initialization

---
 nntl/nnet_evaluator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nntl/nnet_evaluator.h b/nntl/nnet_evaluator.h
index cf64d59..34d85d9 100644
--- a/nntl/nnet_evaluator.h
+++ b/nntl/nnet_evaluator.h
@@ -246,7 +246,7 @@ namespace nntl {
 
 			auto& iM = cd.iMath();
 			iM.preinit(iM.mrwIdxsOfMax_needTempMem<real_t>(biggestOutpBatch));
-			iM.init();
+			if (!iM.init()) return false;
 
 			try {
 				m_ydataClassIdxs[train_set_id].resize(trainSamples);
-- 
2.43.0


From 69fb80f7f7563a717e151ad386f7f343e31cb1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:54 +0000
Subject: [PATCH 42/43] fix: train data claimed to be ready for inference after
 a failed init4inference()

---
 nntl/train_data/_train_data_simple.h | 5 ++++-
 nntl/train_data/transf_train_data.h  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/nntl/train_data/_train_data_simple.h b/nntl/train_data/_train_data_simple.h
index b145202..b1abce3 100644
--- a/nntl/train_data/_train_data_simple.h
+++ b/nntl/train_data/_train_data_simple.h
@@ -156,7 +156,10 @@ namespace nntl {
 				}
 				m_maxFPropSize = maxFPropSize;
 
-				if (!get_self()._initBatches(maxFPropSize < biggestSetSize)) return nnet_errors_t::TdInitNoMemory;
+				if (!get_self()._initBatches(maxFPropSize < biggestSetSize)) {
+					get_self().deinit4all();
+					return nnet_errors_t::TdInitNoMemory;
+				}
 
 				return nnet_errors_t::Success;
 			}
diff --git a/nntl/train_data/transf_train_data.h b/nntl/train_data/transf_train_data.h
index e271091..13f0ab4 100644
--- a/nntl/train_data/transf_train_data.h
+++ b/nntl/train_data/transf_train_data.h
@@ -274,7 +274,10 @@ namespace nntl {
 				maxFPropSize = static_cast<vec_len_t>(realFPropSize);
 				m_maxFPropSize = maxFPropSize;
 
-				if (!m_TFunct.init(iM, m_tdStor, base_maxFPropSize)) return nnet_errors_t::OtherTdInitError;
+				if (!m_TFunct.init(iM, m_tdStor, base_maxFPropSize)) {
+					get_self().deinit4all();
+					return nnet_errors_t::OtherTdInitError;
+				}
 
 				return nnet_errors_t::Success;
 			}
-- 
2.43.0


From 26a064cf44e93eaf30132b6d4e3054719da439e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:09:08 +0000
Subject: [PATCH 43/43] fix: smatrix::nans_no_bias() declared holey biases,
 which it doesn't touch, whole

---
 nntl/interface/math/smatrix.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/nntl/interface/math/smatrix.h b/nntl/interface/math/smatrix.h
index 9a16818..f027a2a 100644
--- a/nntl/interface/math/smatrix.h
+++ b/nntl/interface/math/smatrix.h
@@ -1123,7 +1123,6 @@ namespace math {
 			NNTL_ASSERT(!emulatesBiases() || bBatchInColumn());
 			//::std::fill(m_pData, m_pData + numel(), value_type(1.0)); //doesn't get vectorized!
 			_fill_seq_elements(m_pData, numel_no_bias(), ::std::numeric_limits<value_type>::quiet_NaN());
-			m_bHoleyBiases = false;
 		}
 
 		//////////////////////////////////////////////////////////////////////////
-- 
2.43.0

