From af9e5d385e74d4d43c148da4e21f1846a37e8004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:13 +0000
Subject: [PATCH 01/60] fix: don't count threads blocked in a synchronous
 request as processing

Admission control skips tasks that don't fit in memory as long as some other
thread is processing. A pool thread waiting for a synchronous request was
counted, so once usage was over the limit the very request it waited for was
never started and the pool deadlocked.
---
 src/core/vscore.h         |  1 +
 src/core/vsthreadpool.cpp | 15 +++++++++++----
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/core/vscore.h b/src/core/vscore.h
index f006060..2077180 100644
--- a/src/core/vscore.h
+++ b/src/core/vscore.h
@@ -1022,6 +1022,7 @@ private:
     std::condition_variable allIdle;
     size_t activeThreads;
     size_t idleThreads;
+    size_t reservedThreads; // pool threads blocked in a synchronous request
     size_t reqCounter;
     size_t maxThreads;
 
diff --git a/src/core/vsthreadpool.cpp b/src/core/vsthreadpool.cpp
index b648e8c..3b6cadb 100644
--- a/src/core/vsthreadpool.cpp
+++ b/src/core/vsthreadpool.cpp
@@ -180,8 +180,11 @@ void VSThreadPool::runTasks(bool &stop) {
 // by a large factor before any other mechanism gets a chance to react, so don't start calls
 // whose predicted allocations don't fit in the allowed overshoot
 
+            // threads blocked in a synchronous request don't count as processing, they can't free anything
+            // until the frame they wait for has been produced
+
             int64_t expectedAlloc = node->expectedTransientAllocation();
-            if (expectedAlloc > 0 && processingThreads.load(std::memory_order_relaxed) > 0) {
+            if (expectedAlloc > 0 && processingThreads.load(std::memory_order_relaxed) > reservedThreads) {
                 int64_t memLimit = static_cast<int64_t>(core->memory->limit());
                 if (static_cast<int64_t>(core->memory->allocated_bytes()) + inflightAllocation.load(std::memory_order_relaxed) + expectedAlloc > memLimit + memLimit / 4)
                     continue;
@@ -384,7 +387,7 @@ void VSThreadPool::runTasks(bool &stop) {
     }
 }
 
-VSThreadPool::VSThreadPool(VSCore *core) : core(core), activeThreads(0), idleThreads(0), reqCounter(0), overLimitSince(0), lastCacheSweep(0), completedExternalFrames(0), inflightAllocation(0), processingThreads(0), cacheSweepActive(false), stopThreads(false), flushCaches(false) {
+VSThreadPool::VSThreadPool(VSCore *core) : core(core), activeThreads(0), idleThreads(0), reservedThreads(0), reqCounter(0), overLimitSince(0), lastCacheSweep(0), completedExternalFrames(0), inflightAllocation(0), processingThreads(0), cacheSweepActive(false), stopThreads(false), flushCaches(false) {
     setThreadCount(0);
 }
 
@@ -442,8 +445,10 @@ void VSThreadPool::startExternal(const PVSFrameContext &context) {
     std::lock_guard<std::mutex> l(taskLock);
     context->reqOrder = ++reqCounter;
     context->reserveThread = context->reserveThread && (allThreads.count(std::this_thread::get_id()) > 0);
-    if (context->reserveThread)
+    if (context->reserveThread) {
         --activeThreads;
+        ++reservedThreads;
+    }
     assert(context);
     // A reserveThread request comes from a pool thread that immediately blocks waiting for this exact
     // frame. Parking it in altTasks during a flush would deadlock: the blocked thread never becomes idle,
@@ -488,8 +493,10 @@ void VSThreadPool::returnFrame(VSFrameContext *rCtx, const PVSFrame &f, std::uni
     if (core->enableFrameRefDebug)
         core->logMessage(mtInformation, core->getFrameRefInfo());
     lock.lock();
-    if (reserveThread)
+    if (reserveThread) {
         ++activeThreads;
+        --reservedThreads;
+    }
 }
 
 void VSThreadPool::startInternalRequest(const PVSFrameContext &notify, NodeOutputKey key) {
-- 
2.43.0


From 281271b200b15137811c326d11fe90c3f87da661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:25:59 +0000
Subject: [PATCH 02/60] fix: data race between frame creation and listing with
 frame reference debugging

The allocation info string was written after the frame had been added to the
list other threads print.
---
 src/core/vscore.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/vscore.cpp b/src/core/vscore.cpp
index 49a9fbc..51b51d7 100644
--- a/src/core/vscore.cpp
+++ b/src/core/vscore.cpp
@@ -155,6 +155,8 @@ void VSPlaneData::release() noexcept {
 ///////////////
 
 void VSFrame::setAllocationInfo() noexcept {
+    // the frame is already registered at this point so other threads may be listing it
+    std::lock_guard<std::mutex> lock(core->frameRefMutex);
     VSNode *currentNode = core->currentProcessingNode;
 
     if (contentType == mtVideo) {
-- 
2.43.0


From 1f6af399c9a9cb2f6552a589eb8695efe57fd565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:31 +0000
Subject: [PATCH 03/60] fix: data race between registering and invoking plugin
 functions

---
 src/core/vscore.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/vscore.cpp b/src/core/vscore.cpp
index 51b51d7..bd338d4 100644
--- a/src/core/vscore.cpp
+++ b/src/core/vscore.cpp
@@ -2425,9 +2425,9 @@ bool VSPlugin::registerFunction(const std::string &name, const std::string &args
 }
 
 VSMap *VSPlugin::invoke(const std::string &funcName, const VSMap &args) {
-    auto it = funcs.find(funcName);
-    if (it != funcs.end()) {
-        return it->second.invoke(args);
+    // functions are never removed so only the lookup has to be protected against concurrent registration
+    if (VSPluginFunction *func = getFunctionByName(funcName)) {
+        return func->invoke(args);
     } else {
         VSMap *v = new VSMap();
         vs_internal_vsapi.mapSetError(v, ("Function '" + funcName + "' not found in " + id).c_str());
-- 
2.43.0


From b5bff53712e5f947feb95a7725685cb5babadb37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:05 +0000
Subject: [PATCH 04/60] fix: round to nearest-even in the portable float to
 half conversion

The kernels built without F16C rounded ties away from zero, unlike the ones that use
the hardware conversion and the scalar reference they are meant to match.
---
 src/core/float16_helper.h | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/core/float16_helper.h b/src/core/float16_helper.h
index 7b424f7..b2414d9 100644
--- a/src/core/float16_helper.h
+++ b/src/core/float16_helper.h
@@ -65,26 +65,25 @@ static constexpr inline uint16_t floatToHalf(float x) {
 #if VS_HAVE_NATIVE_FLOAT16
     return std::bit_cast<uint16_t>(_Float16(x));
 #else
-    float magic = std::bit_cast<float>((uint32_t)15 << 23);
     uint32_t inf = 255UL << 23;
-    uint32_t f16inf = 31UL << 23;
+    uint32_t f16overflow = (uint32_t)(127 + 16) << 23;              // smallest power of two without a finite half
+    uint32_t f16normal = (uint32_t)113 << 23;                       // smallest normal half
+    uint32_t denorm_magic = (uint32_t)((127 - 15) + (23 - 10) + 1) << 23;
     uint32_t sign_mask = 0x80000000UL;
-    uint32_t round_mask = ~0x0FFFU;
     uint16_t ret;
     uint32_t f = std::bit_cast<uint32_t>(x);
     uint32_t sign = f & sign_mask;
     f ^= sign;
 
-    if (f >= inf) {
+    if (f >= f16overflow) {
         ret = f > inf ? 0x7E00 : 0x7C00;
-    } else {
-        f &= round_mask;
-        f = std::bit_cast<uint32_t>(std::bit_cast<float>(f) * magic);
-        f -= round_mask;
-
-        if (f > f16inf)
-            f = f16inf;
-
+    } else if (f < f16normal) {              // zero / denormal: let the addition align and round the mantissa
+        f = std::bit_cast<uint32_t>(std::bit_cast<float>(f) + std::bit_cast<float>(denorm_magic));
+        ret = (uint16_t)(f - denorm_magic);
+    } else {                                 // rebias exponent and round to nearest-even
+        uint32_t odd = (f >> 13) & 1;
+        f -= (uint32_t)(127 - 15) << 23;
+        f += 0x0FFF + odd;
         ret = (uint16_t)(f >> 13);
     }
 
-- 
2.43.0


From 546e728246a9284d98d4c705da510df6a1740c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:44 +0000
Subject: [PATCH 05/60] fix: refuse to pass planes through Lut and Lut2 when
 the output sample size differs

The unprocessed planes kept the buffers of the source format and were then read past
their end.
---
 src/core/lutfilters.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/core/lutfilters.cpp b/src/core/lutfilters.cpp
index d1dd677..0f62fc0 100644
--- a/src/core/lutfilters.cpp
+++ b/src/core/lutfilters.cpp
@@ -281,6 +281,11 @@ static void VS_CC lutCreate(const VSMap *in, VSMap *out, void *userData, VSCore
 
         getPlanesArg(in, d->process, vsapi);
 
+        for (int plane = 0; plane < d->vi->format.numPlanes; plane++) {
+            if (!d->process[plane] && d->vi->format.bytesPerSample != d->vi_out.format.bytesPerSample)
+                RETERROR("Lut: all planes must be processed when the output format has a different sample size");
+        }
+
         VSFunction *func = vsapi->mapGetFunction(in, "function", 0, &err);
         int lut_elem = vsapi->mapNumElements(in, "lut");
         int lutf_elem = vsapi->mapNumElements(in, "lutf");
@@ -592,6 +597,11 @@ static void VS_CC lut2Create(const VSMap *in, VSMap *out, void *userData, VSCore
 
         getPlanesArg(in, d->process, vsapi);
 
+        for (int plane = 0; plane < d->vi[0]->format.numPlanes; plane++) {
+            if (!d->process[plane] && d->vi[0]->format.bytesPerSample != d->vi_out.format.bytesPerSample)
+                RETERROR("Lut2: all planes must be processed when the output format has a different sample size");
+        }
+
         VSFunction *func = vsapi->mapGetFunction(in, "function", 0, &err);
         int lut_elem = vsapi->mapNumElements(in, "lut");
         int lutf_elem = vsapi->mapNumElements(in, "lutf");
-- 
2.43.0


From 3837b690acdf8317c88b5d396ab087c3bf0c66ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:44 +0000
Subject: [PATCH 06/60] fix: check that the second Lut2 clip has the planes to
 be processed

---
 src/core/lutfilters.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/lutfilters.cpp b/src/core/lutfilters.cpp
index 0f62fc0..de5ea65 100644
--- a/src/core/lutfilters.cpp
+++ b/src/core/lutfilters.cpp
@@ -598,6 +598,8 @@ static void VS_CC lut2Create(const VSMap *in, VSMap *out, void *userData, VSCore
         getPlanesArg(in, d->process, vsapi);
 
         for (int plane = 0; plane < d->vi[0]->format.numPlanes; plane++) {
+            if (d->process[plane] && plane >= d->vi[1]->format.numPlanes)
+                RETERROR("Lut2: the second clip doesn't have all the planes to be processed");
             if (!d->process[plane] && d->vi[0]->format.bytesPerSample != d->vi_out.format.bytesPerSample)
                 RETERROR("Lut2: all planes must be processed when the output format has a different sample size");
         }
-- 
2.43.0


From 6903b2cbf9731ba62bff77a546dd92cd131993a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:22 +0000
Subject: [PATCH 07/60] fix: refuse a MaskedMerge mask of a different sample
 type

A 16 bit integer mask was accepted for a half float clip and the other way
around, and its samples were reinterpreted.
---
 src/core/mergefilters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/mergefilters.cpp b/src/core/mergefilters.cpp
index e54e37f..ea147b9 100644
--- a/src/core/mergefilters.cpp
+++ b/src/core/mergefilters.cpp
@@ -610,7 +610,7 @@ static void VS_CC maskedMergeCreate(const VSMap *in, VSMap *out, void *userData,
         RETERROR(("MaskedMerge: both clips must have the same constant format and dimensions, passed " + videoInfoToString(d->vi, vsapi) + " and " + videoInfoToString(vsapi->getVideoInfo(d->nodes[1]), vsapi)).c_str());
 
     if (maskvi->width != d->vi->width || maskvi->height != d->vi->height || maskvi->format.bitsPerSample != d->vi->format.bitsPerSample
-        || (!isSameVideoFormat(&maskvi->format, &d->vi->format) && maskvi->format.colorFamily != cfGray && !d->first_plane))
+        || maskvi->format.sampleType != d->vi->format.sampleType || (!isSameVideoFormat(&maskvi->format, &d->vi->format) && maskvi->format.colorFamily != cfGray && !d->first_plane))
         RETERROR(("MaskedMerge: mask clip must have same dimensions as main clip and be the same format or grayscale, passed " + videoInfoToString(d->vi, vsapi) + " and " + videoInfoToString(maskvi, vsapi)).c_str());
 
     if (!getProcessPlanesArg(in, out, "MaskedMerge", d->process, vsapi))
-- 
2.43.0


From d67ea841c7005e340f9daf6b58338a86e87778f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:59 +0000
Subject: [PATCH 08/60] fix: allocate enough scratch space for the separable
 convolution

With AVX-512 the last horizontal block reads up to 32 + 31 + 12 samples past the
row while only 32 were allocated, a heap over-read of up to 22 bytes.
---
 src/core/kernel/x86/convolution_impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/kernel/x86/convolution_impl.h b/src/core/kernel/x86/convolution_impl.h
index 71cdf45..58b4c41 100644
--- a/src/core/kernel/x86/convolution_impl.h
+++ b/src/core/kernel/x86/convolution_impl.h
@@ -702,7 +702,8 @@ void conv_plane_x(const void *src, ptrdiff_t src_stride, void *dst, ptrdiff_t ds
     // Multi-pass threshold = 9 (v), 13 (h).
     auto kernel_v = select_conv_scanline_v_for<ISA>(T{})(params.matrixsize);
     auto kernel_h = select_conv_scanline_h_for<ISA>(T{})(params.matrixsize);
-    T *tmp1 = vsh::vsh_aligned_malloc<T>((width + 64) * sizeof(T), ISA::ALIGN);
+    // 32 before, then width rounded up to HBLK, 12 taps and the rest of the last vector read.
+    T *tmp1 = vsh::vsh_aligned_malloc<T>((width + 96) * sizeof(T), ISA::ALIGN);
     void *tmp2 = (params.matrixsize > 9 && std::is_integral<T>::value) ? vsh::vsh_aligned_malloc((width + ISA::TMP_PAD) * sizeof(int32_t), ISA::ALIGN) : nullptr;
 
     for (unsigned i = 0; i < height; ++i) {
-- 
2.43.0


From ad5374d7adfafb02ebf952c95cd16b04eb02dd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:57 +0000
Subject: [PATCH 09/60] fix: keep the constant of an Expr sum whose other terms
 cancel out

x x - 76 - gave 0 instead of -76.
---
 src/core/expr/expr.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/expr/expr.cpp b/src/core/expr/expr.cpp
index 4b5e282..07a94da 100644
--- a/src/core/expr/expr.cpp
+++ b/src/core/expr/expr.cpp
@@ -801,7 +801,7 @@ public:
                 head = addNode;
             }
         } else {
-            head = tree.makeNode({ ExprOpType::CONSTANT, 0.0f });
+            head = tree.makeNode({ ExprOpType::CONSTANT, scalarTerm });
         }
 
         return head;
-- 
2.43.0


From 568999135c4b25b99706d86631c6e5918a8b94c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:43 +0000
Subject: [PATCH 10/60] fix: do not distribute fractional powers over Expr
 products

sqrt(x * x) / 2 was reduced to x / 2 and sqrt(x * y) / 2 to
x ** 0.5 * y ** 0.5 / 2, which is wrong for negative operands.
---
 src/core/expr/expr.cpp | 61 +++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 24 deletions(-)

diff --git a/src/core/expr/expr.cpp b/src/core/expr/expr.cpp
index 07a94da..133809f 100644
--- a/src/core/expr/expr.cpp
+++ b/src/core/expr/expr.cpp
@@ -526,24 +526,41 @@ class ExponentMap {
     // e.g. 3 * v0^2 * v1^3
     // map = { 0: 2, 1: 3 }, coeff = 3
     std::map<int, float> map; // key = valueNum, value = exponent
-    std::vector<int> origSequence;
+    std::vector<std::pair<int, float>> origSequence; // valueNum, exponent
     float coeff;
 
+    // (a * b) ** c = a ** c * b ** c    (a ** b) ** c = a ** (b * c)
+    //
+    // Only true for negative bases if c is an integer, e.g. sqrt(x * x) is not x.
+    static bool isExpandable(const ExpressionTreeNode &value, float exponent)
+    {
+        if (!isInteger(exponent))
+            return false;
+
+        return (value.op == ExprOpType::POW && isConstant(*value.right)) || value.op == ExprOpType::MUL || value.op == ExprOpType::DIV;
+    }
+
     bool expandOrigSequence(ValueIndex &index)
     {
         bool changed = false;
 
         for (size_t i = 0; i < origSequence.size(); ++i) {
-            const ExpressionTreeNode *value = index.at(origSequence[i]);
+            float exponent = origSequence[i].second;
+            const ExpressionTreeNode *value = index.at(origSequence[i].first);
 
-            if (value->op == ExprOpType::POW && isConstant(*value->right)) {
-                origSequence[i] = value->left->valueNum;
-                changed = true;
-            } else if (value->op == ExprOpType::MUL || value->op == ExprOpType::DIV) {
-                origSequence[i] = value->left->valueNum;
-                origSequence.insert(origSequence.begin() + i + 1, value->right->valueNum);
-                changed = true;
+            if (!isExpandable(*value, exponent))
+                continue;
+
+            index[value->left->valueNum] = value->left;
+            index[value->right->valueNum] = value->right;
+
+            if (value->op == ExprOpType::POW) {
+                origSequence[i] = { value->left->valueNum, exponent * value->right->op.imm.f };
+            } else {
+                origSequence[i] = { value->left->valueNum, exponent };
+                origSequence.insert(origSequence.begin() + i + 1, { value->right->valueNum, value->op == ExprOpType::DIV ? -exponent : exponent });
             }
+            changed = true;
         }
 
         return changed;
@@ -555,36 +572,32 @@ class ExponentMap {
 
         for (auto it = map.begin(); it != map.end();) {
             const ExpressionTreeNode *value = index.at(it->first);
-            bool erase = false;
 
-            if (value->op == ExprOpType::POW && isConstant(*value->right)) {
+            if (!isExpandable(*value, it->second)) {
+                ++it;
+                continue;
+            }
+
+            if (value->op == ExprOpType::POW) {
                 index[value->left->valueNum] = value->left;
 
                 map[value->left->valueNum] += it->second * value->right->op.imm.f;
-                erase = true;
             } else if (value->op == ExprOpType::MUL) {
                 index[value->left->valueNum] = value->left;
                 index[value->right->valueNum] = value->right;
 
                 map[value->left->valueNum] += it->second;
                 map[value->right->valueNum] += it->second;
-                erase = true;
             } else if (value->op == ExprOpType::DIV) {
                 index[value->left->valueNum] = value->left;
                 index[value->right->valueNum] = value->right;
 
                 map[value->left->valueNum] += it->second;
                 map[value->right->valueNum] -= it->second;
-                erase = true;
             }
 
-            if (erase) {
-                it = map.erase(it);
-                changed = true;
-                continue;
-            }
-
-            ++it;
+            it = map.erase(it);
+            changed = true;
         }
 
         return changed;
@@ -608,7 +621,7 @@ public:
     void addTerm(int valueNum, float exp)
     {
         map[valueNum] += exp;
-        origSequence.push_back(valueNum);
+        origSequence.push_back({ valueNum, exp });
     }
 
     void addCoeff(float val) { coeff += val; }
@@ -652,8 +665,8 @@ public:
     bool isCanonical(const ValueIndex &index) const
     {
         std::vector<std::pair<int, float>> tmp;
-        for (int x : origSequence) {
-            tmp.push_back({ x, 1.0f });
+        for (const auto &x : origSequence) {
+            tmp.push_back({ x.first, 1.0f });
         }
         return std::is_sorted(tmp.begin(), tmp.end(), CanonicalCompare{ index });
     }
-- 
2.43.0


From 3e37aa176e5a1343a1f64018ae9eb9144c973f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:04 +0000
Subject: [PATCH 11/60] fix: evaluate Expr powers that are multiples of 1/4
 without overflowing

x ** 2.25 was evaluated as sqrt(sqrt(x ** 9)), which overflows for
16 bit samples.
---
 src/core/expr/expr.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/src/core/expr/expr.cpp b/src/core/expr/expr.cpp
index 133809f..5f83690 100644
--- a/src/core/expr/expr.cpp
+++ b/src/core/expr/expr.cpp
@@ -1307,11 +1307,29 @@ bool applyStrengthReduction(ExpressionTree &tree)
         }
 
         // x ** (n / 2) = sqrt(x ** n)    x ** (n / 4) = sqrt(sqrt(x ** n))
+        //
+        // Larger powers are inverted if negative and have their integral part split off first, so that x ** n does not overflow.
         if (node.op == ExprOpType::POW && isConstant(*node.right) && !isInteger(node.right->op.imm.f) && isInteger(node.right->op.imm.f * 4.0f)) {
+            float exponent = node.right->op.imm.f;
             ExpressionTreeNode *dup = tree.clone(&node);
-            replaceNode(node, ExpressionTreeNode{ ExprOpType::SQRT });
-            node.setLeft(dup);
-            node.left->right->op.imm.f *= 2.0f;
+
+            if (exponent < -1.5f) {
+                replaceNode(node, ExpressionTreeNode{ ExprOpType::DIV });
+                node.setLeft(tree.makeNode({ ExprOpType::CONSTANT, 1.0f }));
+                node.setRight(dup);
+                node.right->right->op.imm.f = -exponent;
+            } else if (exponent > 1.5f) {
+                ExpressionTreeNode *frac = tree.clone(&node);
+                replaceNode(node, ExpressionTreeNode{ ExprOpType::MUL });
+                node.setLeft(dup);
+                node.left->right->op.imm.f = std::floor(exponent);
+                node.setRight(frac);
+                node.right->right->op.imm.f = exponent - std::floor(exponent);
+            } else {
+                replaceNode(node, ExpressionTreeNode{ ExprOpType::SQRT });
+                node.setLeft(dup);
+                node.left->right->op.imm.f *= 2.0f;
+            }
             changed = true;
         }
 
-- 
2.43.0


From a87372c70435578df3bde27c9dccfa8f3bdb1d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:04 +0000
Subject: [PATCH 12/60] fix: do not crash on Expr powers with very large
 exponents

The exponent was converted to int, which overflowed and recursed forever.
---
 src/core/expr/expr.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/core/expr/expr.cpp b/src/core/expr/expr.cpp
index 5f83690..acd4cb2 100644
--- a/src/core/expr/expr.cpp
+++ b/src/core/expr/expr.cpp
@@ -1127,7 +1127,7 @@ bool applyLocalOptimizations(ExpressionTree &tree)
             float exp_second = node.right->op.imm.f;
 
             // Exponentiation to even power eliminates sign. Exponential by non-integer implies non-negative base.
-            if (isInteger(exp_first) && static_cast<int>(exp_first) % 2 == 0 && !isInteger(exp_second)) {
+            if (isInteger(exp_first) && std::fmod(exp_first, 2.0f) == 0.0f && !isInteger(exp_second)) {
                 ExpressionTreeNode *base = node.left->left;
                 node.setLeft(tree.makeNode(ExprOpType::ABS));
                 node.left->setLeft(base);
@@ -1347,7 +1347,27 @@ bool applyStrengthReduction(ExpressionTree &tree)
         //
         // This step is required, or else the canonical expressions generated by the algebraic pass will evaluate incorrectly
         // when processed by the inexact pow() functions used in JIT, e.g. negative bases are unsupported!
-        if (node.op == ExprOpType::POW && isConstant(*node.right) && isInteger(node.right->op.imm.f) && node.right->op.imm.f > 0) {
+        //
+        // Exponents too large to be expanded are applied to the absolute value.
+        constexpr float max_expanded_exponent = 65536.0f;
+
+        if (node.op == ExprOpType::POW && isConstant(*node.right) && isInteger(node.right->op.imm.f) && node.right->op.imm.f > max_expanded_exponent) {
+            if (std::fmod(node.right->op.imm.f, 2.0f) == 1.0f) {
+                // x ** N = (x ** (N - 1)) * x
+                ExpressionTreeNode *dup = tree.clone(&node);
+                ExpressionTreeNode *base = tree.clone(node.left);
+                replaceNode(node, ExpressionTreeNode{ ExprOpType::MUL });
+                node.setLeft(dup);
+                node.left->right->op.imm.f -= 1.0f;
+                node.setRight(base);
+                changed = true;
+            } else if (node.left->op != ExprOpType::ABS) {
+                ExpressionTreeNode *base = node.left;
+                node.setLeft(tree.makeNode(ExprOpType::ABS));
+                node.left->setLeft(base);
+                changed = true;
+            }
+        } else if (node.op == ExprOpType::POW && isConstant(*node.right) && isInteger(node.right->op.imm.f) && node.right->op.imm.f > 0) {
             ExpressionTreeNode *replacement = emitIntegerPow(tree, *node.left, static_cast<int>(node.right->op.imm.f));
             replaceNode(node, *replacement);
             changed = true;
-- 
2.43.0


From 1942a90424d42780585fc2dca3edcb7559da5910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:44 +0000
Subject: [PATCH 13/60] fix: DoubleWeave always marked a frame woven from twice
 the same field as top field first

---
 src/core/simplefilters.cpp | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index 6b82c43..2f28897 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -794,22 +794,14 @@ static const VSFrame *VS_CC doubleWeaveGetframe(int n, int activationReason, voi
 
         const VSFrame *srctop = nullptr;
         const VSFrame *srcbtn = nullptr;
+        bool topFirst; // both fields may be the same frame so it can't be determined by comparing the pointers
 
         if (src1_field == 0 && src2_field == 1) {
-            srcbtn = src1;
-            srctop = src2;
+            topFirst = false;
         } else if (src1_field == 1 && src2_field == 0) {
-            srctop = src1;
-            srcbtn = src2;
+            topFirst = true;
         } else if (d->tff != -1) {
-            int par = (n & 1) ^ d->tff;
-            if (par) {
-                srctop = src1;
-                srcbtn = src2;
-            } else {
-                srctop = src2;
-                srcbtn = src1;
-            }
+            topFirst = !!((n & 1) ^ d->tff);
         } else {
             vsapi->setFilterError("DoubleWeave: field order could not be determined from frame properties", frameCtx);
             vsapi->freeFrame(src1);
@@ -817,11 +809,19 @@ static const VSFrame *VS_CC doubleWeaveGetframe(int n, int activationReason, voi
             return nullptr;
         }
 
+        if (topFirst) {
+            srctop = src1;
+            srcbtn = src2;
+        } else {
+            srctop = src2;
+            srcbtn = src1;
+        }
+
         VSFrame *dst = vsapi->newVideoFrame(&d->vi.format, d->vi.width, d->vi.height, src1, core);
         const VSVideoFormat *fi = vsapi->getVideoFrameFormat(dst);
         VSMap *dstprops = vsapi->getFramePropertiesRW(dst);
         vsapi->mapDeleteKey(dstprops, "_Field");
-        vsapi->mapSetInt(dstprops, "_FieldBased", 1 + (srctop == src1), maReplace);
+        vsapi->mapSetInt(dstprops, "_FieldBased", topFirst ? VSC_FIELD_TOP : VSC_FIELD_BOTTOM, maReplace);
 
         for (int plane = 0; plane < fi->numPlanes; plane++) {
             const uint8_t *srcptop = vsapi->getReadPtr(srctop, plane);
-- 
2.43.0


From 7b3aab02cd3ac258ed9e97a3e989ac9f0078351e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:44 +0000
Subject: [PATCH 14/60] fix: out of range colors were accepted for 32 bit
 formats by AddBorders and BlankClip

---
 src/core/simplefilters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index 2f28897..2ca9051 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -58,7 +58,7 @@ static inline uint32_t doubleToIntPixelValue(double v, int bits, int *err) {
     }
 
     uint32_t i = doubleToUInt32S(v);
-    if (i >= ((uint64_t)1 << bits)) {
+    if (v >= UINT32_MAX + 0.5 || i >= ((uint64_t)1 << bits)) {
         *err = 1;
         return 0;
     }
-- 
2.43.0


From 7a73615f76bfc69ee548e255c13d076e1047e5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:37 +0000
Subject: [PATCH 15/60] fix: SplitPlanes aborted the process on clips with
 variable dimensions and leaked a reference on variable formats

---
 src/core/simplefilters.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index 2ca9051..2e842c6 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -635,6 +635,7 @@ static void VS_CC splitPlanesCreate(const VSMap *in, VSMap *out, void *userData,
 
     if (vi->format.colorFamily == cfUndefined) {
         vsapi->mapSetError(out, "SplitPlanes: only constant format clips supported");
+        vsapi->freeNode(node);
         return;
     }
 
@@ -653,6 +654,11 @@ static void VS_CC splitPlanesCreate(const VSMap *in, VSMap *out, void *userData,
     for (int i = 0; i < numPlanes; i++) {
         vsapi->mapSetInt(map, "planes", i, maReplace);
         VSMap *tmp = vsapi->invoke(vsapi->getPluginByID(VSH_STD_PLUGIN_ID, core), "ShufflePlanes", map);
+        if (vsapi->mapGetError(tmp)) {
+            vsapi->mapSetError(out, vsapi->mapGetError(tmp));
+            vsapi->freeMap(tmp);
+            break;
+        }
         vsapi->mapConsumeNode(out, "clip", vsapi->mapGetNode(tmp, "clip", 0, nullptr), maAppend);
         vsapi->freeMap(tmp);
     }
-- 
2.43.0


From 6971d58f9b2cbf18f027660925f38011173f48c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:22 +0000
Subject: [PATCH 16/60] fix: signed overflow in Interleave when the extended
 clip is too long

---
 src/core/reorderfilters.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/reorderfilters.cpp b/src/core/reorderfilters.cpp
index d3b5760..b80f6a3 100644
--- a/src/core/reorderfilters.cpp
+++ b/src/core/reorderfilters.cpp
@@ -242,7 +242,8 @@ static void VS_CC interleaveCreate(const VSMap *in, VSMap *out, void *userData,
         if (extend) {
             if (d->vi.numFrames > INT_MAX / d->numclips)
                 overflow = true;
-            d->vi.numFrames *= d->numclips;
+            else
+                d->vi.numFrames *= d->numclips;
         } else {
             // this is exactly how avisynth does it
             d->vi.numFrames = 0;
-- 
2.43.0


From 7a362ac31b7886bc63c308718090b8339d83ffb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:20 +0000
Subject: [PATCH 17/60] fix: mapDeleteKey read the key after deleting it when
 given a string returned by mapGetKey

---
 src/core/vsapi.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/vsapi.cpp b/src/core/vsapi.cpp
index 8df20d0..b34096d 100644
--- a/src/core/vsapi.cpp
+++ b/src/core/vsapi.cpp
@@ -496,8 +496,9 @@ static const VSFrame *VS_CC mapGetFrame(const VSMap *map, const char *key, int i
 
 static int VS_CC mapDeleteKey(VSMap *map, const char *key) VS_NOEXCEPT {
     assert(map && key);
+    bool isColorRange = !strcmp(key, "_ColorRange"); // the key may be a string owned by the map, it isn't valid after the erase
     bool result = map->erase(key);
-    if (!strcmp(key, "_ColorRange"))
+    if (isColorRange)
         result = map->erase("_Range") || result;
     return result;
 }
-- 
2.43.0


From 88a950beb1ac72f473c7c7b5bbf2b2ce487cc5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:21 +0000
Subject: [PATCH 18/60] fix: PEMVerifier shifted out of range for 32 bit float
 formats

---
 src/core/simplefilters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index 2e842c6..922cb01 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -1870,7 +1870,7 @@ static void VS_CC pemVerifierCreate(const VSMap *in, VSMap *out, void *userData,
 
     if (numupper < 0) {
         for (int i = 0; i < vi->format.numPlanes; i++) {
-            d->upper[i] = (1 << vi->format.bitsPerSample) - 1;
+            d->upper[i] = (vi->format.sampleType == stInteger) ? (1 << vi->format.bitsPerSample) - 1 : 0;
             d->upperf[i] = (vi->format.colorFamily == cfYUV && i) ? 0.5f : 1.0f;
         }
     } else if (numupper == vi->format.numPlanes) {
-- 
2.43.0


From 5f6534651db48dc2f189a3fcaaf24738a06cbcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:45 +0000
Subject: [PATCH 19/60] fix: AudioTrim accepted lengths big enough to overflow

---
 src/core/audiofilters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/audiofilters.cpp b/src/core/audiofilters.cpp
index 7e967c5..3e9e8c8 100644
--- a/src/core/audiofilters.cpp
+++ b/src/core/audiofilters.cpp
@@ -123,7 +123,7 @@ static void VS_CC audioTrimCreate(const VSMap *in, VSMap *out, void *userData, V
     if (lengthset && length < 1)
         RETERROR("AudioTrim: invalid length specified (less than 1)");
 
-    if ((lastset && last >= d->ai.numSamples) || (lengthset && (d->first + length) > d->ai.numSamples))
+    if ((lastset && last >= d->ai.numSamples) || (lengthset && length > d->ai.numSamples - d->first))
         RETERROR("AudioTrim: last sample beyond clip end");
 
     if (lastset) {
-- 
2.43.0


From aa6f6a6b33542d0b2070ba94f6c06bd37ec18021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:45 +0000
Subject: [PATCH 20/60] fix: AudioGain and AudioMix reported clipping in wrong
 intervals past 2^31 samples

---
 src/core/audiofilters.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/core/audiofilters.cpp b/src/core/audiofilters.cpp
index 3e9e8c8..26c0cde 100644
--- a/src/core/audiofilters.cpp
+++ b/src/core/audiofilters.cpp
@@ -498,10 +498,10 @@ static const VSFrame *VS_CC audioGainGetFrame16(int n, int activationReason, voi
                 double value = quantizeIntSample(static_cast<double>(srcPtr[i]) * gain, range, sampleClipped);
                 if (sampleClipped) {
                     if (d->overflowError) {
-                        vsapi->setFilterError(("AudioGain: clipping detected in the sample interval " + std::to_string(n * VS_AUDIO_FRAME_SAMPLES) + " to " + std::to_string(n * VS_AUDIO_FRAME_SAMPLES + length - 1)).c_str(), frameCtx);
+                        vsapi->setFilterError(("AudioGain: clipping detected in the sample interval " + std::to_string(n * static_cast<int64_t>(VS_AUDIO_FRAME_SAMPLES)) + " to " + std::to_string(n * static_cast<int64_t>(VS_AUDIO_FRAME_SAMPLES) + length - 1)).c_str(), frameCtx);
                         error = true;
                     } else if (!d->overflowWarned.exchange(true)) {
-                        vsapi->logMessage(mtWarning, ("AudioGain: clipping detected in the sample interval " + std::to_string(n * VS_AUDIO_FRAME_SAMPLES) + " to " + std::to_string(n * VS_AUDIO_FRAME_SAMPLES  + length - 1) + ", only the first encountered clipped segment has a warning printed").c_str(), core);
+                        vsapi->logMessage(mtWarning, ("AudioGain: clipping detected in the sample interval " + std::to_string(n * static_cast<int64_t>(VS_AUDIO_FRAME_SAMPLES)) + " to " + std::to_string(n * static_cast<int64_t>(VS_AUDIO_FRAME_SAMPLES)  + length - 1) + ", only the first encountered clipped segment has a warning printed").c_str(), core);
                     }
                 }
 
@@ -544,10 +544,10 @@ static const VSFrame *VS_CC audioGainGetFrame32(int n, int activationReason, voi
                 double value = quantizeIntSample(static_cast<double>(srcPtr[i]) * gain, range, sampleClipped);
                 if (sampleClipped) {
                     if (d->overflowError) {
-                        vsapi->setFilterError(("AudioGain: clipping detected in the sample interval " + std::to_string(n * VS_AUDIO_FRAME_SAMPLES) + " to " + std::to_string(n * VS_AUDIO_FRAME_SAMPLES + length - 1)).c_str(), frameCtx);
+                        vsapi->setFilterError(("AudioGain: clipping detected in the sample interval " + std::to_string(n * static_cast<int64_t>(VS_AUDIO_FRAME_SAMPLES)) + " to " + std::to_string(n * static_cast<int64_t>(VS_AUDIO_FRAME_SAMPLES) + length - 1)).c_str(), frameCtx);
                         error = true;
                     } else if (!d->overflowWarned.exchange(true)) {
-                        vsapi->logMessage(mtWarning, ("AudioGain: clipping detected in the sample interval " + std::to_string(n * VS_AUDIO_FRAME_SAMPLES) + " to " + std::to_string(n * VS_AUDIO_FRAME_SAMPLES + length - 1) + ", only the first encountered clipped segment has a warning printed").c_str(), core);
+                        vsapi->logMessage(mtWarning, ("AudioGain: clipping detected in the sample interval " + std::to_string(n * static_cast<int64_t>(VS_AUDIO_FRAME_SAMPLES)) + " to " + std::to_string(n * static_cast<int64_t>(VS_AUDIO_FRAME_SAMPLES) + length - 1) + ", only the first encountered clipped segment has a warning printed").c_str(), core);
                     }
                 }
 
@@ -674,10 +674,10 @@ static const VSFrame *VS_CC audioMixGetFrame16(int n, int activationReason, void
                 double value = quantizeIntSample(tmp, range, sampleClipped);
                 if (sampleClipped) {
                     if (d->overflowError) {
-                        vsapi->setFilterError(("AudioMix: clipping detected in the sample interval " + std::to_string(n * VS_AUDIO_FRAME_SAMPLES) + " to " + std::to_string(n * VS_AUDIO_FRAME_SAMPLES + srcLength - 1)).c_str(), frameCtx);
+                        vsapi->setFilterError(("AudioMix: clipping detected in the sample interval " + std::to_string(n * static_cast<int64_t>(VS_AUDIO_FRAME_SAMPLES)) + " to " + std::to_string(n * static_cast<int64_t>(VS_AUDIO_FRAME_SAMPLES) + srcLength - 1)).c_str(), frameCtx);
                         error = true;
                     } else if (!d->overflowWarned.exchange(true)) {
-                        vsapi->logMessage(mtWarning, ("AudioMix: clipping detected in the sample interval " + std::to_string(n * VS_AUDIO_FRAME_SAMPLES) + " to " + std::to_string(n * VS_AUDIO_FRAME_SAMPLES + srcLength - 1) + ", only the first encountered clipped segment has a warning printed").c_str(), core);
+                        vsapi->logMessage(mtWarning, ("AudioMix: clipping detected in the sample interval " + std::to_string(n * static_cast<int64_t>(VS_AUDIO_FRAME_SAMPLES)) + " to " + std::to_string(n * static_cast<int64_t>(VS_AUDIO_FRAME_SAMPLES) + srcLength - 1) + ", only the first encountered clipped segment has a warning printed").c_str(), core);
                     }
                 }
 
@@ -737,10 +737,10 @@ static const VSFrame *VS_CC audioMixGetFrame32(int n, int activationReason, void
                 double value = quantizeIntSample(tmp, range, sampleClipped);
                 if (sampleClipped) {
                     if (d->overflowError) {
-                        vsapi->setFilterError(("AudioMix: clipping detected in the sample interval " + std::to_string(n * VS_AUDIO_FRAME_SAMPLES) + " to " + std::to_string(n * VS_AUDIO_FRAME_SAMPLES + srcLength - 1)).c_str(), frameCtx);
+                        vsapi->setFilterError(("AudioMix: clipping detected in the sample interval " + std::to_string(n * static_cast<int64_t>(VS_AUDIO_FRAME_SAMPLES)) + " to " + std::to_string(n * static_cast<int64_t>(VS_AUDIO_FRAME_SAMPLES) + srcLength - 1)).c_str(), frameCtx);
                         error = true;
                     } else if (!d->overflowWarned.exchange(true)) {
-                        vsapi->logMessage(mtWarning, ("AudioMix: clipping detected in the sample interval " + std::to_string(n * VS_AUDIO_FRAME_SAMPLES) + " to " + std::to_string(n * VS_AUDIO_FRAME_SAMPLES + srcLength - 1) + ", only the first encountered clipped segment has a warning printed").c_str(), core);
+                        vsapi->logMessage(mtWarning, ("AudioMix: clipping detected in the sample interval " + std::to_string(n * static_cast<int64_t>(VS_AUDIO_FRAME_SAMPLES)) + " to " + std::to_string(n * static_cast<int64_t>(VS_AUDIO_FRAME_SAMPLES) + srcLength - 1) + ", only the first encountered clipped segment has a warning printed").c_str(), core);
                     }
                 }
 
-- 
2.43.0


From b1ea8ef7faaaafa03bd5b343381f5e457a14cb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:45 +0000
Subject: [PATCH 21/60] fix: BlankAudio with keep returned frames of the wrong
 length

---
 src/core/audiofilters.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/core/audiofilters.cpp b/src/core/audiofilters.cpp
index 26c0cde..3d3e1b3 100644
--- a/src/core/audiofilters.cpp
+++ b/src/core/audiofilters.cpp
@@ -1246,14 +1246,16 @@ static const VSFrame *VS_CC blankAudioGetframe(int n, int activationReason, void
             return frame;
         }
 
+        // the last frame may be shorter than the others so the kept frame can't always be used
+        bool keep = d->keep && samples == VS_AUDIO_FRAME_SAMPLES;
         VSFrame *frame = nullptr;
-        if (!d->f) {
+        if (!keep || !d->f) {
             frame = vsapi->newAudioFrame(&d->ai.format, samples, nullptr, core);
             for (int channel = 0; channel < d->ai.format.numChannels; channel++)
                 memset(vsapi->getWritePtr(frame, channel), 0, samples * d->ai.format.bytesPerSample);
         }
 
-        if (d->keep) {
+        if (keep) {
             if (frame)
                 d->f = frame;
             return vsapi->addFrameRef(d->f);
-- 
2.43.0


From 95ecf42b62ca16925850a124f7a886fc6f669c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:52 +0000
Subject: [PATCH 22/60] fix: frames() could hang holding the GIL when a frame
 is consumed before its done callback has run

---
 src/cython/vapoursynth.pyx | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index ff695af..4c6859d 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -47,7 +47,7 @@ import functools
 import typing
 import warnings
 import keyword
-from threading import local as ThreadLocal, Lock, RLock
+from threading import local as ThreadLocal, Condition, Lock, RLock
 from types import MappingProxyType
 from collections.abc import ItemsView, Iterable, KeysView, MutableMapping, ValuesView
 from concurrent.futures import Future, CancelledError as FutureCancelledError, wait as wait_futures
@@ -2168,7 +2168,7 @@ cdef class RawNode(object):
 
         finished = False
         running = 0
-        lock = RLock()
+        lock = Condition(RLock())
         reorder = {}
         curr_frames = 0
 
@@ -2196,6 +2196,7 @@ cdef class RawNode(object):
 
             with lock:
                 running -= 1
+                lock.notify_all()
 
                 if finished:
                     return
@@ -2222,7 +2223,12 @@ cdef class RawNode(object):
         try:
             while (not finished) or (curr_frames > 0) or running > 0:
                 if sidx not in reorder:
-                    # Spin. Reorder being empty should never happen.
+                    # All requested frames have been consumed but the done callback of the
+                    # last one, which requests more, hasn't run yet. Wait for it without
+                    # holding the GIL since it can't run otherwise.
+                    with lock:
+                        if sidx not in reorder and running > 0:
+                            lock.wait()
                     continue
 
                 # Get next requested frame
-- 
2.43.0


From 6d053fefe6763cbe1feeea840bf4080215a33264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:52 +0000
Subject: [PATCH 23/60] fix: strings assigned to frame properties were cut off
 at the first null character

---
 src/cython/vapoursynth.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 4c6859d..a3e75a2 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -1448,7 +1448,8 @@ cdef class FrameProps(object):
                     if funcs.mapSetFloat(m, b, float(v), 1) != 0:
                         raise Error('Not all values are of the same type')
                 elif isinstance(v, str):
-                    if funcs.mapSetData(m, b, v.encode('utf-8'), -1, dtUtf8, 1) != 0:
+                    s = v.encode('utf-8')
+                    if funcs.mapSetData(m, b, s, <int>len(s), dtUtf8, 1) != 0:
                         raise Error('Not all values are of the same type')
                 elif isinstance(v, (bytes, bytearray)):
                     if funcs.mapSetData(m, b, v, <int>len(v), dtBinary, 1) != 0:
-- 
2.43.0


From e281f9cbaf3a757925bfaaa33c4208c177df8bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:22 +0000
Subject: [PATCH 24/60] fix: writing to a frame whose data had already been
 accessed also changed copies made of it

---
 src/cython/vapoursynth.pyx | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index a3e75a2..cd05c6d 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -1701,7 +1701,14 @@ cdef class VideoFrame(RawFrame):
 
     def copy(self):
         self._ensure_open()
-        return createVideoFrame(self.funcs.copyFrame(self.constf, self.core), self.funcs, self.core)
+        cdef VSFrame *f = self.funcs.copyFrame(self.constf, self.core)
+        cdef int plane
+        # views of a writable frame keep writing to the same memory so the copy can't share it
+        if self.flags & 1:
+            for plane in range(self.funcs.getVideoFrameFormat(f).numPlanes):
+                if not self.flags & (1 << plane+1):
+                    self.funcs.getWritePtr(f, plane)
+        return createVideoFrame(f, self.funcs, self.core)
 
     def readchunks(self):
         self._ensure_open()
@@ -1923,7 +1930,11 @@ cdef class AudioFrame(RawFrame):
 
     def copy(self):
         self._ensure_open()
-        return createAudioFrame(self.funcs.copyFrame(self.constf, self.core), self.funcs, self.core)
+        cdef VSFrame *f = self.funcs.copyFrame(self.constf, self.core)
+        # views of a writable frame keep writing to the same memory so the copy can't share it
+        if (self.flags & 1) and not (self.flags & ~1):
+            self.funcs.getWritePtr(f, 0)
+        return createAudioFrame(f, self.funcs, self.core)
 
     @property
     def channels(self):
-- 
2.43.0


From e586f08f65e1223d647768c9837d8e4bdcc4c02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:55 +0000
Subject: [PATCH 25/60] fix: objects of a destroyed environment crashed the
 process instead of raising an error

---
 src/cython/vapoursynth.pyx | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index cd05c6d..6986a9e 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -2289,24 +2289,29 @@ cdef class RawNode(object):
 
     @property
     def node_name(self):
+        self.ensure_valid()
         return self.funcs.getNodeName(self.node).decode("utf-8")
 
     @property
     def timings(self):
+        self.ensure_valid()
         return self.funcs.getNodeProcessingTime(self.node, False)
 
     @timings.setter
     def timings(self, bint value):
+        self.ensure_valid()
         if value != 0:
             raise ValueError("You can only set timings to 0, to reset its counter!")
         self.funcs.getNodeProcessingTime(self.node, True)
 
     @property
     def mode(self):
+        self.ensure_valid()
         return FilterMode(self.funcs.getNodeFilterMode(self.node))
 
     @property
     def dependencies(self):
+        self.ensure_valid()
         return tuple(
             createNode(self.funcs.addNodeRef(self.funcs.getNodeDependency(self.node, idx).source), self.funcs, self.core)
             for idx in range(self.funcs.getNumNodeDependencies(self.node))
@@ -3033,18 +3038,22 @@ cdef class CoreTimings(object):
 
     @property
     def enabled(self):
+        self.core.ensure_valid()
         return bool(self.core.funcs.getCoreNodeTiming(self.core.core))
 
     @enabled.setter
     def enabled(self, bint enabled):
+        self.core.ensure_valid()
         self.core.funcs.setCoreNodeTiming(self.core.core, enabled)
 
     @property
     def freed_nodes(self):
+        self.core.ensure_valid()
         return self.core.funcs.getFreedNodeProcessingTime(self.core.core, False)
 
     @freed_nodes.setter
     def freed_nodes(self, bint value):
+        self.core.ensure_valid()
         if value != 0:
             raise ValueError("You can only set freed_nodes to 0, to reset its counter!")
         self.core.funcs.getFreedNodeProcessingTime(self.core.core, True)
@@ -3144,6 +3153,7 @@ cdef class Core(object):
             raise AttributeError('No attribute with the name ' + name + ' exists. Did you mistype a plugin namespace or forget to install a plugin?')
 
     def plugins(self):
+        self.ensure_valid()
         cdef VSPlugin *plugin = self.funcs.getNextPlugin(NULL, self.core)
         while plugin:
             tmp = createPlugin(plugin, self.funcs, self)
@@ -3151,12 +3161,14 @@ cdef class Core(object):
             yield tmp
 
     def query_video_format(self, int color_family, int sample_type, int bits_per_sample, int subsampling_w = 0, int subsampling_h = 0):
+        self.ensure_valid()
         cdef VSVideoFormat fmt
         if not self.funcs.queryVideoFormat(&fmt, color_family, sample_type, bits_per_sample, subsampling_w, subsampling_h, self.core):
             raise Error('Invalid format specified')
         return createVideoFormat(&fmt, self.funcs, self.core)
 
     def get_video_format(self, uint32_t id):
+        self.ensure_valid()
         cdef VSVideoFormat fmt
         if not self.funcs.getVideoFormatByID(&fmt, id, self.core):
             raise Error('Invalid format id specified')
@@ -3164,6 +3176,7 @@ cdef class Core(object):
             return createVideoFormat(&fmt, self.funcs, self.core)
 
     def create_video_frame(self, int format, int width, int height):
+        self.ensure_valid()
         cdef VSVideoFormat fmt
         if not self.funcs.getVideoFormatByID(&fmt, format, self.core):
             raise Error('Invalid format id specified')
@@ -3172,6 +3185,7 @@ cdef class Core(object):
         return createVideoFrame(ref, self.funcs, self.core)
 
     def log_message(self, int message_type, str message):
+        self.ensure_valid()
         # released gil, the log api dispatches to handlers that acquire the gil so calling in
         # while holding it can deadlock against a thread mid message delivery
         cdef bytes message_bytes = message.encode('utf-8')
@@ -3180,6 +3194,7 @@ cdef class Core(object):
             self.funcs.logMessage(message_type, message_cstr, self.core)
 
     def add_log_handler(self, handler_func):
+        self.ensure_valid()
         handler_func(mtDebug, 'New message handler installed from python')
         cdef LogHandle lh = createLogHandle(handler_func)
         Py_INCREF(lh)
@@ -3191,6 +3206,7 @@ cdef class Core(object):
         return lh
 
     def remove_log_handler(self, LogHandle handle):
+        self.ensure_valid()
         cdef VSLogHandle *h = handle.handle
         cdef bint result
         with nogil:
@@ -3198,10 +3214,12 @@ cdef class Core(object):
         return result
 
     def clear_cache(self):
+        self.ensure_valid()
         self.funcs.clearCoreCaches(self.core)
 
     @property
     def core_version(self):
+        self.ensure_valid()
         cdef VSCoreInfo2 v
         self.funcs.getCoreInfo2(self.core, &v)
 
@@ -3209,6 +3227,7 @@ cdef class Core(object):
 
     @property
     def api_version(self):
+        self.ensure_valid()
         cdef VSCoreInfo2 v
         self.funcs.getCoreInfo2(self.core, &v)
 
@@ -3239,6 +3258,7 @@ cdef class Core(object):
         )
 
     def __str__(self):
+        self.ensure_valid()
         cdef VSCoreInfo2 v
         self.funcs.getCoreInfo2(self.core, &v)
 
@@ -3383,6 +3403,7 @@ cdef class Plugin(object):
         raise Error('Class cannot be instantiated directly')
 
     def __getattr__(self, name):
+        self.core.ensure_valid()
         tname = name.encode('utf-8')
         cdef const char *cname = tname
         cdef VSPluginFunction *func = self.funcs.getPluginFunctionByName(cname, self.plugin)
@@ -3393,6 +3414,7 @@ cdef class Plugin(object):
             raise AttributeError('There is no function named ' + name)
 
     def functions(self):
+        self.core.ensure_valid()
         cdef VSPluginFunction *func = self.funcs.getNextPluginFunction(NULL, self.plugin)
         while func:
             tmp = createFunction(func, self, self.funcs)
@@ -3401,6 +3423,7 @@ cdef class Plugin(object):
 
     @property
     def version(self):
+        self.core.ensure_valid()
         ver = <int>self.funcs.getPluginVersion(self.plugin)
 
         ver_major = (ver >> 16)
@@ -3410,6 +3433,7 @@ cdef class Plugin(object):
 
     @property
     def plugin_path(self):
+        self.core.ensure_valid()
         cdef const char *ppath = self.funcs.getPluginPath(self.plugin)
         if ppath:
             return ppath.decode('utf-8')
@@ -3491,6 +3515,7 @@ cdef class Function(object):
         cdef VSMap *inm
         cdef VSMap *outm
         cdef char *cname
+        self.plugin.core.ensure_valid()
         arglist = list(args)
         if self.plugin.injected_arg is not None:
             arglist.insert(0, self.plugin.injected_arg)
-- 
2.43.0


From b602ce1cfe78a2f20e2dcab24f403bee32139411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:54 +0000
Subject: [PATCH 26/60] fix: asynchronous requests made outside of an
 environment were never answered

---
 src/cython/vapoursynth.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 6986a9e..6adb59a 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -1059,8 +1059,12 @@ cdef void __stdcall frameDoneCallback(void *data, const VSFrame *f, int n, VSNod
                 result = createConstFrame(f, d.funcs, d.node.core.core)
 
             try:
-                with use_environment(d.env).use():
+                if d.env is None:
+                    # requested from a thread without an active environment
                     d.callback(result, error)
+                else:
+                    with use_environment(d.env).use():
+                        d.callback(result, error)
             except:
                 traceback.print_exc()
         finally:
-- 
2.43.0


From 649e5e73157113fe09e76c25150f2e956c33cb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:54 +0000
Subject: [PATCH 27/60] fix: passing a Python function to a function reference
 crashed

---
 src/cython/vapoursynth.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 6adb59a..09cc78e 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -978,6 +978,8 @@ cdef Func createFuncPython(object func, VSCore *core, const VSAPI *funcs):
     cdef EnvironmentData env = _env_current()
     if env is None:
         raise Error('Internal environment id not set. Did the environment die?')
+    if core == NULL: # the arguments of a Func aren't tied to a core
+        core = vsscript_get_core_internal(env).core
     fdata = createFuncData(func, core, env)
 
     Py_INCREF(fdata)
-- 
2.43.0


From 1adc11b3b08e07fd8e7cca9af72c0d05194e84ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:42 +0000
Subject: [PATCH 28/60] fix: passing closed frames or clips of a destroyed
 environment as arguments crashed

---
 src/cython/vapoursynth.pyx | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 09cc78e..822753d 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -1168,9 +1168,11 @@ cdef void dictToMap(dict ndict, VSMap *inm, VSCore *core, const VSAPI *funcs) ex
                 if funcs.mapSetData(inm, ckey, v, <int>len(v), dtBinary, 1) != 0:
                     raise Error('not all values are of the same type in ' + key)
             elif isinstance(v, RawNode):
+                (<RawNode>v).ensure_valid()
                 if funcs.mapSetNode(inm, ckey, (<RawNode>v).node, 1) != 0:
                     raise Error('not all values are of the same type in ' + key)
             elif isinstance(v, RawFrame):
+                (<RawFrame>v)._ensure_open()
                 if funcs.mapSetFrame(inm, ckey, (<RawFrame>v).constf, 1) != 0:
                     raise Error('not all values are of the same type in ' + key)
             elif isinstance(v, Func):
@@ -1203,9 +1205,11 @@ cdef void typedDictToMap(dict ndict, dict atypes, VSMap *inm, VSCore *core, cons
 
         for v in val:
             if (atypes[key][:5] == 'vnode' and isinstance(v, VideoNode)) or (atypes[key][:5] == 'anode' and isinstance(v, AudioNode)):
+                (<RawNode>v).ensure_valid()
                 if funcs.mapSetNode(inm, ckey, (<RawNode>v).node, 1) != 0:
                     raise Error('not all values are of the same type in ' + key)
             elif ((atypes[key][:6] == 'vframe') and isinstance(v, VideoFrame)) or (atypes[key][:6] == 'aframe' and isinstance(v, AudioFrame)):
+                (<RawFrame>v)._ensure_open()
                 if funcs.mapSetFrame(inm, ckey, (<RawFrame>v).constf, 1) != 0:
                     raise Error('not all values are of the same type in ' + key)
             elif atypes[key][:4] == 'func' and isinstance(v, Func):
@@ -1435,9 +1439,11 @@ cdef class FrameProps(object):
         try:
             for v in val:
                 if isinstance(v, RawNode):
+                    (<RawNode>v).ensure_valid()
                     if funcs.mapSetNode(m, b, (<RawNode>v).node, 1) != 0:
                         raise Error('Not all values are of the same type')
                 elif isinstance(v, RawFrame):
+                    (<RawFrame>v)._ensure_open()
                     if funcs.mapSetFrame(m, b, (<RawFrame>v).constf, 1) != 0:
                         raise Error('Not all values are of the same type')
                 elif isinstance(v, Func):
@@ -2452,6 +2458,7 @@ cdef class VideoNode(RawNode):
     def set_output(self, int index = 0, VideoNode alpha = None, int alt_output = 0):
         self.ensure_valid()
         if alpha is not None:
+            alpha.ensure_valid()
             if (self.vi.width != alpha.vi.width) or (self.vi.height != alpha.vi.height):
                 raise Error('Alpha clip dimensions must match the main video')
             if (self.num_frames != alpha.num_frames):
-- 
2.43.0


From dd652e0038b52e0d47accc45d4e421f349953e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:43 +0000
Subject: [PATCH 29/60] fix: destroying an environment while other threads
 requested frames could crash, fail or hang

---
 src/cython/vapoursynth.pyx | 86 +++++++++++++++++++++++++++-----------
 1 file changed, 62 insertions(+), 24 deletions(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 822753d..71107d4 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -391,6 +391,14 @@ cdef void __stdcall _logFree(void* userData) noexcept nogil:
     with gil:
         Py_DECREF(<object>userData)
 
+cdef list _snapshot(object weak_set):
+    # other threads may add to the set while it's iterated over
+    while True:
+        try:
+            return list(weak_set)
+        except RuntimeError:
+            pass
+
 @final
 cdef class EnvironmentPolicyAPI:
     # This must be a weak-ref to prevent a cyclic dependency that happens if the API
@@ -460,7 +468,7 @@ cdef class EnvironmentPolicyAPI:
 
         futs = env.active_futures
         env.active_futures = None
-        wait_futures(futs)
+        wait_futures(_snapshot(futs))
 
         callbacks = env.on_destroy
         env.on_destroy = None
@@ -477,7 +485,7 @@ cdef class EnvironmentPolicyAPI:
                         sys.stderr.write(formatted)
 
         # Invalidate all remaining nodes and frames from this environment
-        for node in list(env.known_nodes):
+        for node in _snapshot(env.known_nodes):
             if not isinstance(node, RawNode):
                 continue
             rn = <RawNode>node
@@ -487,7 +495,7 @@ cdef class EnvironmentPolicyAPI:
                 rn.node = NULL
                 rn.core = None
 
-        for frame in list(env.known_frames):
+        for frame in _snapshot(env.known_frames):
             if not isinstance(frame, RawFrame):
                 continue
             rf = <RawFrame>frame
@@ -1059,6 +1067,10 @@ cdef void __stdcall frameDoneCallback(void *data, const VSFrame *f, int n, VSNod
                 error = py_exc or Error(error_str)
             else:
                 result = createConstFrame(f, d.funcs, d.node.core.core)
+                if d.node.node == NULL:
+                    result.close()
+                    result = None
+                    error = Error("Use of invalidated VideoNode (the environment has been destroyed).")
 
             try:
                 if d.env is None:
@@ -2163,9 +2175,14 @@ cdef class RawNode(object):
             return handle.fut
 
         cdef CallbackData data = createCallbackData(self.funcs, self, cb)
+        # the environment may be destroyed by another thread whenever the GIL isn't held
+        self.ensure_valid()
+        cdef const VSAPI *funcs = self.funcs
+        cdef VSNode *node = funcs.addNodeRef(self.node)
         Py_INCREF(data)
         with nogil:
-            self.funcs.getFrameAsync(n, self.node, frameDoneCallback, <void *>data)
+            funcs.getFrameAsync(n, node, frameDoneCallback, <void *>data)
+            funcs.freeNode(node)
 
 
     def frames(self, prefetch=None, backlog=None, close=False):
@@ -2251,8 +2268,11 @@ cdef class RawNode(object):
                     # last one, which requests more, hasn't run yet. Wait for it without
                     # holding the GIL since it can't run otherwise.
                     with lock:
-                        if sidx not in reorder and running > 0:
-                            lock.wait()
+                        if sidx not in reorder:
+                            if running > 0:
+                                lock.wait()
+                            else:
+                                _refill()
                     continue
 
                 # Get next requested frame
@@ -2439,21 +2459,30 @@ cdef class VideoNode(RawNode):
         fut.set_running_or_notify_cancel()
         if env is not None and env.active_futures is not None:
             env.active_futures.add(fut)
+        # the environment may be destroyed by another thread whenever the GIL isn't held
+        cdef const VSAPI *funcs = self.funcs
+        cdef VSNode *node
         try:
+            self.ensure_valid()
+            node = funcs.addNodeRef(self.node)
             with nogil:
-                f = self.funcs.getFrame(n, self.node, errorMsg, 4096)
+                f = funcs.getFrame(n, node, errorMsg, 4096)
+                funcs.freeNode(node)
+
+            if f != NULL:
+                if self.node == NULL:
+                    funcs.freeFrame(f)
+                    self.ensure_valid()
+                return createConstVideoFrame(f, funcs, self.core.core)
         finally:
             fut.set_result(None)
 
-        if f == NULL:
-            if (errorMsg[0]):
-                msg_str = ep.decode('utf-8')
-                py_exc = env.retrieve_exception(msg_str) if env is not None else None
-                raise py_exc or Error(msg_str)
-            else:
-                raise Error('Internal error - no error given')
+        if (errorMsg[0]):
+            msg_str = ep.decode('utf-8')
+            py_exc = env.retrieve_exception(msg_str) if env is not None else None
+            raise py_exc or Error(msg_str)
         else:
-            return createConstVideoFrame(f, self.funcs, self.core.core)
+            raise Error('Internal error - no error given')
 
     def set_output(self, int index = 0, VideoNode alpha = None, int alt_output = 0):
         self.ensure_valid()
@@ -2762,21 +2791,30 @@ cdef class AudioNode(RawNode):
         fut.set_running_or_notify_cancel()
         if env is not None and env.active_futures is not None:
             env.active_futures.add(fut)
+        # the environment may be destroyed by another thread whenever the GIL isn't held
+        cdef const VSAPI *funcs = self.funcs
+        cdef VSNode *node
         try:
+            self.ensure_valid()
+            node = funcs.addNodeRef(self.node)
             with nogil:
-                f = self.funcs.getFrame(n, self.node, errorMsg, 4096)
+                f = funcs.getFrame(n, node, errorMsg, 4096)
+                funcs.freeNode(node)
+
+            if f != NULL:
+                if self.node == NULL:
+                    funcs.freeFrame(f)
+                    self.ensure_valid()
+                return createConstAudioFrame(f, funcs, self.core.core)
         finally:
             fut.set_result(None)
 
-        if f == NULL:
-            if (errorMsg[0]):
-                msg_str = ep.decode('utf-8')
-                py_exc = env.retrieve_exception(msg_str) if env is not None else None
-                raise py_exc or Error(msg_str)
-            else:
-                raise Error('Internal error - no error given')
+        if (errorMsg[0]):
+            msg_str = ep.decode('utf-8')
+            py_exc = env.retrieve_exception(msg_str) if env is not None else None
+            raise py_exc or Error(msg_str)
         else:
-            return createConstAudioFrame(f, self.funcs, self.core.core)
+            raise Error('Internal error - no error given')
 
     def output(self, object fileobj not None, bint wav = False, bint w64 = False, object progress_update = None, int prefetch = 0, int backlog = -1):
         self.ensure_valid()
-- 
2.43.0


From 9222b1ea764e0b5fced14cb5ea4a1a65768af9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:53 +0000
Subject: [PATCH 30/60] fix: vspipe could stop before the last frame was
 written

---
 src/vspipe/vspipe.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vspipe/vspipe.cpp b/src/vspipe/vspipe.cpp
index 5c19fd7..f8917d5 100644
--- a/src/vspipe/vspipe.cpp
+++ b/src/vspipe/vspipe.cpp
@@ -142,6 +142,7 @@ struct VSPipeOutputData {
     /* Only used to keep the main thread waiting during processing */
     std::condition_variable condition;
     std::mutex mutex;
+    bool finished = false;
 
     /* Buffer used to interleave audio or to pack together video where the rowsize isn't the same as pitch due to multiple calls to stdout being very slow */
     std::vector<uint8_t> buffer;
@@ -432,6 +433,7 @@ static void VS_CC frameDoneCallback(void *userData, const VSFrame *f, int n, VSN
 
     if (data->totalFrames == data->completedFrames && data->totalFrames == data->completedAlphaFrames) {
         std::lock_guard<std::mutex> lock(data->mutex);
+        data->finished = true;
         data->condition.notify_one();
     }
 }
@@ -604,7 +606,7 @@ static bool outputNode(const VSPipeOptions &opts, VSPipeOutputData *data, VSCore
             data->vsapi->getFrameAsync(n, data->alphaNode, frameDoneCallback, data);
     }
 
-    data->condition.wait(lock, [&]() { return data->totalFrames == data->completedFrames && data->totalFrames == data->completedAlphaFrames; });
+    data->condition.wait(lock, [&]() { return data->finished; });
 
     if (data->outputError) {
         for (auto &iter : data->reorderMap) {
-- 
2.43.0


From 80b0b9d317cede0f8ae036587002ffd20c2e5835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:53 +0000
Subject: [PATCH 31/60] fix: vspipe silently ignored empty and out of range
 numbers

---
 src/vspipe/vspipe.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vspipe/vspipe.cpp b/src/vspipe/vspipe.cpp
index f8917d5..fe5f7af 100644
--- a/src/vspipe/vspipe.cpp
+++ b/src/vspipe/vspipe.cpp
@@ -630,12 +630,12 @@ static const char *colorFamilyToString(int colorFamily) {
 
 static bool svToInt64(const std::string_view &s, int64_t &result) {
     auto res = std::from_chars(s.data(), s.data() + s.size(), result);
-    return (res.ptr == s.data() + s.size());
+    return (res.ec == std::errc() && res.ptr == s.data() + s.size());
 }
 
 static bool svToInt(const std::string_view &s, int &result) {
     auto res = std::from_chars(s.data(), s.data() + s.size(), result);
-    return (res.ptr == s.data() + s.size());
+    return (res.ec == std::errc() && res.ptr == s.data() + s.size());
 }
 
 static bool printVersion(const VSAPI *vsapi) {
-- 
2.43.0


From 95a8c255e14c9424826a4bfb6bed3be19e763c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:53 +0000
Subject: [PATCH 32/60] fix: vspipe freed memory twice when the output range is
 invalid and leaked the alpha clip

---
 src/vspipe/vspipe.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vspipe/vspipe.cpp b/src/vspipe/vspipe.cpp
index fe5f7af..7f8dfc7 100644
--- a/src/vspipe/vspipe.cpp
+++ b/src/vspipe/vspipe.cpp
@@ -1201,7 +1201,6 @@ int main(int argc, char **argv) {
 
             if (mapError) {
                 fprintf(stderr, "%s\n", vsapi->mapGetError(mapError));
-                vsapi->freeMap(mapError);
                 vsapi->freeMap(result);
                 vsapi->freeMap(alphaResult);
                 vsapi->freeNode(node);
@@ -1211,8 +1210,10 @@ int main(int argc, char **argv) {
             } else {
                 vsapi->freeNode(node);
                 node = vsapi->mapGetNode(result, "clip", 0, nullptr);
-                if (alphaResult)
+                if (alphaResult) {
+                    vsapi->freeNode(alphaNode);
                     alphaNode = vsapi->mapGetNode(alphaResult, "clip", 0, nullptr);
+                }
                 vsapi->freeMap(result);
                 vsapi->freeMap(alphaResult);
             }
-- 
2.43.0


From 594019c9ddf6d79acbd6c00bba1fdc7b6625fef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:04 +0000
Subject: [PATCH 33/60] fix: vspipe wrote invalid or cut off JSON for
 non-finite and large floats, strings with NUL characters and clips, frames
 and functions

---
 src/vspipe/vsjson.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/vspipe/vsjson.cpp b/src/vspipe/vsjson.cpp
index bc06c81..153fb36 100644
--- a/src/vspipe/vsjson.cpp
+++ b/src/vspipe/vsjson.cpp
@@ -20,6 +20,7 @@
 
 #include "vsjson.h"
 #include <charconv>
+#include <cmath>
 
 static bool isAsciiPrintable(const std::string &s) {
     for (const auto c : s)
@@ -29,7 +30,9 @@ static bool isAsciiPrintable(const std::string &s) {
 }
 
 static std::string doubleToString(double v) {
-    char buffer[100];
+    if (!std::isfinite(v))
+        return "null";
+    char buffer[400];
     auto res = std::to_chars(buffer, buffer + sizeof(buffer), v, std::chars_format::fixed);
     return std::string(buffer, res.ptr - buffer);
 }
@@ -95,11 +98,15 @@ std::string convertVSMapToJSON(const VSMap *map, const VSAPI *vsapi) {
                     int typeHint = vsapi->mapGetDataTypeHint(map, key, j, nullptr);
                     jsonStr += (j ? ", " : "");
                     if (typeHint == dtUtf8 || (typeHint == dtUnknown && vsapi->mapGetDataSize(map, key, j, nullptr) < 200 && isAsciiPrintable(std::string(vsapi->mapGetData(map, key, j, nullptr), vsapi->mapGetDataSize(map, key, j, nullptr)))))
-                        jsonStr += escapeJSONString(vsapi->mapGetData(map, key, j, nullptr));
+                        jsonStr += escapeJSONString(std::string(vsapi->mapGetData(map, key, j, nullptr), vsapi->mapGetDataSize(map, key, j, nullptr)));
                     else
                         jsonStr += "\"[binary data size: " + std::to_string(vsapi->mapGetDataSize(map, key, j, nullptr)) + "]\"";
                 }
                 break;
+            default:
+                for (int j = 0; j < numElems; j++)
+                    jsonStr += (j ? ", null" : "null");
+                break;
             }
 
             if (numElems > 1)
-- 
2.43.0


From 7d05d031bc70656f1c0b5be57e7a140ecd32e8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:04 +0000
Subject: [PATCH 34/60] fix: vspipe wrote invalid JSON for audio

---
 src/vspipe/vspipe.cpp | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/vspipe/vspipe.cpp b/src/vspipe/vspipe.cpp
index 7f8dfc7..6f7983c 100644
--- a/src/vspipe/vspipe.cpp
+++ b/src/vspipe/vspipe.cpp
@@ -452,6 +452,24 @@ static std::string floatBitsToLetter(int bits) {
     }
 }
 
+static bool initializeMetadataOutput(VSPipeOutputData *data) {
+    if (data->timecodesFile && !data->outputError) {
+        if (fprintf(data->timecodesFile, "# timecode format v2\n") < 0) {
+            fprintf(stderr, "Error: failed to write timecodes file header, errno: %d\n", errno);
+            return false;
+        }
+    }
+
+    if (data->jsonFile && !data->outputError) {
+        if (fprintf(data->jsonFile, "%s", "[\n") < 0) {
+            fprintf(stderr, "Error: failed to write JSON file header, errno: %d\n", errno);
+            return false;
+        }
+    }
+
+    return true;
+}
+
 static bool initializeVideoOutput(VSPipeOutputData *data) {
     if (data->outputHeaders != VSPipeHeaders::None && data->outputHeaders != VSPipeHeaders::Y4M) {
         fprintf(stderr, "Error: can't apply selected header type to video\n");
@@ -517,25 +535,11 @@ static bool initializeVideoOutput(VSPipeOutputData *data) {
         }
     }
 
-    if (data->timecodesFile && !data->outputError) {
-        if (fprintf(data->timecodesFile, "# timecode format v2\n") < 0) {
-            fprintf(stderr, "Error: failed to write timecodes file header, errno: %d\n", errno);
-            return false;
-        }
-    }
-
-    if (data->jsonFile && !data->outputError) {
-        if (fprintf(data->jsonFile, "%s", "[\n") < 0) {
-            fprintf(stderr, "Error: failed to write JSON file header, errno: %d\n", errno);
-            return false;
-        }
-    }
-
     data->buffer.resize(static_cast<size_t>(vi->width) * vi->height * vi->format.bytesPerSample);
     return true;
 }
 
-static bool finalizeVideoOutput(VSPipeOutputData *data) {
+static bool finalizeMetadataOutput(VSPipeOutputData *data) {
     if (data->jsonFile && !data->outputError) {
         if (fprintf(data->jsonFile, "%s", "]\n") < 0) {
             fprintf(stderr, "Error: failed to finalize JSON file, errno: %d\n", errno);
@@ -1244,13 +1248,13 @@ int main(int argc, char **argv) {
 
             data->totalFrames = vi->numFrames;
 
-            success = initializeVideoOutput(data.get());
+            success = initializeVideoOutput(data.get()) && initializeMetadataOutput(data.get());
             if (success) {
                 data->lastFPSReportTime = std::chrono::steady_clock::now();
                 success = !outputNode(opts, data.get(), vssapi->getCore(se));
             }
             if (success)
-                success = finalizeVideoOutput(data.get());
+                success = finalizeMetadataOutput(data.get());
             
         } else if (nodeType == mtAudio) {
 
@@ -1259,9 +1263,11 @@ int main(int argc, char **argv) {
             data->totalFrames = ai->numFrames;
             data->totalSamples = ai->numSamples;
 
-            success = initializeAudioOutput(data.get());
+            success = initializeAudioOutput(data.get()) && initializeMetadataOutput(data.get());
             if (success)                
                 success = !outputNode(opts, data.get(), vssapi->getCore(se));
+            if (success)
+                success = finalizeMetadataOutput(data.get());
         }
 
         if (outFile)
-- 
2.43.0


From 9f51edde19b4c1cec65a02726841c2647b442830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:04 +0000
Subject: [PATCH 35/60] fix: vspipe reported success when the last part of the
 output couldn't be written

---
 src/vspipe/vspipe.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/vspipe/vspipe.cpp b/src/vspipe/vspipe.cpp
index 6f7983c..d9849bc 100644
--- a/src/vspipe/vspipe.cpp
+++ b/src/vspipe/vspipe.cpp
@@ -1270,12 +1270,12 @@ int main(int argc, char **argv) {
                 success = finalizeMetadataOutput(data.get());
         }
 
-        if (outFile)
-            fflush(outFile);
-        if (timecodesFile)
-            fflush(timecodesFile);
-        if (jsonFile)
-            fflush(jsonFile);
+        for (FILE *file : { outFile, timecodesFile, jsonFile }) {
+            if (file && fflush(file) && success) {
+                fprintf(stderr, "Error: failed to write all output, errno: %d\n", errno);
+                success = false;
+            }
+        }
 
         std::chrono::duration<double> elapsedSeconds = std::chrono::steady_clock::now() - data->startTime;
         if (opts.mode == VSPipeMode::Output) {
-- 
2.43.0


From 9961790da38f59aaa7b3479be1897f462b251000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:04 +0000
Subject: [PATCH 36/60] fix: vspipe wrote invalid graphs when arguments contain
 quotes

---
 src/vspipe/printgraph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vspipe/printgraph.cpp b/src/vspipe/printgraph.cpp
index eadd0ad..fbbacd9 100644
--- a/src/vspipe/printgraph.cpp
+++ b/src/vspipe/printgraph.cpp
@@ -72,7 +72,7 @@ static std::string replaceAll(const std::string &s, const std::string &from, con
 }
 
 static std::string escapeDotString(const std::string &s) {
-    return replaceAll(replaceAll(replaceAll(replaceAll(s, "\\", "\\\\"), "\r\n", "\\n"), "\r", "\\n"), "\n", "\\n");
+    return replaceAll(replaceAll(replaceAll(replaceAll(replaceAll(s, "\\", "\\\\"), "\"", "\\\""), "\r\n", "\\n"), "\r", "\\n"), "\n", "\\n");
 }
 
 static std::string mangleNode(VSNode *node, const VSAPI *vsapi) {
-- 
2.43.0


From aa807c6ec8f277ceafdc879ec884a4bd1904a5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:32 +0000
Subject: [PATCH 37/60] fix: logging from a thread without an environment
 failed with an attribute error

---
 src/cython/vapoursynth.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 71107d4..5a19467 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -3712,7 +3712,7 @@ class PythonVSScriptLoggingBridge(logging.Handler):
     def emit(self, record):
         env = _env_current()
         if env is None:
-            self.parent.handle(record)
+            self._parent.handle(record)
             return
         core = vsscript_get_core_internal(env)
 
-- 
2.43.0


From c24019903001fd8ecf8674bdda2ed138f9c9b285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:55 +0000
Subject: [PATCH 38/60] fix: Crop and CropAbs read outside the frame when the
 crop area overflows an int

---
 src/core/simplefilters.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index 922cb01..01c9a14 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -119,7 +119,7 @@ static int cropVerify(int x, int y, int width, int height, int srcwidth, int src
         snprintf(msg, len, "Crop: negative/zero cropping dimensions not allowed");
 
     if (srcheight > 0 && srcwidth > 0)
-        if (srcheight < height + y || srcwidth < width + x)
+        if (srcheight < static_cast<int64_t>(height) + y || srcwidth < static_cast<int64_t>(width) + x)
             snprintf(msg, len, "Crop: cropped area extends beyond frame dimensions");
 
     if (fi) {
@@ -228,8 +228,8 @@ static void VS_CC cropRelCreate(const VSMap *in, VSMap *out, void *userData, VSC
     d->x = vsapi->mapGetIntSaturated(in, "left", 0, &err);
     d->y = vsapi->mapGetIntSaturated(in, "top", 0, &err);
 
-    d->height = d->vi->height - d->y - vsapi->mapGetIntSaturated(in, "bottom", 0, &err);
-    d->width = d->vi->width - d->x - vsapi->mapGetIntSaturated(in, "right", 0, &err);
+    d->height = int64ToIntS(static_cast<int64_t>(d->vi->height) - d->y - vsapi->mapGetIntSaturated(in, "bottom", 0, &err));
+    d->width = int64ToIntS(static_cast<int64_t>(d->vi->width) - d->x - vsapi->mapGetIntSaturated(in, "right", 0, &err));
 
     // passthrough for the no cropping case
     if (d->x == 0 && d->y == 0 && d->width == d->vi->width && d->height == d->vi->height) {
-- 
2.43.0


From 5d72be751c7c351114b07099d9ebdaa68956af7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:55 +0000
Subject: [PATCH 39/60] fix: AddBorders overflowed the frame size with huge
 borders

---
 src/core/simplefilters.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index 01c9a14..21f9b46 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -298,7 +298,16 @@ static const VSFrame *VS_CC addBordersGetframe(int n, int activationReason, void
             return nullptr;
         }
 
-        dst = vsapi->newVideoFrame(fi, vsapi->getFrameWidth(src, 0) + d->left + d->right, vsapi->getFrameHeight(src, 0) + d->top + d->bottom, src, core);
+        int64_t width = static_cast<int64_t>(vsapi->getFrameWidth(src, 0)) + d->left + d->right;
+        int64_t height = static_cast<int64_t>(vsapi->getFrameHeight(src, 0)) + d->top + d->bottom;
+
+        if (width > INT_MAX || height > INT_MAX) {
+            vsapi->freeFrame(src);
+            vsapi->setFilterError("AddBorders: resulting frame is too big", frameCtx);
+            return nullptr;
+        }
+
+        dst = vsapi->newVideoFrame(fi, static_cast<int>(width), static_cast<int>(height), src, core);
 
         int bytesPerSample = fi->bytesPerSample;
 
@@ -432,6 +441,9 @@ static void VS_CC addBordersCreate(const VSMap *in, VSMap *out, void *userData,
         RETERROR("AddBorders: invalid number of color values specified");
     }
 
+    if (static_cast<int64_t>(vi.height) + d->top + d->bottom > INT_MAX || static_cast<int64_t>(vi.width) + d->left + d->right > INT_MAX)
+        RETERROR("AddBorders: resulting frame is too big");
+
     vi.height += vi.height ? (d->top + d->bottom) : 0;
     vi.width += vi.width ? (d->left + d->right) : 0;
 
-- 
2.43.0


From 37c6cd9aba71e4829e718a484bd2411aa4673292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:55 +0000
Subject: [PATCH 40/60] fix: DoubleWeave overflowed the frame height

---
 src/core/simplefilters.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index 21f9b46..0c9b403 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -877,11 +877,15 @@ static void VS_CC doubleWeaveCreate(const VSMap *in, VSMap *out, void *userData,
         d->tff = -1;
     d->node = vsapi->mapGetNode(in, "clip", 0, 0);
     d->vi = *vsapi->getVideoInfo(d->node);
-    d->vi.height *= 2;
 
     if (!isConstantVideoFormat(&d->vi))
         RETERROR("DoubleWeave: clip must have constant format and dimensions");
 
+    if (d->vi.height > INT_MAX / 2)
+        RETERROR("DoubleWeave: resulting frame is too big");
+
+    d->vi.height *= 2;
+
     VSFilterDependency deps[] = {{d->node, rpGeneral}};
     vsapi->createVideoFilter(out, "DoubleWeave", &d->vi, doubleWeaveGetframe, filterFree<DoubleWeaveData>, fmParallel, deps, 1, d.get(), core);
     d.release();
-- 
2.43.0


From fd1e0e5260e38bd10499e363a7fa7eacdf4c41e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:55 +0000
Subject: [PATCH 41/60] fix: StackVertical and StackHorizontal overflowed the
 frame size

---
 src/core/simplefilters.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index 0c9b403..0a84d4e 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -1113,6 +1113,11 @@ static void VS_CC stackCreate(const VSMap *in, VSMap *out, void *userData, VSCor
                 }
             }
 
+            if (d->vertical && vi->height > INT_MAX - d->vi.height)
+                RETERROR("StackVertical: resulting frame is too big");
+            if (!d->vertical && vi->width > INT_MAX - d->vi.width)
+                RETERROR("StackHorizontal: resulting frame is too big");
+
             if (d->vertical)
                 d->vi.height += vi->height;
             else
-- 
2.43.0


From 2c5d7e28a93f82b8d27aea3887b63b11ccacb174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:55 +0000
Subject: [PATCH 42/60] fix: BlankClip ignored an invalid format when given a
 clip

---
 src/core/simplefilters.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index 0a84d4e..22753de 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -1255,8 +1255,8 @@ static void VS_CC blankClipCreate(const VSMap *in, VSMap *out, void *userData, V
     if (err) {
         if (!hasvi)
             vsapi->queryVideoFormat(&d->vi.format, cfRGB, stInteger, 8, 0, 0, core);
-    } else {
-        vsapi->getVideoFormatByID(&d->vi.format, format, core);
+    } else if (!vsapi->getVideoFormatByID(&d->vi.format, format, core)) {
+        RETERROR("BlankClip: invalid format");
     }
 
     if (d->vi.format.colorFamily == cfUndefined)
-- 
2.43.0


From c093f97fcfcd501af2a2e6e60c09b1e278bae695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:55 +0000
Subject: [PATCH 43/60] fix: BlankClip overflowed computing the default length
 from the frame rate

---
 src/core/simplefilters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/simplefilters.cpp b/src/core/simplefilters.cpp
index 22753de..03adc6e 100644
--- a/src/core/simplefilters.cpp
+++ b/src/core/simplefilters.cpp
@@ -1267,7 +1267,7 @@ static void VS_CC blankClipCreate(const VSMap *in, VSMap *out, void *userData, V
     if (err) {
         if (!hasvi) {
             if (d->vi.fpsNum > 0 && d->vi.fpsDen > 0)
-                d->vi.numFrames = int64ToIntS((d->vi.fpsNum * 10) / d->vi.fpsDen);
+                d->vi.numFrames = static_cast<int>(std::min<double>(static_cast<double>(d->vi.fpsNum) * 10 / d->vi.fpsDen, INT_MAX));
             else
                 d->vi.numFrames = 300;
         }
-- 
2.43.0


From e1e1c01a8b0763d45dcb4829d440bb2b81eab0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:55 +0000
Subject: [PATCH 44/60] fix: SetVideoCache and SetAudioCache aborted on an
 invalid mode

---
 src/core/internalfilters.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/core/internalfilters.cpp b/src/core/internalfilters.cpp
index 0865032..a352032 100644
--- a/src/core/internalfilters.cpp
+++ b/src/core/internalfilters.cpp
@@ -18,6 +18,7 @@
 * Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA
 */
 
+#include <string>
 #include "internalfilters.h"
 #include "kernel/cpulevel.h"
 
@@ -41,8 +42,14 @@ static void VS_CC setCache(const VSMap *in, VSMap *out, void *userData, VSCore *
     int err;
     VSNode *node = vsapi->mapGetNode(in, "clip", 0, nullptr);
     int mode = vsapi->mapGetIntSaturated(in, "mode", 0, &err);
-    if (!err)
+    if (!err) {
+        if (mode < cmAuto || mode > cmForceEnable) {
+            vsapi->freeNode(node);
+            vsapi->mapSetError(out, (static_cast<const char *>(userData) + std::string(": invalid mode specified")).c_str());
+            return;
+        }
         vsapi->setCacheMode(node, mode);
+    }
     int fixedsize = vsapi->mapGetIntSaturated(in, "fixedsize", 0, &err);
     if (err)
         fixedsize = -1;
@@ -72,7 +79,7 @@ static void VS_CC setMaxCpu(const VSMap *in, VSMap *out, void *userData, VSCore
 
 void internalFiltersInitialize(VSPlugin *plugin, const VSPLUGINAPI *vspapi) {
     vspapi->registerFunction("Cache", "clip:vnode;size:int:opt;fixed:int:opt;make_linear:int:opt;", "clip:vnode;", createCacheFilter, nullptr, plugin);
-    vspapi->registerFunction("SetAudioCache", "clip:anode;mode:int:opt;fixedsize:int:opt;maxsize:int:opt;maxhistory:int:opt;", "", setCache, 0, plugin);
-    vspapi->registerFunction("SetVideoCache", "clip:vnode;mode:int:opt;fixedsize:int:opt;maxsize:int:opt;maxhistory:int:opt;", "", setCache, 0, plugin);
+    vspapi->registerFunction("SetAudioCache", "clip:anode;mode:int:opt;fixedsize:int:opt;maxsize:int:opt;maxhistory:int:opt;", "", setCache, (void *)"SetAudioCache", plugin);
+    vspapi->registerFunction("SetVideoCache", "clip:vnode;mode:int:opt;fixedsize:int:opt;maxsize:int:opt;maxhistory:int:opt;", "", setCache, (void *)"SetVideoCache", plugin);
     vspapi->registerFunction("SetMaxCPU", "cpu:data;", "cpu:data;", setMaxCpu, 0, plugin);
 }
-- 
2.43.0


From 0f21d09de611ca95b075b2739eac7a2892dced23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:55 +0000
Subject: [PATCH 45/60] fix: frame duration arithmetic overflowed or divided by
 zero with extreme values

---
 include/VSHelper4.h | 51 +++++++++++++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 13 deletions(-)

diff --git a/include/VSHelper4.h b/include/VSHelper4.h
index 0061a2d..c0b5d98 100644
--- a/include/VSHelper4.h
+++ b/include/VSHelper4.h
@@ -123,20 +123,45 @@ static inline void VSH4_MANGLE_FUNCTION_NAME(muldivRational)(int64_t *num, int64
     /* nobody wants to accidentally divide by zero */
     assert(div);
 
-    int64_t a, b;
-    *num *= mul;
-    *den *= div;
-    a = *num;
-    b = *den;
-    while (b != 0) {
-        int64_t t = a;
-        a = b;
-        b = t % b;
+    {
+        /* work on the magnitudes and remove common factors before multiplying to avoid needless overflow */
+        uint64_t v[4];
+        int negNum = (*num < 0) != (mul < 0);
+        int negDen = (*den < 0) != (div < 0);
+        int i, j;
+        v[0] = *num < 0 ? 0 - (uint64_t)*num : (uint64_t)*num;
+        v[1] = *den < 0 ? 0 - (uint64_t)*den : (uint64_t)*den;
+        v[2] = mul < 0 ? 0 - (uint64_t)mul : (uint64_t)mul;
+        v[3] = div < 0 ? 0 - (uint64_t)div : (uint64_t)div;
+
+        /* only repeats if the exact result can't be represented, in which case precision is lost until it can */
+        for (;;) {
+            for (i = 0; i < 4; i += 2) {
+                for (j = 1; j < 4; j += 2) {
+                    uint64_t a = v[i];
+                    uint64_t b = v[j];
+                    while (b != 0) {
+                        uint64_t t = a;
+                        a = b;
+                        b = t % b;
+                    }
+                    v[i] /= a;
+                    v[j] /= a;
+                }
+            }
+
+            if ((!v[2] || v[0] <= INT64_MAX / v[2]) && v[1] <= INT64_MAX / v[3])
+                break;
+
+            i = v[0] > v[2] ? 0 : 2;
+            j = v[1] > v[3] ? 1 : 3;
+            v[i] = v[i] > 1 ? v[i] / 2 : 1;
+            v[j] = v[j] > 1 ? v[j] / 2 : 1;
+        }
+
+        *num = negNum ? -(int64_t)(v[0] * v[2]) : (int64_t)(v[0] * v[2]);
+        *den = negDen ? -(int64_t)(v[1] * v[3]) : (int64_t)(v[1] * v[3]);
     }
-    if (a < 0)
-        a = -a;
-    *num /= a;
-    *den /= a;
 }
 
 /* reduces a rational number */
-- 
2.43.0


From 34d23c470c3ef253bee55a293694f5b8f82a8391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:55 +0000
Subject: [PATCH 46/60] fix: AudioResample overflowed the filter length for
 extreme rate ratios

---
 src/core/audioresampling.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/audioresampling.cpp b/src/core/audioresampling.cpp
index 996ec46..1850074 100644
--- a/src/core/audioresampling.cpp
+++ b/src/core/audioresampling.cpp
@@ -264,11 +264,12 @@ static std::string buildResampleBank(ResampleBank &bank, int inRate, int outRate
     // The kernel has to stop the lower of the two nyquist frequencies. Decimation lowers the
     // cutoff, which stretches the kernel over proportionally more input samples.
     double ratio = std::min(1.0, static_cast<double>(bank.p) / static_cast<double>(bank.q));
-    bank.halfTaps = static_cast<int>(std::ceil(resampleTapsPerSide / ratio));
+    double halfTaps = std::ceil(resampleTapsPerSide / ratio);
+    if (2 * halfTaps > resampleMaxTaps)
+        return "the sample rate ratio requires an impractically long filter, convert in several steps instead";
+    bank.halfTaps = static_cast<int>(halfTaps);
     bank.tapCount = 2 * bank.halfTaps;
 
-    if (bank.tapCount > resampleMaxTaps)
-        return "the sample rate ratio requires an impractically long filter, convert in several steps instead";
     if (static_cast<uint64_t>(bank.p) * static_cast<uint64_t>(bank.tapCount) * sizeof(float) > resampleMaxBankBytes)
         return "the sample rate ratio reduces to a fraction with too many phases to build a filter for";
 
-- 
2.43.0


From c52942b7407a22cfa9396f69f31441dcec3fff32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:55 +0000
Subject: [PATCH 47/60] fix: Merge wrote out of bounds when given more than
 three weights

---
 src/core/mergefilters.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/mergefilters.cpp b/src/core/mergefilters.cpp
index ea147b9..6774804 100644
--- a/src/core/mergefilters.cpp
+++ b/src/core/mergefilters.cpp
@@ -389,6 +389,8 @@ static void VS_CC mergeCreate(const VSMap *in, VSMap *out, void *userData, VSCor
     std::unique_ptr<MergeData> d(new MergeData(vsapi));
 
     int nweight = vsapi->mapNumElements(in, "weight");
+    if (nweight > 3)
+        RETERROR("Merge: more than three weights specified");
     for (int i = 0; i < 3; i++)
         d->fweight[i] = 0.5f;
     for (int i = 0; i < nweight; i++)
-- 
2.43.0


From 8b45d4ea938bd73edc6267f3464438d27e4d77fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:31 +0000
Subject: [PATCH 48/60] fix: a plugin manifest without any text terminated the
 process

---
 src/core/vscore.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/core/vscore.cpp b/src/core/vscore.cpp
index bd338d4..e941454 100644
--- a/src/core/vscore.cpp
+++ b/src/core/vscore.cpp
@@ -1870,14 +1870,11 @@ bool VSCore::loadPluginManifest(const std::filesystem::path &path) {
     std::vector<std::string> lines;
 
     size_t lastPos = contents.find_first_not_of("\r\n", 0);
-    size_t pos = contents.find_first_of("\r\n", lastPos + 1);
-    while (pos != std::string::npos) {
+    while (lastPos != std::string::npos) {
+        size_t pos = contents.find_first_of("\r\n", lastPos);
         lines.push_back(contents.substr(lastPos, pos - lastPos));
-        lastPos = contents.find_first_not_of("\r\n", pos + 1);
-        pos = contents.find_first_of("\r\n", lastPos);
+        lastPos = contents.find_first_not_of("\r\n", pos);
     }
-    if (lastPos != std::string::npos)
-        lines.push_back(contents.substr(lastPos));
 
     if (lines.empty() || lines[0] != "[VapourSynth Manifest V1]") {
         logMessage(mtCritical, ("Invalid header in manifest: " + manifestPath.u8string()).c_str());
-- 
2.43.0


From b8ffd4baf81ad1c7d3791bb2e50ebced7bc17c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:27 +0000
Subject: [PATCH 49/60] fix: text filters left the chroma beneath the text
 unchanged with 16x horizontal subsampling

---
 src/core/textfilter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/textfilter.cpp b/src/core/textfilter.cpp
index 64b5859..61018a9 100644
--- a/src/core/textfilter.cpp
+++ b/src/core/textfilter.cpp
@@ -264,10 +264,10 @@ static void scrawl_text(std::string txt, int alignment, int scale, VSFrame *fram
                             scrawl_character_float(iter[i], image, stride, dest_x, dest_y, scale);
                         }
                     } else {
-                        int sub_w = scale * character_width  >> frame_format->subSamplingW;
-                        int sub_h = scale * character_height >> frame_format->subSamplingH;
                         int sub_dest_x = dest_x >> frame_format->subSamplingW;
                         int sub_dest_y = dest_y >> frame_format->subSamplingH;
+                        int sub_w = ((dest_x + scale * character_width) >> frame_format->subSamplingW) - sub_dest_x;
+                        int sub_h = ((dest_y + scale * character_height) >> frame_format->subSamplingH) - sub_dest_y;
                         int y;
 
                         if (frame_format->sampleType == stFloat && frame_format->bitsPerSample == 16) {
-- 
2.43.0


From 735235bfcddaccbbacd240d336d9abbec53bb6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:33 +0000
Subject: [PATCH 50/60] fix: API 3 filters couldn't return clips with variable
 format

---
 src/core/vscore.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/vscore.cpp b/src/core/vscore.cpp
index e941454..6af073b 100644
--- a/src/core/vscore.cpp
+++ b/src/core/vscore.cpp
@@ -729,7 +729,8 @@ VSNode::VSNode(const VSMap *in, VSMap *out, const std::string &name, vs3::VSFilt
         throw VSException(vs_internal_vsapi.mapGetError(out));
     }
 
-    if (vi.format.colorFamily == 0) {
+    // no format is legal and means that it's variable, the flags on the other hand are always set by setVideoInfo3()
+    if (!v3vi.flags || (v3vi.format && vi.format.colorFamily == cfUndefined)) {
         throw VSException("Filter " + name + " didn't set videoinfo");
     }
 
-- 
2.43.0


From 44eb3b95a681789879b9ccb946551e99e06d0640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:33 +0000
Subject: [PATCH 51/60] fix: API 3 getFormatPreset returned a gray format for
 ids of no color family

---
 src/core/vscore.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/vscore.cpp b/src/core/vscore.cpp
index 6af073b..bfa8ebe 100644
--- a/src/core/vscore.cpp
+++ b/src/core/vscore.cpp
@@ -1271,7 +1271,10 @@ const vs3::VSVideoFormat *VSCore::getVideoFormat3(int id) {
     if ((id & 0xFF000000) == 0 && (id & 0x00FFFFFF)) {
         return getV3VideoFormat(id);
     } else {
-        return queryVideoFormat3(ColorFamilyToV3((id >> 28) & 0xF), static_cast<VSSampleType>((id >> 24) & 0xF), (id >> 16) & 0xFF, (id >> 8) & 0xFF, (id >> 0) & 0xFF);
+        int colorFamily = (id >> 28) & 0xF;
+        if (colorFamily != cfGray && colorFamily != cfRGB && colorFamily != cfYUV)
+            return nullptr;
+        return queryVideoFormat3(ColorFamilyToV3(colorFamily), static_cast<VSSampleType>((id >> 24) & 0xF), (id >> 16) & 0xFF, (id >> 8) & 0xFF, (id >> 0) & 0xFF);
     }
 }
 
-- 
2.43.0


From 303add3443568f51e34482d5e8b7e9fc9b9d490c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:28 +0000
Subject: [PATCH 52/60] fix: 7x7 convolution of 16 bit clips overflowed with
 big coefficients

The sum is accumulated with biased pixels so that it fits in an int32 but
removing the bias can take it beyond that, the C code uses int64 here.
---
 src/core/kernel/x86/square_impl.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/core/kernel/x86/square_impl.h b/src/core/kernel/x86/square_impl.h
index 3f23c2a..66be725 100644
--- a/src/core/kernel/x86/square_impl.h
+++ b/src/core/kernel/x86/square_impl.h
@@ -30,10 +30,10 @@
 * is bit-exact with the scalar reference), so the bit-exactness / mirror behaviour
 * matches kernel/generic.cpp conv_plane_square exactly. Integer paths pair
 * two taps per pmaddwd (a trick the auto-vectoriser does not apply). byte accumulates in
-* int32 (never overflows). word at N<=7 accumulates in int32 (worst case N*N*1023*32768 <
-* INT32_MAX at 7x7); word at N>=9 sums each row in int32 (a single row is always safe) and
-* spills into int64 accumulators, converting int64 -> float exactly at the end -- all
-* bit-exact with the C reference. Float uses FMA -> not bit-exact with the scalar/SSE2
+* int32 (never overflows). word at N<=7 accumulates biased values in int32 (worst case
+* N*N*1023*32768 < INT32_MAX at 7x7, only the bias removal needs int64 there); word at N>=9
+* sums each row in int32 (a single row is always safe) and spills into int64 accumulators,
+* converting int64 -> float exactly at the end -- all bit-exact with the C reference. Float uses FMA -> not bit-exact with the scalar/SSE2
 * tiers, matching convolution_impl.h's float behaviour.
 */
 
@@ -151,8 +151,13 @@ static unsigned sq_word_i32_run(const uint16_t *const *rows, uint16_t *dst, unsi
                 }
             }
         }
-        for (unsigned b = 0; b < BLK; ++b)
-            ISA::storeu_u16(dst + j + ISA::IPELS * b, ISA::sub32(lo[b], wbv), ISA::sub32(hi[b], wbv), sc, bi, sm, mv);
+        for (unsigned b = 0; b < BLK; ++b) {
+            if constexpr (N > 5) // the biased sum fits in int32 but the real one doesn't
+                ISA::storeu_u16_i64(dst + j + ISA::IPELS * b, ISA::sub64(ISA::widenlo_i64(lo[b]), wbv), ISA::sub64(ISA::widenhi_i64(lo[b]), wbv),
+                                    ISA::sub64(ISA::widenlo_i64(hi[b]), wbv), ISA::sub64(ISA::widenhi_i64(hi[b]), wbv), sc, bi, sm, mv);
+            else
+                ISA::storeu_u16(dst + j + ISA::IPELS * b, ISA::sub32(lo[b], wbv), ISA::sub32(hi[b], wbv), sc, bi, sm, mv);
+        }
     }
     return j;
 }
@@ -165,7 +170,7 @@ static unsigned sq_interior_word(const uint16_t *const *rows, uint16_t *dst, uns
     ivec bias16 = ISA::word_bias();
     int32_t wb = 0;
     for (unsigned i = 0; i < N * N; ++i) wb += static_cast<int32_t>(INT16_MIN) * m[i];
-    ivec wbv = ISA::set1_i32(static_cast<uint32_t>(wb));
+    ivec wbv = N > 5 ? ISA::set1_i64(wb) : ISA::set1_i32(static_cast<uint32_t>(wb));
     unsigned end = W > S ? W - S : 0, j = S;
     // 512-bit tier (32 regs): 4 blocks -> ~1.4-1.6x over the 2-chain loop; 256-bit tier stays at 1.
     constexpr unsigned B = ISA::IPELS >= 32 ? 4 : 1;
-- 
2.43.0


From 4bc4aa2c5910c30092f01e40c7de5a7749401b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:28 +0000
Subject: [PATCH 53/60] fix: convolution and edge detection results far outside
 of the range wrapped around

The conversion to int32 returns INT_MIN for all values that don't fit so they
have to be clamped before it, like the C code does.
---
 src/core/kernel/x86/convolution_avx2.cpp   | 26 +++++++++++++---------
 src/core/kernel/x86/convolution_avx512.cpp | 26 +++++++++++++---------
 src/core/kernel/x86/convolution_sse2.cpp   | 14 ++++++++----
 src/core/kernel/x86/generic_avx2.cpp       |  3 ++-
 src/core/kernel/x86/generic_avx512.cpp     |  3 ++-
 src/core/kernel/x86/generic_sse2.cpp       |  3 ++-
 src/core/kernel/x86/square_vnni_impl.h     |  4 ++--
 7 files changed, 50 insertions(+), 29 deletions(-)

diff --git a/src/core/kernel/x86/convolution_avx2.cpp b/src/core/kernel/x86/convolution_avx2.cpp
index b28d773..21eafd0 100644
--- a/src/core/kernel/x86/convolution_avx2.cpp
+++ b/src/core/kernel/x86/convolution_avx2.cpp
@@ -82,11 +82,17 @@ struct ISA_AVX2 {
         return _mm256_and_ps(_mm256_fmadd_ps(x, scale, bias), mask);
     }
 
+    // clamped first since the conversion gives INT_MIN for anything that doesn't fit, all results end up as byte or word pixels
+    static ivec cvt_i(fvec x)
+    {
+        return _mm256_cvtps_epi32(_mm256_min_ps(_mm256_max_ps(x, _mm256_setzero_ps()), _mm256_set1_ps(65535.0f)));
+    }
+
     static void store_u8(uint8_t *dst, ivec lo, ivec hi, fvec scale, fvec bias, fvec mask)
     {
         fvec t;
-        t = scale_bias_sat(_mm256_cvtepi32_ps(lo), scale, bias, mask); lo = _mm256_cvtps_epi32(t);
-        t = scale_bias_sat(_mm256_cvtepi32_ps(hi), scale, bias, mask); hi = _mm256_cvtps_epi32(t);
+        t = scale_bias_sat(_mm256_cvtepi32_ps(lo), scale, bias, mask); lo = cvt_i(t);
+        t = scale_bias_sat(_mm256_cvtepi32_ps(hi), scale, bias, mask); hi = cvt_i(t);
         lo = _mm256_packs_epi32(lo, hi);
         lo = _mm256_packus_epi16(lo, lo);
         lo = _mm256_permute4x64_epi64(lo, _MM_SHUFFLE(3, 1, 2, 0));
@@ -95,8 +101,8 @@ struct ISA_AVX2 {
     static void store_u16(uint16_t *dst, ivec lo, ivec hi, fvec scale, fvec bias, fvec mask, ivec maxval)
     {
         fvec t;
-        t = scale_bias_sat(_mm256_cvtepi32_ps(lo), scale, bias, mask); lo = _mm256_cvtps_epi32(t);
-        t = scale_bias_sat(_mm256_cvtepi32_ps(hi), scale, bias, mask); hi = _mm256_cvtps_epi32(t);
+        t = scale_bias_sat(_mm256_cvtepi32_ps(lo), scale, bias, mask); lo = cvt_i(t);
+        t = scale_bias_sat(_mm256_cvtepi32_ps(hi), scale, bias, mask); hi = cvt_i(t);
         lo = _mm256_packus_epi32(lo, hi);
         lo = _mm256_min_epu16(lo, maxval);
         _mm256_store_si256((__m256i *)dst, lo);
@@ -107,8 +113,8 @@ struct ISA_AVX2 {
     static void storeu_u8(uint8_t *dst, ivec lo, ivec hi, fvec scale, fvec bias, fvec mask)
     {
         fvec t;
-        t = scale_bias_sat(_mm256_cvtepi32_ps(lo), scale, bias, mask); lo = _mm256_cvtps_epi32(t);
-        t = scale_bias_sat(_mm256_cvtepi32_ps(hi), scale, bias, mask); hi = _mm256_cvtps_epi32(t);
+        t = scale_bias_sat(_mm256_cvtepi32_ps(lo), scale, bias, mask); lo = cvt_i(t);
+        t = scale_bias_sat(_mm256_cvtepi32_ps(hi), scale, bias, mask); hi = cvt_i(t);
         lo = _mm256_packs_epi32(lo, hi);
         lo = _mm256_packus_epi16(lo, lo);
         lo = _mm256_permute4x64_epi64(lo, _MM_SHUFFLE(3, 1, 2, 0));
@@ -117,8 +123,8 @@ struct ISA_AVX2 {
     static void storeu_u16(uint16_t *dst, ivec lo, ivec hi, fvec scale, fvec bias, fvec mask, ivec maxval)
     {
         fvec t;
-        t = scale_bias_sat(_mm256_cvtepi32_ps(lo), scale, bias, mask); lo = _mm256_cvtps_epi32(t);
-        t = scale_bias_sat(_mm256_cvtepi32_ps(hi), scale, bias, mask); hi = _mm256_cvtps_epi32(t);
+        t = scale_bias_sat(_mm256_cvtepi32_ps(lo), scale, bias, mask); lo = cvt_i(t);
+        t = scale_bias_sat(_mm256_cvtepi32_ps(hi), scale, bias, mask); hi = cvt_i(t);
         lo = _mm256_packus_epi32(lo, hi);
         lo = _mm256_min_epu16(lo, maxval);
         _mm256_storeu_si256((__m256i *)dst, lo);
@@ -146,8 +152,8 @@ struct ISA_AVX2 {
     {
         fvec flo = _mm256_insertf128_ps(_mm256_castps128_ps256(_mm256_cvtpd_ps(i64_to_pd(la))), _mm256_cvtpd_ps(i64_to_pd(lb)), 1);
         fvec fhi = _mm256_insertf128_ps(_mm256_castps128_ps256(_mm256_cvtpd_ps(i64_to_pd(ha))), _mm256_cvtpd_ps(i64_to_pd(hb)), 1);
-        flo = scale_bias_sat(flo, scale, bias, mask); ivec ilo = _mm256_cvtps_epi32(flo);
-        fhi = scale_bias_sat(fhi, scale, bias, mask); ivec ihi = _mm256_cvtps_epi32(fhi);
+        flo = scale_bias_sat(flo, scale, bias, mask); ivec ilo = cvt_i(flo);
+        fhi = scale_bias_sat(fhi, scale, bias, mask); ivec ihi = cvt_i(fhi);
         ivec out = _mm256_packus_epi32(ilo, ihi);
         out = _mm256_min_epu16(out, maxval);
         _mm256_storeu_si256((__m256i *)dst, out);
diff --git a/src/core/kernel/x86/convolution_avx512.cpp b/src/core/kernel/x86/convolution_avx512.cpp
index 929a128..f86ee67 100644
--- a/src/core/kernel/x86/convolution_avx512.cpp
+++ b/src/core/kernel/x86/convolution_avx512.cpp
@@ -88,11 +88,17 @@ struct ISA_AVX512 {
         return _mm512_and_ps(_mm512_fmadd_ps(x, scale, bias), mask);
     }
 
+    // clamped first since the conversion gives INT_MIN for anything that doesn't fit, all results end up as byte or word pixels
+    static ivec cvt_i(fvec x)
+    {
+        return _mm512_cvtps_epi32(_mm512_min_ps(_mm512_max_ps(x, _mm512_setzero_ps()), _mm512_set1_ps(65535.0f)));
+    }
+
     static void store_u8(uint8_t *dst, ivec lo, ivec hi, fvec scale, fvec bias, fvec mask)
     {
         fvec t;
-        t = scale_bias_sat(_mm512_cvtepi32_ps(lo), scale, bias, mask); lo = _mm512_cvtps_epi32(t);
-        t = scale_bias_sat(_mm512_cvtepi32_ps(hi), scale, bias, mask); hi = _mm512_cvtps_epi32(t);
+        t = scale_bias_sat(_mm512_cvtepi32_ps(lo), scale, bias, mask); lo = cvt_i(t);
+        t = scale_bias_sat(_mm512_cvtepi32_ps(hi), scale, bias, mask); hi = cvt_i(t);
         lo = _mm512_packs_epi32(lo, hi);          // per-lane: 32 i16 linear [0..31]
         lo = _mm512_packus_epi16(lo, lo);         // per-lane: valid bytes in low qword
         // Gather the low qword of each 128-bit lane (qwords 0,2,4,6) into the low 256.
@@ -103,8 +109,8 @@ struct ISA_AVX512 {
     static void store_u16(uint16_t *dst, ivec lo, ivec hi, fvec scale, fvec bias, fvec mask, ivec maxval)
     {
         fvec t;
-        t = scale_bias_sat(_mm512_cvtepi32_ps(lo), scale, bias, mask); lo = _mm512_cvtps_epi32(t);
-        t = scale_bias_sat(_mm512_cvtepi32_ps(hi), scale, bias, mask); hi = _mm512_cvtps_epi32(t);
+        t = scale_bias_sat(_mm512_cvtepi32_ps(lo), scale, bias, mask); lo = cvt_i(t);
+        t = scale_bias_sat(_mm512_cvtepi32_ps(hi), scale, bias, mask); hi = cvt_i(t);
         lo = _mm512_packus_epi32(lo, hi);         // per-lane: 32 u16 linear [0..31]
         lo = _mm512_min_epu16(lo, maxval);
         _mm512_store_si512((void *)dst, lo);
@@ -115,8 +121,8 @@ struct ISA_AVX512 {
     static void storeu_u8(uint8_t *dst, ivec lo, ivec hi, fvec scale, fvec bias, fvec mask)
     {
         fvec t;
-        t = scale_bias_sat(_mm512_cvtepi32_ps(lo), scale, bias, mask); lo = _mm512_cvtps_epi32(t);
-        t = scale_bias_sat(_mm512_cvtepi32_ps(hi), scale, bias, mask); hi = _mm512_cvtps_epi32(t);
+        t = scale_bias_sat(_mm512_cvtepi32_ps(lo), scale, bias, mask); lo = cvt_i(t);
+        t = scale_bias_sat(_mm512_cvtepi32_ps(hi), scale, bias, mask); hi = cvt_i(t);
         lo = _mm512_packs_epi32(lo, hi);
         lo = _mm512_packus_epi16(lo, lo);
         ivec idx = _mm512_setr_epi64(0, 2, 4, 6, 1, 3, 5, 7);
@@ -126,8 +132,8 @@ struct ISA_AVX512 {
     static void storeu_u16(uint16_t *dst, ivec lo, ivec hi, fvec scale, fvec bias, fvec mask, ivec maxval)
     {
         fvec t;
-        t = scale_bias_sat(_mm512_cvtepi32_ps(lo), scale, bias, mask); lo = _mm512_cvtps_epi32(t);
-        t = scale_bias_sat(_mm512_cvtepi32_ps(hi), scale, bias, mask); hi = _mm512_cvtps_epi32(t);
+        t = scale_bias_sat(_mm512_cvtepi32_ps(lo), scale, bias, mask); lo = cvt_i(t);
+        t = scale_bias_sat(_mm512_cvtepi32_ps(hi), scale, bias, mask); hi = cvt_i(t);
         lo = _mm512_packus_epi32(lo, hi);
         lo = _mm512_min_epu16(lo, maxval);
         _mm512_storeu_si512((void *)dst, lo);
@@ -146,8 +152,8 @@ struct ISA_AVX512 {
     {
         fvec flo = _mm512_insertf32x8(_mm512_castps256_ps512(_mm512_cvtepi64_ps(la)), _mm512_cvtepi64_ps(lb), 1);
         fvec fhi = _mm512_insertf32x8(_mm512_castps256_ps512(_mm512_cvtepi64_ps(ha)), _mm512_cvtepi64_ps(hb), 1);
-        flo = scale_bias_sat(flo, scale, bias, mask); ivec ilo = _mm512_cvtps_epi32(flo);
-        fhi = scale_bias_sat(fhi, scale, bias, mask); ivec ihi = _mm512_cvtps_epi32(fhi);
+        flo = scale_bias_sat(flo, scale, bias, mask); ivec ilo = cvt_i(flo);
+        fhi = scale_bias_sat(fhi, scale, bias, mask); ivec ihi = cvt_i(fhi);
         ivec out = _mm512_packus_epi32(ilo, ihi);
         out = _mm512_min_epu16(out, maxval);
         _mm512_storeu_si512((void *)dst, out);
diff --git a/src/core/kernel/x86/convolution_sse2.cpp b/src/core/kernel/x86/convolution_sse2.cpp
index ff41156..3edbfe4 100644
--- a/src/core/kernel/x86/convolution_sse2.cpp
+++ b/src/core/kernel/x86/convolution_sse2.cpp
@@ -85,11 +85,17 @@ struct ISA_SSE2 {
         return _mm_and_ps(_mm_add_ps(_mm_mul_ps(x, scale), bias), mask);
     }
 
+    // clamped first since the conversion gives INT_MIN for anything that doesn't fit, all results end up as byte or word pixels
+    static ivec cvt_i(fvec x)
+    {
+        return _mm_cvtps_epi32(_mm_min_ps(_mm_max_ps(x, _mm_setzero_ps()), _mm_set_ps1(65535.0f)));
+    }
+
     static void store_u8(uint8_t *dst, ivec lo, ivec hi, fvec scale, fvec bias, fvec mask)
     {
         fvec t;
-        t = scale_bias_sat(_mm_cvtepi32_ps(lo), scale, bias, mask); lo = _mm_cvtps_epi32(t);
-        t = scale_bias_sat(_mm_cvtepi32_ps(hi), scale, bias, mask); hi = _mm_cvtps_epi32(t);
+        t = scale_bias_sat(_mm_cvtepi32_ps(lo), scale, bias, mask); lo = cvt_i(t);
+        t = scale_bias_sat(_mm_cvtepi32_ps(hi), scale, bias, mask); hi = cvt_i(t);
         lo = _mm_packs_epi32(lo, hi);
         lo = _mm_packus_epi16(lo, lo);
         _mm_storel_epi64((__m128i *)dst, lo);
@@ -98,9 +104,9 @@ struct ISA_SSE2 {
     {
         fvec t;
         t = scale_bias_sat(_mm_cvtepi32_ps(lo), scale, bias, mask);
-        lo = _mm_cvtps_epi32(t); lo = _mm_add_epi32(lo, _mm_set1_epi32(INT16_MIN));
+        lo = cvt_i(t); lo = _mm_add_epi32(lo, _mm_set1_epi32(INT16_MIN));
         t = scale_bias_sat(_mm_cvtepi32_ps(hi), scale, bias, mask);
-        hi = _mm_cvtps_epi32(t); hi = _mm_add_epi32(hi, _mm_set1_epi32(INT16_MIN));
+        hi = cvt_i(t); hi = _mm_add_epi32(hi, _mm_set1_epi32(INT16_MIN));
         lo = _mm_packs_epi32(lo, hi);
         lo = _mm_min_epi16(lo, maxval);
         lo = _mm_sub_epi16(lo, _mm_set1_epi16(INT16_MIN));
diff --git a/src/core/kernel/x86/generic_avx2.cpp b/src/core/kernel/x86/generic_avx2.cpp
index 50bc8ba..0f82469 100644
--- a/src/core/kernel/x86/generic_avx2.cpp
+++ b/src/core/kernel/x86/generic_avx2.cpp
@@ -92,7 +92,8 @@ struct Backend_AVX2 {
 
     // Float.
     static fvec cvt_f(ivec x) { return _mm256_cvtepi32_ps(x); }
-    static ivec cvt_i(fvec x) { return _mm256_cvtps_epi32(x); }
+    // clamped first since the conversion gives INT_MIN for anything that doesn't fit, all results end up as byte or word pixels
+    static ivec cvt_i(fvec x) { return _mm256_cvtps_epi32(_mm256_min_ps(_mm256_max_ps(x, _mm256_setzero_ps()), _mm256_set1_ps(65535.0f))); }
     static fvec set1_f(float x) { return _mm256_set1_ps(x); }
     static fvec fadd(fvec a, fvec b) { return _mm256_add_ps(a, b); }
     static fvec fsub(fvec a, fvec b) { return _mm256_sub_ps(a, b); }
diff --git a/src/core/kernel/x86/generic_avx512.cpp b/src/core/kernel/x86/generic_avx512.cpp
index b8ae2bb..33f5fc5 100644
--- a/src/core/kernel/x86/generic_avx512.cpp
+++ b/src/core/kernel/x86/generic_avx512.cpp
@@ -95,7 +95,8 @@ struct Backend_AVX512 {
 
     // Float.
     static fvec cvt_f(ivec x) { return _mm512_cvtepi32_ps(x); }
-    static ivec cvt_i(fvec x) { return _mm512_cvtps_epi32(x); }
+    // clamped first since the conversion gives INT_MIN for anything that doesn't fit, all results end up as byte or word pixels
+    static ivec cvt_i(fvec x) { return _mm512_cvtps_epi32(_mm512_min_ps(_mm512_max_ps(x, _mm512_setzero_ps()), _mm512_set1_ps(65535.0f))); }
     static fvec set1_f(float x) { return _mm512_set1_ps(x); }
     static fvec fadd(fvec a, fvec b) { return _mm512_add_ps(a, b); }
     static fvec fsub(fvec a, fvec b) { return _mm512_sub_ps(a, b); }
diff --git a/src/core/kernel/x86/generic_sse2.cpp b/src/core/kernel/x86/generic_sse2.cpp
index 0f02096..342458b 100644
--- a/src/core/kernel/x86/generic_sse2.cpp
+++ b/src/core/kernel/x86/generic_sse2.cpp
@@ -78,7 +78,8 @@ struct Backend_SSE2 {
 
     // Float.
     static fvec cvt_f(ivec x) { return _mm_cvtepi32_ps(x); }
-    static ivec cvt_i(fvec x) { return _mm_cvtps_epi32(x); }
+    // clamped first since the conversion gives INT_MIN for anything that doesn't fit, all results end up as byte or word pixels
+    static ivec cvt_i(fvec x) { return _mm_cvtps_epi32(_mm_min_ps(_mm_max_ps(x, _mm_setzero_ps()), _mm_set_ps1(65535.0f))); }
     static fvec set1_f(float x) { return _mm_set_ps1(x); }
     static fvec fadd(fvec a, fvec b) { return _mm_add_ps(a, b); }
     static fvec fsub(fvec a, fvec b) { return _mm_sub_ps(a, b); }
diff --git a/src/core/kernel/x86/square_vnni_impl.h b/src/core/kernel/x86/square_vnni_impl.h
index 29c50e9..3b91657 100644
--- a/src/core/kernel/x86/square_vnni_impl.h
+++ b/src/core/kernel/x86/square_vnni_impl.h
@@ -64,10 +64,10 @@ static unsigned sq_interior_byte_vnni(const uint8_t *const *rows, uint8_t *dst,
         for (unsigned d = 0; d < 4; ++d) { unsigned k = g * 4 + d; int8_t cv = k < N ? static_cast<int8_t>(m[r * N + k]) : 0; c |= static_cast<uint32_t>(static_cast<uint8_t>(cv)) << (8 * d); }
         pk[r][g] = c;
     }
-    const __m512i zero = _mm512_setzero_si512(), v255 = _mm512_set1_epi32(255);
+    const __m512 zero = _mm512_setzero_ps(), v255 = _mm512_set1_ps(255.0f);
     auto store16 = [&](unsigned col, __m512i acc) {
         __m512 f = _mm512_and_ps(_mm512_fmadd_ps(_mm512_cvtepi32_ps(acc), sc, bi), sm);
-        __m512i o = _mm512_min_epi32(_mm512_max_epi32(_mm512_cvtps_epi32(f), zero), v255);
+        __m512i o = _mm512_cvtps_epi32(_mm512_min_ps(_mm512_max_ps(f, zero), v255));
         _mm_storeu_si128(reinterpret_cast<__m128i *>(dst + col), _mm512_cvtepi32_epi8(o));
     };
     unsigned end = W > S ? W - S : 0, j = S;
-- 
2.43.0


From ceba3e873050569399da69419730d179d6859b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:35 +0000
Subject: [PATCH 54/60] fix: evaluate Expr powers of 0.75 and 1.25 without
 overflowing

x ** 0.75 was evaluated as sqrt(sqrt(x ** 3)), which is infinite for
x = 60000.0 ** 3.
---
 src/core/expr/expr.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/core/expr/expr.cpp b/src/core/expr/expr.cpp
index acd4cb2..10d6269 100644
--- a/src/core/expr/expr.cpp
+++ b/src/core/expr/expr.cpp
@@ -1325,6 +1325,14 @@ bool applyStrengthReduction(ExpressionTree &tree)
                 node.left->right->op.imm.f = std::floor(exponent);
                 node.setRight(frac);
                 node.right->right->op.imm.f = exponent - std::floor(exponent);
+            } else if (exponent == 0.75f || std::fabs(exponent) == 1.25f) {
+                // The quarter is split off as well, x ** 3 and x ** 5 are out of range even more easily.
+                ExpressionTreeNode *frac = tree.clone(&node);
+                replaceNode(node, ExpressionTreeNode{ ExprOpType::MUL });
+                node.setLeft(dup);
+                node.left->right->op.imm.f = exponent - std::copysign(0.25f, exponent);
+                node.setRight(frac);
+                node.right->right->op.imm.f = std::copysign(0.25f, exponent);
             } else {
                 replaceNode(node, ExpressionTreeNode{ ExprOpType::SQRT });
                 node.setLeft(dup);
-- 
2.43.0


From 1dc82beee71b2864426f7ba566d0e46ccdacb533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:33 +0000
Subject: [PATCH 55/60] fix: report frame properties holding no values as
 present

keys(), len() and indexing already listed them, so clear(), popitem() and assigning a
whole dictionary raised KeyError for frames carrying an empty property array.
---
 src/cython/vapoursynth.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 5a19467..3629218 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -1377,7 +1377,7 @@ cdef class FrameProps(object):
         cdef const VSMap *m = self.funcs.getFramePropertiesRO(self.frame.constf)
         cdef bytes b = name.encode('utf-8')
         cdef int numelem = self.funcs.mapNumElements(m, b)
-        return numelem > 0
+        return numelem >= 0
 
     def __getitem__(self, str name):
         self.frame._ensure_open()
-- 
2.43.0


From a4760643eca9eb85cad9ffdb38a1759bad8c0c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:32 +0000
Subject: [PATCH 56/60] fix: removing a log handler twice or None from Python
 could remove another handler or crash

---
 src/cython/vapoursynth.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 3629218..9794f83 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -3076,6 +3076,7 @@ cdef void __stdcall log_handler_wrapper(int msgType, const char *msg, void *user
 
 cdef void __stdcall log_handler_free(void *userData) noexcept nogil:
     with gil:
+        (<LogHandle>userData).handle = NULL
         Py_DECREF(<LogHandle>userData)
 
 
@@ -3256,10 +3257,13 @@ cdef class Core(object):
         lh.handle = handle
         return lh
 
-    def remove_log_handler(self, LogHandle handle):
+    def remove_log_handler(self, LogHandle handle not None):
         self.ensure_valid()
         cdef VSLogHandle *h = handle.handle
         cdef bint result
+        # the handler is already gone and its address may belong to another one by now
+        if h == NULL:
+            return False
         with nogil:
             result = self.funcs.removeLogHandler(h, self.core)
         return result
-- 
2.43.0


From 805773ad1d7d3dd95ffb98c3d052e983923e9733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:32 +0000
Subject: [PATCH 57/60] fix: create_video_frame with dimensions that aren't
 positive ended the process

---
 src/cython/vapoursynth.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index 9794f83..e0acc6b 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -3232,6 +3232,8 @@ cdef class Core(object):
         cdef VSVideoFormat fmt
         if not self.funcs.getVideoFormatByID(&fmt, format, self.core):
             raise Error('Invalid format id specified')
+        if width <= 0 or height <= 0:
+            raise ValueError('Frame dimensions must be positive')
 
         cdef VSFrame* ref = self.funcs.newVideoFrame(&fmt, width, height, NULL, self.core)
         return createVideoFrame(ref, self.funcs, self.core)
-- 
2.43.0


From e3c606de58ab35dbd72f74e85f4e095cc0d32aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:33 +0000
Subject: [PATCH 58/60] fix: a negative thread count made the number of threads
 unlimited

---
 src/core/vsapi.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/vsapi.cpp b/src/core/vsapi.cpp
index b34096d..7051107 100644
--- a/src/core/vsapi.cpp
+++ b/src/core/vsapi.cpp
@@ -676,7 +676,7 @@ static VSCore *VS_CC createCore(int flags) VS_NOEXCEPT {
 static VSCore *VS_CC createCore3(int threads) VS_NOEXCEPT {
     VSCore *core = new VSCore(0);
     if (core)
-        core->threadPool->setThreadCount(threads);
+        core->threadPool->setThreadCount(threads > 0 ? threads : 0);
     return core;
 }
 
@@ -850,7 +850,7 @@ static void VS_CC setMessageHandler(VSLogHandler handler, void *userData) VS_NOE
 
 static int VS_CC setThreadCount(int threads, VSCore *core) VS_NOEXCEPT {
     assert(core);
-    return static_cast<int>(core->threadPool->setThreadCount(threads));
+    return static_cast<int>(core->threadPool->setThreadCount(threads > 0 ? threads : 0));
 }
 
 static const char *VS_CC getPluginPath(const VSPlugin *plugin) VS_NOEXCEPT {
-- 
2.43.0


From 0269d6a122945fc71686e37c5a99aaa9c6abb837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:33 +0000
Subject: [PATCH 59/60] fix: functions with a mandatory argument after an
 optional one had no Python signature

---
 src/cython/vapoursynth.pyx | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/cython/vapoursynth.pyx b/src/cython/vapoursynth.pyx
index e0acc6b..3823310 100644
--- a/src/cython/vapoursynth.pyx
+++ b/src/cython/vapoursynth.pyx
@@ -846,6 +846,20 @@ def construct_signature(signature, return_signature, injected=None, name=None):
     if injected and params:
         del params[0]
 
+    # Python can't express a mandatory positional argument after an optional one
+    has_default = False
+    for i, param in enumerate(params):
+        if param.kind is not inspect.Parameter.POSITIONAL_OR_KEYWORD:
+            continue
+        if param.default is not inspect.Parameter.empty:
+            has_default = True
+        elif has_default:
+            params[i:] = [
+                p if p.kind is inspect.Parameter.VAR_KEYWORD else p.replace(kind=inspect.Parameter.KEYWORD_ONLY)
+                for p in params[i:]
+            ]
+            break
+
     return_annotations = list(
         _construct_parameter(rparam)
         for rparam in return_signature.split(";")
-- 
2.43.0


From db2299506e78eefcc7efa5e115ce32ab72329af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:33 +0000
Subject: [PATCH 60/60] fix: hold the function lock while listing functions for
 API 3

VSPlugin::getFunctions3 walked the function map without functionLock, so it raced with registerFunction.
---
 src/core/vscore.cpp | 1 +
 src/core/vscore.h   | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/vscore.cpp b/src/core/vscore.cpp
index bfa8ebe..50cc966 100644
--- a/src/core/vscore.cpp
+++ b/src/core/vscore.cpp
@@ -2457,6 +2457,7 @@ VSPluginFunction *VSPlugin::getFunctionByName(const std::string name) {
 }
 
 void VSPlugin::getFunctions3(VSMap *out) const {
+    std::lock_guard<std::mutex> lock(functionLock);
     for (const auto &f : funcs) {
         if (f.second.isV3Compatible()) {
             std::string b = f.first + ";" + f.second.getV3ArgString();
diff --git a/src/core/vscore.h b/src/core/vscore.h
index 2077180..1a95264 100644
--- a/src/core/vscore.h
+++ b/src/core/vscore.h
@@ -1101,7 +1101,7 @@ private:
     void *libHandle;
 #endif
     std::map<std::string, VSPluginFunction> funcs;
-    std::mutex functionLock;
+    mutable std::mutex functionLock;
     VSCore *core;
 public:
     explicit VSPlugin(VSCore *core);
-- 
2.43.0

