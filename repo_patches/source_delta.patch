From 6fd9343b0911538bf06e7188d2eccdee098f2710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:34 +0000
Subject: [PATCH 01/42] fix: getLocalLinearIndex(globLinIndex) subtracts the
 lower bounds per dimension

---
 src/fullgrid/DistributedFullGrid.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fullgrid/DistributedFullGrid.hpp b/src/fullgrid/DistributedFullGrid.hpp
index ecf061a..dd6c3c6 100644
--- a/src/fullgrid/DistributedFullGrid.hpp
+++ b/src/fullgrid/DistributedFullGrid.hpp
@@ -811,9 +811,11 @@ IndexType DistributedFullGrid<FG_ELEMENT>::getLocalLinearIndex(IndexType globLin
   globAxisIndex.resize(dim_);
   getGlobalVectorIndex(globLinIndex, globAxisIndex);
 
-  if (this->isGlobalIndexHere(globAxisIndex)) {
-    // convert to local linear index
-    return getLocalLinearIndex(globAxisIndex) - this->myPartitionsFirstGlobalIndex_;
+  // convert to local linear index, if the point belongs to this partition
+  static thread_local IndexVector locAxisIndex(dim_);
+  locAxisIndex.resize(dim_);
+  if (getLocalVectorIndex(globAxisIndex, locAxisIndex)) {
+    return getLocalLinearIndex(locAxisIndex);
   } else {
     return -1;
   }
-- 
2.43.0


From 7b86278b8cd5bf20c4237fd00b90da4edc4a4564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:34 +0000
Subject: [PATCH 02/42] fix: initialise the last entry of the power-of-two
 tables

---
 src/utils/PowerOfTwo.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/PowerOfTwo.hpp b/src/utils/PowerOfTwo.hpp
index 77e7da1..31b1972 100644
--- a/src/utils/PowerOfTwo.hpp
+++ b/src/utils/PowerOfTwo.hpp
@@ -18,7 +18,7 @@ inline IndexType powerOfTwoByBitshift(LevelType x) {
 const int powerOfTwo[30] = {
     1,       2,       4,       8,       16,       32,       64,       128,       256,      512,
     1024,    2048,    4096,    8192,    16384,    32768,    65536,    131072,    262144,   524288,
-    1048576, 2097152, 4194304, 8388608, 16777216, 33554432, 67108864, 134217728, 268435456};
+    1048576, 2097152, 4194304, 8388608, 16777216, 33554432, 67108864, 134217728, 268435456, 536870912};
 
 /** vector with one over power two */
 const double oneOverPowOfTwo[30] = {
@@ -27,6 +27,6 @@ const double oneOverPowOfTwo[30] = {
     1.0 / 1024.0,     1.0 / 2048.0,     1.0 / 4096.0,      1.0 / 8192.0,     1.0 / 16384.0,
     1.0 / 32768.0,    1.0 / 65536.0,    1.0 / 131072.0,    1.0 / 262144.0,   1.0 / 524288.0,
     1.0 / 1048576.0,  1.0 / 2097152.0,  1.0 / 4194304.0,   1.0 / 8388608.0,  1.0 / 16777216.0,
-    1.0 / 33554432.0, 1.0 / 67108864.0, 1.0 / 134217728.0, 1.0 / 268435456.0};
+    1.0 / 33554432.0, 1.0 / 67108864.0, 1.0 / 134217728.0, 1.0 / 268435456.0, 1.0 / 536870912.0};
 
 }  // namespace combigrid
-- 
2.43.0


From bcafbbff85edecbe4d7ff182857000e9ab36f671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:18 +0000
Subject: [PATCH 03/42] fix: a classical scheme with lmin == lmax has its
 single component grid

createClassicalCombischeme put the level only into levels_, so that
getCombiSpaces() was empty while getCoeffs() had one entry.
---
 src/combischeme/CombiMinMaxScheme.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/combischeme/CombiMinMaxScheme.cpp b/src/combischeme/CombiMinMaxScheme.cpp
index 35ebc4b..884971c 100644
--- a/src/combischeme/CombiMinMaxScheme.cpp
+++ b/src/combischeme/CombiMinMaxScheme.cpp
@@ -22,8 +22,9 @@ void CombiMinMaxScheme::createClassicalCombischeme() {
   }
   if (lmintmp.empty()) {
     assert(lmin_ == lmax_);
-    levels_.push_back(lmin_);
+    combiSpaces_.push_back(lmin_);
     coefficients_.push_back(1.0);
+    createDownSet();
     return;
   }
   // compute c which fulfills lmax - c*1  >= lmin
-- 
2.43.0


From 90d5af60436818c4314a47a1d66f3709de2bc96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:18 +0000
Subject: [PATCH 04/42] fix: re-insert dummy dimensions of classical schemes
 with their own level

lmax_ was indexed with the running number of the dummy dimension instead of
the dimension itself, and the down set lacked the coarser levels there.
---
 src/combischeme/CombiMinMaxScheme.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/combischeme/CombiMinMaxScheme.cpp b/src/combischeme/CombiMinMaxScheme.cpp
index 884971c..612b7a5 100644
--- a/src/combischeme/CombiMinMaxScheme.cpp
+++ b/src/combischeme/CombiMinMaxScheme.cpp
@@ -44,10 +44,16 @@ void CombiMinMaxScheme::createClassicalCombischeme() {
 
   // re-insert dummy dimensions left out
   for (size_t i = 0; i < dummyDims.size(); ++i) {
-    for (size_t j = 0; j < levels_.size(); ++j) {
-      levels_[j].insert(levels_[j].begin() + dummyDims[i], lmax_[i]);
+    const LevelType lmaxDummy = lmax_[dummyDims[i]];
+    std::vector<LevelVector> levelsWithDummy;
+    for (const auto& level : levels_) {
+      for (LevelType ldummy = 1; ldummy <= lmaxDummy; ++ldummy) {
+        levelsWithDummy.push_back(level);
+        levelsWithDummy.back().insert(levelsWithDummy.back().begin() + dummyDims[i], ldummy);
+      }
     }
-    lmin_[dummyDims[i]] = lmax_[i];
+    levels_ = std::move(levelsWithDummy);
+    lmin_[dummyDims[i]] = lmaxDummy;
   }
   n_ = static_cast<LevelType>(combigrid::levelSum(lmin_) + c);
   // create combi spaces
-- 
2.43.0


From 7b723744d31c3f5b2d70d1b1514121044d8048de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:18 +0000
Subject: [PATCH 05/42] fix: classical coefficients for 256 or more component
 grids

The 8-bit loop counter wrapped around and the loop never ended.
---
 src/combischeme/CombiMinMaxScheme.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/combischeme/CombiMinMaxScheme.cpp b/src/combischeme/CombiMinMaxScheme.cpp
index 612b7a5..844f189 100644
--- a/src/combischeme/CombiMinMaxScheme.cpp
+++ b/src/combischeme/CombiMinMaxScheme.cpp
@@ -145,7 +145,7 @@ void CombiMinMaxScheme::computeCombiCoeffsAdaptive() {
 }
 
 void CombiMinMaxScheme::computeCombiCoeffsClassical() {
-  for (DimType i = 0; i < combiSpaces_.size(); ++i) {
+  for (size_t i = 0; i < combiSpaces_.size(); ++i) {
     LevelType l1 = combigrid::levelSum(combiSpaces_[i]);
     auto p = static_cast<LevelType>(n_ - l1);
     // Classical combination coefficients
-- 
2.43.0


From 10cb1ffe881785f9f411db7578eae25d9ee46d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:18 +0000
Subject: [PATCH 06/42] fix: HypercubeDownSetGenerator finishes at the
 anisotropic top level

It compared every entry with the first one of levelUpTo_, and stopped early if
the cube (k,...,k) was passed on the way, e.g. for levels up to (2,3).
---
 src/utils/LevelSetUtils.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/utils/LevelSetUtils.hpp b/src/utils/LevelSetUtils.hpp
index caaf01b..7184cb0 100644
--- a/src/utils/LevelSetUtils.hpp
+++ b/src/utils/LevelSetUtils.hpp
@@ -130,8 +130,7 @@ class HypercubeDownSetGenerator {
 
  private:
   bool isFinished() {
-    return std::all_of(currentLevel_.begin(), currentLevel_.end(),
-                       [this](const LevelType& l) { return l == levelUpTo_[0]; });
+    return currentLevel_ == levelUpTo_;
   }
 
   const LevelVector levelUpTo_;
-- 
2.43.0


From f107a2b7272e7220dc5d76c72912cd1512e8cb74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:55 +0000
Subject: [PATCH 07/42] fix: makeFaultTolerant does not add grids that are
 already in the scheme

Adaptive schemes with uneven level ranges already contain grids on the extra
diagonals; they were listed a second time with coefficient zero.
---
 src/combischeme/CombiMinMaxScheme.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/combischeme/CombiMinMaxScheme.cpp b/src/combischeme/CombiMinMaxScheme.cpp
index 844f189..17bbd2b 100644
--- a/src/combischeme/CombiMinMaxScheme.cpp
+++ b/src/combischeme/CombiMinMaxScheme.cpp
@@ -114,7 +114,8 @@ void CombiMinMaxScheme::makeFaultTolerant() {
   for (size_t i = 0; i < levels_.size(); ++i) {
     LevelVector& l = levels_[i];
     for (LevelType p = LevelType(effDim_); p < LevelType(effDim_) + extraDiags; ++p) {
-      if (l >= lmin_ && combigrid::levelSum(l) == n_ - p) {
+      if (l >= lmin_ && combigrid::levelSum(l) == n_ - p &&
+          std::find(combiSpaces_.begin(), combiSpaces_.end(), l) == combiSpaces_.end()) {
         combiSpaces_.push_back(l);
         coefficients_.push_back(0.0);
       }
-- 
2.43.0


From dfe49ff83c312418b5c347f2daf65337eef74cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:25 +0000
Subject: [PATCH 08/42] fix: report an adaptive scheme without any component
 grid

For very uneven level ranges, e.g. lmin (1,1,2) and lmax (1,2,2), the level set
is not empty but contains no level >= lmin, which went unnoticed.
---
 src/combischeme/CombiMinMaxScheme.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/combischeme/CombiMinMaxScheme.cpp b/src/combischeme/CombiMinMaxScheme.cpp
index 17bbd2b..f645cbe 100644
--- a/src/combischeme/CombiMinMaxScheme.cpp
+++ b/src/combischeme/CombiMinMaxScheme.cpp
@@ -98,7 +98,7 @@ void CombiMinMaxScheme::createAdaptiveCombischeme() {
   }
 
   computeCombiCoeffsAdaptive();
-  if (levels_.empty()) {
+  if (levels_.empty() || combiSpaces_.empty()) {
     throw std::runtime_error("No combination levels!");
   }
 }
-- 
2.43.0


From b544ef03c93a0bca6117bf6c1c40497210c9be5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:52 +0000
Subject: [PATCH 09/42] fix: use the biorthogonal kernels for the non-periodic
 biorthogonal basis

BiorthogonalBasisFunction dispatched to the full-weighting (de)hierarchization
kernels, so the selected basis had no effect.
---
 src/hierarchization/DistributedHierarchization.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hierarchization/DistributedHierarchization.hpp b/src/hierarchization/DistributedHierarchization.hpp
index fb4f719..0234385 100644
--- a/src/hierarchization/DistributedHierarchization.hpp
+++ b/src/hierarchization/DistributedHierarchization.hpp
@@ -1165,7 +1165,7 @@ class DistributedHierarchization {
               dfg, remoteData, dim, lmin[dim]);
         } else if (dynamic_cast<BiorthogonalBasisFunction*>(hierarchicalBases[dim]) != nullptr) {
           hierarchizeWithBoundary<FG_ELEMENT,
-                                  hierarchize_full_weighting_boundary_kernel<FG_ELEMENT, false>>(
+                                  hierarchize_biorthogonal_boundary_kernel<FG_ELEMENT, false>>(
               dfg, remoteData, dim, lmin[dim]);
         } else if (dynamic_cast<BiorthogonalPeriodicBasisFunction*>(hierarchicalBases[dim]) !=
                    nullptr) {
@@ -1247,7 +1247,7 @@ class DistributedHierarchization {
               dfg, remoteData, dim, lmin[dim]);
         } else if (dynamic_cast<BiorthogonalBasisFunction*>(hierarchicalBases[dim]) != nullptr) {
           hierarchizeWithBoundary<FG_ELEMENT,
-                                  dehierarchize_full_weighting_boundary_kernel<FG_ELEMENT, false>>(
+                                  dehierarchize_biorthogonal_boundary_kernel<FG_ELEMENT, false>>(
               dfg, remoteData, dim, lmin[dim]);
         } else if (dynamic_cast<BiorthogonalPeriodicBasisFunction*>(hierarchicalBases[dim]) !=
                    nullptr) {
-- 
2.43.0


From a8e2ff0abf72f2db5cbf97904ef1530ac0ae8c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:53 +0000
Subject: [PATCH 10/42] fix: do not search subspaces from before the beginning
 after an unsuccessful search

---
 src/sparsegrid/DistributedSparseGridUniform.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sparsegrid/DistributedSparseGridUniform.hpp b/src/sparsegrid/DistributedSparseGridUniform.hpp
index bbb52db..a9c8daa 100644
--- a/src/sparsegrid/DistributedSparseGridUniform.hpp
+++ b/src/sparsegrid/DistributedSparseGridUniform.hpp
@@ -580,7 +580,8 @@ DistributedSparseGridUniform<FG_ELEMENT>::getIndexInRange(const LevelVector& l,
   }
 #endif  // NDEBUG
   auto start = levels_.cbegin();
-  std::advance(start, lowerBound);
+  // lowerBound may be the result of an unsuccessful search (-1)
+  std::advance(start, std::max(lowerBound, static_cast<IndexType>(0)));
   auto found = std::lower_bound(start, levels_.end(), l);
   if (found != levels_.end() && *found == l) {
     return static_cast<SubspaceIndexType>(std::distance(levels_.cbegin(), found));
-- 
2.43.0


From 4f736f64e0629226fb50885d182fac24e3172376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:11 +0000
Subject: [PATCH 11/42] fix: record the maximum coefficient also for subspaces
 with only non-positive values

---
 src/sparsegrid/DistributedSparseGridUniform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparsegrid/DistributedSparseGridUniform.hpp b/src/sparsegrid/DistributedSparseGridUniform.hpp
index a9c8daa..7e4e921 100644
--- a/src/sparsegrid/DistributedSparseGridUniform.hpp
+++ b/src/sparsegrid/DistributedSparseGridUniform.hpp
@@ -733,7 +733,7 @@ template <typename FG_ELEMENT>
 void DistributedSparseGridUniform<FG_ELEMENT>::accumulateMinMaxCoefficients() {
   if (maxCoefficientPerSubspace_.empty()) {
     maxCoefficientPerSubspace_.resize(this->getNumSubspaces(),
-                                      std::numeric_limits<combigrid::real>::min());
+                                      std::numeric_limits<combigrid::real>::lowest());
     minCoefficientPerSubspace_.resize(this->getNumSubspaces(),
                                       std::numeric_limits<combigrid::real>::max());
   }
-- 
2.43.0


From 9e4ece30b80dacb7a78fa5e717d44ff75dfde022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:30 +0000
Subject: [PATCH 12/42] fix: reset the compensation terms completely when
 subspaces are reallocated

---
 src/sparsegrid/DistributedSparseGridUniform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparsegrid/DistributedSparseGridUniform.hpp b/src/sparsegrid/DistributedSparseGridUniform.hpp
index 7e4e921..6a93d56 100644
--- a/src/sparsegrid/DistributedSparseGridUniform.hpp
+++ b/src/sparsegrid/DistributedSparseGridUniform.hpp
@@ -84,7 +84,7 @@ class DistributedSparseGridDataContainer {
     size_t numDataPoints = dsgu_.getAccumulatedDataSize(subspacesWithData_);
     kahanData_.resize(numDataPoints, 0.);
     kahanDataBegin_.resize(dsgu_.getSubspaceDataSizes().size());
-    std::memset(kahanData_.data(), 0, kahanData_.size() * sizeof(FG_ELEMENT*));
+    std::memset(kahanData_.data(), 0, kahanData_.size() * sizeof(FG_ELEMENT));
     std::memset(kahanDataBegin_.data(), 0, kahanDataBegin_.size() * sizeof(FG_ELEMENT*));
 
     // update pointers for begin of subspacen in kahan buffer
-- 
2.43.0


From a63e186a9ebd0d6223c3565e0f5348b0a58a5f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:11 +0000
Subject: [PATCH 13/42] fix: let processes vote for subspaces on plain words

The in-memory representation of the multiprecision integer also holds its
number of limbs; or-ing it gave votes of ranks that do not exist as soon as
there were more than 192 process groups.
---
 src/sparsegrid/AnyDistributedSparseGrid.cpp | 27 ++++++++++++---------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/sparsegrid/AnyDistributedSparseGrid.cpp b/src/sparsegrid/AnyDistributedSparseGrid.cpp
index e6f31de..c93d7f0 100644
--- a/src/sparsegrid/AnyDistributedSparseGrid.cpp
+++ b/src/sparsegrid/AnyDistributedSparseGrid.cpp
@@ -132,22 +132,27 @@ std::vector<UIntForGroupReductionType> getSubspaceVote(
     // or implement things with bitsets or a veeery long string altogether
   }
 
-  UIntForGroupReductionType mySummand = static_cast<UIntForGroupReductionType>(1)
-                                               << rankInComm;
-
-  // allocate vector of long long
-  std::vector<UIntForGroupReductionType> subspaceVote(subspacesDataSizes.size(), 0);
-  // set to mySummand if we have data in this subspace
+  // vote by binary or -- on plain words, because the multiprecision type also stores its own length
+  constexpr size_t bitsPerWord = std::numeric_limits<uint64_t>::digits;
+  constexpr size_t wordsPerVote =
+      std::numeric_limits<UIntForGroupReductionType>::digits / bitsPerWord;
+  std::vector<uint64_t> voteWords(subspacesDataSizes.size() * wordsPerVote, 0);
+  // set my bit if we have data in this subspace
   for (size_t i = 0; i < subspacesDataSizes.size(); ++i) {
     if (subspacesDataSizes[i] > 0) {
-      subspaceVote[i] = mySummand;
+      voteWords[i * wordsPerVote + rankInComm / bitsPerWord] = static_cast<uint64_t>(1)
+                                                               << (rankInComm % bitsPerWord);
     }
   }
+  MPI_Allreduce(MPI_IN_PLACE, voteWords.data(), static_cast<int>(voteWords.size()), MPI_UINT64_T,
+                MPI_BOR, comm);
 
-  // vote by binary or
-  MPI_Allreduce(MPI_IN_PLACE, subspaceVote.data(),
-                static_cast<int>(subspaceVote.size()) * sizeof(UIntForGroupReductionType),
-                MPI_CHAR, MPI_BOR, comm);
+  std::vector<UIntForGroupReductionType> subspaceVote(subspacesDataSizes.size(), 0);
+  for (size_t i = 0; i < subspaceVote.size(); ++i) {
+    for (size_t w = wordsPerVote; w > 0; --w) {
+      subspaceVote[i] = (subspaceVote[i] << bitsPerWord) | voteWords[i * wordsPerVote + (w - 1)];
+    }
+  }
   return subspaceVote;
 }
 
-- 
2.43.0


From 73f1aaa101af1c7ba514cf0d0df2589742e602d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:11 +0000
Subject: [PATCH 14/42] fix: limit the chunk size of the global reduction to
 the range of int

Large limits (for instance 32 GiB, or 4 GiB with 8 threads) overflowed to a
chunk size of zero and the reduction divided by zero.
---
 src/combicom/CombiCom.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/combicom/CombiCom.hpp b/src/combicom/CombiCom.hpp
index 08d259b..64b1333 100644
--- a/src/combicom/CombiCom.hpp
+++ b/src/combicom/CombiCom.hpp
@@ -92,7 +92,9 @@ static int getGlobalReduceChunkSize(uint32_t maxMiBToSendPerThread) {
   auto maxBytesToSend = CombiCom::MiBtoBytes(maxMiBToSendPerThread);
   // allreduce up to 16MiB at a time (when using double precision)
   auto numOMPThreads = OpenMPUtils::getNumThreads();
-  int chunkSize = static_cast<int>(maxBytesToSend / sizeof(SG_ELEMENT) * numOMPThreads);
+  int chunkSize = static_cast<int>(
+      std::min(maxBytesToSend / sizeof(SG_ELEMENT) * static_cast<size_t>(numOMPThreads),
+               static_cast<size_t>(std::numeric_limits<int>::max())));
   assert(chunkSize > 0);
   return chunkSize;
 }
-- 
2.43.0


From 072c1ce3cbf9d1d7d6b4035fb1c8a039cd09e69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:28:43 +0000
Subject: [PATCH 15/42] fix: compute the chunk size of the subspace reduction
 outside of the parallel region

Inside, it was determined by nested parallelism: processes with a single
communicator got larger chunks than those with several, so the messages of a
communicator did not match (truncation errors or wrong sums).
---
 src/combicom/CombiCom.hpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/combicom/CombiCom.hpp b/src/combicom/CombiCom.hpp
index 64b1333..837aca0 100644
--- a/src/combicom/CombiCom.hpp
+++ b/src/combicom/CombiCom.hpp
@@ -267,17 +267,14 @@ std::vector<std::set<typename AnyDistributedSparseGrid::SubspaceIndexType>>& get
  * @tparam SubspaceIndexContainer a container of subspace indices
  * @param dsg the DistributedSparseGrid
  * @param subspaces the container of subspace indices
- * @param maxMiBToSendPerThread the maximum number of MiB to send per OpenMP thread (~= per core) at
- * once
+ * @param chunkSize the maximum number of elements per datatype, cf. getGlobalReduceChunkSize
  * @return a vector of pairs of the start index of the subspace and the MPI datatype for the
  * reduction
  */
 template <typename FG_ELEMENT, typename SubspaceIndexContainer>
 std::vector<std::pair<typename AnyDistributedSparseGrid::SubspaceIndexType, MPI_Datatype>>
 getReductionDatatypes(const DistributedSparseGridUniform<FG_ELEMENT>& dsg,
-                      const SubspaceIndexContainer& subspaces, uint32_t maxMiBToSendPerThread) {
-  // like for sparse grid reduce, allow only up to 16MiB per reduction
-  auto chunkSize = getGlobalReduceChunkSize<FG_ELEMENT>(maxMiBToSendPerThread);
+                      const SubspaceIndexContainer& subspaces, int chunkSize) {
   std::vector<std::pair<typename AnyDistributedSparseGrid::SubspaceIndexType, MPI_Datatype>>
       datatypesByStartIndex;
 
@@ -340,8 +337,13 @@ void distributedGlobalSubspaceReduce(SparseGridType& dsg, uint32_t maxMiBToSendP
   MPI_Op indexedAdd;
   MPI_Op_create(addIndexedElements<typename SparseGridType::ElementType>, true, &indexedAdd);
 
+  // like for sparse grid reduce, allow only up to 16MiB per reduction;
+  // outside of the parallel region, to get the same chunks on ranks with one or more communicators
+  auto chunkSize =
+      getGlobalReduceChunkSize<typename SparseGridType::ElementType>(maxMiBToSendPerThread);
+
 #pragma omp parallel if (dsg.getSubspacesByCommunicator().size() > 1) default(none) \
-    shared(dsg, indexedAdd) firstprivate(globalReduceRankThatCollects, maxMiBToSendPerThread)
+    shared(dsg, indexedAdd) firstprivate(globalReduceRankThatCollects, chunkSize)
 #pragma omp for schedule(dynamic)
   for (size_t commIndex = 0; commIndex < dsg.getSubspacesByCommunicator().size(); ++commIndex) {
     const std::pair<CommunicatorType,
@@ -353,11 +355,10 @@ void distributedGlobalSubspaceReduce(SparseGridType& dsg, uint32_t maxMiBToSendP
         datatypesByStartIndex;
     if constexpr (communicateAllAllocated) {
       datatypesByStartIndex =
-          getReductionDatatypes(dsg, dsg.getCurrentlyAllocatedSubspaces(), maxMiBToSendPerThread);
+          getReductionDatatypes(dsg, dsg.getCurrentlyAllocatedSubspaces(), chunkSize);
       assert(datatypesByStartIndex.size() == 1);
     } else {
-      datatypesByStartIndex =
-          getReductionDatatypes(dsg, commAndItsSubspaces.second, maxMiBToSendPerThread);
+      datatypesByStartIndex = getReductionDatatypes(dsg, commAndItsSubspaces.second, chunkSize);
     }
     /*
     // // this would be best for outgroup reduce, but leads to MPI truncation
@@ -618,11 +619,11 @@ static void asyncBcastOutgroupDsgData(SparseGridType& dsg, RankType root, Commun
     if constexpr (communicateAllAllocated) {  // assuming byte limit is met by selection of
                                               // allocated spaces
       datatypesByStartIndex = getReductionDatatypes(dsg, dsg.getCurrentlyAllocatedSubspaces(),
-                                                    std::numeric_limits<uint32_t>::max());
+                                                    std::numeric_limits<int>::max());
     } else {
       const auto& commAndItsSubspaces = dsg.getSubspacesByCommunicator()[0];
       datatypesByStartIndex = getReductionDatatypes(dsg, commAndItsSubspaces.second,
-                                                    std::numeric_limits<uint32_t>::max());
+                                                    std::numeric_limits<int>::max());
     }
     assert(datatypesByStartIndex.size() == 1);
 
-- 
2.43.0


From 0dec89f2d6ca2180854e749e26ff112afda03647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:30 +0000
Subject: [PATCH 16/42] fix: evaluate grids with one-sided boundary also at the
 upper end of the domain

---
 src/fullgrid/DistributedFullGrid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fullgrid/DistributedFullGrid.hpp b/src/fullgrid/DistributedFullGrid.hpp
index dd6c3c6..435c811 100644
--- a/src/fullgrid/DistributedFullGrid.hpp
+++ b/src/fullgrid/DistributedFullGrid.hpp
@@ -1120,7 +1120,7 @@ FG_ELEMENT DistributedFullGrid<FG_ELEMENT>::evalIndexAndAllUpperNeighbors(
       if (iterateIndexInThisDimension < 0) {
         phi_c = 0.;
         break;
-      } else if (isUpperInDim && this->hasBoundaryPoints_[d] == 1 &&
+      } else if (this->hasBoundaryPoints_[d] == 1 &&
                  //  this->getCartesianUtils().isOnLowerBoundaryInDimension(d) &&
                  iterateIndexInThisDimension == this->getGlobalSizes()[d]) {
         // if we have a wrap-around AND are on the lowest cartesian process in this dimension
-- 
2.43.0


From 3696e4c6ea887525bf2422857359c841fdcd5e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:46 +0000
Subject: [PATCH 17/42] fix: reverse the byte order of received values without
 reading past them

---
 src/third_level/NetworkUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/third_level/NetworkUtils.hpp b/src/third_level/NetworkUtils.hpp
index 0794a37..c6261d2 100644
--- a/src/third_level/NetworkUtils.hpp
+++ b/src/third_level/NetworkUtils.hpp
@@ -163,7 +163,7 @@ class NetworkUtils {
 
       // reverse bytes
       for (size_t j = 0; j < sizeof(T); j++)
-          rawRet[j] = rawValue[sizeof(T)-j];
+          rawRet[j] = rawValue[sizeof(T)-1-j];
 
       return retValue;
     }
-- 
2.43.0


From 003ad59b2e3023ab865a0444ca02ac369d217298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:46 +0000
Subject: [PATCH 18/42] fix: keep real and imaginary part in place when
 correcting the byte order

---
 src/third_level/NetworkUtils.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/third_level/NetworkUtils.hpp b/src/third_level/NetworkUtils.hpp
index c6261d2..b27e154 100644
--- a/src/third_level/NetworkUtils.hpp
+++ b/src/third_level/NetworkUtils.hpp
@@ -16,6 +16,7 @@
 #include <assert.h>
 #include <arpa/inet.h>
 #include <iostream>
+#include <complex>
 #include <vector>
 #include <fstream>
 #include <memory>
@@ -167,6 +168,13 @@ class NetworkUtils {
 
       return retValue;
     }
+
+    // complex values: reverse real and imaginary part separately
+    template<typename T>
+    inline static std::complex<T> reverseEndianness(const std::complex<T>& value)
+    {
+      return std::complex<T>(reverseEndianness(value.real()), reverseEndianness(value.imag()));
+    }
 };
 
 /* Receives buffSize elements of type FG_ELEMENT and corrects the endianness of
-- 
2.43.0


From 4e31d10f56696f352d679920f666d731ecf7d782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:46 +0000
Subject: [PATCH 19/42] fix: receive elements correctly that arrive in more
 than two parts

---
 src/third_level/NetworkUtils.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/third_level/NetworkUtils.hpp b/src/third_level/NetworkUtils.hpp
index b27e154..206b532 100644
--- a/src/third_level/NetworkUtils.hpp
+++ b/src/third_level/NetworkUtils.hpp
@@ -231,7 +231,8 @@ bool ClientSocket::recvallBinaryAndCorrectInPlace(FG_ELEMENT* buff,
     //  [ oo|xxxx|...|xxxx|o ] -> [ ooo|xxxx|...|xxxx|oo ]
     //                              0                  recvd-1
 
-    tail_k = (sizeof(FG_ELEMENT) - head_k1) % sizeof(FG_ELEMENT);
+    // (a tail that does not even complete the element is kept in remaining)
+    tail_k = std::min<ssize_t>((sizeof(FG_ELEMENT) - head_k1) % sizeof(FG_ELEMENT), recvd);
     head_k = (recvd - tail_k) % sizeof(FG_ELEMENT);
 
     // push tail into remaining
@@ -266,7 +267,7 @@ bool ClientSocket::recvallBinaryAndCorrectInPlace(FG_ELEMENT* buff,
       remaining.push_back(recvBuff[size_t(i)]);
 
     // overwrite old head
-    head_k1 = head_k;
+    head_k1 = static_cast<ssize_t>(remaining.size());
 
     totalRecvd += (size_t)recvd;
   }
@@ -342,7 +343,8 @@ bool ClientSocket::recvallBinaryAndReduceInPlace(FG_ELEMENT* buff,
     //  [ oo|xxxx|...|xxxx|o ] -> [ ooo|xxxx|...|xxxx|oo ]
     //                              0                  recvd-1
 
-    tail_k = (sizeof(FG_ELEMENT) - head_k1) % sizeof(FG_ELEMENT);
+    // (a tail that does not even complete the element is kept in remaining)
+    tail_k = std::min<ssize_t>((sizeof(FG_ELEMENT) - head_k1) % sizeof(FG_ELEMENT), recvd);
     head_k = (recvd-tail_k) % sizeof(FG_ELEMENT);
 
     // push tail into remaining
@@ -385,7 +387,7 @@ bool ClientSocket::recvallBinaryAndReduceInPlace(FG_ELEMENT* buff,
       remaining.push_back(recvBuff[size_t(i)]);
 
     // overwrite old head
-    head_k1 = head_k;
+    head_k1 = static_cast<ssize_t>(remaining.size());
 
     totalRecvd += (size_t)recvd;
   }
-- 
2.43.0


From c710bb67515a49a95186037a8796d2f1bbe2f0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:46 +0000
Subject: [PATCH 20/42] fix: report a failure to receive the byte order

---
 src/third_level/NetworkUtils.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/third_level/NetworkUtils.hpp b/src/third_level/NetworkUtils.hpp
index 206b532..de2f75a 100644
--- a/src/third_level/NetworkUtils.hpp
+++ b/src/third_level/NetworkUtils.hpp
@@ -197,8 +197,7 @@ bool ClientSocket::recvallBinaryAndCorrectInPlace(FG_ELEMENT* buff,
   assert(isInitialized() && "Client Socket not initialized");
   // receive endianness
   char temp = ' ';
-  [[maybe_unused]] auto recvAllSuccess = recvall(&temp, 1);
-  assert(recvAllSuccess && "Receiving Endianess failed");
+  if (!recvall(&temp, 1)) return false;
   bool hasSameEndianness = bool(temp) == NetworkUtils::isLittleEndian();
 
   // for recv()
@@ -309,8 +308,7 @@ bool ClientSocket::recvallBinaryAndReduceInPlace(FG_ELEMENT* buff,
   assert(isInitialized() && "Client Socket not initialized");
   // receive endianness
   char temp = ' ';
-  [[maybe_unused]] auto recvSuccess = recvall(&temp, 1);
-  assert(recvSuccess && "Receiving Endianess failed");
+  if (!recvall(&temp, 1)) return false;
   bool hasSameEndianness = bool(temp) == NetworkUtils::isLittleEndian();
 
   // for recv()
-- 
2.43.0


From 1b8c9da3117e92559645c76434ad7b5f2fc0d661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:46 +0000
Subject: [PATCH 21/42] fix: receive the length of messages of 2 GiB and more

---
 src/third_level/NetworkUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/third_level/NetworkUtils.cpp b/src/third_level/NetworkUtils.cpp
index 1c744fc..84c6802 100644
--- a/src/third_level/NetworkUtils.cpp
+++ b/src/third_level/NetworkUtils.cpp
@@ -191,7 +191,7 @@ bool ClientSocket::recvLength(size_t & length, int flags) const {
     default:
       lenstr.pop_back();
       assert(NetworkUtils::isInteger(lenstr) && "Received length is not a number");
-      length = (size_t) std::stoi(lenstr);
+      length = static_cast<size_t>(std::stoull(lenstr));
       assert(length > 0);
       return true;
   }
-- 
2.43.0


From ef9f693f7dca13db620920985a625b1189b2bc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:46 +0000
Subject: [PATCH 22/42] fix: do not receive data after the end of a file

---
 src/third_level/NetworkUtils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/third_level/NetworkUtils.cpp b/src/third_level/NetworkUtils.cpp
index 84c6802..a0bae05 100644
--- a/src/third_level/NetworkUtils.cpp
+++ b/src/third_level/NetworkUtils.cpp
@@ -121,7 +121,7 @@ bool ClientSocket::recvallBinaryToFile(const std::string& filename, size_t len,
   size_t total = 0;
   std::unique_ptr<char[]> buff(new char[chunksize]);
   while (total < len) {
-    recvd = recv(sockfd_, buff.get(), chunksize, 0);
+    recvd = recv(sockfd_, buff.get(), std::min(len - total, chunksize), 0);
     if (recvd <= 0)
       break;
     total += static_cast<size_t>(recvd);
-- 
2.43.0


From d4b60567016f5296c65ee894ce1fe1797d11cfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:10:46 +0000
Subject: [PATCH 23/42] fix: report a connection closed by the receiver instead
 of terminating the sender

---
 src/third_level/NetworkUtils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/third_level/NetworkUtils.cpp b/src/third_level/NetworkUtils.cpp
index a0bae05..6d3101e 100644
--- a/src/third_level/NetworkUtils.cpp
+++ b/src/third_level/NetworkUtils.cpp
@@ -55,7 +55,8 @@ bool ClientSocket::sendall(const char* buff, size_t len) const {
   ssize_t sent = -1;
   size_t total = 0;
   while (total < len) {
-    sent = send(sockfd_, &buff[total], len - total, 0);
+    // a closed connection is reported by the return value, not by a signal
+    sent = send(sockfd_, &buff[total], len - total, MSG_NOSIGNAL);
     if (sent <= 0)
       break;
     total += static_cast<size_t>(sent);
-- 
2.43.0


From aa6e1f1a6d7f5f3787490d531445647fc8a4574b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:44 +0000
Subject: [PATCH 24/42] fix: sum up durations without overflowing int

---
 src/loadmodel/AverageOfLastNLoadModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loadmodel/AverageOfLastNLoadModel.cpp b/src/loadmodel/AverageOfLastNLoadModel.cpp
index 9b33904..d8d55e0 100644
--- a/src/loadmodel/AverageOfLastNLoadModel.cpp
+++ b/src/loadmodel/AverageOfLastNLoadModel.cpp
@@ -29,7 +29,7 @@ std::chrono::microseconds AverageOfLastNLoadModel::evalSpecificUOT(
 
   const auto& durations = this->levelVectorToLastNDurations_[lvlVec];
   const auto average = (static_cast<real>(std::accumulate(durations.begin(), 
-                                                          durations.end(), 0)) 
+                                                          durations.end(), 0ul)) 
                         / static_cast<real>(durations.size()));
   return std::chrono::microseconds{static_cast<long>(average)};
 }
-- 
2.43.0


From 3e1890816b7bb0f208fdd076c947f620232f57cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:44 +0000
Subject: [PATCH 25/42] fix: return zero if no durations are known, as
 documented

---
 src/loadmodel/AverageOfLastNLoadModel.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/loadmodel/AverageOfLastNLoadModel.cpp b/src/loadmodel/AverageOfLastNLoadModel.cpp
index d8d55e0..cdf146c 100644
--- a/src/loadmodel/AverageOfLastNLoadModel.cpp
+++ b/src/loadmodel/AverageOfLastNLoadModel.cpp
@@ -28,6 +28,9 @@ std::chrono::microseconds AverageOfLastNLoadModel::evalSpecificUOT(
     const LevelVector& lvlVec) {
 
   const auto& durations = this->levelVectorToLastNDurations_[lvlVec];
+  if (durations.empty()) {
+    return std::chrono::microseconds{0};
+  }
   const auto average = (static_cast<real>(std::accumulate(durations.begin(), 
                                                           durations.end(), 0ul)) 
                         / static_cast<real>(durations.size()));
-- 
2.43.0


From 09dd0d2a489f0a684c5b61dd7d476d0e06b63539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:44 +0000
Subject: [PATCH 26/42] fix: relate the load imbalance to the number of process
 groups, not of tasks

---
 src/rescheduler/RebalancingTaskRescheduler.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/rescheduler/RebalancingTaskRescheduler.cpp b/src/rescheduler/RebalancingTaskRescheduler.cpp
index 6f9f3c8..b80145a 100644
--- a/src/rescheduler/RebalancingTaskRescheduler.cpp
+++ b/src/rescheduler/RebalancingTaskRescheduler.cpp
@@ -3,6 +3,7 @@
 #include <algorithm>
 #include <numeric>
 #include <map>
+#include <set>
 
 namespace combigrid {
 
@@ -24,7 +25,15 @@ std::vector<std::pair<LevelVector, int>> RebalancingTaskRescheduler::eval(
   // variable containing the result
   std::vector<std::pair<LevelVector, int>> moveTasks{};
 
-  const auto numberOfProcessGroups = levelVectorToProcessGroupIndex.size();
+  std::set<int> processGroups;
+  for (const auto& t : levelVectorToProcessGroupIndex) {
+    processGroups.insert(t.second);
+  }
+  if (processGroups.empty()) {
+    // there is nothing to move
+    return moveTasks;
+  }
+  const auto numberOfProcessGroups = processGroups.size();
 
   // we need to mutate this map for multiple iterations
   auto levelVectorToProcessGroupIndexMutCopy = levelVectorToProcessGroupIndex;
-- 
2.43.0


From cab410b700723359f673a9bc6d39cc90d7903ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:44 +0000
Subject: [PATCH 27/42] fix: compare the load imbalance without rounding it
 down, and accept tasks without load

---
 src/rescheduler/RebalancingTaskRescheduler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rescheduler/RebalancingTaskRescheduler.cpp b/src/rescheduler/RebalancingTaskRescheduler.cpp
index b80145a..a1b4e5f 100644
--- a/src/rescheduler/RebalancingTaskRescheduler.cpp
+++ b/src/rescheduler/RebalancingTaskRescheduler.cpp
@@ -75,7 +75,10 @@ std::vector<std::pair<LevelVector, int>> RebalancingTaskRescheduler::eval(
       slowestGroup = *minmaxGroup.second;
     }
 
-    if (slowestGroup.second / averageProcessGroupDuration < this->min_inbalance_) {
+    // (no measured load: nothing to balance)
+    if (averageProcessGroupDuration == 0 ||
+        static_cast<double>(slowestGroup.second) / static_cast<double>(averageProcessGroupDuration) <
+            this->min_inbalance_) {
       return moveTasks;
     }
 
-- 
2.43.0


From a427f09e55d437c25c1cfb4b09906fc4842eed87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:44 +0000
Subject: [PATCH 28/42] fix: keep track of the group of tasks that are moved
 more than once

---
 src/rescheduler/RebalancingTaskRescheduler.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rescheduler/RebalancingTaskRescheduler.cpp b/src/rescheduler/RebalancingTaskRescheduler.cpp
index a1b4e5f..983b68b 100644
--- a/src/rescheduler/RebalancingTaskRescheduler.cpp
+++ b/src/rescheduler/RebalancingTaskRescheduler.cpp
@@ -116,13 +116,17 @@ std::vector<std::pair<LevelVector, int>> RebalancingTaskRescheduler::eval(
         if (moveTasks[i].first == moveTask.first) {
           alreadyMoved = true;
           moveTasks[i].second = fastestGroup.first;
+          if (levelVectorToProcessGroupIndex.at(moveTask.first) == fastestGroup.first) {
+            // back in its original group
+            moveTasks.erase(moveTasks.begin() + static_cast<std::ptrdiff_t>(i));
+          }
           break;
         }
       } 
       if (!alreadyMoved) {
-        levelVectorToProcessGroupIndexMutCopy[moveTask.first] = fastestGroup.first;
         moveTasks.push_back({moveTask.first, fastestGroup.first});
       }
+      levelVectorToProcessGroupIndexMutCopy[moveTask.first] = fastestGroup.first;
 
       ++iteration;
     } else {
-- 
2.43.0


From 8bb61ddcefcebdb3e3027578ee61eb1ffd165102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:54 +0000
Subject: [PATCH 29/42] fix: no process is third level manager if there is no
 manager

---
 src/mpi/MPISystem.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mpi/MPISystem.hpp b/src/mpi/MPISystem.hpp
index 746e115..169b91a 100644
--- a/src/mpi/MPISystem.hpp
+++ b/src/mpi/MPISystem.hpp
@@ -714,7 +714,7 @@ inline bool MPISystem::isWorldManager() const { return (worldRank_ == managerRan
 inline bool MPISystem::isProcessGroupMaster() const { return (localRank_ == masterRank_); }
 
 inline bool MPISystem::isThirdLevelManager() const {
-  return (thirdLevelRank_ == thirdLevelManagerRank_);
+  return (thirdLevelRank_ != MPI_UNDEFINED && thirdLevelRank_ == thirdLevelManagerRank_);
 }
 
 inline size_t MPISystem::getNumGroups() const {
-- 
2.43.0


From 4078c61b705b2cd237b58857bc94eebee4c4e79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:54 +0000
Subject: [PATCH 30/42] fix: give all processes of a part of the output the
 same part number, for any number of parts

---
 src/mpi/MPISystem.cpp | 7 ++++---
 src/mpi/MPISystem.hpp | 5 ++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mpi/MPISystem.cpp b/src/mpi/MPISystem.cpp
index 5640016..8a6389a 100644
--- a/src/mpi/MPISystem.cpp
+++ b/src/mpi/MPISystem.cpp
@@ -461,12 +461,13 @@ void MPISystem::initOutputGroupComm(uint16_t numFileParts) {
   if (newComm != MPI_COMM_NULL) {
     outputGroupComm_ = newComm;
     MPI_Comm_rank(newComm, &outputGroupRank_);
+    // (also if the number of processes is not a multiple of the number of parts)
+    filePartNumber_ =
+        static_cast<RankType>(static_cast<size_t>(outputGroupRank_) * numFileParts / nprocs_);
     if (numFileParts == 1) {
       outputComm_ = outputGroupComm_;
     } else {
-      auto outputCommSize = nprocs_ / numFileParts;
-      MPI_Comm_split(outputGroupComm_, static_cast<int>(outputGroupRank_ / outputCommSize),
-                     static_cast<int>(outputGroupRank_ % outputCommSize), &outputComm_);
+      MPI_Comm_split(outputGroupComm_, filePartNumber_, outputGroupRank_, &outputComm_);
     }
   }
   MPI_Group_free(&newGroup);
diff --git a/src/mpi/MPISystem.hpp b/src/mpi/MPISystem.hpp
index 169b91a..3a7a35c 100644
--- a/src/mpi/MPISystem.hpp
+++ b/src/mpi/MPISystem.hpp
@@ -527,6 +527,7 @@ class MPISystem {
   RankType thirdLevelManagerRank_;  // rank of manager in all third level comms
 
   RankType outputGroupRank_;
+  RankType filePartNumber_ = 0;  // output file partition of this rank
 
   size_t ngroup_;  // number of process groups
 
@@ -610,9 +611,7 @@ inline RankType MPISystem::getFilePartNumber() const {
   int filePart = -1;
   OUTPUT_GROUP_EXCLUSIVE_SECTION {
     if (combigrid::theMPISystem()->getOutputComm() != MPI_COMM_NULL) {
-      auto comm = theMPISystem()->getOutputComm();
-      auto outputGroupSize = combigrid::getCommSize(comm);
-      filePart = theMPISystem()->getOutputGroupRank() / outputGroupSize;
+      filePart = filePartNumber_;
     }
   }
   else {
-- 
2.43.0


From 6cc63952957bc7c9abbf7b46b389621fbcc56ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:54 +0000
Subject: [PATCH 31/42] fix: write parts of the output with the part number
 they are read with

---
 src/sparsegrid/DistributedSparseGridIO.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sparsegrid/DistributedSparseGridIO.hpp b/src/sparsegrid/DistributedSparseGridIO.hpp
index 58cd3ff..2372bde 100644
--- a/src/sparsegrid/DistributedSparseGridIO.hpp
+++ b/src/sparsegrid/DistributedSparseGridIO.hpp
@@ -156,8 +156,7 @@ template <typename SparseGridType>
 int writeSomeFiles(const SparseGridType& dsg, const std::string& fileName,
                    bool deleteExistingFile = false) {
   auto comm = theMPISystem()->getOutputComm();
-  auto outputGroupSize = getCommSize(comm);
-  auto filePart = theMPISystem()->getOutputGroupRank() / outputGroupSize;
+  auto filePart = theMPISystem()->getFilePartNumber();
   std::string filePartName = fileName + ".part" + std::to_string(filePart);
 
   MPI_Offset len = dsg.getRawDataSize();
-- 
2.43.0


From 294a4cdc8b099964d2c8658efca5a7841dba3fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:54 +0000
Subject: [PATCH 32/42] fix: decompress empty data and data decompressed in
 several steps, and report errors and different sizes

---
 src/io/MPICompression.hpp | 43 +++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/src/io/MPICompression.hpp b/src/io/MPICompression.hpp
index 0c0fdf3..b6d237a 100644
--- a/src/io/MPICompression.hpp
+++ b/src/io/MPICompression.hpp
@@ -153,28 +153,30 @@ class [[nodiscard]] FrameDecompressor {
   FrameDecompressor& operator=(FrameDecompressor&&) = delete;
 
   ~FrameDecompressor() {
-    // assert that everything has been read by now
-    assert(readCompressedByNow_ == compressedString_.size());
     [[maybe_unused]] auto freeResult = LZ4F_freeDecompressionContext(dctx_);
     assert(freeResult == 0);
   }
 
-  size_t decompressNextBlocks(size_t numValues) {
-    size_t decompressedSize = numValues * sizeof(T);
+  // decompress up to numValues values in total, returns true if this made any progress
+  bool decompressNextBlocks(size_t numValues) {
+    size_t decompressedSize = numValues * sizeof(T) - decompressedByNow_;
     auto sourceSize = compressedString_.size() - readCompressedByNow_;
-    [[maybe_unused]] auto hintNextBufferSize =
-        LZ4F_decompress(dctx_, decompressValuesStart_, &decompressedSize, compressedString_.data(),
-                        &sourceSize, &opts_);
-    if (LZ4F_isError(decompressedSize)) {
+    auto hintNextBufferSize = LZ4F_decompress(
+        dctx_, reinterpret_cast<char*>(decompressValuesStart_) + decompressedByNow_,
+        &decompressedSize, compressedString_.data() + readCompressedByNow_, &sourceSize, &opts_);
+    if (LZ4F_isError(hintNextBufferSize)) {
       throw std::runtime_error("LZ4 decompression failed: " +
-                               std::string(LZ4F_getErrorName(decompressedSize)));
+                               std::string(LZ4F_getErrorName(hintNextBufferSize)));
     }
     decompressedByNow_ += decompressedSize;
-    decompressValuesStart_ += decompressedSize;
     readCompressedByNow_ += sourceSize;
-    return decompressedSize / sizeof(T);
+    return decompressedSize > 0 || sourceSize > 0;
   }
 
+  bool isFinished() const { return readCompressedByNow_ == compressedString_.size(); }
+
+  size_t getNumDecompressedBytes() const { return decompressedByNow_; }
+
  private:
   const std::vector<char>& compressedString_;
   T* decompressValuesStart_;
@@ -191,18 +193,15 @@ size_t decompressLZ4FrameToBuffer(const std::vector<char>& compressedString,
   size_t decompressedByNow = 0;
 #ifdef DISCOTEC_USE_LZ4
   auto decompressor = FrameDecompressor(compressedString, decompressValuesStart);
-  size_t decompressedSize = 0;
-  int numRounds = 0;
-  do {
-    decompressedSize = decompressor.decompressNextBlocks(numValues);
-    numValues -= decompressedSize;
-    decompressedByNow += decompressedSize;
-    ++numRounds;
-  } while (decompressedSize > 0);
-  assert(numValues == 0);
-  if (numRounds != 2) {
-    throw std::runtime_error("LZ4 decompression failed: " + std::to_string(numRounds) + " rounds");
+  while (decompressor.decompressNextBlocks(numValues)) {
+  }
+  if (!decompressor.isFinished() ||
+      decompressor.getNumDecompressedBytes() != numValues * sizeof(T)) {
+    throw std::runtime_error("LZ4 decompression failed: obtained " +
+                             std::to_string(decompressor.getNumDecompressedBytes()) +
+                             " bytes instead of " + std::to_string(numValues * sizeof(T)));
   }
+  decompressedByNow = numValues;
 #else
   throw std::runtime_error("LZ4 compression not available");
 #endif
-- 
2.43.0


From c84da59bf763da6036b27cbecedcba2efd508791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:54 +0000
Subject: [PATCH 33/42] fix: do not write behind the decompression buffer, nor
 behind the values if the file contains more

---
 src/io/MPICompression.hpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/io/MPICompression.hpp b/src/io/MPICompression.hpp
index b6d237a..14bb3f3 100644
--- a/src/io/MPICompression.hpp
+++ b/src/io/MPICompression.hpp
@@ -72,7 +72,8 @@ class VectorStream : public std::basic_streambuf<char, std::char_traits<char>> {
   void reset(size_t afterNumChars = 0) {
     setg(vec_.data(), vec_.data() + afterNumChars, vec_.data() + vec_.size());
   }
-  size_t size() const { return vec_.size(); }
+  // number of chars that fit behind front()
+  size_t size() const { return static_cast<size_t>(egptr() - gptr()); }
 
   char* front() { return gptr(); }
 
@@ -99,8 +100,6 @@ class [[nodiscard]] StreamingFrameDecompressor {
   StreamingFrameDecompressor& operator=(StreamingFrameDecompressor&&) = delete;
 
   ~StreamingFrameDecompressor() {
-    // assert that everything has been read by now
-    assert(readCompressedByNow_ == compressedString_.size());
     [[maybe_unused]] auto freeResult = LZ4F_freeDecompressionContext(dctx_);
     assert(freeResult == 0);
   }
@@ -108,12 +107,15 @@ class [[nodiscard]] StreamingFrameDecompressor {
   size_t decompressNextBlock() {
     size_t decompressedSize = sink_.size();
     auto sourceSize = compressedString_.size() - readCompressedByNow_;
-    [[maybe_unused]] auto hintNextBufferSize =
+    auto hintNextBufferSize =
         LZ4F_decompress(dctx_, sink_.front(), &decompressedSize,
                         compressedString_.data() + readCompressedByNow_, &sourceSize, &opts_);
-    if (LZ4F_isError(decompressedSize)) {
+    if (LZ4F_isError(hintNextBufferSize)) {
       throw std::runtime_error("LZ4 decompression failed: " +
-                               std::string(LZ4F_getErrorName(decompressedSize)));
+                               std::string(LZ4F_getErrorName(hintNextBufferSize)));
+    }
+    if (decompressedSize == 0 && sourceSize == 0) {
+      throw std::runtime_error("LZ4 decompression failed: incomplete data");
     }
     decompressedByNow_ += decompressedSize;
     readCompressedByNow_ += sourceSize;
@@ -395,6 +397,10 @@ int readReduceCompressedValuesConsecutive(
     decompressedSize += bufferRemainderToRemember;
     const auto fullNumValues = decompressedSize / sizeof(T);
     const auto bufferRemainder = decompressedSize % sizeof(T);
+    if (static_cast<MPI_Offset>(fullNumValues) > numValues - numValuesDecompressed) {
+      throw std::runtime_error("LZ4 decompression failed: more than " + std::to_string(numValues) +
+                               " values");
+    }
 
     auto bufferBeginAsTPointer = reinterpret_cast<const T*>(decompressedString.data());
     std::transform(bufferBeginAsTPointer, bufferBeginAsTPointer + fullNumValues, writePointer,
@@ -409,7 +415,10 @@ int readReduceCompressedValuesConsecutive(
     buffer.reset(bufferRemainder);
     bufferRemainderToRemember = bufferRemainder;
   } while (!decompressor.isFinished());
-  assert(numValuesDecompressed == numValues);
+  if (numValuesDecompressed != numValues || bufferRemainderToRemember != 0) {
+    throw std::runtime_error("LZ4 decompression failed: " + std::to_string(numValuesDecompressed) +
+                             " values instead of " + std::to_string(numValues));
+  }
 
   return numValuesDecompressed;
 #else
-- 
2.43.0


From 906526d633a6aa77241864e3a2db50fa4a14779b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:54 +0000
Subject: [PATCH 34/42] fix: report reads that fail instead of reducing with
 old values of the buffer

---
 src/io/MPIInputOutput.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/io/MPIInputOutput.hpp b/src/io/MPIInputOutput.hpp
index bab216a..40b07c5 100644
--- a/src/io/MPIInputOutput.hpp
+++ b/src/io/MPIInputOutput.hpp
@@ -256,7 +256,9 @@ int readReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues, const std:
     }
     auto readcountIncrement =
         file.readValuesFromFileAtPosition(buffer.data(), numElementsToBuffer, position);
-    assert(readcountIncrement > 0);
+    if (readcountIncrement != numElementsToBuffer) {
+      throw std::runtime_error("could not read all values from " + fileName);
+    }
     // reduce with present sparse grid data
     std::transform(buffer.cbegin(), buffer.cend(), writePointer, writePointer, reduceFunction);
     readcount += readcountIncrement;
@@ -306,7 +308,9 @@ int readMultipleReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues,
     for (size_t i = 0; i < buffers.size(); ++i) {
       readcountIncrement =
           files[i].readValuesFromFileAtPosition(buffers[i].data(), numElementsToBuffer, position);
-      assert(readcountIncrement > 0);
+      if (readcountIncrement != numElementsToBuffer) {
+        throw std::runtime_error("could not read all values from " + fileNames[i]);
+      }
     }
     // reduce with present sparse grid data
     // todo is there a variadic way of doing this?
-- 
2.43.0


From e119d7f1c71546a340b6ebfe50f2bc8fa22e0813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:54 +0000
Subject: [PATCH 35/42] fix: take part in the collective reads of processes
 with more values

---
 src/io/MPIInputOutput.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/io/MPIInputOutput.hpp b/src/io/MPIInputOutput.hpp
index 40b07c5..a58e2de 100644
--- a/src/io/MPIInputOutput.hpp
+++ b/src/io/MPIInputOutput.hpp
@@ -50,6 +50,16 @@ inline MPI_Offset getPositionFromNumValues(MPI_Offset numValues, combigrid::Comm
   return position;
 }
 
+// reading is collective: number of (buffered) reads of other processes that exceed the own ones
+inline MPI_Offset getNumReadsOfOthers(MPI_Offset numValues, MPI_Offset numElementsToBuffer,
+                                      combigrid::CommunicatorType comm) {
+  const MPI_Offset myNumReads =
+      numValues > 0 ? (numValues + numElementsToBuffer - 1) / numElementsToBuffer : 0;
+  MPI_Offset maxNumReads = 0;
+  MPI_Allreduce(&myNumReads, &maxNumReads, 1, MPI_OFFSET, MPI_MAX, comm);
+  return maxNumReads - myNumReads;
+}
+
 template <typename T>
 class [[nodiscard]] MPIFileConsecutive {
  public:
@@ -245,6 +255,7 @@ int readReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues, const std:
   file.checkFileSizeConsecutive(numValues, comm);
 
   MPI_Offset position = getPositionFromNumValues(numValues, comm);
+  auto numOtherReads = getNumReadsOfOthers(numValues, numElementsToBuffer, comm);
   int readcount = 0;
   std::vector<T> buffer(numElementsToBuffer);
   auto writePointer = valuesStart;
@@ -265,6 +276,9 @@ int readReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues, const std:
     position += readcountIncrement;
     std::advance(writePointer, readcountIncrement);
   }
+  for (; numOtherReads > 0; --numOtherReads) {
+    file.readValuesFromFileAtPosition(buffer.data(), 0, position);
+  }
   return readcount;
 }
 
@@ -294,6 +308,7 @@ int readMultipleReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues,
   // read from files with MPI-IO
   int readcount = 0;
   MPI_Offset position = getPositionFromNumValues(numValues, comm);
+  auto numOtherReads = getNumReadsOfOthers(numValues, numElementsToBuffer, comm);
   std::vector<std::vector<T>> buffers(fileNames.size(), std::vector<T>(numElementsToBuffer));
   auto writePointer = valuesStart;
   while (readcount < numValues) {
@@ -320,6 +335,11 @@ int readMultipleReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues,
     position += readcountIncrement;
     std::advance(writePointer, readcountIncrement);
   }
+  for (; numOtherReads > 0; --numOtherReads) {
+    for (size_t i = 0; i < buffers.size(); ++i) {
+      files[i].readValuesFromFileAtPosition(buffers[i].data(), 0, position);
+    }
+  }
 
   return readcount;
 }
-- 
2.43.0


From b94061fdc1850bb40c5b1e516f3663b8d773ff54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:54 +0000
Subject: [PATCH 36/42] fix: reject numbers of files other than two

---
 src/io/MPIInputOutput.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io/MPIInputOutput.hpp b/src/io/MPIInputOutput.hpp
index a58e2de..c783a2a 100644
--- a/src/io/MPIInputOutput.hpp
+++ b/src/io/MPIInputOutput.hpp
@@ -296,6 +296,9 @@ int readMultipleReduceValuesConsecutive(T* valuesStart, MPI_Offset numValues,
                                         combigrid::CommunicatorType comm, int numElementsToBuffer,
                                         ReduceFunctionType reduceFunction,
                                         bool withCollectiveBuffering = false) {
+  if (fileNames.size() != 2) {
+    throw std::invalid_argument("can only read from two files at the same time");
+  }
   // open multiple files
   std::vector<MPIFileConsecutive<T>> files;
   files.reserve(fileNames.size());
-- 
2.43.0


From aa66009ff0cdbb7e16b50bc2311da657ddd5eb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:54 +0000
Subject: [PATCH 37/42] fix: report files of the wrong size

---
 src/sparsegrid/DistributedSparseGridIO.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sparsegrid/DistributedSparseGridIO.hpp b/src/sparsegrid/DistributedSparseGridIO.hpp
index 2372bde..89ec380 100644
--- a/src/sparsegrid/DistributedSparseGridIO.hpp
+++ b/src/sparsegrid/DistributedSparseGridIO.hpp
@@ -83,9 +83,11 @@ void writeToDiskChunked(const SparseGridType& dsg, const std::string& filePrefix
 template <typename SparseGridType>
 void readFromDiskChunked(SparseGridType& dsg, const std::string& filePrefix) {
   std::string myFilename = filePrefix + std::to_string(dsg.getRank());
-  // assert that file is large enough
-  [[maybe_unused]] size_t fileSize = std::filesystem::file_size(myFilename);
-  assert(fileSize == dsg.getRawDataSize() * sizeof(typename SparseGridType::ElementType));
+  // make sure that the file has the right size
+  size_t fileSize = std::filesystem::file_size(myFilename);
+  if (fileSize != dsg.getRawDataSize() * sizeof(typename SparseGridType::ElementType)) {
+    throw std::runtime_error("file size does not match number of values: " + myFilename);
+  }
   std::ifstream ifp(myFilename, std::ios::in | std::ios::binary);
   ifp.read(reinterpret_cast<char*>(dsg.getRawData()),
            dsg.getRawDataSize() * sizeof(typename SparseGridType::ElementType));
-- 
2.43.0


From ab69cd2b4260567bc8a2ea5913b4e698a4e5461c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:20:24 +0000
Subject: [PATCH 38/42] fix: receive file names from the manager in the order
 they are sent

---
 src/manager/ProcessGroupWorker.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/manager/ProcessGroupWorker.cpp b/src/manager/ProcessGroupWorker.cpp
index bb58c70..491185f 100644
--- a/src/manager/ProcessGroupWorker.cpp
+++ b/src/manager/ProcessGroupWorker.cpp
@@ -205,22 +205,27 @@ SignalType ProcessGroupWorker<CombiDataType>::wait() {
     } break;
     case COMBINE_WRITE_DSGS: {
       Stats::startEvent("combine third level write");
-      combineThirdLevelFileBasedWrite(receiveStringFromManagerAndBroadcastToGroup(),
-                                      receiveStringFromManagerAndBroadcastToGroup());
+      // received one by one, as the order in which arguments are evaluated is unspecified
+      auto filenamePrefixToWrite = receiveStringFromManagerAndBroadcastToGroup();
+      auto writeCompleteTokenFileName = receiveStringFromManagerAndBroadcastToGroup();
+      combineThirdLevelFileBasedWrite(filenamePrefixToWrite, writeCompleteTokenFileName);
       Stats::stopEvent("combine third level write");
     } break;
     case COMBINE_READ_DSGS_AND_REDUCE: {
       Stats::startEvent("combine third level read");
-      combineThirdLevelFileBasedReadReduce({receiveStringFromManagerAndBroadcastToGroup()},
-                                           {receiveStringFromManagerAndBroadcastToGroup()});
+      auto filenamePrefixToRead = receiveStringFromManagerAndBroadcastToGroup();
+      auto startReadingTokenFileName = receiveStringFromManagerAndBroadcastToGroup();
+      combineThirdLevelFileBasedReadReduce({filenamePrefixToRead}, {startReadingTokenFileName});
       Stats::stopEvent("combine third level read");
     } break;
     case COMBINE_THIRD_LEVEL_FILE: {
       Stats::startEvent("combine third level file");
-      combineThirdLevelFileBased(receiveStringFromManagerAndBroadcastToGroup(),
-                                 receiveStringFromManagerAndBroadcastToGroup(),
-                                 {receiveStringFromManagerAndBroadcastToGroup()},
-                                 {receiveStringFromManagerAndBroadcastToGroup()});
+      auto filenamePrefixToWrite = receiveStringFromManagerAndBroadcastToGroup();
+      auto writeCompleteTokenFileName = receiveStringFromManagerAndBroadcastToGroup();
+      auto filenamePrefixToRead = receiveStringFromManagerAndBroadcastToGroup();
+      auto startReadingTokenFileName = receiveStringFromManagerAndBroadcastToGroup();
+      combineThirdLevelFileBased(filenamePrefixToWrite, writeCompleteTokenFileName,
+                                 {filenamePrefixToRead}, {startReadingTokenFileName});
       Stats::stopEvent("combine third level file");
     } break;
     case WAIT_FOR_TL_COMBI_RESULT: {
-- 
2.43.0


From 8eba7036923d7c954a8e31a69925db9ab9dedcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:18 +0000
Subject: [PATCH 39/42] fix: receive the status of a group after diagnostics

The group reports its status after every request. After DO_DIAGNOSTICS nobody
received it, so the next request was taken for finished as soon as it was sent.
---
 src/manager/ProcessGroupManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/manager/ProcessGroupManager.cpp b/src/manager/ProcessGroupManager.cpp
index ee6a6c5..3743f53 100644
--- a/src/manager/ProcessGroupManager.cpp
+++ b/src/manager/ProcessGroupManager.cpp
@@ -632,6 +632,7 @@ void ProcessGroupManager<CombiDataType>::doDiagnostics(size_t taskID) {
       MPI_Send(&taskID, 1,
                abstraction::getMPIDatatype(abstraction::getabstractionDataType<decltype(taskID)>()),
                this->pgroupRootID_, 0, theMPISystem()->getGlobalComm());
+      setProcessGroupBusyAndReceive();
       return;
     }
   }
-- 
2.43.0


From 8d889fcb6d739a1e70ae605c119d335091c441a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:09 +0000
Subject: [PATCH 40/42] fix: sum sparse grid sizes in size_t

Sums of more than 2^31 values were accumulated in int: wrong sizes per worker
and in total, and exceptions about sizes that only seem to shrink or grow.
---
 src/manager/ProcessGroupManager.cpp |  8 ++++----
 src/manager/ProcessManager.hpp      | 10 ++++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/manager/ProcessGroupManager.cpp b/src/manager/ProcessGroupManager.cpp
index 3743f53..fcbd259 100644
--- a/src/manager/ProcessGroupManager.cpp
+++ b/src/manager/ProcessGroupManager.cpp
@@ -290,7 +290,7 @@ bool ProcessGroupManager<CombiDataType>::reduceLocalAndRemoteSubspaceSizes(
   assert(numSubspacesPerWorker.size() > 0);
   for (size_t w = 0; w < numSubspacesPerWorker.size(); ++w) {
     std::advance(to, numSubspacesPerWorker[w]);
-    formerDsguDataSizePerWorker_[w] = std::accumulate(from, to, 0);
+    formerDsguDataSizePerWorker_[w] = std::accumulate(from, to, static_cast<size_t>(0));
     from = to;
   }
   assert(to == sendBuff.end());
@@ -319,7 +319,7 @@ bool ProcessGroupManager<CombiDataType>::reduceLocalAndRemoteSubspaceSizes(
   assert(numSubspacesPerWorker.size() > 0);
   for (size_t w = 0; w < numSubspacesPerWorker.size(); ++w) {
     std::advance(to, numSubspacesPerWorker[w]);
-    dsguDataSizePerWorker_[w] = std::accumulate(from, to, 0);
+    dsguDataSizePerWorker_[w] = std::accumulate(from, to, static_cast<size_t>(0));
     from = to;
   }
   assert(to == sendBuff.end());
@@ -353,7 +353,7 @@ bool ProcessGroupManager<CombiDataType>::pretendReduceLocalAndRemoteSubspaceSize
   assert(numSubspacesPerWorker.size() > 0);
   for (size_t w = 0; w < numSubspacesPerWorker.size(); ++w) {
     std::advance(to, numSubspacesPerWorker[w]);
-    formerDsguDataSizePerWorker_[w] = std::accumulate(from, to, 0);
+    formerDsguDataSizePerWorker_[w] = std::accumulate(from, to, static_cast<size_t>(0));
     from = to;
   }
   assert(to == sendBuff.end());
@@ -374,7 +374,7 @@ bool ProcessGroupManager<CombiDataType>::pretendReduceLocalAndRemoteSubspaceSize
   assert(numSubspacesPerWorker.size() > 0);
   for (size_t w = 0; w < numSubspacesPerWorker.size(); ++w) {
     std::advance(to, numSubspacesPerWorker[w]);
-    dsguDataSizePerWorker_[w] = std::accumulate(from, to, 0);
+    dsguDataSizePerWorker_[w] = std::accumulate(from, to, static_cast<size_t>(0));
     from = to;
   }
   assert(to == sendBuff.end());
diff --git a/src/manager/ProcessManager.hpp b/src/manager/ProcessManager.hpp
index a83fa3a..713c66b 100644
--- a/src/manager/ProcessManager.hpp
+++ b/src/manager/ProcessManager.hpp
@@ -679,9 +679,10 @@ size_t ProcessManager<CombiDataType>::unifySubspaceSizesThirdLevel(
   const auto& dsguDataSizePerWorker = thirdLevelPGroup_->getDsguDataSizePerWorker();
 
   auto formerDsguDataSize =
-      std::accumulate(formerDsguDataSizePerWorker.begin(), formerDsguDataSizePerWorker.end(), 0);
+      std::accumulate(formerDsguDataSizePerWorker.begin(), formerDsguDataSizePerWorker.end(),
+                      static_cast<size_t>(0));
   auto dsguDataSize =
-      std::accumulate(dsguDataSizePerWorker.begin(), dsguDataSizePerWorker.end(), 0);
+      std::accumulate(dsguDataSizePerWorker.begin(), dsguDataSizePerWorker.end(), static_cast<size_t>(0));
   Stats::setAttribute("formerDsguDataSize", std::to_string(formerDsguDataSize));
   Stats::setAttribute("dsguDataSize", std::to_string(dsguDataSize));
 
@@ -710,9 +711,10 @@ size_t ProcessManager<CombiDataType>::pretendUnifySubspaceSizesThirdLevel() {
   const auto& dsguDataSizePerWorker = thirdLevelPGroup_->getDsguDataSizePerWorker();
 
   auto formerDsguDataSize =
-      std::accumulate(formerDsguDataSizePerWorker.begin(), formerDsguDataSizePerWorker.end(), 0);
+      std::accumulate(formerDsguDataSizePerWorker.begin(), formerDsguDataSizePerWorker.end(),
+                      static_cast<size_t>(0));
   auto dsguDataSize =
-      std::accumulate(dsguDataSizePerWorker.begin(), dsguDataSizePerWorker.end(), 0);
+      std::accumulate(dsguDataSizePerWorker.begin(), dsguDataSizePerWorker.end(), static_cast<size_t>(0));
   Stats::setAttribute("formerDsguDataSize", std::to_string(formerDsguDataSize));
   Stats::setAttribute("dsguDataSize", std::to_string(dsguDataSize));
 
-- 
2.43.0


From 72ac717c545241d1acefc6304a0d1e198d3d60b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:20 +0000
Subject: [PATCH 41/42] fix: write third level manager statistics without any
 combination

---
 third_level_manager/thirdLevelManager.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/third_level_manager/thirdLevelManager.cpp b/third_level_manager/thirdLevelManager.cpp
index 88562cf..d1cecd6 100644
--- a/third_level_manager/thirdLevelManager.cpp
+++ b/third_level_manager/thirdLevelManager.cpp
@@ -297,7 +297,8 @@ void ThirdLevelManager::writeStatistics(const std::string& filename)
   size_t walltime = stats_.getWallTime();
   size_t numCombinations = stats_.getNumCombinations();
   size_t totalBytesTransferredInCombination = stats_.getTotalBytesTransferredInCombination();
-  size_t numBytesTransferredPerCombination = totalBytesTransferredInCombination / numCombinations;
+  size_t numBytesTransferredPerCombination =
+      numCombinations > 0 ? totalBytesTransferredInCombination / numCombinations : 0;
   size_t totalBytesTransferredInSizeExchange = stats_.getTotalBytesTransferredInSizeExchange();
   if (filename != "")
   {
-- 
2.43.0


From f2d96300198aed7f8cda2e9efb1b4191e1177943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:05 +0000
Subject: [PATCH 42/42] fix: wait for no request if process groups have no
 subspaces in common

---
 src/manager/ProcessGroupWorker.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/manager/ProcessGroupWorker.cpp b/src/manager/ProcessGroupWorker.cpp
index 491185f..1d05654 100644
--- a/src/manager/ProcessGroupWorker.cpp
+++ b/src/manager/ProcessGroupWorker.cpp
@@ -1016,7 +1016,7 @@ void ProcessGroupWorker<CombiDataType>::waitForThirdLevelCombiResult(bool fromOu
   }
 
   Stats::startEvent("wait for bcasts");
-  MPI_Request request;
+  MPI_Request request = MPI_REQUEST_NULL;
   this->getSparseGridWorker().startSingleBroadcastDSGs(combiParameters_.getCombinationVariant(),
                                                        broadcastSender, &request);
   [[maybe_unused]] auto returnedValue = MPI_Wait(&request, MPI_STATUS_IGNORE);
-- 
2.43.0

