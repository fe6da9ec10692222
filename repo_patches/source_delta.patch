From 4616838f32743c8ac0073d855112f06a5171e92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:46 +0000
Subject: [PATCH 01/31] fix: index the scaling vector by unknown, not by
 position, in the SGS initial guess of scalar ILU

---
 src/async_ilu_factor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/async_ilu_factor.cpp b/src/async_ilu_factor.cpp
index e7b218f..7a18982 100644
--- a/src/async_ilu_factor.cpp
+++ b/src/async_ilu_factor.cpp
@@ -118,8 +118,8 @@ static void fact_init_sgs(const CRawBSRMatrix<scalar,index> *const mat, const sc
 				iluvals[j] = scale[i]*mat->vals[j]*scale[mat->bcolind[j]];
 			for(index j = mat->browptr[i]; j < mat->diagind[i]; j++)
 				iluvals[j] *= 1.0/(mat->vals[mat->diagind[mat->bcolind[j]]]
-				                   * scale[mat->diagind[mat->bcolind[j]]]
-				                   * scale[mat->diagind[mat->bcolind[j]]]);
+				                   * scale[mat->bcolind[j]]
+				                   * scale[mat->bcolind[j]]);
 		}
 	else
 #pragma omp parallel for default (shared)
-- 
2.43.0


From e717438da9b23a90d838c75fb519e4b7d4eb68c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:15 +0000
Subject: [PATCH 02/31] fix: set the sizes in the block matrix constructor that
 takes a structure

---
 src/blockmatrices.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index 61ae16e..bb5cdfb 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -176,6 +176,9 @@ BSRMatrix<scalar,index,bs>::BSRMatrix(const index n_brows,
 	: AbstractMatrix<scalar,index>(BSR)
 {
 	constexpr int bs2 = bs*bs;
+	mat.nbrows = n_brows;
+	mat.nnzb = brptrs[n_brows];
+	mat.nbstored = mat.nnzb;
 	mat.browptr.resize(mat.nbrows+1);
 	mat.bcolind.resize(brptrs[mat.nbrows]);
 	mat.diagind.resize(mat.nbrows);
-- 
2.43.0


From 16cf51571c641fb929973922581843ef5d142452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:15 +0000
Subject: [PATCH 03/31] fix: read the non-zero count of a wrapped CSR matrix
 from the last row pointer, not beyond it

---
 src/blockmatrices.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index bb5cdfb..17fda0d 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -497,7 +497,7 @@ BSRMatrix<scalar,index,1>::BSRMatrix(const index nrows, index *const brptrs,
 	: AbstractMatrix<scalar,index>(CSR)
 {
 	mat.nbrows = nrows;
-	mat.nnzb = brptrs[nrows+1];
+	mat.nnzb = brptrs[nrows];
 	mat.nbstored = mat.nnzb;
 	mat.browptr.wrap(brptrs, nrows+1);
 	mat.bcolind.wrap(bcinds, mat.nnzb);
-- 
2.43.0


From 754ffae1dc57b2ec94013ce75a9e8a97f90b1e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:15 +0000
Subject: [PATCH 04/31] fix: index the buffer of a non-square update of a CSR
 matrix by its row length

---
 src/blockmatrices.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index 17fda0d..2e77fbd 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -681,7 +681,7 @@ void BSRMatrix<scalar,index,1>::updateBlock(const index starti, const index star
 				std::cout << "!  BSRMatrix<1>: updateBlock: Invalid block!!\n";
 #endif
 #pragma omp atomic update
-			mat.vals[jj] += buffer[locrow*bsi+k];
+			mat.vals[jj] += buffer[locrow*bsj+k];
 			k++;
 		}
 	}
-- 
2.43.0


From c50506e79a38d25bc5db89b9e5e4509757167940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:15 +0000
Subject: [PATCH 05/31] fix: give transferred row pointers their full length

---
 src/blockmatrices.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index 2e77fbd..a3c4d5d 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -216,7 +216,7 @@ BSRMatrix<scalar,index,bs>::BSRMatrix(RawBSRMatrix<scalar,index>& rmat)
 	: AbstractMatrix<scalar,index>(BSR)
 {
 	// Make sure to pass aligned memory!
-	mat.browptr.take_control(rmat.browptr, rmat.nbrows);
+	mat.browptr.take_control(rmat.browptr, rmat.nbrows+1);
 	mat.bcolind.take_control(rmat.bcolind, rmat.nbstored);
 	mat.vals.take_control(rmat.vals, rmat.nbstored*bs*bs);
 	mat.nbrows = rmat.nbrows;
-- 
2.43.0


From 4f1b2943d1512433cbceba8537057090da5b7ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:15 +0000
Subject: [PATCH 06/31] fix: make the CSR matrix own the arrays transferred
 from a raw matrix, as documented

---
 src/blockmatrices.ipp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index a3c4d5d..0bd7234 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -508,18 +508,17 @@ BSRMatrix<scalar,index,1>::BSRMatrix(const index nrows, index *const brptrs,
 
 template <typename scalar, typename index>
 BSRMatrix<scalar,index,1>::BSRMatrix(RawBSRMatrix<scalar,index>& rmat)
-	: AbstractMatrix<scalar,index>(CSR),
-	  mat(rmat.browptr, rmat.bcolind, rmat.vals, rmat.diagind,
-	      rmat.nbrows>0 ? &rmat.browptr[1]:nullptr, rmat.nbrows, rmat.nnzb, rmat.nbstored, 1)
+	: AbstractMatrix<scalar,index>(CSR)
 {
 	assert(rmat.nnzb == rmat.nbstored);
 	mat.nbrows = rmat.nbrows;
 	mat.nnzb = rmat.nnzb;
 	mat.nbstored = rmat.nbstored;
-	mat.browptr.wrap(rmat.browptr, rmat.nbrows+1);
-	mat.bcolind.wrap(rmat.bcolind, mat.nbstored);
-	mat.vals.wrap(rmat.vals, mat.nbstored);
-	mat.diagind.wrap(rmat.diagind, mat.nbrows);
+	// Make sure to pass aligned memory!
+	mat.browptr.take_control(rmat.browptr, rmat.nbrows+1);
+	mat.bcolind.take_control(rmat.bcolind, mat.nbstored);
+	mat.vals.take_control(rmat.vals, mat.nbstored);
+	mat.diagind.take_control(rmat.diagind, mat.nbrows);
 	mat.browendptr.wrap(&rmat.browptr[1], mat.nbrows);
 
 	rmat.nbrows=0;
-- 
2.43.0


From a290bab37932042ad8d4acc9115b3f20ffc8ecf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:15 +0000
Subject: [PATCH 07/31] fix: return the storage of a block matrix instead of
 reinterpreting it as a raw matrix

---
 include/blockmatrices.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/blockmatrices.hpp b/include/blockmatrices.hpp
index a201c5a..7b33116 100644
--- a/include/blockmatrices.hpp
+++ b/include/blockmatrices.hpp
@@ -208,8 +208,8 @@ public:
 	virtual ~BSRMatrix();
 
 	/// Allows immutable access to the underlying matrix storage
-	const CRawBSRMatrix<scalar,index> *getRawSRMatrix() const {
-		return reinterpret_cast<const CRawBSRMatrix<scalar,index>*>(&mat);
+	const SRMatrixStorage<scalar,index>& getRawSRMatrix() const {
+		return mat;
 	}
 
 	/// Set the storage structure of the matrix
-- 
2.43.0


From 4072c6005fe1d583f371e49c0f0b9027d833993e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:14 +0000
Subject: [PATCH 08/31] fix: sort the blocks of each block-row when converting
 to BSR

---
 src/coomatrix.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index 4f6916b..8bb49a3 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -360,6 +360,14 @@ SRMatrixStorage<scalar,index> COOMatrix<scalar,index>::convertToBSR() const
 		if(bmat.browptr[i] == 0)
 			bmat.browptr[i] = bmat.browptr[i+1];
 
+	// different rows of a block-row may have contributed blocks out of order
+	for(index i = 0; i < bmat.nbrows; i++) {
+		std::sort(bcolidxs.begin()+bmat.browptr[i], bcolidxs.begin()+bmat.browptr[i+1]);
+		for(index j = bmat.browptr[i]; j < bmat.browptr[i+1]; j++)
+			if(bcolidxs[j] == i)
+				bmat.diagind[i] = j;
+	}
+
 	bmat.bcolind.resize(bnnz);
 	bmat.vals.resize(bnnz*bs*bs);
 
-- 
2.43.0


From 3c419e8d68066b9059c468c4e793a345a73aca09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:14 +0000
Subject: [PATCH 09/31] fix: refuse complex Matrix Market files instead of
 misreading them

---
 src/coomatrix.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index 8bb49a3..0d9e57d 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -148,6 +148,10 @@ device_vector<scalar> readDenseMatrixMarket(const std::string file)
 		fin.close();
 		throw "Matrix should be stored as dense!";
 	}
+	if(descr.scalartype == COMPLEX) {
+		fin.close();
+		throw "Matrix should be real!";
+	}
 
 	const std::vector<int> sizes = getSizeFromMatrixMarket<int>(fin,descr);
 	if(sizes.size() < 2) {
@@ -202,6 +206,9 @@ void COOMatrix<scalar,index>::readMatrixMarket(const std::string file)
 	if(descr.scalartype == PATTERN) {
 		throw MatrixReadException("! COOMatrix: readMatrixMarket: Cannot read pattern matrices.");
 	}
+	if(descr.scalartype == COMPLEX) {
+		throw MatrixReadException("! COOMatrix: readMatrixMarket: Cannot read complex matrices.");
+	}
 	if(descr.matrixtype != GENERAL) {
 		throw MatrixReadException("! COOMatrix: readMatrixMarket: Can only read general matrices.");
 	}
-- 
2.43.0


From cfc1bd1ab14ebc330e50a8b7cb924b228077b533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:14 +0000
Subject: [PATCH 10/31] fix: refuse Matrix Market files with missing or
 out-of-range entries

---
 src/coomatrix.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index 0d9e57d..501efa9 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -162,6 +162,8 @@ device_vector<scalar> readDenseMatrixMarket(const std::string file)
 	device_vector<scalar> vals(sizes[0]*sizes[1]);
 	for(int i = 0; i < sizes[0]*sizes[1]; i++)
 		fin >> vals[i];
+	if(!fin)
+		throw MatrixReadException("! readDenseMatrixMarket: Missing or invalid entry!");
 
 	fin.close();
 	return vals;
@@ -224,6 +226,8 @@ void COOMatrix<scalar,index>::readMatrixMarket(const std::string file)
 	for(index i = 0; i < nnz; i++) {
 		index ri, ci;
 		fin >> ri >> ci >> entries[i].value;
+		if(!fin || ri < 1 || ri > nrows || ci < 1 || ci > ncols)
+			throw MatrixReadException("! COOMatrix: readMatrixMarket: Missing or invalid entry!");
  		entries[i].rowind = ri-1;
 		entries[i].colind = ci-1;
 	}
-- 
2.43.0


From 4f7fdd093e8465d6bfcab8c6773d7aac5ca7d729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:16 +0000
Subject: [PATCH 11/31] fix: keep diagonal positions and row ends valid when a
 matrix is reordered

---
 src/reorderingscaling.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/reorderingscaling.cpp b/src/reorderingscaling.cpp
index 6bd8d90..9fa21c0 100644
--- a/src/reorderingscaling.cpp
+++ b/src/reorderingscaling.cpp
@@ -195,6 +195,18 @@ void Reordering<scalar,index,bs>::applyOrdering(RawBSRMatrix<scalar,index>& mat,
 			}
 		}
 	}
+
+	// the row ends and the positions of the diagonal blocks have changed
+	for(index i = 0; i < mat.nbrows; i++)
+	{
+		if(mat.browendptr)
+			mat.browendptr[i] = mat.browptr[i+1];
+
+		if(mat.diagind)
+			for(index jj = mat.browptr[i]; jj < mat.browptr[i+1]; jj++)
+				if(mat.bcolind[jj] == i)
+					mat.diagind[i] = jj;
+	}
 }
 
 /** This is most likely not the best way to do it. The vector is first copied into a local
-- 
2.43.0


From 147533f2ddbdb8576417d2d9e990adc1c98a812f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:16 +0000
Subject: [PATCH 12/31] fix: undo the column ordering of the solution of a
 reordered ILU solve

---
 src/solverops_ilu0.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solverops_ilu0.cpp b/src/solverops_ilu0.cpp
index 432de49..1aa3b13 100644
--- a/src/solverops_ilu0.cpp
+++ b/src/solverops_ilu0.cpp
@@ -463,7 +463,7 @@ void ReorderedAsyncILU0_SRPreconditioner<scalar,index>::apply(const scalar *cons
 	}
 
 	// reorder solution
-	reord->applyOrdering(za, FORWARD, COLUMN);
+	reord->applyOrdering(za, INVERSE, COLUMN);
 }
 
 template <typename scalar, typename index>
-- 
2.43.0


From 9ac1a84ebae0ec69f36b85e0e8c3fd72a1077abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:17 +0000
Subject: [PATCH 13/31] fix: pass the threading and diagnostics choices of
 derived scalar ILU operators in their own parameters

---
 src/solverops_ilu0.cpp        | 2 +-
 src/solverops_levels_ilu0.cpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/solverops_ilu0.cpp b/src/solverops_ilu0.cpp
index 1aa3b13..5429f89 100644
--- a/src/solverops_ilu0.cpp
+++ b/src/solverops_ilu0.cpp
@@ -403,7 +403,7 @@ ReorderedAsyncILU0_SRPreconditioner<scalar,index>
                                       const FactInit finit, const ApplyInit ainit,
                                       const bool threadedfactor, const bool threadedapply)
 	: AsyncILU0_SRPreconditioner<scalar,index>(std::move(matrix),nbuildsweeps,napplysweeps,true, tcs,
-	                                           finit, ainit, threadedfactor,threadedapply),
+	                                           finit, ainit, false, threadedfactor,threadedapply),
 	  reord{reorderscale}
 { }
 
diff --git a/src/solverops_levels_ilu0.cpp b/src/solverops_levels_ilu0.cpp
index 1d43d6a..b4e5e3e 100644
--- a/src/solverops_levels_ilu0.cpp
+++ b/src/solverops_levels_ilu0.cpp
@@ -127,7 +127,8 @@ Async_Level_ILU0<scalar,index>
                    const FactInit fact_inittype, const bool threadedfactor,
                    const bool compute_remainder)
 	: AsyncILU0_SRPreconditioner<scalar,index>(std::move(matrix), nbuildsweeps,1,use_scaling,thread_chunk_size,
-	                                           fact_inittype, INIT_A_NONE, threadedfactor, true)
+	                                           fact_inittype, INIT_A_NONE, compute_remainder,
+	                                           threadedfactor, true)
 { }
 
 template <typename scalar, typename index>
-- 
2.43.0


From dc2cd7c44a1b3f3cf46325f90deaf1d9f89fc908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:17 +0000
Subject: [PATCH 14/31] fix: return zero as the maximum norm of a zero vector

---
 src/blas/blas1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blas/blas1.cpp b/src/blas/blas1.cpp
index 2b283fa..3807d78 100644
--- a/src/blas/blas1.cpp
+++ b/src/blas/blas1.cpp
@@ -12,7 +12,7 @@ namespace blasted {
 template <typename scalar>
 scalar maxnorm(const device_vector<scalar>& vec)
 {
-	scalar smax = std::numeric_limits<scalar>::min();
+	scalar smax = 0;
 	const int N = static_cast<int>(vec.size());
 
 #pragma omp parallel for default(shared) reduction(max:smax)
-- 
2.43.0


From 79adfad50b073214912efd6cdaf775d3a00bd6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:25 +0000
Subject: [PATCH 15/31] fix: make the prefix sum exact for short arrays and all
 thread counts

---
 src/utils/prefix_sum.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/utils/prefix_sum.cpp b/src/utils/prefix_sum.cpp
index e94dbc9..68c851e 100644
--- a/src/utils/prefix_sum.cpp
+++ b/src/utils/prefix_sum.cpp
@@ -32,10 +32,11 @@ void prefix_sum(IndexType *const counts, const int num_entries)
 #pragma omp parallel
     {
         const int thread_id = omp_get_thread_num();
-        const IndexType startidx = thread_id * def_num_witems;
+        const IndexType startidx =
+            std::min(num_entries, thread_id * def_num_witems);
         const IndexType endidx =
             std::min(num_entries, (thread_id + 1) * def_num_witems);
-        const IndexType startval = counts[startidx];
+        const IndexType startval = startidx < num_entries ? counts[startidx] : 0;
 
 #pragma omp barrier
 
@@ -45,14 +46,14 @@ void prefix_sum(IndexType *const counts, const int num_entries)
             counts[i] = partial_sum;
             partial_sum += nnz;
         }
-        if (thread_id != nthreads - 1) {
+        if (startidx < endidx && endidx < num_entries) {
             counts[endidx] = partial_sum;
         }
     }
 
     counts[0] = 0;
 
-    const auto levels = static_cast<int>(std::ceil(std::log(nthreads)));
+    const auto levels = static_cast<int>(std::ceil(std::log2(nthreads)));
     for (int ilvl = 0; ilvl < levels; ilvl++) {
         const IndexType factor = power(2, (ilvl + 1));
         const IndexType lvl_num_witems = factor * def_num_witems;
@@ -64,6 +65,9 @@ void prefix_sum(IndexType *const counts, const int num_entries)
                 num_entries, lvl_num_witems / 2 + itask * lvl_num_witems + 1);
             const IndexType endidx =
                 std::min(num_entries, (itask + 1) * lvl_num_witems + 1);
+            if (startidx >= endidx) {
+                continue;
+            }
             const IndexType baseval = counts[startidx - 1];
             for (int i = startidx; i < endidx; i++) {
                 counts[i] += baseval;
-- 
2.43.0


From 999f33d9182df3776cba067179c26c5352b86fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:37 +0000
Subject: [PATCH 16/31] fix: allow columns of a local SAI problem to have fewer
 blocks than there are equations

---
 src/sai.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sai.cpp b/src/sai.cpp
index e427b7e..d48ffef 100644
--- a/src/sai.cpp
+++ b/src/sai.cpp
@@ -349,7 +349,7 @@ LMatrix<scalar> gather_lhs_matrix(const SRMatrixStorage<const scalar,const index
 		const index start = sp.bcolptr[sp.sairowptr[row]+jcol],
 			end = sp.bcolptr[sp.sairowptr[row]+jcol+1];
 
-		assert(end-start == sp.nEqns[row]);
+		assert(end-start <= sp.nEqns[row]);
 
 #pragma omp simd
 		for(index ii = start; ii < end; ii++)
-- 
2.43.0


From b3a13b2d33ad93f089362310461ceae8659a1ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:37 +0000
Subject: [PATCH 17/31] fix: instantiate the factory for a configured row-major
 block size

---
 src/solverfactory.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/solverfactory.cpp b/src/solverfactory.cpp
index f2a7e32..34179e4 100644
--- a/src/solverfactory.cpp
+++ b/src/solverfactory.cpp
@@ -196,8 +196,7 @@ SRFactory<scalar,index>::create_preconditioner(SRMatrixStorage<const scalar, con
 		}
 #ifdef BUILD_BLOCK_SIZE
 		else if(opts.bs == BUILD_BLOCK_SIZE) {
-			p = create_srpreconditioner_of_type<scalar,index,BUILD_BLOCK_SIZE,RowMajor>(std::move(mat),
-			                                                                            opts);
+			p = create_srpreconditioner_of_type<BUILD_BLOCK_SIZE,RowMajor>(std::move(mat),opts);
 		}
 #endif
 		else {
-- 
2.43.0


From 511fd163fb29ad0b7269aec3d13405c7d150412b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:52 +0000
Subject: [PATCH 18/31] fix: initialise the stored size of an empty raw matrix

---
 include/srmatrixdefs.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/srmatrixdefs.hpp b/include/srmatrixdefs.hpp
index c8d60f2..0037a12 100644
--- a/include/srmatrixdefs.hpp
+++ b/include/srmatrixdefs.hpp
@@ -146,7 +146,7 @@ struct RawBSRMatrix
 	/// Default constructor
 	RawBSRMatrix()
 		: browptr{nullptr}, bcolind{nullptr}, vals{nullptr}, diagind{nullptr}, browendptr{nullptr},
-		  nbrows{0}, nnzb{0}
+		  nbrows{0}, nnzb{0}, nbstored{0}
 	{ }
 
 	/// Set data pointers
-- 
2.43.0


From bc12fb9bd308114c333879fa18029d25ad00b158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:58 +0000
Subject: [PATCH 19/31] fix: instantiate everything that a configured block
 size needs

---
 src/async_blockilu_factor.cpp | 6 ++++++
 src/blas/matvecs.cpp          | 7 +++++++
 src/matrix_properties.cpp     | 7 +++++++
 src/rawsrmatrixutils.cpp      | 5 +++++
 4 files changed, 25 insertions(+)

diff --git a/src/async_blockilu_factor.cpp b/src/async_blockilu_factor.cpp
index 5c7003f..0a388eb 100644
--- a/src/async_blockilu_factor.cpp
+++ b/src/async_blockilu_factor.cpp
@@ -177,6 +177,12 @@ block_ilu0_factorize<double,int,4,RowMajor> (const CRawBSRMatrix<double,int> *co
 
 template PrecInfo block_ilu0_factorize<double,int,BUILD_BLOCK_SIZE,ColMajor>
 
+(const CRawBSRMatrix<double,int> *const mat, const ILUPositions<int>& plist,
+ const int nbuildsweeps, const int thread_chunk_size, const bool usethreads, const FactInit inittype,
+ const bool compute_residuals, double *const __restrict iluvals, double *const __restrict scale);
+
+template PrecInfo block_ilu0_factorize<double,int,BUILD_BLOCK_SIZE,RowMajor>
+
 (const CRawBSRMatrix<double,int> *const mat, const ILUPositions<int>& plist,
  const int nbuildsweeps, const int thread_chunk_size, const bool usethreads, const FactInit inittype,
  const bool compute_residuals, double *const __restrict iluvals, double *const __restrict scale);
diff --git a/src/blas/matvecs.cpp b/src/blas/matvecs.cpp
index dac4fdb..5c4597b 100644
--- a/src/blas/matvecs.cpp
+++ b/src/blas/matvecs.cpp
@@ -161,6 +161,13 @@ template struct BLAS_BSR<const double,const int,3,RowMajor>;
 template struct BLAS_BSR<const double,const int,4,RowMajor>;
 template struct BLAS_BSR<const double,const int,7,RowMajor>;
 
+#ifdef BUILD_BLOCK_SIZE
+template struct BLAS_BSR<double,int,BUILD_BLOCK_SIZE,ColMajor>;
+template struct BLAS_BSR<double,int,BUILD_BLOCK_SIZE,RowMajor>;
+template struct BLAS_BSR<const double,const int,BUILD_BLOCK_SIZE,ColMajor>;
+template struct BLAS_BSR<const double,const int,BUILD_BLOCK_SIZE,RowMajor>;
+#endif
+
 template struct BLAS_CSR<double,int>;
 template struct BLAS_CSR<const double,const int>;
 
diff --git a/src/matrix_properties.cpp b/src/matrix_properties.cpp
index b9a31a9..cfc020a 100644
--- a/src/matrix_properties.cpp
+++ b/src/matrix_properties.cpp
@@ -85,4 +85,11 @@ diagonal_dominance<double,int,5,ColMajor>(const SRMatrixStorage<const double,con
 template std::array<double,4>
 diagonal_dominance<double,int,4,RowMajor>(const SRMatrixStorage<const double,const int>&& mat);
 
+#ifdef BUILD_BLOCK_SIZE
+template std::array<double,4>
+diagonal_dominance<double,int,BUILD_BLOCK_SIZE,ColMajor>(const SRMatrixStorage<const double,const int>&& mat);
+template std::array<double,4>
+diagonal_dominance<double,int,BUILD_BLOCK_SIZE,RowMajor>(const SRMatrixStorage<const double,const int>&& mat);
+#endif
+
 }
diff --git a/src/rawsrmatrixutils.cpp b/src/rawsrmatrixutils.cpp
index 51e738a..9e42d36 100644
--- a/src/rawsrmatrixutils.cpp
+++ b/src/rawsrmatrixutils.cpp
@@ -356,4 +356,9 @@ template void getScalingVector<double,int,4>(const CRawBSRMatrix<double,int> *co
 template void getScalingVector<double,int,5>(const CRawBSRMatrix<double,int> *const mat,
                                              double *const __restrict scale);
 
+#ifdef BUILD_BLOCK_SIZE
+template void getScalingVector<double,int,BUILD_BLOCK_SIZE>(const CRawBSRMatrix<double,int> *const mat,
+                                                            double *const __restrict scale);
+#endif
+
 }
-- 
2.43.0


From 8874f27833c8bedcdcc07f1ef2dcbf31c70cdbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 20/31] fix: use the given factory for the whole solver stack,
 and define the function the extension header declares

---
 src/blasted_petsc.cpp | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index bf7df99..40532bf 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -575,7 +575,11 @@ PetscErrorCode relax_local_blasted(PC pc, Vec rhs, Vec x, Vec w,
 	return ierr;
 }
 
-int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
+}
+
+namespace blasted {
+
+int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int>& factory,
                             Blasted_data_list *const bctv)
 {
 	PetscErrorCode ierr = 0;
@@ -605,7 +609,7 @@ int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
 			SETERRQ(PETSC_COMM_SELF, PETSC_ERR_ARG_WRONGSTATE,
 					"Only one subdomain per rank is supported.");
 
-		ierr = setup_blasted_stack(subksp[0], bctv); CHKERRQ(ierr);
+		ierr = setup_blasted_stack_ext(subksp[0], factory, bctv); CHKERRQ(ierr);
 	}
 	else if(ismg || isgamg) {
 		ierr = KSPSetUp(ksp); CHKERRQ(ierr);
@@ -616,7 +620,7 @@ int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
 		for(int ilvl = 1; ilvl < nlevels; ilvl++) {
 			KSP smootherctx;
 			ierr = PCMGGetSmoother(pc, ilvl , &smootherctx); CHKERRQ(ierr);
-			ierr = setup_blasted_stack(smootherctx, bctv); CHKERRQ(ierr);
+			ierr = setup_blasted_stack_ext(smootherctx, factory, bctv); CHKERRQ(ierr);
 			/*
 			KSP smootherup, smootherdown;
 			ierr = PCMGGetSmootherDown(pc, ilvl , &smootherdown); CHKERRQ(ierr);
@@ -626,14 +630,14 @@ int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
 		}
 		KSP coarsesolver;
 		ierr = PCMGGetCoarseSolve(pc, &coarsesolver); CHKERRQ(ierr);
-		ierr = setup_blasted_stack(coarsesolver, bctv); CHKERRQ(ierr);
+		ierr = setup_blasted_stack_ext(coarsesolver, factory, bctv); CHKERRQ(ierr);
 	}
 	else if(isksp) {
 		ierr = KSPSetUp(ksp); CHKERRQ(ierr);
 		ierr = PCSetUp(pc); CHKERRQ(ierr);
 		KSP subksp;
 		ierr = PCKSPGetKSP(pc, &subksp); CHKERRQ(ierr);
-		ierr = setup_blasted_stack(subksp, bctv); CHKERRQ(ierr);
+		ierr = setup_blasted_stack_ext(subksp, factory, bctv); CHKERRQ(ierr);
 	}
 	else if(isshell) {
 		// if the PC is shell, this is the relevant KSP to pass to BLASTed for setup
@@ -644,7 +648,7 @@ int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
 		// so we setup the BLASTed preconditioner using the context at the head of the list
 
 		// set the factory to use - same for each solver context in the tree
-		bctv->ctxlist->bfactory = bctv->bfactory;
+		bctv->ctxlist->bfactory = const_cast<FactoryBase<double,int>*>(&factory);
 
 		ierr = setup_localpreconditioner_blasted(ksp, bctv->ctxlist); CHKERRQ(ierr);
 	}
@@ -652,12 +656,17 @@ int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
 	return ierr;
 }
 
+}
+
+extern "C" {
+
 PetscErrorCode setup_blasted_stack(KSP ksp, Blasted_data_list *const bctx)
 {
-	FactoryBase<double,int> *factory = new SRFactory<double,int>();
-	bctx->bfactory = (void*)factory;
-	bctx->_defaultfactory = 1;
-	return setup_blasted_stack_ext(ksp, factory, bctx);
+	if(!bctx->_defaultfactory) {
+		bctx->bfactory = static_cast<FactoryBase<double,int>*>(new SRFactory<double,int>());
+		bctx->_defaultfactory = 1;
+	}
+	return setup_blasted_stack_ext(ksp, *static_cast<FactoryBase<double,int>*>(bctx->bfactory), bctx);
 }
 
 PetscErrorCode setup_localpreconditioner_blasted(KSP ksp, Blasted_data *const bctx)
-- 
2.43.0


From 4c61d02d6d484190a64cc1bbe82e62ddac3bbe4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 21/31] fix: offer relaxation to PETSc when the preconditioner
 is known to have it, not by an unset type

---
 src/blasted_petsc.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index 40532bf..6328992 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -300,6 +300,11 @@ PetscErrorCode createNewPreconditioner(PC pc)
 
 	ctx->bprec = reinterpret_cast<void*>(precop);
 
+	// set a relaxation application only for supported preconditioners
+	if(precop->relaxationAvailable()) {
+		ierr = PCShellSetApplyRichardson(pc, &relax_local_blasted); CHKERRQ(ierr);
+	}
+
 	ctx->infolist = NULL;
 	if(ctx->compute_precinfo) {
 		PrecInfoList *bpinfo = new PrecInfoList;
@@ -717,15 +722,6 @@ PetscErrorCode setup_localpreconditioner_blasted(KSP ksp, Blasted_data *const bc
 	ierr = PCShellSetApply(subpc, &apply_local_blasted);            CHKERRQ(ierr);
 	ierr = PCShellSetDestroy(subpc, &cleanup_blasted);              CHKERRQ(ierr);
 
-	// set a relaxation application only for supported preconditioners
-	if(bctx->prectype != BLASTED_ILU0 &&
-	   bctx->prectype != BLASTED_CSC_BGS &&
-	   bctx->prectype != BLASTED_NO_PREC)
-	{
-		ierr = PCShellSetApplyRichardson(subpc, &relax_local_blasted);
-		CHKERRQ(ierr);
-	}
-
 	return ierr;
 }
 
-- 
2.43.0


From 4f105bdeffaa56c09f38de41f51fe75417554290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 22/31] fix: initialise every member of a new PETSc context,
 some of which are read although no option sets them

---
 src/blasted_petsc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index 6328992..4b1f8e1 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -372,7 +372,7 @@ void destroyBlastedDataList(Blasted_data_list *const b)
 
 Blasted_data newBlastedDataContext()
 {
-	Blasted_data ctx;
+	Blasted_data ctx = {};
 	ctx.bprec = NULL;
 	ctx.infolist = NULL;
 	ctx.first_setup_done = false;
-- 
2.43.0


From b950cb09b04d8e0022a9ff11f4423d9d6223ceac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:03 +0000
Subject: [PATCH 23/31] fix: partition the prefix sum by the size of the team,
 which may be smaller than the maximum

---
 src/utils/prefix_sum.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/utils/prefix_sum.cpp b/src/utils/prefix_sum.cpp
index 68c851e..a73e182 100644
--- a/src/utils/prefix_sum.cpp
+++ b/src/utils/prefix_sum.cpp
@@ -26,11 +26,18 @@ void prefix_sum(IndexType *const counts, const int num_entries)
         return;
     }
 
-    const int nthreads = omp_get_max_threads();
-    const IndexType def_num_witems = (num_entries - 1) / nthreads + 1;
+    // the team may be smaller than omp_get_max_threads()
+    int nthreads = 1;
+    IndexType def_num_witems = num_entries;
 
 #pragma omp parallel
     {
+#pragma omp single
+        {
+            nthreads = omp_get_num_threads();
+            def_num_witems = (num_entries - 1) / nthreads + 1;
+        }
+
         const int thread_id = omp_get_thread_num();
         const IndexType startidx =
             std::min(num_entries, thread_id * def_num_witems);
-- 
2.43.0


From 30c734bae18045f9b0dc7afd9e9c783606d13988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:31 +0000
Subject: [PATCH 24/31] fix: declare compute_SAI with the types it is defined
 with

---
 src/sai.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sai.hpp b/src/sai.hpp
index 372bcd0..955da7c 100644
--- a/src/sai.hpp
+++ b/src/sai.hpp
@@ -61,8 +61,8 @@ LeftSAIPattern<index> left_incomplete_SAI_pattern(const SRMatrixStorage<const sc
  * \param[out] sai The approximate inverse matrix preallocated to the same size as the original matrix
  */
 template <typename scalar, typename index, int bs, StorageOptions stor>
-void compute_SAI(const CRawBSRMatrix<scalar,index>& mat, const LeftSAIPattern<index>& sp,
-                 const int thread_chunk_size, const bool fullsai, RawBSRMatrix<scalar,index>& sai);
+void compute_SAI(const SRMatrixStorage<const scalar,const index>& mat, const LeftSAIPattern<index>& sp,
+                 const int thread_chunk_size, const bool fullsai, SRMatrixStorage<scalar,index>& sai);
 
 }
 
-- 
2.43.0


From 8db26573edddcf737f6840bff551acef50b2f9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:35 +0000
Subject: [PATCH 25/31] fix: pass on errors that PETSc reports while options
 are read and arrays given back

---
 src/blasted_petsc.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index 4b1f8e1..6ba8a86 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -32,7 +32,10 @@ static int get_int_petscoptions(const char *const option_tag)
 {
 	PetscBool set = PETSC_FALSE;
 	int val = 0;
-	PetscOptionsGetInt(NULL, NULL, option_tag, &val, &set);
+	const int ierr = PetscOptionsGetInt(NULL, NULL, option_tag, &val, &set);
+	if(ierr) {
+		throw std::runtime_error("Petsc could not get int option!");
+	}
 	if(!set) {
 		printf("BLASTed: %s not set!\n", option_tag);
 		abort();
@@ -77,7 +80,10 @@ static void get_string_petscoptions(const char *const option_tag, char outstr[BL
 {
 	// Prec type
 	PetscBool flag = PETSC_FALSE;
-	PetscOptionsGetString(NULL, NULL, option_tag, outstr, BLASTED_OPT_STRLEN, &flag);
+	const int ierr = PetscOptionsGetString(NULL, NULL, option_tag, outstr, BLASTED_OPT_STRLEN, &flag);
+	if(ierr) {
+		throw std::runtime_error("Petsc could not get string option!");
+	}
 	if(flag == PETSC_FALSE) {
 		printf("BLASTed: %s not set!\n", option_tag); fflush(stdout);
 		abort();
@@ -155,7 +161,8 @@ static PetscErrorCode setupDataFromOptions(PC pc)
 		// sweeps
 		PetscBool flag = PETSC_FALSE;
 		PetscInt nmax = 2;
-		PetscOptionsGetIntArray(NULL, NULL, "-blasted_async_sweeps", sweeps, &nmax, &flag);
+		ierr = PetscOptionsGetIntArray(NULL, NULL, "-blasted_async_sweeps", sweeps, &nmax, &flag);
+		CHKERRQ(ierr);
 
 		if(flag == PETSC_FALSE || nmax < 2) {
 			printf("BLASTed: Number of async sweeps not set properly!\n"); fflush(stdout);
@@ -514,8 +521,8 @@ PetscErrorCode apply_local_blasted(PC pc, Vec r, Vec z)
 		double finalctime = (double)clock() / (double)CLOCKS_PER_SEC;
 		ctx->applycputime += (finalctime - initialctime);
 
-		VecRestoreArrayRead(r, &ra);
-		VecRestoreArray(z, &za);
+		ierr = VecRestoreArrayRead(r, &ra); CHKERRQ(ierr);
+		ierr = VecRestoreArray(z, &za); CHKERRQ(ierr);
 	}
 
 	return ierr;
@@ -570,8 +577,8 @@ PetscErrorCode relax_local_blasted(PC pc, Vec rhs, Vec x, Vec w,
 		double finalctime = (double)clock() / (double)CLOCKS_PER_SEC;
 		ctx->applycputime += (finalctime - initialctime);
 
-		VecRestoreArrayRead(rhs, &ra);
-		VecRestoreArray(x, &za);
+		ierr = VecRestoreArrayRead(rhs, &ra); CHKERRQ(ierr);
+		ierr = VecRestoreArray(x, &za); CHKERRQ(ierr);
 	}
 
 	*reason = PCRICHARDSON_CONVERGED_ITS;
@@ -699,7 +706,7 @@ PetscErrorCode setup_localpreconditioner_blasted(KSP ksp, Blasted_data *const bc
 
 	PC pc, subpc;
 
-	KSPGetPC(ksp, &pc);
+	ierr = KSPGetPC(ksp, &pc); CHKERRQ(ierr);
 	PetscBool isshell;
 	ierr = PetscObjectTypeCompare((PetscObject)pc,PCSHELL,&isshell); CHKERRQ(ierr);
 
-- 
2.43.0


From 2ddab9adc8cd94150548bfddd330a6c2dea04042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:35 +0000
Subject: [PATCH 26/31] fix: a set-up of the PETSc interface that failed can be
 repeated

---
 src/blasted_petsc.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index 6ba8a86..0fcff3f 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -199,11 +199,9 @@ static PetscErrorCode setupDataFromOptions(PC pc)
 	printf(" ptype = %d and sweeps = %d,%d.\n", ptype, sweeps[0], sweeps[1]);
 #endif
 
-	ctx->bprec = nullptr;
 	ctx->prectype = ptype;
 	ctx->nbuildsweeps = sweeps[0];
 	ctx->napplysweeps = sweeps[1];
-	ctx->first_setup_done = true;
 	ctx->cputime = ctx->walltime = ctx->factorcputime = ctx->factorwalltime =
 		ctx->applycputime = ctx->applywalltime = 0;
 
@@ -232,6 +230,7 @@ PetscErrorCode createNewPreconditioner(PC pc)
 	// delete old matrix
 	BlastedPreconditioner* precop = reinterpret_cast<BlastedPreconditioner*>(ctx->bprec);
 	delete precop;
+	ctx->bprec = nullptr;
 
 	/* get the local preconditioning matrix
 	 * we operate on the diagonal matrix block corresponding to this process
@@ -408,6 +407,7 @@ PetscErrorCode cleanup_blasted(PC pc)
 	ierr = PCShellGetContext(pc, (void**)&ctx); CHKERRQ(ierr);
 	BlastedPreconditioner* prec = reinterpret_cast<BlastedPreconditioner*>(ctx->bprec);
 	delete prec;
+	ctx->bprec = nullptr;
 
 	return ierr;
 }
@@ -423,6 +423,8 @@ PetscErrorCode compute_preconditioner_blasted(PC pc)
 	if(!ctx->first_setup_done) {
 		ierr = setupDataFromOptions(pc); CHKERRQ(ierr);
 		ierr = createNewPreconditioner(pc); CHKERRQ(ierr);
+		// only now, so that a set-up that failed is done again the next time
+		ctx->first_setup_done = true;
 	}
 
 	struct timeval time1, time2;
-- 
2.43.0


From aa82b4119c8e3f77d464c32adc9dcceff45e37b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:35 +0000
Subject: [PATCH 27/31] fix: read string options of the full length given, and
 release the buffer when none is

---
 src/utils/cmdoptions.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/utils/cmdoptions.cpp b/src/utils/cmdoptions.cpp
index f03d193..dcc399d 100644
--- a/src/utils/cmdoptions.cpp
+++ b/src/utils/cmdoptions.cpp
@@ -106,14 +106,14 @@ std::string parsePetscCmd_string(const std::string optionname, const size_t p_st
 {
 	StatusCode ierr = 0;
 	PetscBool set = PETSC_FALSE;
-	char* tt = new char[p_strlen+1];
-	ierr = PetscOptionsGetString(NULL, NULL, optionname.data(), tt, p_strlen, &set); petsc_throw(ierr);
+	// PETSc's length includes the terminating null character
+	std::vector<char> tt(p_strlen+1);
+	ierr = PetscOptionsGetString(NULL, NULL, optionname.data(), tt.data(), tt.size(), &set);
+	petsc_throw(ierr);
 	if(!set) {
 		throw InputNotGivenError(std::string("String ") + optionname + std::string(" not set"));
 	}
-	const std::string stropt = tt;
-	delete [] tt;
-	return stropt;
+	return std::string(tt.data());
 }
 
 /** Ideally, we would have single function template for int and real, but for that we need
-- 
2.43.0


From a41f20111d417a4b383468e0ba576247bf288d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:35 +0000
Subject: [PATCH 28/31] fix: an optional array option that is not given yields
 an empty vector, as documented

---
 src/utils/cmdoptions.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/utils/cmdoptions.cpp b/src/utils/cmdoptions.cpp
index dcc399d..69a5591 100644
--- a/src/utils/cmdoptions.cpp
+++ b/src/utils/cmdoptions.cpp
@@ -145,11 +145,8 @@ std::vector<int> parseOptionalPetscCmd_intArray(const std::string optionname, co
 
 	ierr = PetscOptionsGetIntArray(NULL, NULL, optionname.c_str(), &arr[0], &len, &set);
 	petsc_throw(ierr);
-	arr.resize(len);
+	arr.resize(set ? len : 0);
 
-	if(!set) {
-		throw InputNotGivenError(std::string("Array ") + optionname + std::string(" not set"));
-	}
 	return arr;
 }
 
-- 
2.43.0


From 4a89c4a5b52d1f05c1d43075c38920742ee7cb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:35 +0000
Subject: [PATCH 29/31] fix: pass on errors of setting the values of any row

---
 src/utils/blasted_petsc_io.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/utils/blasted_petsc_io.cpp b/src/utils/blasted_petsc_io.cpp
index 8c46996..519ddf7 100644
--- a/src/utils/blasted_petsc_io.cpp
+++ b/src/utils/blasted_petsc_io.cpp
@@ -94,11 +94,10 @@ PetscErrorCode readMatFromCOOFile(const char *const file, MPI_Comm comm, Mat *co
 		//#pragma omp critical
 		{
 			ierr = MatSetValues(*A, 1, &irow, ncols, &colinds[0], &values[0], INSERT_VALUES);
+			CHKERRQ(ierr);
 		}
 	}
 
-	CHKERRQ(ierr);
-
 	std::cout << "  Beginning assembly of matrix..\n" << std::endl;
 	ierr = MatAssemblyBegin(*A, MAT_FINAL_ASSEMBLY); CHKERRQ(ierr);
 	ierr = MatAssemblyEnd(*A, MAT_FINAL_ASSEMBLY); CHKERRQ(ierr);
-- 
2.43.0


From 43286a6469aad39d64607322cdf248bdf66202e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:35 +0000
Subject: [PATCH 30/31] fix: release the first matrix and use the number of
 columns when making an AIJ matrix from a file

---
 src/utils/blasted_petsc_io.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utils/blasted_petsc_io.cpp b/src/utils/blasted_petsc_io.cpp
index 519ddf7..70fecb9 100644
--- a/src/utils/blasted_petsc_io.cpp
+++ b/src/utils/blasted_petsc_io.cpp
@@ -158,8 +158,11 @@ PetscErrorCode readMatFromCOOFile_viaSR(const char *const file, MPI_Comm comm, M
 	std::cout << "  Converted matrix to (B)CSR." << std::endl;
 
 	if(bs == 1) {
-		ierr = MatCreateMPIAIJWithArrays(PETSC_COMM_SELF, rmat->nbrows, rmat->nbrows,rmat->nbrows,
-		                                 rmat->nbrows, &rmat->browptr[0], &rmat->bcolind[0], &rmat->vals[0], A);
+		// the following creates another matrix
+		ierr = MatDestroy(A); CHKERRQ(ierr);
+		const PetscInt ncols = cmat.numcols();
+		ierr = MatCreateMPIAIJWithArrays(PETSC_COMM_SELF, rmat->nbrows, ncols, rmat->nbrows,
+		                                 ncols, &rmat->browptr[0], &rmat->bcolind[0], &rmat->vals[0], A);
 		CHKERRQ(ierr);
 	}
 	else {
-- 
2.43.0


From 879a61c665c8af125211454daedeac944c855ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:44 +0000
Subject: [PATCH 31/31] fix: long file names in the conversion program overran
 its buffers

---
 src/utils/util_petsc_io.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils/util_petsc_io.c b/src/utils/util_petsc_io.c
index ddd550c..dd98b32 100644
--- a/src/utils/util_petsc_io.c
+++ b/src/utils/util_petsc_io.c
@@ -9,7 +9,9 @@
 #include <omp.h>
 #endif
 
-#define PETSCOPTION_STR_LEN 500
+#define PETSCOPTION_STR_LEN PETSC_MAX_PATH_LEN
+/// Large enough for the longest path together with the extension of the output files
+#define OUTFILE_STR_LEN (PETSC_MAX_PATH_LEN + 8)
 
 int main(int argc, char *argv[])
 {
@@ -56,7 +58,7 @@ int main(int argc, char *argv[])
 	}
 	printf(" Done reading matrix and vector(s).\n"); fflush(stdout);
 
-	char outmatfile[PETSCOPTION_STR_LEN], outbfile[PETSCOPTION_STR_LEN], outxfile[PETSCOPTION_STR_LEN];
+	char outmatfile[OUTFILE_STR_LEN], outbfile[OUTFILE_STR_LEN], outxfile[OUTFILE_STR_LEN];
 
 	strcpy(outmatfile, matfile);
 	strcat(outmatfile, ".pmat");
-- 
2.43.0

