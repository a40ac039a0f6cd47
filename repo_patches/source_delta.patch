From 705de67a9122875551014dca6578e4af9e28122e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 01/34] fix: use the column count as the row stride in the CSR
 updateBlock

---
 src/blockmatrices.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index 61ae16e..47def26 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -678,7 +678,7 @@ void BSRMatrix<scalar,index,1>::updateBlock(const index starti, const index star
 				std::cout << "!  BSRMatrix<1>: updateBlock: Invalid block!!\n";
 #endif
 #pragma omp atomic update
-			mat.vals[jj] += buffer[locrow*bsi+k];
+			mat.vals[jj] += buffer[locrow*bsj+k];
 			k++;
 		}
 	}
-- 
2.43.0


From 9ffbf7bf3c085c52ba71232e69433c121ab2eddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:08 +0000
Subject: [PATCH 02/34] fix: set the dimension and sizes in the
 structure-copying BSRMatrix constructor

---
 src/blockmatrices.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index 47def26..2a3e6dc 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -176,6 +176,9 @@ BSRMatrix<scalar,index,bs>::BSRMatrix(const index n_brows,
 	: AbstractMatrix<scalar,index>(BSR)
 {
 	constexpr int bs2 = bs*bs;
+	mat.nbrows = n_brows;
+	mat.nbstored = brptrs[n_brows];
+	mat.nnzb = mat.nbstored;
 	mat.browptr.resize(mat.nbrows+1);
 	mat.bcolind.resize(brptrs[mat.nbrows]);
 	mat.diagind.resize(mat.nbrows);
-- 
2.43.0


From 8aa064d36c11208cce845ebaf9d72ce69a16bc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:22 +0000
Subject: [PATCH 03/34] fix: give the taken-over row pointer array its full
 length

---
 src/blockmatrices.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index 2a3e6dc..ce0234b 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -216,7 +216,7 @@ BSRMatrix<scalar,index,bs>::BSRMatrix(RawBSRMatrix<scalar,index>& rmat)
 	: AbstractMatrix<scalar,index>(BSR)
 {
 	// Make sure to pass aligned memory!
-	mat.browptr.take_control(rmat.browptr, rmat.nbrows);
+	mat.browptr.take_control(rmat.browptr, rmat.nbrows+1);
 	mat.bcolind.take_control(rmat.bcolind, rmat.nbstored);
 	mat.vals.take_control(rmat.vals, rmat.nbstored*bs*bs);
 	mat.nbrows = rmat.nbrows;
-- 
2.43.0


From 79ad29d0fd91d15e9647219a982c3534bbc118f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:37 +0000
Subject: [PATCH 04/34] fix: let the CSR matrix take over raw arrays as
 documented instead of leaking them

---
 src/blockmatrices.ipp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index ce0234b..2d9ffb9 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -508,19 +508,19 @@ BSRMatrix<scalar,index,1>::BSRMatrix(const index nrows, index *const brptrs,
 
 template <typename scalar, typename index>
 BSRMatrix<scalar,index,1>::BSRMatrix(RawBSRMatrix<scalar,index>& rmat)
-	: AbstractMatrix<scalar,index>(CSR),
-	  mat(rmat.browptr, rmat.bcolind, rmat.vals, rmat.diagind,
-	      rmat.nbrows>0 ? &rmat.browptr[1]:nullptr, rmat.nbrows, rmat.nnzb, rmat.nbstored, 1)
+	: AbstractMatrix<scalar,index>(CSR)
 {
 	assert(rmat.nnzb == rmat.nbstored);
 	mat.nbrows = rmat.nbrows;
 	mat.nnzb = rmat.nnzb;
 	mat.nbstored = rmat.nbstored;
-	mat.browptr.wrap(rmat.browptr, rmat.nbrows+1);
-	mat.bcolind.wrap(rmat.bcolind, mat.nbstored);
-	mat.vals.wrap(rmat.vals, mat.nbstored);
-	mat.diagind.wrap(rmat.diagind, mat.nbrows);
-	mat.browendptr.wrap(&rmat.browptr[1], mat.nbrows);
+	// Make sure to pass aligned memory!
+	mat.browptr.take_control(rmat.browptr, rmat.nbrows+1);
+	mat.bcolind.take_control(rmat.bcolind, mat.nbstored);
+	mat.vals.take_control(rmat.vals, mat.nbstored);
+	mat.diagind.take_control(rmat.diagind, mat.nbrows);
+	if(rmat.nbrows > 0)
+		mat.browendptr.wrap(&rmat.browptr[1], mat.nbrows);
 
 	rmat.nbrows=0;
 	rmat.browptr = rmat.bcolind = rmat.diagind = rmat.browendptr = nullptr; rmat.vals = nullptr;
-- 
2.43.0


From d5683b3fcca3d294e658a89925ed2a720270bb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:37 +0000
Subject: [PATCH 05/34] fix: read the number of non-zeros of wrapped CSR arrays
 from the last row pointer

---
 src/blockmatrices.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blockmatrices.ipp b/src/blockmatrices.ipp
index 2d9ffb9..f8d33da 100644
--- a/src/blockmatrices.ipp
+++ b/src/blockmatrices.ipp
@@ -497,7 +497,7 @@ BSRMatrix<scalar,index,1>::BSRMatrix(const index nrows, index *const brptrs,
 	: AbstractMatrix<scalar,index>(CSR)
 {
 	mat.nbrows = nrows;
-	mat.nnzb = brptrs[nrows+1];
+	mat.nnzb = brptrs[nrows];
 	mat.nbstored = mat.nnzb;
 	mat.browptr.wrap(brptrs, nrows+1);
 	mat.bcolind.wrap(bcinds, mat.nnzb);
-- 
2.43.0


From 5759bb78e5dddc29a02ddb0b9d18f523d0aee549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:11 +0000
Subject: [PATCH 06/34] fix: read coordinate files that have rows without
 entries

---
 src/coomatrix.cpp | 30 +++++++-----------------------
 1 file changed, 7 insertions(+), 23 deletions(-)

diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index 4f6916b..bb1ac13 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -227,33 +227,17 @@ void COOMatrix<scalar,index>::readMatrixMarket(const std::string file)
 	std::sort(entries.begin(), entries.end(), 
 			[](Entry<scalar,index> a, Entry<scalar,index> b) { return a.rowind < b.rowind; } );
 
-	// get row pointers- note that we assume there's at least one element in each row
-	rowptr.resize(nrows+1);
-	std::vector <typename std::vector<Entry<scalar,index>>::iterator> rowits(nrows+1);
-	rowptr[0] = 0;
-	rowits[0] = entries.begin();
-	
-	index k = 1;                 //< Keeps track of current entry
-	index nextrow = 1;           //< Keeps track of the number of rows detected
-	for(auto it = entries.begin()+1; it != entries.end(); ++it)
-	{
-		if( (*it).rowind != (*(it-1)).rowind ) {
-			rowits[nextrow] = it;
-			rowptr[nextrow] = k;
-			nextrow++;
-		}
-
-		k++;
-	}
-	
-	assert(nextrow == nrows);       //< The previous row should have been the last, ie. nrows-1
-	rowits[nrows] = entries.end();
-	rowptr[nrows] = nnz;
+	// get row pointers; a row may be empty
+	rowptr.assign(nrows+1, 0);
+	for(const Entry<scalar,index>& entry : entries)
+		rowptr[entry.rowind+1]++;
+	for(index i = 0; i < nrows; i++)
+		rowptr[i+1] += rowptr[i];
 
 	// Sort each row by columns
 	for(index i = 0; i < nrows; i++)
 	{
-		std::sort(rowits[i],rowits[i+1], 
+		std::sort(entries.begin()+rowptr[i], entries.begin()+rowptr[i+1],
 				[](Entry<scalar,index> a, Entry<scalar,index> b) { return a.colind < b.colind; } );
 	}
 }
-- 
2.43.0


From 45d673a55608a6773b440fe5c48239a035bc5241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:24 +0000
Subject: [PATCH 07/34] fix: sort the block-columns of every block-row when
 converting to BSR

---
 src/coomatrix.cpp | 41 +++++++++++------------------------------
 1 file changed, 11 insertions(+), 30 deletions(-)

diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index bb1ac13..23dc723 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -298,52 +298,33 @@ SRMatrixStorage<scalar,index> COOMatrix<scalar,index>::convertToBSR() const
 	bmat.diagind.resize(bmat.nbrows);
 	for(index i = 0; i < bmat.nbrows; i++)
 		bmat.diagind[i] = -1;
-	for(index i = 0; i < bmat.nbrows+1; i++)
-		bmat.browptr[i] = 0;
 	index bnnz = 0;                             //< Running count of number of nonzero blocks
 
 	std::vector<index> bcolidxs;
 	bcolidxs.reserve(nnz/bs);
-	std::vector<bool> tallybrows(bmat.nbrows, false);
 
-	/** If nonzeros in each row were sorted by column initially, 
-	 * blocks in each block-row would end up sorted by block-column.
+	/** The rows of a block-row may start in different block-columns,
+	 * so the block-columns of each block-row need to be sorted.
 	 */
 
-	for(index irow = 0; irow < nrows; irow++)
+	for(index ibrow = 0; ibrow < bmat.nbrows; ibrow++)
 	{
-		const index curbrow = irow/bs;
-		for(index j = rowptr[irow]; j < rowptr[irow+1]; j++)
-		{
-			const index curcol = entries[j].colind;
-			const index curbcol = curcol/bs;
+		bmat.browptr[ibrow] = bnnz;
 
-			if(!tallybrows[curbrow]) {
-				bmat.browptr[curbrow] = bnnz;
-				tallybrows[curbrow] = true;
-			}
+		for(index j = rowptr[ibrow*bs]; j < rowptr[(ibrow+1)*bs]; j++)
+			bcolidxs.push_back(entries[j].colind/bs);
 
-			// find the current block-column of the current block-row in the array of column indices
-			auto it = std::find(bcolidxs.begin()+bmat.browptr[curbrow], bcolidxs.end(), curbcol);
+		std::sort(bcolidxs.begin()+bnnz, bcolidxs.end());
+		bcolidxs.erase(std::unique(bcolidxs.begin()+bnnz, bcolidxs.end()), bcolidxs.end());
 
-			// if it does not exist, add the current block col index
-			if(it == bcolidxs.end()) {
-				bcolidxs.push_back(curbcol);
-				if(curbcol == curbrow)
-					bmat.diagind[curbrow] = bnnz;
-				bnnz++;
-			}
-		}
+		for( ; bnnz < static_cast<index>(bcolidxs.size()); bnnz++)
+			if(bcolidxs[bnnz] == ibrow)
+				bmat.diagind[ibrow] = bnnz;
 	}
 
 	//std::cout << "convertToBSR: Number of nonzero blocks = " << bnnz << std::endl;
 	bmat.browptr[bmat.nbrows] = bnnz;
 
-	// fix browptr for empty block rows
-	for(index i = bmat.nbrows-1; i > 0; i--)
-		if(bmat.browptr[i] == 0)
-			bmat.browptr[i] = bmat.browptr[i+1];
-
 	bmat.bcolind.resize(bnnz);
 	bmat.vals.resize(bnnz*bs*bs);
 
-- 
2.43.0


From ca6947f2bdf4d87050228ecab0807056ad981373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:49 +0000
Subject: [PATCH 08/34] fix: report unreadable Matrix Market headers by
 exceptions rather than abort or an endless loop

---
 src/coomatrix.cpp | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index 23dc723..3873635 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -51,8 +51,7 @@ MMDescription getMMDescription(std::ifstream& fin)
 		descr.storagetype = ARRAY;
 	}
 	else {
-		std::cout << "! Invalid storage type!\n";
-		std::abort();
+		throw MatrixReadException("! Invalid storage type!");
 	}
 
 	if(typeofmatrix[3] == "real")
@@ -64,8 +63,7 @@ MMDescription getMMDescription(std::ifstream& fin)
 	else if(typeofmatrix[3] == "patter")
 		descr.scalartype = PATTERN;
 	else {
-		std::cout << "! Invalid scalar type!\n";
-		std::abort();
+		throw MatrixReadException("! Invalid scalar type!");
 	}
 
 	if(typeofmatrix[4] == "general")
@@ -77,8 +75,7 @@ MMDescription getMMDescription(std::ifstream& fin)
 	else if(typeofmatrix[4] == "hermitian")
 		descr.matrixtype = HERMITIAN;
 	else {
-		std::cout << "! Invalid matrix type!\n";
-		std::abort();
+		throw MatrixReadException("! Invalid matrix type!");
 	}
 
 	return descr;
@@ -91,7 +88,8 @@ std::vector<index> getSizeFromMatrixMarket(std::ifstream& fin, const MMDescripti
 	// read and discard lines until the first line that does not begin with '%'
 	std::string line = "%";
 	while(line[0] == '%')
-		std::getline(fin, line);
+		if(!std::getline(fin, line))
+			throw MatrixReadException("! getSizeFromMatrixMarket: No size information!");
 
 	// parse matrix size line
 	std::istringstream iss(line);
@@ -100,14 +98,12 @@ std::vector<index> getSizeFromMatrixMarket(std::ifstream& fin, const MMDescripti
 
 	if(descr.storagetype == COORDINATE) {
 		if(sizestr.size() < 3) {
-			std::cout << "! getSizeFromMatrixMarket: Not enough size information!\n";
-			std::abort();
+			throw MatrixReadException("! getSizeFromMatrixMarket: Not enough size information!");
 		}
 	}
 	else {
 		if(sizestr.size() < 2) {
-			std::cout << "! getSizeFromMatrixMarket: Not enough size information!\n";
-			std::abort();
+			throw MatrixReadException("! getSizeFromMatrixMarket: Not enough size information!");
 		}
 	}
 
@@ -118,12 +114,10 @@ std::vector<index> getSizeFromMatrixMarket(std::ifstream& fin, const MMDescripti
 			sizes[i] = std::stoi(sizestr[i]);
 		}
 		catch(const std::invalid_argument& e) {
-			std::cout << "! getSizeFromMatrixMarket: Invalid size!!\n";
-			std::abort();
+			throw MatrixReadException("! getSizeFromMatrixMarket: Invalid size!!");
 		}
 		catch(const std::out_of_range& e) {
-			std::cout << "! getSizeFromMatrixMarket: Size is too large for the type of index!!\n";
-			std::abort();
+			throw MatrixReadException("! getSizeFromMatrixMarket: Size is too large for the type of index!!");
 		}
 	}
 
@@ -135,8 +129,7 @@ device_vector<scalar> readDenseMatrixMarket(const std::string file)
 {
 	std::ifstream fin(file);
 	if(!fin) {
-		std::cout << " readDenseMatrixMarket: File could not be opened to read!\n";
-		std::abort();
+		throw MatrixReadException(" readDenseMatrixMarket: File could not be opened to read!");
 	}
 
 	const MMDescription descr = getMMDescription(fin);
@@ -191,8 +184,7 @@ void COOMatrix<scalar,index>::readMatrixMarket(const std::string file)
 	std::cout << " Attempting to read file " << file << std::endl;
 	std::ifstream fin(file);
 	if(!fin) {
-		std::cout << " COOMatrix: File could not be opened to read!\n";
-		std::abort();
+		throw MatrixReadException(" COOMatrix: File could not be opened to read!");
 	}
 
 	const MMDescription descr = getMMDescription(fin);
-- 
2.43.0


From fdd8b5ccb9acc9e164a6ffc7bfb3a1344da7df8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:49 +0000
Subject: [PATCH 09/34] fix: recognise pattern and skew-symmetric headers and
 refuse complex matrices

---
 src/coomatrix.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index 3873635..5240d1c 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -60,7 +60,7 @@ MMDescription getMMDescription(std::ifstream& fin)
 		descr.scalartype = COMPLEX;
 	else if(typeofmatrix[3] == "integer")
 		descr.scalartype = INTEGER;
-	else if(typeofmatrix[3] == "patter")
+	else if(typeofmatrix[3] == "pattern")
 		descr.scalartype = PATTERN;
 	else {
 		throw MatrixReadException("! Invalid scalar type!");
@@ -70,7 +70,7 @@ MMDescription getMMDescription(std::ifstream& fin)
 		descr.matrixtype = GENERAL;
 	else if(typeofmatrix[4] == "symmetric")
 		descr.matrixtype = SYMMETRIC;
-	else if(typeofmatrix[4] == "skewsymmetric")
+	else if(typeofmatrix[4] == "skew-symmetric")
 		descr.matrixtype = SKEWSYMMETRIC;
 	else if(typeofmatrix[4] == "hermitian")
 		descr.matrixtype = HERMITIAN;
@@ -142,6 +142,11 @@ device_vector<scalar> readDenseMatrixMarket(const std::string file)
 		throw "Matrix should be stored as dense!";
 	}
 
+	if(descr.scalartype != REAL && descr.scalartype != INTEGER) {
+		fin.close();
+		throw "Matrix should be real or integer!";
+	}
+
 	const std::vector<int> sizes = getSizeFromMatrixMarket<int>(fin,descr);
 	if(sizes.size() < 2) {
 		fin.close();
@@ -194,6 +199,9 @@ void COOMatrix<scalar,index>::readMatrixMarket(const std::string file)
 	if(descr.scalartype == PATTERN) {
 		throw MatrixReadException("! COOMatrix: readMatrixMarket: Cannot read pattern matrices.");
 	}
+	if(descr.scalartype == COMPLEX) {
+		throw MatrixReadException("! COOMatrix: readMatrixMarket: Cannot read complex matrices.");
+	}
 	if(descr.matrixtype != GENERAL) {
 		throw MatrixReadException("! COOMatrix: readMatrixMarket: Can only read general matrices.");
 	}
-- 
2.43.0


From 0817f8427351891fa3079d60fd3d9bee3a9fef95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:12 +0000
Subject: [PATCH 10/34] fix: reject coordinate and dense files with missing
 values, bad counts or entries outside the matrix

---
 src/coomatrix.cpp | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/coomatrix.cpp b/src/coomatrix.cpp
index 5240d1c..690e637 100644
--- a/src/coomatrix.cpp
+++ b/src/coomatrix.cpp
@@ -119,6 +119,8 @@ std::vector<index> getSizeFromMatrixMarket(std::ifstream& fin, const MMDescripti
 		catch(const std::out_of_range& e) {
 			throw MatrixReadException("! getSizeFromMatrixMarket: Size is too large for the type of index!!");
 		}
+		if(sizes[i] < 0)
+			throw MatrixReadException("! getSizeFromMatrixMarket: Negative size!");
 	}
 
 	return sizes;
@@ -153,9 +155,14 @@ device_vector<scalar> readDenseMatrixMarket(const std::string file)
 		throw "Size vector has less than 2 entries!";
 	}
 
-	device_vector<scalar> vals(sizes[0]*sizes[1]);
-	for(int i = 0; i < sizes[0]*sizes[1]; i++)
-		fin >> vals[i];
+	const size_t nvals = static_cast<size_t>(sizes[0])*sizes[1];
+	device_vector<scalar> vals;
+	for(size_t i = 0; i < nvals; i++) {
+		scalar val;
+		if(!(fin >> val))
+			throw MatrixReadException("! readDenseMatrixMarket: Not enough valid values!");
+		vals.push_back(val);
+	}
 
 	fin.close();
 	return vals;
@@ -211,14 +218,17 @@ void COOMatrix<scalar,index>::readMatrixMarket(const std::string file)
 	nnz = sizes[2];
 	nrows = sizes[0];
 	ncols = sizes[1];
-	entries.resize(nnz);
+	entries.clear();
 
 	// read the entries
 	for(index i = 0; i < nnz; i++) {
 		index ri, ci;
-		fin >> ri >> ci >> entries[i].value;
- 		entries[i].rowind = ri-1;
-		entries[i].colind = ci-1;
+		scalar value;
+		if(!(fin >> ri >> ci >> value))
+			throw MatrixReadException("! COOMatrix: readMatrixMarket: Not enough valid entries!");
+		if(ri < 1 || ri > nrows || ci < 1 || ci > ncols)
+			throw MatrixReadException("! COOMatrix: readMatrixMarket: Entry outside the matrix!");
+		entries.push_back({ri-1, ci-1, value});
 	}
 
 	fin.close();
@@ -228,7 +238,7 @@ void COOMatrix<scalar,index>::readMatrixMarket(const std::string file)
 			[](Entry<scalar,index> a, Entry<scalar,index> b) { return a.rowind < b.rowind; } );
 
 	// get row pointers; a row may be empty
-	rowptr.assign(nrows+1, 0);
+	rowptr.assign(static_cast<size_t>(nrows)+1, 0);
 	for(const Entry<scalar,index>& entry : entries)
 		rowptr[entry.rowind+1]++;
 	for(index i = 0; i < nrows; i++)
-- 
2.43.0


From c445a8ffaf057d72e88ae01ec574a77350cf118f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 11/34] fix: update the diagonal positions when a matrix is
 reordered

---
 src/reorderingscaling.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/reorderingscaling.cpp b/src/reorderingscaling.cpp
index 6bd8d90..b10b354 100644
--- a/src/reorderingscaling.cpp
+++ b/src/reorderingscaling.cpp
@@ -195,6 +195,18 @@ void Reordering<scalar,index,bs>::applyOrdering(RawBSRMatrix<scalar,index>& mat,
 			}
 		}
 	}
+
+	// the diagonal entries have moved
+	if(mat.diagind)
+		for(index i = 0; i < mat.nbrows; i++)
+		{
+			mat.diagind[i] = -1;
+			for(index jj = mat.browptr[i]; jj < mat.browptr[i+1]; jj++)
+				if(mat.bcolind[jj] == i) {
+					mat.diagind[i] = jj;
+					break;
+				}
+		}
 }
 
 /** This is most likely not the best way to do it. The vector is first copied into a local
-- 
2.43.0


From f3c7e343c178af290211a485c136a868b874c2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 12/34] fix: map the solution of the reordered ILU back to the
 original column ordering

---
 src/solverops_ilu0.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solverops_ilu0.cpp b/src/solverops_ilu0.cpp
index 432de49..1aa3b13 100644
--- a/src/solverops_ilu0.cpp
+++ b/src/solverops_ilu0.cpp
@@ -463,7 +463,7 @@ void ReorderedAsyncILU0_SRPreconditioner<scalar,index>::apply(const scalar *cons
 	}
 
 	// reorder solution
-	reord->applyOrdering(za, FORWARD, COLUMN);
+	reord->applyOrdering(za, INVERSE, COLUMN);
 }
 
 template <typename scalar, typename index>
-- 
2.43.0


From 39eff9f20758ec9b4e814bf96c23048121136ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:59 +0000
Subject: [PATCH 13/34] fix: pass the threading options of the reordered ILU to
 the right base constructor arguments

---
 src/solverops_ilu0.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solverops_ilu0.cpp b/src/solverops_ilu0.cpp
index 1aa3b13..5429f89 100644
--- a/src/solverops_ilu0.cpp
+++ b/src/solverops_ilu0.cpp
@@ -403,7 +403,7 @@ ReorderedAsyncILU0_SRPreconditioner<scalar,index>
                                       const FactInit finit, const ApplyInit ainit,
                                       const bool threadedfactor, const bool threadedapply)
 	: AsyncILU0_SRPreconditioner<scalar,index>(std::move(matrix),nbuildsweeps,napplysweeps,true, tcs,
-	                                           finit, ainit, threadedfactor,threadedapply),
+	                                           finit, ainit, false, threadedfactor,threadedapply),
 	  reord{reorderscale}
 { }
 
-- 
2.43.0


From 78a86660921eb7d8f9cbc5bad079eec9ef4514da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:00 +0000
Subject: [PATCH 14/34] fix: index the scaling vector by the column in the SGS
 initial factorization

---
 src/async_ilu_factor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/async_ilu_factor.cpp b/src/async_ilu_factor.cpp
index e7b218f..7a18982 100644
--- a/src/async_ilu_factor.cpp
+++ b/src/async_ilu_factor.cpp
@@ -118,8 +118,8 @@ static void fact_init_sgs(const CRawBSRMatrix<scalar,index> *const mat, const sc
 				iluvals[j] = scale[i]*mat->vals[j]*scale[mat->bcolind[j]];
 			for(index j = mat->browptr[i]; j < mat->diagind[i]; j++)
 				iluvals[j] *= 1.0/(mat->vals[mat->diagind[mat->bcolind[j]]]
-				                   * scale[mat->diagind[mat->bcolind[j]]]
-				                   * scale[mat->diagind[mat->bcolind[j]]]);
+				                   * scale[mat->bcolind[j]]
+				                   * scale[mat->bcolind[j]]);
 		}
 	else
 #pragma omp parallel for default (shared)
-- 
2.43.0


From cd133485f4b2dcf8e23c29be5031d76f296090a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:44 +0000
Subject: [PATCH 15/34] fix: pass the options of the level-scheduled point ILU
 to the right base constructor arguments

---
 src/solverops_levels_ilu0.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solverops_levels_ilu0.cpp b/src/solverops_levels_ilu0.cpp
index 1d43d6a..b4e5e3e 100644
--- a/src/solverops_levels_ilu0.cpp
+++ b/src/solverops_levels_ilu0.cpp
@@ -127,7 +127,8 @@ Async_Level_ILU0<scalar,index>
                    const FactInit fact_inittype, const bool threadedfactor,
                    const bool compute_remainder)
 	: AsyncILU0_SRPreconditioner<scalar,index>(std::move(matrix), nbuildsweeps,1,use_scaling,thread_chunk_size,
-	                                           fact_inittype, INIT_A_NONE, threadedfactor, true)
+	                                           fact_inittype, INIT_A_NONE, compute_remainder,
+	                                           threadedfactor, true)
 { }
 
 template <typename scalar, typename index>
-- 
2.43.0


From 779e9fd18fdc6d6e5f9888d99c1b1edf307b1959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:00 +0000
Subject: [PATCH 16/34] fix: start applications of the Gauss-Seidel
 preconditioner from zero rather than the output's old contents

---
 src/relaxation_chaotic.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/relaxation_chaotic.cpp b/src/relaxation_chaotic.cpp
index 68de53e..a464f47 100644
--- a/src/relaxation_chaotic.cpp
+++ b/src/relaxation_chaotic.cpp
@@ -29,6 +29,11 @@ void ChaoticBlockRelaxation<scalar,index,bs,stor>::apply(const scalar *const bb,
 	const Seg *x = reinterpret_cast<const Seg*>(xx);
 	Seg *xmut = reinterpret_cast<Seg*>(xx);
 
+	// a preconditioner application always starts from zero
+#pragma omp parallel for simd default(shared)
+	for(index i = 0; i < mat.nbrows*bs; i++)
+		xx[i] = 0;
+
 #pragma omp parallel default(shared)
 	{
 		for(int step = 0; step < napplysweeps; step++)
@@ -92,6 +97,11 @@ template<typename scalar, typename index>
 void ChaoticRelaxation<scalar,index>::apply(const scalar *const bb,
 		scalar *const __restrict xx) const
 {
+	// a preconditioner application always starts from zero
+#pragma omp parallel for simd default(shared)
+	for(index i = 0; i < mat.nbrows; i++)
+		xx[i] = 0;
+
 #pragma omp parallel default(shared)
 	for(int step = 0; step < napplysweeps; step++)
 	{
-- 
2.43.0


From 07fc86146cd0db82d779ac24ea5d25aa7b48680d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:39 +0000
Subject: [PATCH 17/34] fix: report zeros, not uninitialised memory, for
 diagnostics a preconditioner does not compute

---
 include/preconditioner_diagnostics.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/preconditioner_diagnostics.hpp b/include/preconditioner_diagnostics.hpp
index 6af9813..9aaaded 100644
--- a/include/preconditioner_diagnostics.hpp
+++ b/include/preconditioner_diagnostics.hpp
@@ -13,8 +13,8 @@ namespace blasted {
 /// Information that may be computed by a preconditioner for aiding analysis
 struct PrecInfo
 {
-	/// Floating-point Info
-	std::array<double,6> f_info;
+	/// Floating-point info; quantities that are not computed are reported as zero
+	std::array<double,6> f_info {{0,0,0,0,0,0}};
 
 	/// Difference norm between computed preconditioning matrix and ideal
 	double& prec_remainder_norm() { return f_info[0]; }
-- 
2.43.0


From e504aa34b026954424ae39fdfad43c9b87eaafde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:38 +0000
Subject: [PATCH 18/34] fix: declare compute_SAI as it is defined, so that it
 can be called

---
 src/sai.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sai.hpp b/src/sai.hpp
index 372bcd0..955da7c 100644
--- a/src/sai.hpp
+++ b/src/sai.hpp
@@ -61,8 +61,8 @@ LeftSAIPattern<index> left_incomplete_SAI_pattern(const SRMatrixStorage<const sc
  * \param[out] sai The approximate inverse matrix preallocated to the same size as the original matrix
  */
 template <typename scalar, typename index, int bs, StorageOptions stor>
-void compute_SAI(const CRawBSRMatrix<scalar,index>& mat, const LeftSAIPattern<index>& sp,
-                 const int thread_chunk_size, const bool fullsai, RawBSRMatrix<scalar,index>& sai);
+void compute_SAI(const SRMatrixStorage<const scalar,const index>& mat, const LeftSAIPattern<index>& sp,
+                 const int thread_chunk_size, const bool fullsai, SRMatrixStorage<scalar,index>& sai);
 
 }
 
-- 
2.43.0


From 7933592ce5394a91684137d0322c8f3294b060fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:38 +0000
Subject: [PATCH 19/34] fix: the columns of a row's SAI problem need not be
 full

---
 src/sai.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sai.cpp b/src/sai.cpp
index e427b7e..37e07a3 100644
--- a/src/sai.cpp
+++ b/src/sai.cpp
@@ -349,7 +349,7 @@ LMatrix<scalar> gather_lhs_matrix(const SRMatrixStorage<const scalar,const index
 		const index start = sp.bcolptr[sp.sairowptr[row]+jcol],
 			end = sp.bcolptr[sp.sairowptr[row]+jcol+1];
 
-		assert(end-start == sp.nEqns[row]);
+		assert(end-start <= sp.nEqns[row]); // equations a column does not take part in have no entry
 
 #pragma omp simd
 		for(index ii = start; ii < end; ii++)
-- 
2.43.0


From 978d9114aeb5a3b81602db4b885ee19a22800b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:24 +0000
Subject: [PATCH 20/34] fix: keep the parallel prefix sum within its array when
 there are more threads than chunks of entries

---
 src/utils/prefix_sum.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/utils/prefix_sum.cpp b/src/utils/prefix_sum.cpp
index e94dbc9..eb39170 100644
--- a/src/utils/prefix_sum.cpp
+++ b/src/utils/prefix_sum.cpp
@@ -32,10 +32,12 @@ void prefix_sum(IndexType *const counts, const int num_entries)
 #pragma omp parallel
     {
         const int thread_id = omp_get_thread_num();
-        const IndexType startidx = thread_id * def_num_witems;
+        // The last few threads may not have any entries
+        const IndexType startidx =
+            std::min(num_entries, thread_id * def_num_witems);
         const IndexType endidx =
             std::min(num_entries, (thread_id + 1) * def_num_witems);
-        const IndexType startval = counts[startidx];
+        const IndexType startval = startidx < num_entries ? counts[startidx] : 0;
 
 #pragma omp barrier
 
@@ -45,7 +47,7 @@ void prefix_sum(IndexType *const counts, const int num_entries)
             counts[i] = partial_sum;
             partial_sum += nnz;
         }
-        if (thread_id != nthreads - 1) {
+        if (endidx < num_entries) {
             counts[endidx] = partial_sum;
         }
     }
-- 
2.43.0


From 144482d372396458041297278eadc2a2f7658bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:31 +0000
Subject: [PATCH 21/34] fix: the maximum norm of a zero vector is zero

---
 src/blas/blas1.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/blas/blas1.cpp b/src/blas/blas1.cpp
index 2b283fa..60a421f 100644
--- a/src/blas/blas1.cpp
+++ b/src/blas/blas1.cpp
@@ -4,7 +4,6 @@
  */
 
 #include <cmath>
-#include <limits>
 #include "blas1.hpp"
 
 namespace blasted {
@@ -12,7 +11,7 @@ namespace blasted {
 template <typename scalar>
 scalar maxnorm(const device_vector<scalar>& vec)
 {
-	scalar smax = std::numeric_limits<scalar>::min();
+	scalar smax = 0;
 	const int N = static_cast<int>(vec.size());
 
 #pragma omp parallel for default(shared) reduction(max:smax)
-- 
2.43.0


From c7bf49b695c248516f7a5a4c3bf224e188378f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:37 +0000
Subject: [PATCH 22/34] fix: give the tree of the parallel prefix sum enough
 levels for the number of threads

---
 src/utils/prefix_sum.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/prefix_sum.cpp b/src/utils/prefix_sum.cpp
index eb39170..c892bdf 100644
--- a/src/utils/prefix_sum.cpp
+++ b/src/utils/prefix_sum.cpp
@@ -54,7 +54,7 @@ void prefix_sum(IndexType *const counts, const int num_entries)
 
     counts[0] = 0;
 
-    const auto levels = static_cast<int>(std::ceil(std::log(nthreads)));
+    const auto levels = static_cast<int>(std::ceil(std::log2(nthreads)));
     for (int ilvl = 0; ilvl < levels; ilvl++) {
         const IndexType factor = power(2, (ilvl + 1));
         const IndexType lvl_num_witems = factor * def_num_witems;
-- 
2.43.0


From 7abcf301e784f0f00da94a05517f36a2fb3817c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:20 +0000
Subject: [PATCH 23/34] fix: return an empty array for an optional array option
 that is not given, as documented

---
 src/utils/cmdoptions.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/utils/cmdoptions.cpp b/src/utils/cmdoptions.cpp
index f03d193..02f39b4 100644
--- a/src/utils/cmdoptions.cpp
+++ b/src/utils/cmdoptions.cpp
@@ -145,11 +145,10 @@ std::vector<int> parseOptionalPetscCmd_intArray(const std::string optionname, co
 
 	ierr = PetscOptionsGetIntArray(NULL, NULL, optionname.c_str(), &arr[0], &len, &set);
 	petsc_throw(ierr);
+	if(!set)
+		len = 0;
 	arr.resize(len);
 
-	if(!set) {
-		throw InputNotGivenError(std::string("Array ") + optionname + std::string(" not set"));
-	}
 	return arr;
 }
 
-- 
2.43.0


From 88b9d67bee60d246ee8c64d054352fa9ffca25e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:42 +0000
Subject: [PATCH 24/34] fix: read string options of the longest length expected
 in full

---
 src/utils/cmdoptions.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils/cmdoptions.cpp b/src/utils/cmdoptions.cpp
index 02f39b4..0e96609 100644
--- a/src/utils/cmdoptions.cpp
+++ b/src/utils/cmdoptions.cpp
@@ -106,13 +106,13 @@ std::string parsePetscCmd_string(const std::string optionname, const size_t p_st
 {
 	StatusCode ierr = 0;
 	PetscBool set = PETSC_FALSE;
-	char* tt = new char[p_strlen+1];
-	ierr = PetscOptionsGetString(NULL, NULL, optionname.data(), tt, p_strlen, &set); petsc_throw(ierr);
+	std::vector<char> tt(p_strlen+1);    // includes the terminating null
+	ierr = PetscOptionsGetString(NULL, NULL, optionname.data(), tt.data(), tt.size(), &set);
+	petsc_throw(ierr);
 	if(!set) {
 		throw InputNotGivenError(std::string("String ") + optionname + std::string(" not set"));
 	}
-	const std::string stropt = tt;
-	delete [] tt;
+	const std::string stropt = tt.data();
 	return stropt;
 }
 
-- 
2.43.0


From fc5efa50fae439b747a212e88736848fbe55c638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:57 +0000
Subject: [PATCH 25/34] fix: read coordinate files with empty rows into PETSc
 matrices entry by entry

---
 src/utils/blasted_petsc_io.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/blasted_petsc_io.cpp b/src/utils/blasted_petsc_io.cpp
index 8c46996..c06ffdc 100644
--- a/src/utils/blasted_petsc_io.cpp
+++ b/src/utils/blasted_petsc_io.cpp
@@ -76,6 +76,8 @@ PetscErrorCode readMatFromCOOFile(const char *const file, MPI_Comm comm, Mat *co
 	//#pragma omp parallel for default(shared)
 	for(PetscInt irow = 0; irow < cmat.numrows(); irow++)
 	{
+		if(rowptrs[irow] == rowptrs[irow+1])
+			continue;                         // nothing is stored in this row
 		if(irow != entries[rowptrs[irow]].rowind)
 			throw std::runtime_error("Encountered invalid COO row indices!");
 		const int ncols = rowptrs[irow+1]-rowptrs[irow];
-- 
2.43.0


From befdfc7421d67c3796d21931229c4301857fd8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:51 +0000
Subject: [PATCH 26/34] fix: read coordinate files whose last block-rows are
 empty into PETSc matrices

---
 src/utils/blasted_petsc_io.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils/blasted_petsc_io.cpp b/src/utils/blasted_petsc_io.cpp
index c06ffdc..18d011a 100644
--- a/src/utils/blasted_petsc_io.cpp
+++ b/src/utils/blasted_petsc_io.cpp
@@ -172,6 +172,8 @@ PetscErrorCode readMatFromCOOFile_viaSR(const char *const file, MPI_Comm comm, M
 		ierr = MatSetUp(*A); CHKERRQ(ierr);
 		ierr = MatSetOption(*A, MAT_ROW_ORIENTED, PETSC_FALSE); CHKERRQ(ierr);
 		for(PetscInt i = 0; i < rmat->nbrows; i++) {
+			if(rmat->browptr[i] == rmat->browptr[i+1])
+				continue;                     // nothing is stored in this row
 			const PetscInt *const colinds = &rmat->bcolind[rmat->browptr[i]];
 			const PetscReal *const values = &rmat->vals[rmat->browptr[i]*bs*bs];
 			const PetscInt ncols = rmat->browptr[i+1]-rmat->browptr[i];
-- 
2.43.0


From df84370ea4187307ca15abb7146585d27c8a5ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:07 +0000
Subject: [PATCH 27/34] fix: leave room for long file names in the conversion
 tool

---
 src/utils/util_petsc_io.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utils/util_petsc_io.c b/src/utils/util_petsc_io.c
index ddd550c..8916c71 100644
--- a/src/utils/util_petsc_io.c
+++ b/src/utils/util_petsc_io.c
@@ -9,7 +9,9 @@
 #include <omp.h>
 #endif
 
-#define PETSCOPTION_STR_LEN 500
+#define PETSCOPTION_STR_LEN PETSC_MAX_PATH_LEN
+/// Room for the name of an output file: that of an input file and an extension
+#define OUTFILE_STR_LEN (PETSC_MAX_PATH_LEN + 10)
 
 int main(int argc, char *argv[])
 {
@@ -56,7 +58,7 @@ int main(int argc, char *argv[])
 	}
 	printf(" Done reading matrix and vector(s).\n"); fflush(stdout);
 
-	char outmatfile[PETSCOPTION_STR_LEN], outbfile[PETSCOPTION_STR_LEN], outxfile[PETSCOPTION_STR_LEN];
+	char outmatfile[OUTFILE_STR_LEN], outbfile[OUTFILE_STR_LEN], outxfile[OUTFILE_STR_LEN];
 
 	strcpy(outmatfile, matfile);
 	strcat(outmatfile, ".pmat");
-- 
2.43.0


From e80248645dc1fbbfe6307470a3dbaeaba62e0d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:22 +0000
Subject: [PATCH 28/34] fix: define setup_blasted_stack_ext as it is declared,
 use its factory throughout and do not leak default ones

---
 src/blasted_petsc.cpp | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index bf7df99..5f9eadd 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -575,7 +575,11 @@ PetscErrorCode relax_local_blasted(PC pc, Vec rhs, Vec x, Vec w,
 	return ierr;
 }
 
-int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
+} // extern "C"
+
+namespace blasted {
+
+int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int>& fctry,
                             Blasted_data_list *const bctv)
 {
 	PetscErrorCode ierr = 0;
@@ -605,7 +609,7 @@ int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
 			SETERRQ(PETSC_COMM_SELF, PETSC_ERR_ARG_WRONGSTATE,
 					"Only one subdomain per rank is supported.");
 
-		ierr = setup_blasted_stack(subksp[0], bctv); CHKERRQ(ierr);
+		ierr = setup_blasted_stack_ext(subksp[0], fctry, bctv); CHKERRQ(ierr);
 	}
 	else if(ismg || isgamg) {
 		ierr = KSPSetUp(ksp); CHKERRQ(ierr);
@@ -616,7 +620,7 @@ int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
 		for(int ilvl = 1; ilvl < nlevels; ilvl++) {
 			KSP smootherctx;
 			ierr = PCMGGetSmoother(pc, ilvl , &smootherctx); CHKERRQ(ierr);
-			ierr = setup_blasted_stack(smootherctx, bctv); CHKERRQ(ierr);
+			ierr = setup_blasted_stack_ext(smootherctx, fctry, bctv); CHKERRQ(ierr);
 			/*
 			KSP smootherup, smootherdown;
 			ierr = PCMGGetSmootherDown(pc, ilvl , &smootherdown); CHKERRQ(ierr);
@@ -626,14 +630,14 @@ int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
 		}
 		KSP coarsesolver;
 		ierr = PCMGGetCoarseSolve(pc, &coarsesolver); CHKERRQ(ierr);
-		ierr = setup_blasted_stack(coarsesolver, bctv); CHKERRQ(ierr);
+		ierr = setup_blasted_stack_ext(coarsesolver, fctry, bctv); CHKERRQ(ierr);
 	}
 	else if(isksp) {
 		ierr = KSPSetUp(ksp); CHKERRQ(ierr);
 		ierr = PCSetUp(pc); CHKERRQ(ierr);
 		KSP subksp;
 		ierr = PCKSPGetKSP(pc, &subksp); CHKERRQ(ierr);
-		ierr = setup_blasted_stack(subksp, bctv); CHKERRQ(ierr);
+		ierr = setup_blasted_stack_ext(subksp, fctry, bctv); CHKERRQ(ierr);
 	}
 	else if(isshell) {
 		// if the PC is shell, this is the relevant KSP to pass to BLASTed for setup
@@ -644,7 +648,7 @@ int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
 		// so we setup the BLASTed preconditioner using the context at the head of the list
 
 		// set the factory to use - same for each solver context in the tree
-		bctv->ctxlist->bfactory = bctv->bfactory;
+		bctv->ctxlist->bfactory = (void*)&fctry;
 
 		ierr = setup_localpreconditioner_blasted(ksp, bctv->ctxlist); CHKERRQ(ierr);
 	}
@@ -652,12 +656,19 @@ int setup_blasted_stack_ext(KSP ksp, const FactoryBase<double,int> *const fctry,
 	return ierr;
 }
 
+} // namespace blasted
+
+extern "C" {
+
 PetscErrorCode setup_blasted_stack(KSP ksp, Blasted_data_list *const bctx)
 {
-	FactoryBase<double,int> *factory = new SRFactory<double,int>();
-	bctx->bfactory = (void*)factory;
-	bctx->_defaultfactory = 1;
-	return setup_blasted_stack_ext(ksp, factory, bctx);
+	// all solvers in a list share one default factory, which is destroyed along with the list
+	if(bctx->_defaultfactory != 1) {
+		FactoryBase<double,int> *factory = new SRFactory<double,int>();
+		bctx->bfactory = (void*)factory;
+		bctx->_defaultfactory = 1;
+	}
+	return setup_blasted_stack_ext(ksp, *(const FactoryBase<double,int>*)bctx->bfactory, bctx);
 }
 
 PetscErrorCode setup_localpreconditioner_blasted(KSP ksp, Blasted_data *const bctx)
-- 
2.43.0


From a63ad8ef4d2d9c6811c6662b2f4ed295125162ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:53 +0000
Subject: [PATCH 29/34] fix: offer relaxation to PETSc depending on the solver,
 not on an uninitialised field

---
 src/blasted_petsc.cpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index 5f9eadd..eef4e42 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -411,6 +411,13 @@ PetscErrorCode compute_preconditioner_blasted(PC pc)
 	if(!ctx->first_setup_done) {
 		ierr = setupDataFromOptions(pc); CHKERRQ(ierr);
 		ierr = createNewPreconditioner(pc); CHKERRQ(ierr);
+
+		// set a relaxation application only for preconditioners that have one
+		const BlastedPreconditioner *const prec
+			= reinterpret_cast<const BlastedPreconditioner*>(ctx->bprec);
+		if(prec->relaxationAvailable()) {
+			ierr = PCShellSetApplyRichardson(pc, &relax_local_blasted); CHKERRQ(ierr);
+		}
 	}
 
 	struct timeval time1, time2;
@@ -719,15 +726,6 @@ PetscErrorCode setup_localpreconditioner_blasted(KSP ksp, Blasted_data *const bc
 	ierr = PCShellSetApply(subpc, &apply_local_blasted);            CHKERRQ(ierr);
 	ierr = PCShellSetDestroy(subpc, &cleanup_blasted);              CHKERRQ(ierr);
 
-	// set a relaxation application only for supported preconditioners
-	if(bctx->prectype != BLASTED_ILU0 &&
-	   bctx->prectype != BLASTED_CSC_BGS &&
-	   bctx->prectype != BLASTED_NO_PREC)
-	{
-		ierr = PCShellSetApplyRichardson(subpc, &relax_local_blasted);
-		CHKERRQ(ierr);
-	}
-
 	return ierr;
 }
 
-- 
2.43.0


From 238c3965f31efd8ebbbe7041e88b96c20f739eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:12 +0000
Subject: [PATCH 30/34] fix: have the shell preconditioners of inner and
 multigrid solvers set up before their first use

---
 src/blasted_petsc.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index eef4e42..3019814 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -726,6 +726,17 @@ PetscErrorCode setup_localpreconditioner_blasted(KSP ksp, Blasted_data *const bc
 	ierr = PCShellSetApply(subpc, &apply_local_blasted);            CHKERRQ(ierr);
 	ierr = PCShellSetDestroy(subpc, &cleanup_blasted);              CHKERRQ(ierr);
 
+	// The PC of an inner or multigrid solver has already been set up along with its parent, without
+	// the functions above. Go back to the initial state so that it's set up before its first use.
+	Mat Amat;
+	ierr = KSPGetOperators(ksp, &Amat, &A);       CHKERRQ(ierr);
+	ierr = PetscObjectReference((PetscObject)Amat); CHKERRQ(ierr);
+	ierr = PetscObjectReference((PetscObject)A);    CHKERRQ(ierr);
+	ierr = PCReset(subpc);                        CHKERRQ(ierr);
+	ierr = KSPSetOperators(ksp, Amat, A);         CHKERRQ(ierr);
+	ierr = MatDestroy(&Amat);                     CHKERRQ(ierr);
+	ierr = MatDestroy(&A);                        CHKERRQ(ierr);
+
 	return ierr;
 }
 
-- 
2.43.0


From 1449f5566e6d38bd2dc7fea174156f40d19532fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:12 +0000
Subject: [PATCH 31/34] fix: compute the sequential ILU preconditioner when its
 sweeps are given as sequential

---
 src/blasted_petsc.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index 3019814..bf7f112 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -92,8 +92,14 @@ static void setSweeps_checkSeq(const Blasted_data *const ctx, AsyncSolverSetting
 	settings.nbuildsweeps = ctx->nbuildsweeps;
 	settings.napplysweeps = ctx->napplysweeps;
 
-	if(settings.prectype == BLASTED_SEQILU0)
+	if(settings.prectype == BLASTED_SEQILU0) {
+		// a request for sequential operation asks for what is done anyway
+		if(ctx->nbuildsweeps == BLASTED_SEQUENTIAL_SYMBOL)
+			settings.nbuildsweeps = 1;
+		if(ctx->napplysweeps == BLASTED_SEQUENTIAL_SYMBOL)
+			settings.napplysweeps = 1;
 		return;
+	}
 
 	// Cases where both build and apply are sequential
 	if((ctx->napplysweeps == BLASTED_SEQUENTIAL_SYMBOL && ctx->nbuildsweeps == BLASTED_SEQUENTIAL_SYMBOL)
-- 
2.43.0


From 5d43e142f0307e671dd5ffa566e44437453a796a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:44 +0000
Subject: [PATCH 32/34] fix: refuse sequential sweeps for solvers other than
 ILU instead of making an ILU solver

---
 src/blasted_petsc.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index bf7f112..40ec6f4 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -101,6 +101,12 @@ static void setSweeps_checkSeq(const Blasted_data *const ctx, AsyncSolverSetting
 		return;
 	}
 
+	const bool isilu = settings.prectype == BLASTED_ILU0 || settings.prectype == BLASTED_SFILU0
+		|| settings.prectype == BLASTED_SAPILU0 || settings.prectype == BLASTED_ASYNC_LEVEL_ILU0;
+	if(!isilu && (ctx->napplysweeps == BLASTED_SEQUENTIAL_SYMBOL
+	              || ctx->nbuildsweeps == BLASTED_SEQUENTIAL_SYMBOL))
+		throw std::runtime_error(" Sequential operation can only be requested for async ILU!");
+
 	// Cases where both build and apply are sequential
 	if((ctx->napplysweeps == BLASTED_SEQUENTIAL_SYMBOL && ctx->nbuildsweeps == BLASTED_SEQUENTIAL_SYMBOL)
 	   || (ctx->napplysweeps == BLASTED_SEQUENTIAL_SYMBOL && settings.prectype == BLASTED_SFILU0)
-- 
2.43.0


From af7b3342c4cbd5299dd345d6701b2a4bdc843286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:41 +0000
Subject: [PATCH 33/34] fix: initialise all settings of a new solver context,
 which are read even for solvers without them

---
 src/blasted_petsc.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/blasted_petsc.cpp b/src/blasted_petsc.cpp
index 40ec6f4..3bb3771 100644
--- a/src/blasted_petsc.cpp
+++ b/src/blasted_petsc.cpp
@@ -381,6 +381,14 @@ Blasted_data newBlastedDataContext()
 {
 	Blasted_data ctx;
 	ctx.bprec = NULL;
+	ctx.bfactory = NULL;
+	ctx.bs = 1;
+	ctx.prectypestr[0] = ctx.factinittype[0] = ctx.applyinittype[0] = '\0';
+	ctx.prectype = BLASTED_NO_PREC;
+	ctx.scale = false;
+	ctx.threadchunksize = 1;
+	ctx.nbuildsweeps = ctx.napplysweeps = 1;
+	ctx.compute_precinfo = false;
 	ctx.infolist = NULL;
 	ctx.first_setup_done = false;
 	ctx.cputime = ctx.walltime = ctx.factorcputime = ctx.factorwalltime
-- 
2.43.0


From a0ffeedf5fbad4ced2481625ffb77916820a4f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:54 +0000
Subject: [PATCH 34/34] fix: sai: a small problem without nonzero entries gets
 a zero row instead of NaN

---
 src/sai.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sai.cpp b/src/sai.cpp
index 37e07a3..6c4ca30 100644
--- a/src/sai.cpp
+++ b/src/sai.cpp
@@ -321,6 +321,10 @@ void compute_SAI(const SRMatrixStorage<const scalar,const index>& mat, const Lef
 		else
 			ans = lhs.partialPivLu().solve(rhs);
 
+		// A problem without any nonzero entry has nothing to fit; QR factors of it would be divided by zero
+		if (fullsai && lhs.isZero(0))
+			ans.setZero();
+
 		scatter_solution<scalar,index,bs,stor>(ans, sp, irow, sai);
 	}
 }
-- 
2.43.0

