From b2365af966595dde0076eb6fe5a5d65f45f46b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:50 +0000
Subject: [PATCH 01/34] fix: compare exponents of the same variable in
 Monomial.MatchesFormOf

The exponent of a variable was compared with the exponent at the same
position of the other monomial, so x y^2 and y x^2 were merged and x y^2 and
y^2 x were not.
---
 symbolic/monomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 52acee9..024e167 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -465,7 +465,7 @@ func (m Monomial) MatchesFormOf(mIn Monomial) bool {
 			return false
 		} else {
 			// If v was in mIn, but not of the right degree, then these two are not the same
-			if m.Exponents[ii] != mIn.Exponents[ii] {
+			if m.Exponents[ii] != mIn.Exponents[foundIndex] {
 				return false
 			}
 		}
-- 
2.43.0


From 51b176a8399b6e2f1f642686a965c993eceaf347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:55 +0000
Subject: [PATCH 02/34] fix: Monomial.DerivativeWrt no longer modifies its
 receiver

---
 symbolic/monomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 024e167..a0ed1b8 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -517,7 +517,7 @@ func (m Monomial) DerivativeWrt(vIn Variable) Expression {
 				}
 			}
 		default:
-			monomialOut = m
+			monomialOut = m.Copy()
 			monomialOut.Coefficient = m.Coefficient * float64(m.Exponents[foundIndex])
 			monomialOut.Exponents[foundIndex] -= 1
 		}
-- 
2.43.0


From 52b320f54b748e04052c8abdf3a668b11e02542e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:59 +0000
Subject: [PATCH 03/34] fix: Monomial.Multiply no longer appends into its
 receiver's variable slice

---
 symbolic/monomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index a0ed1b8..ca97401 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -198,7 +198,7 @@ func (m Monomial) Multiply(e interface{}) Expression {
 	case Monomial:
 
 		// Collect all variables in both monomials
-		variables := append(m.VariableFactors, right.VariableFactors...)
+		variables := append(m.Copy().VariableFactors, right.VariableFactors...)
 		variables = UniqueVars(variables)
 
 		multiDegree := make([]int, len(variables))
-- 
2.43.0


From 1d4975df08fb2dafaa3210a14225ffedbd44fede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:49 +0000
Subject: [PATCH 04/34] fix: adding a vector of length one and a longer vector
 keeps all entries

The dimension check lets a 1x1 operand be added to any vector, but the sum
of a length-one vector and a longer one lost all entries but the first (or
panicked with the operands exchanged).
---
 symbolic/vector_expression.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/symbolic/vector_expression.go b/symbolic/vector_expression.go
index 8a72998..eb42faf 100644
--- a/symbolic/vector_expression.go
+++ b/symbolic/vector_expression.go
@@ -399,6 +399,14 @@ func VectorPlusTemplate(ve VectorExpression, right Expression) Expression {
 			sum = append(sum, se.Plus(rightExpr).(ScalarExpression))
 		}
 	case VectorExpression:
+		// A vector of length one counts for every entry of the other vector
+		if ve.Len() == 1 && rightExpr.Len() != 1 {
+			return VectorPlusTemplate(rightExpr, ve.AtVec(0))
+		}
+		if ve.Len() != 1 && rightExpr.Len() == 1 {
+			return VectorPlusTemplate(ve, rightExpr.AtVec(0))
+		}
+
 		for ii, se := range veAsSlice {
 			rightII := rightExpr.AtVec(ii)
 			sum = append(sum, se.Plus(rightII).(ScalarExpression))
-- 
2.43.0


From ce015e2d79f6a79969016245233ab7df88d19a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:11 +0000
Subject: [PATCH 05/34] fix: multiplying by a 1x1 vector or matrix scales every
 entry

The dimension check allows a 1x1 factor of any kind, but products with a 1x1
vector or matrix whose dimensions do not fit the matrix product silently
used one entry of the other factor only, or panicked with an index error.
---
 symbolic/constant_matrix.go   |  4 ++++
 symbolic/constant_vector.go   |  4 ++++
 symbolic/expression.go        | 36 +++++++++++++++++++++++++++++++++++
 symbolic/monomial_matrix.go   |  4 ++++
 symbolic/monomial_vector.go   |  4 ++++
 symbolic/polynomial_matrix.go |  4 ++++
 symbolic/polynomial_vector.go |  4 ++++
 symbolic/variable_matrix.go   |  4 ++++
 symbolic/variable_vector.go   |  4 ++++
 9 files changed, 68 insertions(+)

diff --git a/symbolic/constant_matrix.go b/symbolic/constant_matrix.go
index 3ac79f9..d8e82d8 100644
--- a/symbolic/constant_matrix.go
+++ b/symbolic/constant_matrix.go
@@ -206,6 +206,10 @@ func (km KMatrix) Multiply(e interface{}) Expression {
 		if err != nil {
 			panic(err)
 		}
+
+		if needsScaling(km, rightAsE) {
+			return scaleEntries(km, rightAsE)
+		}
 	}
 
 	// Algorithm
diff --git a/symbolic/constant_vector.go b/symbolic/constant_vector.go
index 60f4621..8b70c4f 100644
--- a/symbolic/constant_vector.go
+++ b/symbolic/constant_vector.go
@@ -292,6 +292,10 @@ func (kv KVector) Multiply(rightIn interface{}) Expression {
 		if err != nil {
 			panic(err)
 		}
+
+		if needsScaling(kv, rightAsE) {
+			return scaleEntries(kv, rightAsE)
+		}
 	}
 
 	// Constants
diff --git a/symbolic/expression.go b/symbolic/expression.go
index 247fe9d..5415aef 100644
--- a/symbolic/expression.go
+++ b/symbolic/expression.go
@@ -122,6 +122,42 @@ func Minus(left, right Expression) Expression {
 	)
 }
 
+// needsScaling reports whether the product of left and right can only be a scaling, because
+// one factor is a 1x1 vector or matrix whose dimensions do not fit the matrix product.
+func needsScaling(left, right Expression) bool {
+	if IsScalarExpression(right) || left.Dims()[1] == right.Dims()[0] {
+		return false
+	}
+	leftIs1x1 := left.Dims()[0] == 1 && left.Dims()[1] == 1
+	rightIs1x1 := right.Dims()[0] == 1 && right.Dims()[1] == 1
+	return leftIs1x1 || rightIs1x1
+}
+
+// scaleEntries multiplies every entry of one factor by the single entry of the other (1x1) one.
+func scaleEntries(left, right Expression) Expression {
+	leftIs1x1 := left.Dims()[0] == 1 && left.Dims()[1] == 1
+	resultDims := left.Dims()
+	if leftIs1x1 {
+		resultDims = right.Dims()
+	}
+
+	var product [][]ScalarExpression
+	for ii := 0; ii < resultDims[0]; ii++ {
+		var productRow []ScalarExpression
+		for jj := 0; jj < resultDims[1]; jj++ {
+			var entry Expression
+			if leftIs1x1 {
+				entry = left.At(0, 0).Multiply(right.At(ii, jj))
+			} else {
+				entry = left.At(ii, jj).Multiply(right.At(0, 0))
+			}
+			productRow = append(productRow, entry.(ScalarExpression))
+		}
+		product = append(product, productRow)
+	}
+	return ConcretizeExpression(product)
+}
+
 // IsLinear Determines whether an input object is a
 // valid linear expression.
 // In math, this means that the polynomial like expression
diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index d4f263f..5ef3b36 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -260,6 +260,10 @@ func (mm MonomialMatrix) Multiply(e interface{}) Expression {
 		if err != nil {
 			panic(err)
 		}
+
+		if needsScaling(mm, eAsE) {
+			return scaleEntries(mm, eAsE)
+		}
 	}
 
 	// Constants
diff --git a/symbolic/monomial_vector.go b/symbolic/monomial_vector.go
index f8c8745..5e2b8d4 100644
--- a/symbolic/monomial_vector.go
+++ b/symbolic/monomial_vector.go
@@ -206,6 +206,10 @@ func (mv MonomialVector) Multiply(term1 interface{}) Expression {
 		if err != nil {
 			panic(err)
 		}
+
+		if needsScaling(mv, term1AsE) {
+			return scaleEntries(mv, term1AsE)
+		}
 	}
 
 	// Algorithm
diff --git a/symbolic/polynomial_matrix.go b/symbolic/polynomial_matrix.go
index eb53016..ac89cd4 100644
--- a/symbolic/polynomial_matrix.go
+++ b/symbolic/polynomial_matrix.go
@@ -249,6 +249,10 @@ func (pm PolynomialMatrix) Multiply(e interface{}) Expression {
 		if err != nil {
 			panic(err)
 		}
+
+		if needsScaling(pm, eAsE) {
+			return scaleEntries(pm, eAsE)
+		}
 	}
 
 	// Perform the multiplication
diff --git a/symbolic/polynomial_vector.go b/symbolic/polynomial_vector.go
index 4e4144d..3d90b3e 100644
--- a/symbolic/polynomial_vector.go
+++ b/symbolic/polynomial_vector.go
@@ -222,6 +222,10 @@ func (pv PolynomialVector) Multiply(rightIn interface{}) Expression {
 		if err != nil {
 			panic(err)
 		}
+
+		if needsScaling(pv, rightAsE) {
+			return scaleEntries(pv, rightAsE)
+		}
 	}
 
 	// Constants
diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index f56ae37..7b404de 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -233,6 +233,10 @@ func (vm VariableMatrix) Multiply(e interface{}) Expression {
 		if err != nil {
 			panic(err)
 		}
+
+		if needsScaling(vm, eAsE) {
+			return scaleEntries(vm, eAsE)
+		}
 	}
 
 	// Computation
diff --git a/symbolic/variable_vector.go b/symbolic/variable_vector.go
index 4d6e546..9b0000a 100644
--- a/symbolic/variable_vector.go
+++ b/symbolic/variable_vector.go
@@ -193,6 +193,10 @@ func (vv VariableVector) Multiply(rightIn interface{}) Expression {
 		if err != nil {
 			panic(err)
 		}
+
+		if needsScaling(vv, rightAsE) {
+			return scaleEntries(vv, rightAsE)
+		}
 	}
 
 	// Algorithm
-- 
2.43.0


From 2fa9913c942470049694375a7772518d3c5c00c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:49 +0000
Subject: [PATCH 06/34] fix: adding a 1x1 matrix and a larger matrix adds it to
 every entry

The dimension check allows it, but the sum either dropped all entries except
the first or panicked with an index error.
---
 symbolic/constant_matrix.go   |  4 ++++
 symbolic/expression.go        | 37 +++++++++++++++++++++++++++++++++++
 symbolic/monomial_matrix.go   |  4 ++++
 symbolic/polynomial_matrix.go |  4 ++++
 symbolic/variable_matrix.go   |  4 ++++
 5 files changed, 53 insertions(+)

diff --git a/symbolic/constant_matrix.go b/symbolic/constant_matrix.go
index d8e82d8..6155806 100644
--- a/symbolic/constant_matrix.go
+++ b/symbolic/constant_matrix.go
@@ -75,6 +75,10 @@ func (km KMatrix) Plus(e interface{}) Expression {
 		if err != nil {
 			panic(err)
 		}
+
+		if needsSpreading(km, rightAsE) {
+			return addToEntries(km, rightAsE)
+		}
 	}
 
 	// Constants
diff --git a/symbolic/expression.go b/symbolic/expression.go
index 5415aef..c8354ba 100644
--- a/symbolic/expression.go
+++ b/symbolic/expression.go
@@ -122,6 +122,43 @@ func Minus(left, right Expression) Expression {
 	)
 }
 
+// needsSpreading reports whether one of the operands of a sum is a 1x1 vector or matrix
+// which has to be added to every entry of the (larger) other one.
+func needsSpreading(left, right Expression) bool {
+	leftDims, rightDims := left.Dims(), right.Dims()
+	if IsScalarExpression(right) || (leftDims[0] == rightDims[0] && leftDims[1] == rightDims[1]) {
+		return false
+	}
+	leftIs1x1 := leftDims[0] == 1 && leftDims[1] == 1
+	rightIs1x1 := rightDims[0] == 1 && rightDims[1] == 1
+	return leftIs1x1 || rightIs1x1
+}
+
+// addToEntries adds the single entry of one (1x1) operand to every entry of the other one.
+func addToEntries(left, right Expression) Expression {
+	leftIs1x1 := left.Dims()[0] == 1 && left.Dims()[1] == 1
+	resultDims := left.Dims()
+	if leftIs1x1 {
+		resultDims = right.Dims()
+	}
+
+	var sum [][]ScalarExpression
+	for ii := 0; ii < resultDims[0]; ii++ {
+		var sumRow []ScalarExpression
+		for jj := 0; jj < resultDims[1]; jj++ {
+			var entry Expression
+			if leftIs1x1 {
+				entry = left.At(0, 0).Plus(right.At(ii, jj))
+			} else {
+				entry = left.At(ii, jj).Plus(right.At(0, 0))
+			}
+			sumRow = append(sumRow, entry.(ScalarExpression))
+		}
+		sum = append(sum, sumRow)
+	}
+	return ConcretizeExpression(sum)
+}
+
 // needsScaling reports whether the product of left and right can only be a scaling, because
 // one factor is a 1x1 vector or matrix whose dimensions do not fit the matrix product.
 func needsScaling(left, right Expression) bool {
diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index 5ef3b36..1c71f59 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -112,6 +112,10 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 		if err != nil {
 			panic(err)
 		}
+
+		if needsSpreading(mm, eAsE) {
+			return addToEntries(mm, eAsE)
+		}
 	}
 
 	// Constants
diff --git a/symbolic/polynomial_matrix.go b/symbolic/polynomial_matrix.go
index ac89cd4..727c9f2 100644
--- a/symbolic/polynomial_matrix.go
+++ b/symbolic/polynomial_matrix.go
@@ -113,6 +113,10 @@ func (pm PolynomialMatrix) Plus(e interface{}) Expression {
 		if err != nil {
 			panic(err)
 		}
+
+		if needsSpreading(pm, eAsE) {
+			return addToEntries(pm, eAsE)
+		}
 	}
 
 	// Perform the addition
diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index 7b404de..3add7c5 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -122,6 +122,10 @@ func (vm VariableMatrix) Plus(e interface{}) Expression {
 		if err != nil {
 			panic(err)
 		}
+
+		if needsSpreading(vm, eAsE) {
+			return addToEntries(vm, eAsE)
+		}
 	}
 
 	// Algorithm
-- 
2.43.0


From 5daf1d01c971c9d3c89f7b4ff5f5da45efbfb281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:54 +0000
Subject: [PATCH 07/34] fix: VariableMatrix.Plus no longer panics when a
 constant entry is zero

---
 symbolic/variable_matrix.go | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index 3add7c5..a477d57 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -142,16 +142,8 @@ func (vm VariableMatrix) Plus(e interface{}) Expression {
 		return vm.Plus(DenseToKMatrix(kmOut))
 
 	case KMatrix:
-		// Create a new matrix of polynomials.
-		var pmOut PolynomialMatrix
-		for ii, vmRow := range vm {
-			var pmRow []Polynomial
-			for jj, v := range vmRow {
-				pmRow = append(pmRow, v.Plus(right[ii][jj]).(Polynomial))
-			}
-			pmOut = append(pmOut, pmRow)
-		}
-		return pmOut
+		// Entries of right may be zero, so that not all sums are polynomials.
+		return MatrixPlusTemplate(vm, right)
 	}
 
 	// panic if the type is not recognized
-- 
2.43.0


From 76feccf5f28129ad325dde9a6d3621d4c822a2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:58 +0000
Subject: [PATCH 08/34] fix: MonomialMatrix.Plus keeps the simplified sums it
 computes

---
 symbolic/monomial_matrix.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index 1c71f59..ec84cbf 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -131,7 +131,7 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 			for jj, monomial := range row {
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, monomial, right.ToMonomial())
 				// Simplify
-				sumRow[jj].Simplify()
+				sumRow[jj] = sumRow[jj].Simplify()
 			}
 			sum = append(sum, sumRow)
 		}
@@ -145,7 +145,7 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 			for jj, monomial := range row {
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, monomial, right.ToMonomial())
 				// Simplify
-				sumRow[jj].Simplify()
+				sumRow[jj] = sumRow[jj].Simplify()
 			}
 			sum = append(sum, sumRow)
 		}
@@ -160,7 +160,7 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 			for jj, monomial := range row {
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, monomial, right)
 				// Simplify
-				sumRow[jj].Simplify()
+				sumRow[jj] = sumRow[jj].Simplify()
 			}
 			sum = append(sum, sumRow)
 		}
@@ -177,7 +177,7 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, monomial)
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, right.Monomials...)
 				// Simplify
-				sumRow[jj].Simplify()
+				sumRow[jj] = sumRow[jj].Simplify()
 			}
 			sum = append(sum, sumRow)
 		}
@@ -192,7 +192,7 @@ func (mm MonomialMatrix) Plus(e interface{}) Expression {
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, monomial)
 				sumRow[jj].Monomials = append(sumRow[jj].Monomials, right[ii][jj].Monomials...)
 				// Simplify
-				sumRow[jj].Simplify()
+				sumRow[jj] = sumRow[jj].Simplify()
 			}
 			sum = append(sum, sumRow)
 		}
-- 
2.43.0


From 0338653378f75d4da0ebf7b9e90d5efbd124f627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:53 +0000
Subject: [PATCH 09/34] fix: raise a 1x1 matrix to a power without panicking

---
 symbolic/matrix_expression.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/symbolic/matrix_expression.go b/symbolic/matrix_expression.go
index bc47294..6b9877c 100644
--- a/symbolic/matrix_expression.go
+++ b/symbolic/matrix_expression.go
@@ -161,6 +161,13 @@ func MatrixPowerTemplate(me MatrixExpression, exponent int) MatrixExpression {
 		})
 	}
 
+	// A 1x1 matrix is raised to the power through its only entry
+	// (because the product of two 1x1 matrices may be a scalar)
+	if me.Dims()[0] == 1 {
+		entryToPower, _ := ToScalarExpression(me.At(0, 0).Power(exponent))
+		return ConcretizeMatrixExpression([][]ScalarExpression{{entryToPower}})
+	}
+
 	// Algorithm
 	var out MatrixExpression = K(0).Plus(Identity(me.Dims()[0])).(MatrixExpression)
 	for i := 0; i < exponent; i++ {
-- 
2.43.0


From f65ede6d6e3abe146c737545f3c64657dab6f89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:58 +0000
Subject: [PATCH 10/34] fix: differentiate polynomial vectors and matrices
 whose entries have constant derivatives

PolynomialVector.DerivativeWrt no longer overwrites its receiver either.
---
 symbolic/polynomial_matrix.go |  7 ++++++-
 symbolic/polynomial_vector.go | 22 ++++++++++++++++++----
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/symbolic/polynomial_matrix.go b/symbolic/polynomial_matrix.go
index 727c9f2..74a9eab 100644
--- a/symbolic/polynomial_matrix.go
+++ b/symbolic/polynomial_matrix.go
@@ -444,7 +444,12 @@ func (pm PolynomialMatrix) DerivativeWrt(vIn Variable) Expression {
 	for _, row := range pm {
 		var dpmRow []Polynomial
 		for _, polynomial := range row {
-			dpmRow = append(dpmRow, polynomial.DerivativeWrt(vIn).(Polynomial))
+			switch dPolynomial := polynomial.DerivativeWrt(vIn).(type) {
+			case K:
+				dpmRow = append(dpmRow, dPolynomial.ToPolynomial())
+			case Polynomial:
+				dpmRow = append(dpmRow, dPolynomial)
+			}
 		}
 		dpm = append(dpm, dpmRow)
 	}
diff --git a/symbolic/polynomial_vector.go b/symbolic/polynomial_vector.go
index 3d90b3e..2ec5b3a 100644
--- a/symbolic/polynomial_vector.go
+++ b/symbolic/polynomial_vector.go
@@ -385,12 +385,26 @@ func (pv PolynomialVector) Eq(e interface{}) Constraint {
 
 // DerivativeWrt Returns the derivative of the polynomial vector with respect to the input variable.
 func (pv PolynomialVector) DerivativeWrt(vIn Variable) Expression {
-	// Constants
-	var derivative PolynomialVector = pv
+	// Input Processing
+	err := pv.Check()
+	if err != nil {
+		panic(err)
+	}
+
+	err = vIn.Check()
+	if err != nil {
+		panic(err)
+	}
 
 	// Algorithm
-	for ii, polynomial := range pv {
-		derivative[ii] = polynomial.DerivativeWrt(vIn).(Polynomial)
+	var derivative PolynomialVector
+	for _, polynomial := range pv {
+		switch dPolynomial := polynomial.DerivativeWrt(vIn).(type) {
+		case K:
+			derivative = append(derivative, dPolynomial.ToPolynomial())
+		case Polynomial:
+			derivative = append(derivative, dPolynomial)
+		}
 	}
 
 	return derivative
-- 
2.43.0


From 2518efd6147f39737574a70e49993632e6a858a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:18 +0000
Subject: [PATCH 11/34] fix: vectors and matrices substitute according to a map
 simultaneously

Replacing the variables one after another in the (random) order of the
map rewrote replacements that contain other mapped variables.
---
 symbolic/monomial_matrix.go   | 16 +++++++++++-----
 symbolic/monomial_vector.go   | 12 +++++++-----
 symbolic/polynomial_matrix.go | 15 ++++++++++-----
 symbolic/polynomial_vector.go | 11 ++++++-----
 symbolic/variable_matrix.go   | 15 ++++++++++-----
 symbolic/variable_vector.go   | 12 ++++++------
 6 files changed, 50 insertions(+), 31 deletions(-)

diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index ec84cbf..2e79b45 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -591,12 +591,18 @@ func (mm MonomialMatrix) SubstituteAccordingTo(substitutions map[Variable]Expres
 	}
 
 	// Algorithm
-	var out MatrixExpression = mm
-	for v, expr := range substitutions {
-		postSub := out.Substitute(v, expr.(ScalarExpression))
-		out = postSub.(MatrixExpression)
+	// (all variables are replaced at once in each of the entries)
+	var substituted [][]ScalarExpression
+	for _, row := range mm {
+		var substitutedRow []ScalarExpression
+		for _, entry := range row {
+			entryOut, _ := ToScalarExpression(entry.SubstituteAccordingTo(substitutions))
+			substitutedRow = append(substitutedRow, entryOut)
+		}
+		substituted = append(substituted, substitutedRow)
 	}
-	return out
+
+	return ConcretizeMatrixExpression(substituted)
 }
 
 // Power Returns the monomial matrix raised to the power of the input integer.
diff --git a/symbolic/monomial_vector.go b/symbolic/monomial_vector.go
index 5e2b8d4..16a2f7c 100644
--- a/symbolic/monomial_vector.go
+++ b/symbolic/monomial_vector.go
@@ -516,12 +516,14 @@ func (mv MonomialVector) SubstituteAccordingTo(subMap map[Variable]Expression) E
 	}
 
 	// Setup
-	var out VectorExpression = mv
-	for varKey, expr := range subMap {
-		postSub := out.Substitute(varKey, expr.(ScalarExpression))
-		out = postSub.(VectorExpression)
+	// (all variables are replaced at once in each of the entries)
+	var substituted []ScalarExpression
+	for _, entry := range mv {
+		entryOut, _ := ToScalarExpression(entry.SubstituteAccordingTo(subMap))
+		substituted = append(substituted, entryOut)
 	}
-	return out
+
+	return ConcretizeVectorExpression(substituted)
 }
 
 // Power raises the monomial vector to the input power.
diff --git a/symbolic/polynomial_matrix.go b/symbolic/polynomial_matrix.go
index 74a9eab..f88c577 100644
--- a/symbolic/polynomial_matrix.go
+++ b/symbolic/polynomial_matrix.go
@@ -602,13 +602,18 @@ func (pm PolynomialMatrix) SubstituteAccordingTo(subMap map[Variable]Expression)
 	}
 
 	// Algorithm
-	var out MatrixExpression = pm
-	for v, e := range subMap {
-		outSubbed := out.Substitute(v, e.(ScalarExpression))
-		out = outSubbed.(MatrixExpression)
+	// (all variables are replaced at once in each of the entries)
+	var substituted [][]ScalarExpression
+	for _, row := range pm {
+		var substitutedRow []ScalarExpression
+		for _, entry := range row {
+			entryOut, _ := ToScalarExpression(entry.SubstituteAccordingTo(subMap))
+			substitutedRow = append(substitutedRow, entryOut)
+		}
+		substituted = append(substituted, substitutedRow)
 	}
 
-	return out
+	return ConcretizeMatrixExpression(substituted)
 }
 
 // Power Raises the polynomial matrix to the power of the input integer.
diff --git a/symbolic/polynomial_vector.go b/symbolic/polynomial_vector.go
index 2ec5b3a..04022f9 100644
--- a/symbolic/polynomial_vector.go
+++ b/symbolic/polynomial_vector.go
@@ -519,13 +519,14 @@ func (pv PolynomialVector) SubstituteAccordingTo(subMap map[Variable]Expression)
 	}
 
 	// Algorithm
-	var result VectorExpression = pv
-	for tempVar, tempExpr := range subMap {
-		resultSubbed := result.Substitute(tempVar, tempExpr.(ScalarExpression))
-		result = resultSubbed.(VectorExpression)
+	// (all variables are replaced at once in each of the entries)
+	var substituted []ScalarExpression
+	for _, entry := range pv {
+		entryOut, _ := ToScalarExpression(entry.SubstituteAccordingTo(subMap))
+		substituted = append(substituted, entryOut)
 	}
 
-	return result
+	return ConcretizeVectorExpression(substituted)
 }
 
 // Power Computes the power of the polynomial vector.
diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index a477d57..44c58f8 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -582,13 +582,18 @@ func (vm VariableMatrix) SubstituteAccordingTo(subMap map[Variable]Expression) E
 	}
 
 	// Algorithm
-	var out MatrixExpression = vm
-	for v, e := range subMap {
-		outSubbed := out.Substitute(v, e.(ScalarExpression))
-		out = outSubbed.(MatrixExpression)
+	// (all variables are replaced at once in each of the entries)
+	var substituted [][]ScalarExpression
+	for _, row := range vm {
+		var substitutedRow []ScalarExpression
+		for _, entry := range row {
+			entryOut, _ := ToScalarExpression(entry.SubstituteAccordingTo(subMap))
+			substitutedRow = append(substitutedRow, entryOut)
+		}
+		substituted = append(substituted, substitutedRow)
 	}
 
-	return out
+	return ConcretizeMatrixExpression(substituted)
 }
 
 // Power This function raises the variable matrix to a given power.
diff --git a/symbolic/variable_vector.go b/symbolic/variable_vector.go
index 9b0000a..a17cdfb 100644
--- a/symbolic/variable_vector.go
+++ b/symbolic/variable_vector.go
@@ -480,14 +480,14 @@ func (vv VariableVector) SubstituteAccordingTo(subMap map[Variable]Expression) E
 	}
 
 	// Algorithm
-	var out VectorExpression = vv
-	for tempVar, tempExpr := range subMap {
-		outSubbed := out.Substitute(tempVar, tempExpr.(ScalarExpression))
-		out = outSubbed.(VectorExpression)
+	// (all variables are replaced at once in each of the entries)
+	var substituted []ScalarExpression
+	for _, entry := range vv {
+		entryOut, _ := ToScalarExpression(entry.SubstituteAccordingTo(subMap))
+		substituted = append(substituted, entryOut)
 	}
 
-	return out
-
+	return ConcretizeVectorExpression(substituted)
 }
 
 // Power Raises the variable vector to the power of the input integer
-- 
2.43.0


From 35e61edaed9387ba03a86aa109ad71cc1242b09d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:45 +0000
Subject: [PATCH 12/34] fix: Monomial.LinearCoeff accepts variables that do not
 occur and constant monomials

---
 symbolic/monomial.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index ca97401..3611e0c 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -355,11 +355,12 @@ func (m Monomial) LinearCoeff(wrt ...[]Variable) mat.VecDense {
 	linearCoeffs := ZerosVector(len(wrtVars))
 
 	// Iterate through each variable
-	if IsLinear(m) {
-		// If the monomial is linear,
-		// then find the variable that is present
-		idx, _ := FindInSlice(m.VariableFactors[0], wrtVars)
-		linearCoeffs.SetVec(idx, m.Coefficient)
+	for ii, v := range wrtVars {
+		// If the monomial is the term of degree one in this variable,
+		// then save its coefficient
+		if m.IsDegreeOneContainingVariable(v) {
+			linearCoeffs.SetVec(ii, m.Coefficient)
+		}
 	}
 
 	// Return
-- 
2.43.0


From a26a4ec89c267bcf9603895e71e7053e5b65bd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:50 +0000
Subject: [PATCH 13/34] fix: collect repeated terms in Polynomial.Constant and
 Polynomial.LinearCoeff

---
 symbolic/polynomial.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/symbolic/polynomial.go b/symbolic/polynomial.go
index 56552a2..f3fe26b 100644
--- a/symbolic/polynomial.go
+++ b/symbolic/polynomial.go
@@ -458,12 +458,15 @@ func (p Polynomial) Constant() float64 {
 	}
 
 	// Algorithm
-	constantIndex := p.ConstantMonomialIndex()
-	if constantIndex == -1 {
-		return 0.0
-	} else {
-		return p.Monomials[constantIndex].Coefficient
+	// (a polynomial that was not simplified may contain several constants)
+	constant := 0.0
+	for _, monomial := range p.Monomials {
+		if monomial.IsConstant() {
+			constant += monomial.Coefficient
+		}
 	}
+
+	return constant
 }
 
 // Simplify This function simplifies the number of monomials in the polynomial,
@@ -651,10 +654,12 @@ func (p Polynomial) LinearCoeff(wrt ...[]Variable) mat.VecDense {
 	// Algorithm
 	coeffOut := ZerosVector(len(wrtVars))
 	for ii := 0; ii < len(wrtVars); ii++ {
-		// Try to find the variable in the polynomial
-		varIndex := p.VariableMonomialIndex(wrtVars[ii])
-		if varIndex != -1 {
-			coeffOut.SetVec(ii, p.Monomials[varIndex].Coefficient)
+		// Collect all terms of degree one in the variable
+		// (there may be several in a polynomial that was not simplified)
+		for _, monomial := range p.Monomials {
+			if monomial.IsDegreeOneContainingVariable(wrtVars[ii]) {
+				coeffOut.SetVec(ii, coeffOut.AtVec(ii)+monomial.Coefficient)
+			}
 		}
 	}
 
-- 
2.43.0


From 8757f48134617fa7138d9c07de689b07ee7fe6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:21 +0000
Subject: [PATCH 14/34] fix: AsSimplifiedConstraint moves constants to the
 right and keeps length-one and 1x1 constraints

---
 symbolic/matrix_constraint.go | 31 ++++++++++++++++++++-----------
 symbolic/scalar_constraint.go | 21 ++++++++++++++++++---
 symbolic/vector_constraint.go | 22 ++++++++++------------
 3 files changed, 48 insertions(+), 26 deletions(-)

diff --git a/symbolic/matrix_constraint.go b/symbolic/matrix_constraint.go
index f46a70e..9a26e3b 100644
--- a/symbolic/matrix_constraint.go
+++ b/symbolic/matrix_constraint.go
@@ -157,21 +157,30 @@ func (mc MatrixConstraint) SubstituteAccordingTo(subMap map[Variable]Expression)
 
 // AsSimplifiedConstraint Simplifies the constraint by moving all variables to the left hand side and the constants to the right.
 func (mc MatrixConstraint) AsSimplifiedConstraint() Constraint {
-	// Create Left Hand side of all of the expressions
-	var newLHS Expression = mc.LeftHandSide.Minus(mc.LeftHandSide.Constant())
-	newLHS = newLHS.Minus(
-		mc.RightHandSide.Minus(mc.RightHandSide.Constant()),
-	)
+	// Input Checking
+	err := mc.Check()
+	if err != nil {
+		panic(err)
+	}
 
-	// Create Right Hand Side of only constants
-	var newRHS Expression = DenseToKMatrix(mc.RightHandSide.Constant()).Minus(
-		mc.LeftHandSide.Constant(),
-	)
+	// Simplify every entry of the constraint
+	dims := mc.Dims()
+	newLHS := make([][]ScalarExpression, dims[0])
+	newRHS := make(KMatrix, dims[0])
+	for ii := range newLHS {
+		newLHS[ii] = make([]ScalarExpression, dims[1])
+		newRHS[ii] = make([]K, dims[1])
+		for jj := range newLHS[ii] {
+			simplified := mc.At(ii, jj).AsSimplifiedConstraint().(ScalarConstraint)
+			newLHS[ii][jj] = simplified.LeftHandSide
+			newRHS[ii][jj] = simplified.RightHandSide.(K)
+		}
+	}
 
 	// Return new constraint
 	return MatrixConstraint{
-		LeftHandSide:  newLHS.(MatrixExpression),
-		RightHandSide: newRHS.(MatrixExpression),
+		LeftHandSide:  ConcretizeMatrixExpression(newLHS),
+		RightHandSide: newRHS,
 		Sense:         mc.Sense,
 	}
 }
diff --git a/symbolic/scalar_constraint.go b/symbolic/scalar_constraint.go
index 312c769..3473172 100644
--- a/symbolic/scalar_constraint.go
+++ b/symbolic/scalar_constraint.go
@@ -243,7 +243,22 @@ func (sc ScalarConstraint) String() string {
 
 // AsSimplifiedConstraint Simplifies the constraint by moving all variables to the left hand side and the constants to the right.
 func (sc ScalarConstraint) AsSimplifiedConstraint() Constraint {
-	return sc.Simplify()
+	// Check that the constraint is well formed.
+	err := sc.Check()
+	if err != nil {
+		panic(err)
+	}
+
+	// Collect everything on the left hand side, and then move the constant part to the right hand side
+	difference := sc.LeftHandSide.Minus(sc.RightHandSide).(ScalarExpression)
+	constant := difference.Constant()
+	newLHS := difference.Minus(constant).AsSimplifiedExpression().(ScalarExpression)
+
+	return ScalarConstraint{
+		LeftHandSide:  newLHS,
+		RightHandSide: K(0 - constant),
+		Sense:         sc.Sense,
+	}
 }
 
 // Variables returns all variables appearing in the scalar constraint.
@@ -299,11 +314,11 @@ func (sc ScalarConstraint) ImpliesThisIsAlsoSatisfied(other Constraint) bool {
 	}
 
 	// Simplify both constraints
-	sc = sc.Simplify()
+	sc = sc.AsSimplifiedConstraint().(ScalarConstraint)
 
 	switch otherC := other.(type) {
 	case ScalarConstraint:
-		otherC = otherC.Simplify()
+		otherC = otherC.AsSimplifiedConstraint().(ScalarConstraint)
 
 		// Naive implication check:
 		// 1. Both constraints contain only 1 variable AND it is the same variable. Then, simply check the bounds.
diff --git a/symbolic/vector_constraint.go b/symbolic/vector_constraint.go
index 0ae693d..5631cab 100644
--- a/symbolic/vector_constraint.go
+++ b/symbolic/vector_constraint.go
@@ -274,21 +274,19 @@ func (vc VectorConstraint) AsSimplifiedConstraint() Constraint {
 		panic(err)
 	}
 
-	// Create Left Hand side of all of the expressions
-	var newLHS Expression = vc.LeftHandSide.Minus(vc.LeftHandSide.Constant())
-	newLHS = newLHS.Minus(
-		vc.RightHandSide.Minus(vc.RightHandSide.Constant()),
-	)
-
-	// Create Right Hand Side of only constants
-	var newRHS Expression = VecDenseToKVector(vc.RightHandSide.Constant()).Minus(
-		vc.LeftHandSide.Constant(),
-	)
+	// Simplify every entry of the constraint
+	newLHS := make([]ScalarExpression, vc.Len())
+	newRHS := make(KVector, vc.Len())
+	for ii := range newLHS {
+		simplified := vc.AtVec(ii).AsSimplifiedConstraint().(ScalarConstraint)
+		newLHS[ii] = simplified.LeftHandSide
+		newRHS[ii] = simplified.RightHandSide.(K)
+	}
 
 	// Return new constraint
 	return VectorConstraint{
-		LeftHandSide:  newLHS.(VectorExpression),
-		RightHandSide: newRHS.(VectorExpression),
+		LeftHandSide:  ConcretizeVectorExpression(newLHS),
+		RightHandSide: newRHS,
 		Sense:         vc.Sense,
 	}
 }
-- 
2.43.0


From 674aababe32632a1fae0e53264f3d01f38880c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:24 +0000
Subject: [PATCH 15/34] fix: ScalarConstraint implication compares bounds only
 for linear constraints

---
 symbolic/scalar_constraint.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symbolic/scalar_constraint.go b/symbolic/scalar_constraint.go
index 3473172..2f78643 100644
--- a/symbolic/scalar_constraint.go
+++ b/symbolic/scalar_constraint.go
@@ -324,8 +324,9 @@ func (sc ScalarConstraint) ImpliesThisIsAlsoSatisfied(other Constraint) bool {
 		// 1. Both constraints contain only 1 variable AND it is the same variable. Then, simply check the bounds.
 		containsOneVar := len(sc.Variables()) == 1 && len(otherC.Variables()) == 1
 		scAndOtherShareSameVar := len(UnionOfVariables(sc.Variables(), otherC.Variables())) == 1
+		bothAreLinear := sc.IsLinear() && otherC.IsLinear() // Bounds only make sense for linear constraints
 
-		if containsOneVar && scAndOtherShareSameVar {
+		if containsOneVar && scAndOtherShareSameVar && bothAreLinear {
 			// Get the coefficient of the single variable
 			scCoeffVector := sc.LeftHandSide.LinearCoeff(sc.Variables())
 			scCoeff := scCoeffVector.AtVec(0)
-- 
2.43.0


From 4ab84253d22374f8da5f04b8d7f275369391fd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:52 +0000
Subject: [PATCH 16/34] fix: Monomial.Variables returns its own slice of unique
 variables

---
 symbolic/monomial.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 3611e0c..8481622 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -38,9 +38,8 @@ func (m Monomial) Check() error {
 }
 
 // Variables returns the unique variables in the monomial.
-// TODO(Kwesi): Add a unique-ness check.
 func (m Monomial) Variables() []Variable {
-	return m.VariableFactors
+	return UniqueVars(m.VariableFactors)
 }
 
 // Dims Returns the dimensions of the monomial. (It is a scalar, so this is [1,1])
-- 
2.43.0


From f1adca7e39c7d546d87f785a8b93ba215794473f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:56 +0000
Subject: [PATCH 17/34] fix: VariablesInThisConstraint reports each variable
 once and in a fixed order

---
 symbolic/constraint.go | 24 +++++-------------------
 1 file changed, 5 insertions(+), 19 deletions(-)

diff --git a/symbolic/constraint.go b/symbolic/constraint.go
index ee39865..77be5ea 100644
--- a/symbolic/constraint.go
+++ b/symbolic/constraint.go
@@ -53,32 +53,18 @@ func IsConstraint(c interface{}) bool {
 
 // VariablesInThisConstraint returns a slice of all the variables in the constraint.
 func VariablesInThisConstraint(c Constraint) []Variable {
-	// Setup
-	varsMap := make(map[Variable]bool)
-
 	// Input check
 	err := c.Check()
 	if err != nil {
 		panic(err)
 	}
 
-	// Get variables from the left hand side
-	for _, v := range c.Left().Variables() {
-		varsMap[v] = true
-	}
-
-	// Get variables from the right hand side
-	for _, v := range c.Right().Variables() {
-		varsMap[v] = true
-	}
-
-	// Convert the map to a slice
-	vars := make([]Variable, 0, len(varsMap))
-	for v := range varsMap {
-		vars = append(vars, v)
-	}
+	// Collect the variables of both sides (left hand side first)
+	var vars []Variable
+	vars = append(vars, c.Left().Variables()...)
+	vars = append(vars, c.Right().Variables()...)
 
-	return vars
+	return UniqueVars(vars)
 }
 
 // CompileConstraintsIntoScalarConstraints This method analyzes all constraints in an OptimizationProblem and converts them all
-- 
2.43.0


From 7dcb44da5869ae6d724649485b6eac7277fc6e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:36 +0000
Subject: [PATCH 18/34] fix: linear representation of vector constraints of
 length one or with scalar-valued differences

---
 symbolic/vector_constraint.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/symbolic/vector_constraint.go b/symbolic/vector_constraint.go
index 5631cab..ae47bb1 100644
--- a/symbolic/vector_constraint.go
+++ b/symbolic/vector_constraint.go
@@ -138,12 +138,7 @@ func (vc VectorConstraint) LinearInequalityConstraintRepresentation(wrt ...[]Var
 	}
 
 	// Create A
-	newLHS := vc.Left().(PolynomialLikeVector)
-	rhsWithoutConst := vc.Right().(PolynomialLikeVector)
-	rhsWithoutConst = rhsWithoutConst.Minus(rhsWithoutConst.Constant()).(PolynomialLikeVector)
-	newLHS = newLHS.Minus(rhsWithoutConst).(PolynomialLikeVector)
-
-	A = newLHS.LinearCoeff(wrt...)
+	A = vc.differenceOfSides().LinearCoeff(wrt...)
 
 	if vc.Sense == SenseGreaterThanEqual {
 		A.Scale(-1, &A)
@@ -203,12 +198,7 @@ func (vc VectorConstraint) LinearEqualityConstraintRepresentation(wrt ...[]Varia
 	}
 
 	// Create C
-	newLHS := vc.Left().(PolynomialLikeVector)
-	rhsWithoutConst := vc.Right().(PolynomialLikeVector)
-	rhsWithoutConst = rhsWithoutConst.Minus(rhsWithoutConst.Constant()).(PolynomialLikeVector)
-	newLHS = newLHS.Minus(rhsWithoutConst).(PolynomialLikeVector)
-
-	C = newLHS.LinearCoeff(wrt...)
+	C = vc.differenceOfSides().LinearCoeff(wrt...)
 
 	// Create d
 	N := vc.Left().(VectorExpression).Len()
@@ -222,6 +212,16 @@ func (vc VectorConstraint) LinearEqualityConstraintRepresentation(wrt ...[]Varia
 	return C, d
 }
 
+// differenceOfSides Returns the vector whose entries are the entries of the left hand side minus those of
+// the right hand side (which is a vector for constraints of length one, too).
+func (vc VectorConstraint) differenceOfSides() VectorExpression {
+	difference := make([]ScalarExpression, vc.Len())
+	for ii := range difference {
+		difference[ii] = vc.LeftHandSide.AtVec(ii).Minus(vc.RightHandSide.AtVec(ii)).(ScalarExpression)
+	}
+	return ConcretizeVectorExpression(difference)
+}
+
 // Substitute Substitutes the variable vIn with the scalar expression seIn in the vector constraint.
 func (vc VectorConstraint) Substitute(vIn Variable, seIn ScalarExpression) Constraint {
 	// Check that the constraint is well formed.
-- 
2.43.0


From 145752017ad8ae8f69b7eb79b0ce9513a4a6eaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:50 +0000
Subject: [PATCH 19/34] fix: a scalar equality has no linear inequality
 representation (as for vectors)

---
 symbolic/scalar_constraint.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/symbolic/scalar_constraint.go b/symbolic/scalar_constraint.go
index 2f78643..6039c6d 100644
--- a/symbolic/scalar_constraint.go
+++ b/symbolic/scalar_constraint.go
@@ -112,6 +112,15 @@ func (sc ScalarConstraint) LinearInequalityConstraintRepresentation(wrt ...[]Var
 		}
 	}
 
+	// Check that the sense is inequality.
+	if sc.Sense == SenseEqual {
+		panic(
+			smErrors.InequalityConstraintRequiredError{
+				Operation: "LinearInequalityConstraintRepresentation",
+			},
+		)
+	}
+
 	// Create A
 	newLHS := sc.Left().(ScalarExpression)
 	newLHS = newLHS.Minus(sc.Right()).(ScalarExpression)
-- 
2.43.0


From c33671b423b4dd7d75f1f20f0affeb40874a9e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:57 +0000
Subject: [PATCH 20/34] fix: VariableMatrix times a constant no longer depends
 on the constant's value

---
 symbolic/variable_matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index 44c58f8..302c345 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -247,7 +247,7 @@ func (vm VariableMatrix) Multiply(e interface{}) Expression {
 		for _, vmRow := range vm {
 			var mmRow []Monomial
 			for _, v := range vmRow {
-				mmRow = append(mmRow, v.Multiply(right).(Monomial))
+				mmRow = append(mmRow, v.ToMonomial().Multiply(right).(Monomial))
 			}
 			mmOut = append(mmOut, mmRow)
 		}
-- 
2.43.0


From 798c513363426b0cce669dc37ae29dee9960fe14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:02 +0000
Subject: [PATCH 21/34] fix: MonomialMatrix times VariableVector no longer
 panics when a row simplifies

---
 symbolic/monomial_matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/monomial_matrix.go b/symbolic/monomial_matrix.go
index 2e79b45..5f9a9e4 100644
--- a/symbolic/monomial_matrix.go
+++ b/symbolic/monomial_matrix.go
@@ -306,7 +306,7 @@ func (mm MonomialMatrix) Multiply(e interface{}) Expression {
 				for jj := 1; jj < len(row); jj++ {
 					product_ii = product_ii.Plus(
 						row[jj].ToPolynomial().Multiply(right[jj]),
-					).(Polynomial)
+					)
 				}
 				// Enforce that product_ii is a ScalarExpression
 				product_iiAsSE, tf := product_ii.(ScalarExpression)
-- 
2.43.0


From dddd177acc0b2f78a2e0890521e025b0102f102a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:07 +0000
Subject: [PATCH 22/34] fix: scaling by a 1x1 vector or matrix works for rows
 and columns, too

---
 symbolic/expression.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/symbolic/expression.go b/symbolic/expression.go
index c8354ba..006568b 100644
--- a/symbolic/expression.go
+++ b/symbolic/expression.go
@@ -159,15 +159,15 @@ func addToEntries(left, right Expression) Expression {
 	return ConcretizeExpression(sum)
 }
 
-// needsScaling reports whether the product of left and right can only be a scaling, because
-// one factor is a 1x1 vector or matrix whose dimensions do not fit the matrix product.
+// needsScaling reports whether the product of left and right is a scaling, because exactly
+// one factor is a 1x1 vector or matrix.
 func needsScaling(left, right Expression) bool {
-	if IsScalarExpression(right) || left.Dims()[1] == right.Dims()[0] {
+	if IsScalarExpression(right) {
 		return false
 	}
 	leftIs1x1 := left.Dims()[0] == 1 && left.Dims()[1] == 1
 	rightIs1x1 := right.Dims()[0] == 1 && right.Dims()[1] == 1
-	return leftIs1x1 || rightIs1x1
+	return leftIs1x1 != rightIs1x1
 }
 
 // scaleEntries multiplies every entry of one factor by the single entry of the other (1x1) one.
-- 
2.43.0


From 66a4bc9af4bd0cffc68cf7c0d5247e97cc603a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:26 +0000
Subject: [PATCH 23/34] fix: subtraction no longer depends on the kind that the
 negated operand takes

---
 symbolic/expression.go | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/symbolic/expression.go b/symbolic/expression.go
index 006568b..eef9bdd 100644
--- a/symbolic/expression.go
+++ b/symbolic/expression.go
@@ -117,9 +117,43 @@ func ToExpression(e interface{}) (Expression, error) {
 
 // Minus subtracts one expression (right) from another (left) and returns the resulting expression
 func Minus(left, right Expression) Expression {
-	return left.Plus(
-		right.Multiply(-1.0),
-	)
+	if IsScalarExpression(left) && IsScalarExpression(right) {
+		return left.Plus(
+			right.Multiply(-1.0),
+		)
+	}
+
+	// Check that the operands can be subtracted from each other
+	err := smErrors.CheckDimensionsInAddition(left, right)
+	if err != nil {
+		panic(err)
+	}
+
+	// Subtract entry by entry, so that the kind of the scaled right operand (which depends on
+	// its coefficients) does not matter
+	dims := left.Dims()
+	if dims[0] == 1 && dims[1] == 1 {
+		dims = right.Dims()
+	}
+
+	var difference [][]ScalarExpression
+	for ii := 0; ii < dims[0]; ii++ {
+		var row []ScalarExpression
+		for jj := 0; jj < dims[1]; jj++ {
+			entry := entryOrScalar(left, ii, jj).Minus(entryOrScalar(right, ii, jj))
+			row = append(row, entry.(ScalarExpression))
+		}
+		difference = append(difference, row)
+	}
+	return ConcretizeExpression(difference)
+}
+
+// entryOrScalar returns the (ii,jj)-th entry of e, or its single entry if e is 1x1.
+func entryOrScalar(e Expression, ii, jj int) ScalarExpression {
+	if dims := e.Dims(); dims[0] == 1 && dims[1] == 1 {
+		return e.At(0, 0)
+	}
+	return e.At(ii, jj)
 }
 
 // needsSpreading reports whether one of the operands of a sum is a 1x1 vector or matrix
-- 
2.43.0


From 22fffbe76fd746c50a849cc956f5aa261ff1dd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:22 +0000
Subject: [PATCH 24/34] fix: Monomial.ToVariable refuses monomials whose
 coefficient is not one

---
 symbolic/monomial.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index 8481622..e8dbcb9 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -570,7 +570,7 @@ func (m Monomial) ToVariable() Variable {
 		panic(fmt.Errorf("Cannot convert monomial to variable: VariableFactors is empty"))
 	}
 	// Algorithm
-	if m.IsDegreeOneContainingVariable(m.VariableFactors[0]) {
+	if m.IsVariable(m.VariableFactors[0]) {
 		return m.VariableFactors[0]
 	} else {
 		panic(
-- 
2.43.0


From d8d7a432f6f07065b7c506f8b0ea59f9a49c5169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:12 +0000
Subject: [PATCH 25/34] fix: new variables never take an ID that their
 environment already tracks

---
 symbolic/variable.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/symbolic/variable.go b/symbolic/variable.go
index 62089c2..e2bcdc3 100644
--- a/symbolic/variable.go
+++ b/symbolic/variable.go
@@ -374,6 +374,22 @@ func (v Variable) Transpose() Expression {
 	return v
 }
 
+// nextVariableIndex returns the first index, starting from the number of variables
+// tracked by the environment, which no tracked variable uses as its ID.
+func nextVariableIndex(env Environment) int {
+	tracked := env.AllTrackedVariables()
+	usedIDs := make(map[uint64]bool, len(tracked))
+	for _, v := range tracked {
+		usedIDs[v.ID] = true
+	}
+
+	nextIdx := len(tracked)
+	for usedIDs[uint64(nextIdx)] {
+		nextIdx++
+	}
+	return nextIdx
+}
+
 // NewVariable creates a new continuous variable in the given environment
 // (or the default environment if none is provided).
 func NewVariable(envs ...Environment) Variable {
@@ -392,7 +408,7 @@ func NewContinuousVariable(envs ...Environment) Variable {
 	}
 
 	// Get New Index
-	nextIdx := len(currentEnv.AllTrackedVariables())
+	nextIdx := nextVariableIndex(currentEnv)
 
 	// Create variable
 	variableOut := Variable{
@@ -423,7 +439,7 @@ func NewBinaryVariable(envs ...Environment) Variable {
 	}
 
 	// Get New Index
-	nextIdx := len(currentEnv.AllTrackedVariables())
+	nextIdx := nextVariableIndex(currentEnv)
 
 	// Get New Variable Object and add it to environment
 	variableOut := Variable{
-- 
2.43.0


From 438c3d91ca1aeb74c3dc9adbe685d95931825b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:18 +0000
Subject: [PATCH 26/34] fix: Variable.Plus refuses an invalid operand

---
 symbolic/variable.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/symbolic/variable.go b/symbolic/variable.go
index e2bcdc3..fbf90c9 100644
--- a/symbolic/variable.go
+++ b/symbolic/variable.go
@@ -77,6 +77,14 @@ func (v Variable) Plus(rightIn interface{}) Expression {
 		panic(err)
 	}
 
+	if IsExpression(rightIn) {
+		rightAsE, _ := ToExpression(rightIn)
+		err = rightAsE.Check()
+		if err != nil {
+			panic(err)
+		}
+	}
+
 	// Algorithm
 	var out Expression
 	switch right := rightIn.(type) {
-- 
2.43.0


From f8149a40c89ce1e1d8375d9b7d0daabca3c0c3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:23 +0000
Subject: [PATCH 27/34] fix: VariableMatrix.DerivativeWrt refuses an invalid
 variable

---
 symbolic/variable_matrix.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/symbolic/variable_matrix.go b/symbolic/variable_matrix.go
index 302c345..f1279f2 100644
--- a/symbolic/variable_matrix.go
+++ b/symbolic/variable_matrix.go
@@ -419,6 +419,11 @@ func (vm VariableMatrix) DerivativeWrt(v Variable) Expression {
 		panic(err)
 	}
 
+	err = v.Check()
+	if err != nil {
+		panic(err)
+	}
+
 	// Algorithm
 	kmOut := DenseToKMatrix(
 		ZerosMatrix(vm.Dims()[0], vm.Dims()[1]),
-- 
2.43.0


From 4ad003d6f43e8c4e4081e408416755b6dd856025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:29 +0000
Subject: [PATCH 28/34] fix: ScalarConstraint.Simplify refuses an ill-formed
 constraint

---
 symbolic/scalar_constraint.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/symbolic/scalar_constraint.go b/symbolic/scalar_constraint.go
index 6039c6d..7fd27ef 100644
--- a/symbolic/scalar_constraint.go
+++ b/symbolic/scalar_constraint.go
@@ -35,6 +35,12 @@ func (sc ScalarConstraint) IsLinear() bool {
 // Simplify Moves all of the variables of the ScalarConstraint to its
 // left hand side.
 func (sc ScalarConstraint) Simplify() ScalarConstraint {
+	// Check that the constraint is well formed.
+	err := sc.Check()
+	if err != nil {
+		panic(err)
+	}
+
 	// Create LHS
 	newLHS := sc.LeftHandSide
 
-- 
2.43.0


From 219e37916735a0a00e0e953933d5d02aa61d0302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:48 +0000
Subject: [PATCH 29/34] fix: terms with an exponent of zero or a repeated
 variable are treated as the products they denote

---
 symbolic/monomial.go   | 55 +++++++++++++++++++++++++++++++++++++++---
 symbolic/polynomial.go |  2 +-
 2 files changed, 53 insertions(+), 4 deletions(-)

diff --git a/symbolic/monomial.go b/symbolic/monomial.go
index e8dbcb9..f6bf8ce 100644
--- a/symbolic/monomial.go
+++ b/symbolic/monomial.go
@@ -39,7 +39,48 @@ func (m Monomial) Check() error {
 
 // Variables returns the unique variables in the monomial.
 func (m Monomial) Variables() []Variable {
-	return UniqueVars(m.VariableFactors)
+	return UniqueVars(m.reduced().VariableFactors)
+}
+
+// reduced returns the same term in reduced form: every variable is listed once
+// (with the sum of its exponents) and none has the exponent zero.
+func (m Monomial) reduced() Monomial {
+	// Nothing to do, if the monomial is in reduced form already (or not well formed)
+	if m.Check() != nil {
+		return m
+	}
+	isReduced := true
+	for ii := range m.VariableFactors {
+		if m.Exponents[ii] == 0 {
+			isReduced = false
+		}
+		for jj := 0; jj < ii; jj++ {
+			if m.VariableFactors[ii].ID == m.VariableFactors[jj].ID {
+				isReduced = false
+			}
+		}
+	}
+	if isReduced {
+		return m
+	}
+
+	// Collect the exponents of every variable
+	variables := UniqueVars(m.VariableFactors)
+	exponents := make([]int, len(variables))
+	for ii, variable := range m.VariableFactors {
+		index, _ := FindInSlice(variable, variables)
+		exponents[index] += m.Exponents[ii]
+	}
+
+	// Keep the variables which occur
+	out := Monomial{Coefficient: m.Coefficient}
+	for ii, variable := range variables {
+		if exponents[ii] != 0 {
+			out.VariableFactors = append(out.VariableFactors, variable)
+			out.Exponents = append(out.Exponents, exponents[ii])
+		}
+	}
+	return out
 }
 
 // Dims Returns the dimensions of the monomial. (It is a scalar, so this is [1,1])
@@ -174,6 +215,7 @@ func (m Monomial) Multiply(e interface{}) Expression {
 	}
 
 	// Algorithm
+	m = m.reduced()
 	switch right := e.(type) {
 	case float64:
 		return m.Multiply(K(right))
@@ -195,6 +237,7 @@ func (m Monomial) Multiply(e interface{}) Expression {
 		}
 		return monomialOut
 	case Monomial:
+		right = right.reduced()
 
 		// Collect all variables in both monomials
 		variables := append(m.Copy().VariableFactors, right.VariableFactors...)
@@ -317,7 +360,7 @@ func (m Monomial) Comparison(rhsIn interface{}, sense ConstrSense) Constraint {
 // Constant Returns the constant component in the scalar monomial.
 // This should be zero unless there are no variables present. Then it will be the coefficient.
 func (m Monomial) Constant() float64 {
-	if len(m.VariableFactors) == 0 {
+	if len(m.reduced().VariableFactors) == 0 {
 		return m.Coefficient
 	} else {
 		return 0
@@ -375,7 +418,7 @@ func (m Monomial) IsConstant() bool {
 	}
 
 	// Algorithm
-	return len(m.VariableFactors) == 0
+	return len(m.reduced().VariableFactors) == 0
 }
 
 // IsZero Returns true if the monomial defines the constant zero.
@@ -411,6 +454,7 @@ func (m Monomial) IsDegreeOneContainingVariable(v Variable) bool {
 	}
 
 	// Algorithm
+	m = m.reduced()
 	containsOnlyOneFactor := len(m.VariableFactors) == 1
 	firstFactorMatchesV := m.VariableFactors[0].ID == v.ID
 	firstFactorHasDegreeOne := m.Exponents[0] == 1
@@ -454,6 +498,7 @@ func (m Monomial) MatchesFormOf(mIn Monomial) bool {
 	}
 
 	// Algorithm
+	m, mIn = m.reduced(), mIn.reduced()
 	if len(m.VariableFactors) != len(mIn.VariableFactors) {
 		return false
 	}
@@ -494,6 +539,7 @@ func (m Monomial) DerivativeWrt(vIn Variable) Expression {
 	}
 
 	// Algorithm
+	m = m.reduced()
 	foundIndex, _ := FindInSlice(vIn, m.VariableFactors)
 	if foundIndex == -1 {
 		// If vIn is not in the monomial, then the derivative is zero
@@ -565,6 +611,8 @@ func (m Monomial) ToVariable() Variable {
 		panic(err)
 	}
 
+	m = m.reduced()
+
 	// Check that VariableFactors is not empty
 	if len(m.VariableFactors) == 0 {
 		panic(fmt.Errorf("Cannot convert monomial to variable: VariableFactors is empty"))
@@ -733,6 +781,7 @@ func (m Monomial) AsSimplifiedExpression() Expression {
 	}
 
 	// Algorithm
+	m = m.reduced()
 	// - If the monomial is a constant, return the constant
 	if m.IsConstant() {
 		return K(m.Coefficient)
diff --git a/symbolic/polynomial.go b/symbolic/polynomial.go
index f3fe26b..034a6ad 100644
--- a/symbolic/polynomial.go
+++ b/symbolic/polynomial.go
@@ -505,7 +505,7 @@ func (p Polynomial) Simplify() Polynomial {
 				continue
 			}
 			// Otherwise, add the monomial to the slice of non-constant monomials
-			nonConstantMonomials = append(nonConstantMonomials, monomial)
+			nonConstantMonomials = append(nonConstantMonomials, monomial.reduced())
 		}
 	}
 	// If the constant monomial is not zero and there are no other monomials,
-- 
2.43.0


From c48d2591d344ba949852f029b535023538caec8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:55 +0000
Subject: [PATCH 30/34] fix: Polynomial.Copy copies its terms (a write into the
 copy changed the original)

---
 symbolic/polynomial.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symbolic/polynomial.go b/symbolic/polynomial.go
index 034a6ad..9f39d18 100644
--- a/symbolic/polynomial.go
+++ b/symbolic/polynomial.go
@@ -59,7 +59,9 @@ func (p Polynomial) Copy() Polynomial {
 	out := Polynomial{
 		Monomials: make([]Monomial, len(p.Monomials)),
 	}
-	copy(out.Monomials, p.Monomials)
+	for ii, monomial := range p.Monomials {
+		out.Monomials[ii] = monomial.Copy()
+	}
 	return out
 }
 
-- 
2.43.0


From cd3f099b7983cd3d83ff8f9cd58605534f9486c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:34 +0000
Subject: [PATCH 31/34] fix: VectorPlusTemplate refuses vectors of different
 length (it dropped the extra entries of the right one)

---
 symbolic/vector_expression.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/symbolic/vector_expression.go b/symbolic/vector_expression.go
index eb42faf..b934925 100644
--- a/symbolic/vector_expression.go
+++ b/symbolic/vector_expression.go
@@ -407,6 +407,16 @@ func VectorPlusTemplate(ve VectorExpression, right Expression) Expression {
 			return VectorPlusTemplate(ve, rightExpr.AtVec(0))
 		}
 
+		if ve.Len() != rightExpr.Len() {
+			panic(
+				smErrors.VectorDimensionError{
+					Operation: fmt.Sprintf("%T.Plus", ve),
+					Arg1:      ve,
+					Arg2:      rightExpr,
+				},
+			)
+		}
+
 		for ii, se := range veAsSlice {
 			rightII := rightExpr.AtVec(ii)
 			sum = append(sum, se.Plus(rightII).(ScalarExpression))
-- 
2.43.0


From 1f6339831ca909dc85b8c477796ada8f8ff0d711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:45 +0000
Subject: [PATCH 32/34] fix: ConcretizeMatrixExpression refuses rows without
 entries (it made an invalid matrix of variables)

---
 symbolic/matrix_expression.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symbolic/matrix_expression.go b/symbolic/matrix_expression.go
index 6b9877c..32dbcf6 100644
--- a/symbolic/matrix_expression.go
+++ b/symbolic/matrix_expression.go
@@ -311,7 +311,7 @@ func MatrixSubstituteTemplate(me MatrixExpression, vIn Variable, seIn ScalarExpr
 func ConcretizeMatrixExpression(sliceIn [][]ScalarExpression) MatrixExpression {
 	// Input Processing
 	// - Check that the input slice is not empty
-	if len(sliceIn) == 0 {
+	if len(sliceIn) == 0 || len(sliceIn[0]) == 0 {
 		panic(
 			fmt.Errorf(
 				"the input slice is empty, which is not recognized as a VectorExpression.",
-- 
2.43.0


From c95d1d56318e76c231761857900ebf8d5b9b7aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:11 +0000
Subject: [PATCH 33/34] fix: FindInSlice reports a list of another type for
 uint64 as well, instead of panicking

---
 symbolic/utils.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/symbolic/utils.go b/symbolic/utils.go
index 0285edd..c34d237 100644
--- a/symbolic/utils.go
+++ b/symbolic/utils.go
@@ -57,7 +57,14 @@ func FindInSlice(xIn interface{}, sliceIn interface{}) (int, error) {
 		return xLocationInSliceIn, nil
 
 	case uint64:
-		slice := sliceIn.([]uint64)
+		slice, ok := sliceIn.([]uint64)
+		if !ok {
+			return -1, fmt.Errorf(
+				"the input slice is of type %T, but the element we're searching for is of type %T",
+				sliceIn,
+				x,
+			)
+		}
 
 		// Perform Search
 		xLocationInSliceIn := -1
-- 
2.43.0


From 0e7a4c085bcad8f643108e4e99891e1780ee4ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:23 +0000
Subject: [PATCH 34/34] fix: CheckDimensionsInComparison reports columns of
 different length that have no Len method, instead of panicking

---
 smErrors/matrix_dimension_error.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/smErrors/matrix_dimension_error.go b/smErrors/matrix_dimension_error.go
index 024a874..df9fa1c 100644
--- a/smErrors/matrix_dimension_error.go
+++ b/smErrors/matrix_dimension_error.go
@@ -205,12 +205,14 @@ func CheckDimensionsInComparison(arg1, arg2 MatrixLike, comparisonType string) e
 	if !dimsAreMatched {
 		// Return a specific type of error based on if this was a vector comparison
 		// or a matrix comparison
-		bothAreVectors := (arg1.Dims()[1] == 1) && (arg2.Dims()[1] == 1)
+		arg1AsVector, arg1IsVector := arg1.(VectorLike)
+		arg2AsVector, arg2IsVector := arg2.(VectorLike)
+		bothAreVectors := (arg1.Dims()[1] == 1) && (arg2.Dims()[1] == 1) && arg1IsVector && arg2IsVector
 		if bothAreVectors {
 			return VectorDimensionError{
 				Operation: fmt.Sprintf("Comparison (%v)", string(comparisonType)),
-				Arg1:      arg1.(VectorLike),
-				Arg2:      arg2.(VectorLike),
+				Arg1:      arg1AsVector,
+				Arg2:      arg2AsVector,
 			}
 		} else {
 			return MatrixDimensionError{
-- 
2.43.0

