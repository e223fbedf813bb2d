From c302414434a0f892368e4f1540ae0315e44f911b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 01/30] fix: logarithm of zero in the vectorized part of Log32
 is always -Inf

---
 mat/internal/matfuncs/log_amd64.go | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/mat/internal/matfuncs/log_amd64.go b/mat/internal/matfuncs/log_amd64.go
index 90e718c..36215b9 100644
--- a/mat/internal/matfuncs/log_amd64.go
+++ b/mat/internal/matfuncs/log_amd64.go
@@ -21,17 +21,16 @@ func Log32(x, y []float32) {
 			LogAVX32(x[i:], y[i:])
 		}
 
-		if max > 0 {
-			for i, v := range x[:max+1] {
-				if v == 0.0 {
-					y[i] = float32(math.Inf(-1))
-				}
+		mod := len(x) % 8
+		tailStart := len(x) - mod
+
+		for i, v := range x[:tailStart] {
+			if v == 0.0 {
+				y[i] = float32(math.Inf(-1))
 			}
 		}
 
-		mod := len(x) % 8
 		if mod > 0 {
-			tailStart := len(x) - mod
 			log(x[tailStart:], y[tailStart:])
 		}
 		return
@@ -43,17 +42,16 @@ func Log32(x, y []float32) {
 		LogSSE32(x[i:], y[i:])
 	}
 
-	if max > 0 {
-		for i, v := range x[:max+1] {
-			if v == 0.0 {
-				y[i] = float32(math.Inf(-1))
-			}
+	mod := len(x) % 4
+	tailStart := len(x) - mod
+
+	for i, v := range x[:tailStart] {
+		if v == 0.0 {
+			y[i] = float32(math.Inf(-1))
 		}
 	}
 
-	mod := len(x) % 4
 	if mod > 0 {
-		tailStart := len(x) - mod
 		log(x[tailStart:], y[tailStart:])
 	}
 }
-- 
2.43.0


From 9378f865368890508f629bc68beef1d24ff05968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:56 +0000
Subject: [PATCH 02/30] fix: matrices never share their shape slice with
 another matrix

---
 mat/dense.go     | 3 ++-
 mat/dense_new.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mat/dense.go b/mat/dense.go
index a6f9e72..70d3610 100644
--- a/mat/dense.go
+++ b/mat/dense.go
@@ -33,7 +33,8 @@ func makeDense[T float.DType](array []T, shape ...int) *Dense[T] {
 		log.Fatalf("mat: incompatible size, expected %d, actual %d", calculateSize(shape), len(array))
 	}
 	return &Dense[T]{
-		shape: shape,
+		// copy the shape, which may belong to another matrix and is modified in place
+		shape: append([]int(nil), shape...),
 		data:  array,
 	}
 }
diff --git a/mat/dense_new.go b/mat/dense_new.go
index 7ce9bf2..f894364 100644
--- a/mat/dense_new.go
+++ b/mat/dense_new.go
@@ -128,7 +128,8 @@ func adjustShape(shape ...int) []int {
 	if len(shape) == 1 {
 		return []int{shape[0], 1}
 	}
-	return shape
+	// copy the shape, which may belong to another matrix and is modified in place
+	return append([]int(nil), shape...)
 }
 
 func newScalar[T float.DType](value T, opts ...OptionsFunc) (*Dense[T], error) {
-- 
2.43.0


From 4ec33b26f5a8b1962de7f0f220f97b94555c917d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:32 +0000
Subject: [PATCH 03/30] fix: softmax backward accepts the column gradient of a
 row operand

---
 mat/gradfn/softmax.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mat/gradfn/softmax.go b/mat/gradfn/softmax.go
index cc4060c..6518fc4 100644
--- a/mat/gradfn/softmax.go
+++ b/mat/gradfn/softmax.go
@@ -36,11 +36,11 @@ func (r *Softmax[O]) Forward() (mat.Tensor, error) {
 
 // Backward computes the backward pass.
 func (r *Softmax[O]) Backward(gy mat.Tensor) error {
-	if !mat.SameDims(r.x.Value(), gy) {
+	y := r.y
+	if !mat.SameDims(y, gy) {
 		return fmt.Errorf("fn: matrices have incompatible dimensions")
 	}
 	if r.x.RequiresGrad() {
-		y := r.y
 		n := y.Size()
 		jb := y.NewMatrix(mat.WithShape(n, n), mat.WithBacking(mat.InitializeMatrix(n, n, func(row, col int) float64 {
 			vRow := y.ScalarAt(row).F64()
@@ -50,7 +50,7 @@ func (r *Softmax[O]) Backward(gy mat.Tensor) error {
 			vCol := y.ScalarAt(col).F64()
 			return -(vRow * vCol)
 		})))
-		gx := jb.Mul(gy.(mat.Matrix))
+		gx := jb.Mul(gy.(mat.Matrix)).ReshapeInPlace(r.x.Value().Shape()...)
 		r.x.AccGrad(gx)
 	}
 	return nil
-- 
2.43.0


From eeb525b69c3e7ee8ba84279cde81d7118e052304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 04/30] fix: RotateR accepts a shift of zero and row vectors

---
 mat/gradfn/rotater.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mat/gradfn/rotater.go b/mat/gradfn/rotater.go
index b52ce2f..f17a9bf 100644
--- a/mat/gradfn/rotater.go
+++ b/mat/gradfn/rotater.go
@@ -35,15 +35,13 @@ func (r *RotateR[O]) Forward() (mat.Tensor, error) {
 // Backward computes the backward pass.
 func (r *RotateR[O]) Backward(gy mat.Tensor) error {
 	if r.x.RequiresGrad() {
-		gx := rotate(gy.(mat.Matrix), r.i)
+		gx := rotate(gy.(mat.Matrix), r.i).ReshapeInPlace(r.x.Value().Shape()...)
 		r.x.AccGrad(gx)
 	}
 	return nil
 }
 
 func rotate(m mat.Matrix, i int) mat.Matrix {
-	size := m.Size()
-	left := m.Slice(0, 0, i, 1)
-	right := m.Slice(i, 0, size, 1)
-	return m.NewConcatV(right, left)
+	parts := m.SplitV(i, m.Size()-i)
+	return m.NewConcatV(parts[1], parts[0])
 }
-- 
2.43.0


From 220c6856505c761139e998e39dfc3a35650b7579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:02 +0000
Subject: [PATCH 05/30] fix: Range and SplitV never read beyond the vector's
 elements

---
 mat/dense.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mat/dense.go b/mat/dense.go
index 70d3610..211ce80 100644
--- a/mat/dense.go
+++ b/mat/dense.go
@@ -1150,6 +1150,9 @@ func (d *Dense[T]) Range(start, end int) Matrix {
 	if end < 0 || start < 0 {
 		panic("mat: negative values for range indices are not allowed")
 	}
+	if end > len(d.data) {
+		panic("mat: range indices out of bounds")
+	}
 	return NewDense[T](WithBacking(copySlice(d.data[start:end])))
 }
 
@@ -1170,7 +1173,7 @@ func (d *Dense[T]) SplitV(sizes ...int) []Matrix {
 		}
 		startIndex := offset
 		offset = startIndex + size
-		if startIndex >= len(d.data) && offset > startIndex {
+		if offset > len(d.data) {
 			panic("mat: sizes out of bounds")
 		}
 		out[i] = NewDense[T](WithBacking(copySlice(d.data[startIndex:offset])))
-- 
2.43.0


From b658017c438a605f43b58485e4acf31420ca0f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:54 +0000
Subject: [PATCH 06/30] fix: gradients take the shape of their operand (max,
 min, reduce sum and mean, concat)

---
 mat/gradfn/concat.go     | 2 +-
 mat/gradfn/max.go        | 4 ++--
 mat/gradfn/min.go        | 4 ++--
 mat/gradfn/reducemean.go | 2 +-
 mat/gradfn/reducesum.go  | 2 +-
 5 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/mat/gradfn/concat.go b/mat/gradfn/concat.go
index 2c51eb6..79d7f8f 100644
--- a/mat/gradfn/concat.go
+++ b/mat/gradfn/concat.go
@@ -56,7 +56,7 @@ func (r *Concat[O]) Backward(gy mat.Tensor) error {
 	xs := r.xs
 	for i, gx := range gy.(mat.Matrix).SplitV(sizes...) {
 		if xs[i].RequiresGrad() {
-			xs[i].AccGrad(gx)
+			xs[i].AccGrad(gx.ReshapeInPlace(xs[i].Value().Shape()...))
 		}
 	}
 	return nil
diff --git a/mat/gradfn/max.go b/mat/gradfn/max.go
index 679b574..df37cd8 100644
--- a/mat/gradfn/max.go
+++ b/mat/gradfn/max.go
@@ -56,7 +56,7 @@ func (r *Max[O]) Backward(gy mat.Tensor) error {
 				gxData[i] = gyData[i]
 			}
 		}
-		gx := x1v.NewMatrix(mat.WithBacking(gxData))
+		gx := x1v.NewMatrix(mat.WithShape(x1v.Shape()...), mat.WithBacking(gxData))
 		r.x1.AccGrad(gx)
 	}
 	if r.x2.RequiresGrad() {
@@ -66,7 +66,7 @@ func (r *Max[O]) Backward(gy mat.Tensor) error {
 				gxData[i] = gyData[i]
 			}
 		}
-		gx := x1v.NewMatrix(mat.WithBacking(gxData))
+		gx := x1v.NewMatrix(mat.WithShape(x1v.Shape()...), mat.WithBacking(gxData))
 		r.x2.AccGrad(gx)
 	}
 
diff --git a/mat/gradfn/min.go b/mat/gradfn/min.go
index aee4a76..b8c2f73 100644
--- a/mat/gradfn/min.go
+++ b/mat/gradfn/min.go
@@ -56,7 +56,7 @@ func (r *Min[O]) Backward(gy mat.Tensor) error {
 				gxData[i] = gyData[i]
 			}
 		}
-		gx := x1v.NewMatrix(mat.WithBacking(gxData))
+		gx := x1v.NewMatrix(mat.WithShape(x1v.Shape()...), mat.WithBacking(gxData))
 		r.x1.AccGrad(gx)
 	}
 	if r.x2.RequiresGrad() {
@@ -66,7 +66,7 @@ func (r *Min[O]) Backward(gy mat.Tensor) error {
 				gxData[i] = gyData[i]
 			}
 		}
-		gx := x1v.NewMatrix(mat.WithBacking(gxData))
+		gx := x1v.NewMatrix(mat.WithShape(x1v.Shape()...), mat.WithBacking(gxData))
 		r.x2.AccGrad(gx)
 	}
 	return nil
diff --git a/mat/gradfn/reducemean.go b/mat/gradfn/reducemean.go
index 142a6fc..dd8c570 100644
--- a/mat/gradfn/reducemean.go
+++ b/mat/gradfn/reducemean.go
@@ -42,7 +42,7 @@ func (r *ReduceMean[O]) Backward(gy mat.Tensor) error {
 		x := r.x.Value().(mat.Matrix)
 		size := x.Size()
 		v := gy.Item().F64() / float64(size)
-		gx := x.NewMatrix(mat.WithShape(size), mat.WithBacking(mat.CreateInitializedSlice(size, v)))
+		gx := x.NewMatrix(mat.WithShape(x.Shape()...), mat.WithBacking(mat.CreateInitializedSlice(size, v)))
 		r.x.AccGrad(gx)
 	}
 	return nil
diff --git a/mat/gradfn/reducesum.go b/mat/gradfn/reducesum.go
index 7c186a4..51b8927 100644
--- a/mat/gradfn/reducesum.go
+++ b/mat/gradfn/reducesum.go
@@ -39,7 +39,7 @@ func (r *ReduceSum[O]) Backward(gy mat.Tensor) error {
 	}
 	if r.x.RequiresGrad() {
 		x := r.x.Value()
-		gx := x.(mat.Matrix).NewMatrix(mat.WithShape(x.Size()), mat.WithBacking(mat.CreateInitializedSlice(x.Size(), gy.Item().F64())))
+		gx := x.(mat.Matrix).NewMatrix(mat.WithShape(x.Shape()...), mat.WithBacking(mat.CreateInitializedSlice(x.Size(), gy.Item().F64())))
 		r.x.AccGrad(gx)
 	}
 	return nil
-- 
2.43.0


From 72b76276f59e87f4f7d7b0ee8f600351fee22e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:54 +0000
Subject: [PATCH 07/30] fix: max pooling handles negative values and non-square
 windows

---
 mat/gradfn/maxpooling.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mat/gradfn/maxpooling.go b/mat/gradfn/maxpooling.go
index 978edc2..9d36e97 100644
--- a/mat/gradfn/maxpooling.go
+++ b/mat/gradfn/maxpooling.go
@@ -52,11 +52,11 @@ func (r *MaxPooling[O]) Forward() (mat.Tensor, error) {
 
 	for row := 0; row < r.y.Shape()[0]; row++ {
 		for col := 0; col < r.y.Shape()[1]; col++ {
-			maximum := math.SmallestNonzeroFloat64
+			maximum := math.Inf(-1)
 
 			maxRows := (row * r.rows) + r.rows
 			for i := row * r.rows; i < maxRows; i++ {
-				maxCols := (col * r.cols) + r.rows
+				maxCols := (col * r.cols) + r.cols
 				for j := col * r.cols; j < maxCols; j++ {
 					// FIXME: avoid casting to specific type
 					val := xv.ScalarAt(i, j).F64()
-- 
2.43.0


From 45f58b53ec96bd218db2e24323db59da9414c41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:54 +0000
Subject: [PATCH 08/30] fix: scalar max of negative values, and gradients for
 all its operator operands

---
 mat/gradfn/scalarmax.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/mat/gradfn/scalarmax.go b/mat/gradfn/scalarmax.go
index 3de6fd9..465bfa1 100644
--- a/mat/gradfn/scalarmax.go
+++ b/mat/gradfn/scalarmax.go
@@ -37,7 +37,7 @@ func (r *ScalarMax[O]) Forward() (mat.Tensor, error) {
 	for i, x := range r.xs {
 		// FIXME: avoid casting to specific type
 		val := x.Value().Item().F64()
-		if val > max {
+		if i == 0 || val > max {
 			max = val
 			argmax = i
 		}
@@ -51,9 +51,16 @@ func (r *ScalarMax[O]) Backward(gy mat.Tensor) error {
 	if !mat.IsScalar(gy) {
 		return fmt.Errorf("fn: the gradient had to be a scalar")
 	}
-	target := r.xs[r.argmax]
-	if target.RequiresGrad() {
-		target.AccGrad(gy)
+	for i, x := range r.xs {
+		if !x.RequiresGrad() {
+			continue
+		}
+		if i == r.argmax {
+			x.AccGrad(gy)
+		} else if _, isLeaf := any(x).(mat.Matrix); !isLeaf {
+			// an operator waits for the gradients from all its consumers
+			x.AccGrad(x.Value().(mat.Matrix).ZerosLike())
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 268fc7988968f1ee77b576c0045acd0d5cdb510f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:54 +0000
Subject: [PATCH 09/30] fix: sparsemax does not clip probabilities at the
 largest input

---
 mat/gradfn/sparsemax.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mat/gradfn/sparsemax.go b/mat/gradfn/sparsemax.go
index 8c8a85e..854b3c4 100644
--- a/mat/gradfn/sparsemax.go
+++ b/mat/gradfn/sparsemax.go
@@ -5,6 +5,7 @@
 package gradfn
 
 import (
+	"math"
 	"sort"
 
 	"github.com/nlpodyssey/spago/mat"
@@ -39,7 +40,7 @@ func (r *SparseMax[O]) Forward() (mat.Tensor, error) {
 
 	_, _, _, tau := sparseMaxCommon(v)
 
-	v.SubScalarInPlace(tau).ClipInPlace(0, xMax)
+	v.SubScalarInPlace(tau).ClipInPlace(0, math.Inf(1))
 
 	r.y = v
 	return v, nil
-- 
2.43.0


From 6596f5ef77e28717d2d5ed71900fb8684d4f459f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 10/30] fix: scalar operands of activation functions receive
 their gradients

---
 mat/gradfn/celu.go       |  8 ++++++++
 mat/gradfn/elu.go        |  7 +++++++
 mat/gradfn/leakyrelu.go  |  6 ++++++
 mat/gradfn/misc.go       | 16 ++++++++++++++++
 mat/gradfn/selu.go       | 13 +++++++++++++
 mat/gradfn/softplus.go   | 12 ++++++++++++
 mat/gradfn/softshrink.go | 10 ++++++++++
 mat/gradfn/swishb.go     | 13 +++----------
 mat/gradfn/threshold.go  |  9 +++++++++
 9 files changed, 84 insertions(+), 10 deletions(-)

diff --git a/mat/gradfn/celu.go b/mat/gradfn/celu.go
index be3fe0e..ef8a6aa 100644
--- a/mat/gradfn/celu.go
+++ b/mat/gradfn/celu.go
@@ -6,6 +6,7 @@ package gradfn
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/nlpodyssey/spago/mat"
 )
@@ -45,5 +46,12 @@ func (r *CELU[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
+	accScalarGrad(r.alpha, r.x, gy, func(v float64) float64 {
+		if v > 0 {
+			return 0
+		}
+		q := v / r.alpha.Value().Item().F64()
+		return math.Exp(q)*(1-q) - 1
+	})
 	return nil
 }
diff --git a/mat/gradfn/elu.go b/mat/gradfn/elu.go
index cc38b81..d8d4a80 100644
--- a/mat/gradfn/elu.go
+++ b/mat/gradfn/elu.go
@@ -6,6 +6,7 @@ package gradfn
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/nlpodyssey/spago/mat"
 )
@@ -46,5 +47,11 @@ func (r *ELU[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
+	accScalarGrad(r.alpha, r.x, gy, func(v float64) float64 {
+		if v > 0 {
+			return 0
+		}
+		return math.Exp(v) - 1
+	})
 	return nil
 }
diff --git a/mat/gradfn/leakyrelu.go b/mat/gradfn/leakyrelu.go
index 4899f43..c87e344 100644
--- a/mat/gradfn/leakyrelu.go
+++ b/mat/gradfn/leakyrelu.go
@@ -45,5 +45,11 @@ func (r *LeakyReLU[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
+	accScalarGrad(r.alpha, r.x, gy, func(v float64) float64 {
+		if v > 0 {
+			return 0
+		}
+		return v
+	})
 	return nil
 }
diff --git a/mat/gradfn/misc.go b/mat/gradfn/misc.go
index 6271685..863e348 100644
--- a/mat/gradfn/misc.go
+++ b/mat/gradfn/misc.go
@@ -229,6 +229,22 @@ func NewSiLU[O mat.Tensor](x O) *Swish[O] {
 	return NewSwish[O](x)
 }
 
+// accScalarGrad accumulates, on a scalar operand s of an element-wise function
+// of x, the gradient resulting from the output gradients gy. The function df
+// computes the partial derivative with respect to s for the element v of x.
+func accScalarGrad(s, x, gy mat.Tensor, df func(v float64) float64) {
+	if !s.RequiresGrad() {
+		return
+	}
+	// FIXME: avoid casting to specific type
+	gyData := gy.Data().F64()
+	var sum float64
+	for i, v := range x.Value().Data().F64() {
+		sum += df(v) * gyData[i]
+	}
+	s.AccGrad(s.Value().(mat.Matrix).NewScalar(sum))
+}
+
 func absDeriv(_, _ int, v float64) float64 {
 	if v < 0 {
 		return -1
diff --git a/mat/gradfn/selu.go b/mat/gradfn/selu.go
index 27a0555..54dd82e 100644
--- a/mat/gradfn/selu.go
+++ b/mat/gradfn/selu.go
@@ -6,6 +6,7 @@ package gradfn
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/nlpodyssey/spago/mat"
 )
@@ -54,5 +55,17 @@ func (r *SELU[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
+	accScalarGrad(r.alpha, r.x, gy, func(v float64) float64 {
+		if v > 0 {
+			return 0
+		}
+		return r.scale.Value().Item().F64() * (math.Exp(v) - 1)
+	})
+	accScalarGrad(r.scale, r.x, gy, func(v float64) float64 {
+		if v > 0 {
+			return v
+		}
+		return r.alpha.Value().Item().F64() * (math.Exp(v) - 1)
+	})
 	return nil
 }
diff --git a/mat/gradfn/softplus.go b/mat/gradfn/softplus.go
index 75008f8..0090bc9 100644
--- a/mat/gradfn/softplus.go
+++ b/mat/gradfn/softplus.go
@@ -6,6 +6,7 @@ package gradfn
 
 import (
 	"fmt"
+	"math"
 
 	"github.com/nlpodyssey/spago/mat"
 )
@@ -54,5 +55,16 @@ func (r *SoftPlus[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
+	accScalarGrad(r.beta, r.x, gy, func(v float64) float64 {
+		if v > r.threshold.Value().Item().F64() {
+			return 0
+		}
+		beta := r.beta.Value().Item().F64()
+		exp := math.Exp(v * beta)
+		return (v*exp/(exp+1) - math.Log(1+exp)/beta) / beta
+	})
+	accScalarGrad(r.threshold, r.x, gy, func(v float64) float64 {
+		return 0
+	})
 	return nil
 }
diff --git a/mat/gradfn/softshrink.go b/mat/gradfn/softshrink.go
index ebfa3e9..26574be 100644
--- a/mat/gradfn/softshrink.go
+++ b/mat/gradfn/softshrink.go
@@ -44,5 +44,15 @@ func (r *SoftShrink[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
+	accScalarGrad(r.lambda, r.x, gy, func(v float64) float64 {
+		lambda := r.lambda.Value().Item().F64()
+		if v < -lambda {
+			return 1
+		}
+		if v > lambda {
+			return -1
+		}
+		return 0
+	})
 	return nil
 }
diff --git a/mat/gradfn/swishb.go b/mat/gradfn/swishb.go
index 4f74250..3673df7 100644
--- a/mat/gradfn/swishb.go
+++ b/mat/gradfn/swishb.go
@@ -48,15 +48,8 @@ func (r *SwishB[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
-	if r.beta.RequiresGrad() {
-		gb := r.beta.Value().(mat.Matrix).ZerosLike()
-		// FIXME: avoid casting to specific type
-		for i, x := range r.x.Value().Data().F64() {
-			deriv := swishBBetaDeriv(x, r.beta.Value().Item().F64())
-			gyi := gy.(mat.Matrix).ScalarAt(i).F64()
-			gb.AddScalarInPlace(deriv * gyi)
-		}
-		r.beta.AccGrad(gb)
-	}
+	accScalarGrad(r.beta, r.x, gy, func(v float64) float64 {
+		return swishBBetaDeriv(v, r.beta.Value().Item().F64())
+	})
 	return nil
 }
diff --git a/mat/gradfn/threshold.go b/mat/gradfn/threshold.go
index 16a42b4..68d9bde 100644
--- a/mat/gradfn/threshold.go
+++ b/mat/gradfn/threshold.go
@@ -55,5 +55,14 @@ func (r *Threshold[O]) Backward(gy mat.Tensor) error {
 		gx.ProdInPlace(gy.(mat.Matrix))
 		r.x.AccGrad(gx)
 	}
+	accScalarGrad(r.threshold, r.x, gy, func(v float64) float64 {
+		return 0
+	})
+	accScalarGrad(r.k, r.x, gy, func(v float64) float64 {
+		if v > r.threshold.Value().Item().F64() {
+			return 0
+		}
+		return 1
+	})
 	return nil
 }
-- 
2.43.0


From 004de7da2eaa4aa6327fa3c936628317081380e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:02 +0000
Subject: [PATCH 11/30] fix: GELU derivative matches the forward function
 exactly

---
 mat/gradfn/misc.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/mat/gradfn/misc.go b/mat/gradfn/misc.go
index 863e348..30bb807 100644
--- a/mat/gradfn/misc.go
+++ b/mat/gradfn/misc.go
@@ -517,8 +517,7 @@ func gelu(_, _ int, v float64) float64 {
 }
 
 func geluDeriv(_, _ int, x float64) float64 {
-	x3 := math.Pow(x, 3)
-	return 0.5*math.Tanh(0.0356774*x3+0.797885*x) +
-		(0.0535161*x3+0.398942*x)*
-			math.Pow(1.0/math.Cosh(0.0356774*x3+0.797885*x), 2) + 0.5
+	c := math.Sqrt(2 / math.Pi)
+	t := math.Tanh(c * (x + 0.044715*math.Pow(x, 3)))
+	return 0.5*(1+t) + 0.5*x*(1-t*t)*c*(1+3*0.044715*x*x)
 }
-- 
2.43.0


From db41b6ecb794638997d8c0987cb5ff5fce42d988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:56 +0000
Subject: [PATCH 12/30] fix: a backward pass refused for a missing gradient
 leaves the operators idle

---
 ag/backward.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ag/backward.go b/ag/backward.go
index 484a0f3..1f9d5d7 100644
--- a/ag/backward.go
+++ b/ag/backward.go
@@ -5,6 +5,7 @@
 package ag
 
 import (
+	"fmt"
 	"sync"
 
 	"github.com/nlpodyssey/spago/mat"
@@ -26,6 +27,14 @@ func Backward(xs ...mat.Tensor) error {
 		return nil
 	}
 
+	// Report missing gradients before changing the state of any operator,
+	// so that a later backward pass over the same operators is not affected.
+	for _, op := range ops {
+		if v := op.Value(); v.Size() != 1 && isNil(v.Grad()) {
+			return fmt.Errorf("ag: missing gradient for %v", op)
+		}
+	}
+
 	// The three for loops below are intentionally executed in sequence.
 	// These steps must occur in this order, so the loops cannot be combined due to their sequential dependencies.
 
-- 
2.43.0


From c53736deb55d359a338ec6415654fb0624c197fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:01 +0000
Subject: [PATCH 13/30] fix: Optimize waits for all parameter updates before
 returning

---
 optimizers/optimizer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/optimizers/optimizer.go b/optimizers/optimizer.go
index 2da4d08..42dfb03 100644
--- a/optimizers/optimizer.go
+++ b/optimizers/optimizer.go
@@ -68,6 +68,7 @@ func (o *Optimizer) Optimize() error {
 		}
 	}
 
+	wg.Wait() // Wait for all updates to be completed
 	close(errCh)
 
 	if err, ok := <-errCh; ok {
-- 
2.43.0


From f24c1676baef7c9251b9629dee98be880fc7e358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:01 +0000
Subject: [PATCH 14/30] fix: gradient clipping skips the parameters without
 gradients

---
 optimizers/gradclipper/clipper.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/optimizers/gradclipper/clipper.go b/optimizers/gradclipper/clipper.go
index 95ee09a..93d2154 100644
--- a/optimizers/gradclipper/clipper.go
+++ b/optimizers/gradclipper/clipper.go
@@ -82,7 +82,9 @@ func collectGradients(parameters nn.ParamChannelFunc) []mat.Tensor {
 
 	var allGrads []mat.Tensor
 	for param := range parameters(ctx) {
-		allGrads = append(allGrads, param.Grad())
+		if param.HasGrad() {
+			allGrads = append(allGrads, param.Grad())
+		}
 	}
 	return allGrads
 }
-- 
2.43.0


From 0019a7c76820cf3952a4edf8c7f31e1e48c0ffa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:01 +0000
Subject: [PATCH 15/30] fix: Grad is nil when there are no gradients

---
 mat/dense_grad.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mat/dense_grad.go b/mat/dense_grad.go
index 8371618..278b9f1 100644
--- a/mat/dense_grad.go
+++ b/mat/dense_grad.go
@@ -13,6 +13,9 @@ func (d *Dense[T]) Value() Tensor {
 func (d *Dense[T]) Grad() Tensor {
 	d.gradMu.RLock()
 	defer d.gradMu.RUnlock()
+	if d.grad == nil {
+		return nil // not a Tensor holding a nil pointer
+	}
 	return d.grad
 }
 
-- 
2.43.0


From e485a82d986c42b1b9305f9d2fa497a4ea438b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:39 +0000
Subject: [PATCH 16/30] fix: a decoded matrix does not retain the caller's
 buffer

---
 mat/dense_marshaling.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mat/dense_marshaling.go b/mat/dense_marshaling.go
index 84e8dd6..b40a97e 100644
--- a/mat/dense_marshaling.go
+++ b/mat/dense_marshaling.go
@@ -132,5 +132,7 @@ func bytesToSlice[T any](b []byte, length int) []T {
 	if len(b) == 0 {
 		return []T{}
 	}
-	return unsafe.Slice((*T)(unsafe.Pointer(&b[0])), length)
+	out := make([]T, length)
+	copy(out, unsafe.Slice((*T)(unsafe.Pointer(&b[0])), length))
+	return out
 }
-- 
2.43.0


From 0e5fb8547b86d270c7fc72b4cf2138382028658c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:43 +0000
Subject: [PATCH 17/30] fix: Apply does not call a missing parameter callback
 on a ParamsTraverser

---
 nn/traversal.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nn/traversal.go b/nn/traversal.go
index 90cb188..294bf74 100644
--- a/nn/traversal.go
+++ b/nn/traversal.go
@@ -30,7 +30,9 @@ type paramsTraversal struct {
 // walk iterates through all the parameters of m.
 func (pt paramsTraversal) walk(m any) {
 	if m, ok := m.(ParamsTraverser); ok {
-		m.TraverseParams(pt.paramsFunc)
+		if pt.paramsFunc != nil {
+			m.TraverseParams(pt.paramsFunc)
+		}
 		return
 	}
 	forEachField(m, func(field any, name string) {
-- 
2.43.0


From 461b2b752c587162ad48e4ed62fd09424f5a0a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:05 +0000
Subject: [PATCH 18/30] fix: items that hold no parameters do not hide the rest
 of a list or map

---
 nn/traversal.go | 31 +++++++++----------------------
 1 file changed, 9 insertions(+), 22 deletions(-)

diff --git a/nn/traversal.go b/nn/traversal.go
index 294bf74..250c891 100644
--- a/nn/traversal.go
+++ b/nn/traversal.go
@@ -48,10 +48,12 @@ func (pt paramsTraversal) walk(m any) {
 	})
 }
 
-func (pt paramsTraversal) walkStructOrPtr(item any, name string) bool {
+// walkStructOrPtr visits the item if it is a parameter or a container of parameters;
+// any other item is skipped.
+func (pt paramsTraversal) walkStructOrPtr(item any, name string) {
 	v := reflect.ValueOf(item)
 	if v.Kind() == reflect.Ptr && v.Elem().Kind() != reflect.Struct {
-		return false
+		return
 	}
 	switch itemT := item.(type) {
 	case Module, *Module:
@@ -76,10 +78,7 @@ func (pt paramsTraversal) walkStructOrPtr(item any, name string) bool {
 		}
 	case *sync.Map:
 		pt.walkSyncMap(itemT, name)
-	default:
-		return false
 	}
-	return true
 }
 
 func (pt paramsTraversal) walkSyncMap(i *sync.Map, name string) {
@@ -90,17 +89,13 @@ func (pt paramsTraversal) walkSyncMap(i *sync.Map, name string) {
 		case int:
 			key = fmt.Sprintf("%d", k)
 		default:
-			return false // skip map if the key is not a string or an int
+			return true // skip the item if the key is not a string or an int
 		}
 
 		name := fmt.Sprintf("%s.%s", name, key)
 		switch reflect.ValueOf(value).Kind() {
 		case reflect.Struct, reflect.Ptr, reflect.Interface:
-			if !pt.walkStructOrPtr(value, name) {
-				return false
-			}
-		default:
-			return false // skip
+			pt.walkStructOrPtr(value, name)
 		}
 		return true
 	})
@@ -112,11 +107,7 @@ func (pt paramsTraversal) walkSlice(v reflect.Value, name string) {
 		p := v.Index(i)
 		switch p.Kind() {
 		case reflect.Struct, reflect.Ptr, reflect.Interface:
-			if !pt.walkStructOrPtr(p.Interface(), name) {
-				return
-			}
-		default:
-			return // skip
+			pt.walkStructOrPtr(p.Interface(), name)
 		}
 	}
 }
@@ -131,17 +122,13 @@ func (pt paramsTraversal) walkMap(v reflect.Value, name string) {
 		case int:
 			key = fmt.Sprintf("%d", k)
 		default:
-			return // skip map if the key is not a string or an int
+			continue // skip the item if the key is not a string or an int
 		}
 
 		name := fmt.Sprintf("%s.%s", name, key)
 		switch mapRange.Value().Kind() {
 		case reflect.Struct, reflect.Ptr, reflect.Interface:
-			if !pt.walkStructOrPtr(mapRange.Value().Interface(), name) {
-				return
-			}
-		default:
-			return // skip
+			pt.walkStructOrPtr(mapRange.Value().Interface(), name)
 		}
 	}
 }
-- 
2.43.0


From 23f98834bbeb0b0336b0f90f297609fcdb43c0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 19/30] fix: embeddings whose gradients were zeroed are no
 longer exposed

---
 nn/embedding/model.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/nn/embedding/model.go b/nn/embedding/model.go
index 4370535..4da915f 100644
--- a/nn/embedding/model.go
+++ b/nn/embedding/model.go
@@ -49,11 +49,27 @@ func New[T float.DType](size int, dim int) *Model {
 
 // TraverseParams allows embeddings with gradients to be traversed for optimization.
 func (m *Model) TraverseParams(callback func(param *nn.Param)) {
-	for idx := range m.embedGradIdx {
+	for _, idx := range m.itemsWithGrad() {
 		callback(m.Weights[idx])
 	}
 }
 
+// itemsWithGrad returns the indices of the embeddings with gradients. It forgets
+// those whose gradients have been zeroed directly on the parameter.
+func (m *Model) itemsWithGrad() []int {
+	m.mu.Lock()
+	defer m.mu.Unlock()
+	items := make([]int, 0, len(m.embedGradIdx))
+	for idx := range m.embedGradIdx {
+		if m.Weights[idx].HasGrad() {
+			items = append(items, idx)
+		} else {
+			delete(m.embedGradIdx, idx)
+		}
+	}
+	return items
+}
+
 func (m *Model) Embedding(idx int) (*Embedding, error) {
 	if idx < 0 || idx >= m.Size {
 		return nil, nn.ErrInvalidIndex
@@ -102,9 +118,7 @@ func (m *Model) checkInput(input []int) error {
 }
 
 func (m *Model) CountEmbedWithGrad() int {
-	m.mu.Lock()
-	defer m.mu.Unlock()
-	return len(m.embedGradIdx)
+	return len(m.itemsWithGrad())
 }
 
 func (m *Model) ZeroGrad() {
-- 
2.43.0


From 24f37b078ed84e1827e756eafdf9d0c57d446582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:37 +0000
Subject: [PATCH 20/30] fix: embeddings of a loaded model accept gradients

---
 nn/embedding/embedding.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nn/embedding/embedding.go b/nn/embedding/embedding.go
index 9652c70..b3dee90 100644
--- a/nn/embedding/embedding.go
+++ b/nn/embedding/embedding.go
@@ -19,6 +19,9 @@ type Embedding struct {
 func (e *Embedding) AccGrad(gx mat.Tensor) {
 	e.m.mu.Lock()
 	defer e.m.mu.Unlock()
+	if e.m.embedGradIdx == nil { // the model has been loaded
+		e.m.embedGradIdx = make(map[int]struct{})
+	}
 	e.m.embedGradIdx[e.idx] = struct{}{}
 	e.Param.AccGrad(gx)
 }
-- 
2.43.0


From cea805775dee1ba3541de1040dedbadbfac70d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:05 +0000
Subject: [PATCH 21/30] fix: exponential decay stays at the final rate after
 its last step

---
 optimizers/decay/exponential/exponential.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/optimizers/decay/exponential/exponential.go b/optimizers/decay/exponential/exponential.go
index 0b6a327..f7c60c7 100644
--- a/optimizers/decay/exponential/exponential.go
+++ b/optimizers/decay/exponential/exponential.go
@@ -30,6 +30,9 @@ func New(init, final float64, iter int) *Exponential {
 // Decay calculates the decay of the learning rate lr at time t.
 func (d *Exponential) Decay(lr float64, t int) float64 {
 	if t > 1 && lr > d.final {
+		if t >= d.times {
+			return d.final
+		}
 		return math.Exp((float64(d.times-t)*math.Log(lr) + math.Log(d.final)) / float64(d.times-t+1))
 	}
 	return lr
-- 
2.43.0


From 36371ef590c40db0030f69942065b78b9b33e926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:13 +0000
Subject: [PATCH 22/30] fix: bernulli.Distribution yields 2 when a float32 draw
 rounds to 1

---
 mat/rand/bernulli/bernulli.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/mat/rand/bernulli/bernulli.go b/mat/rand/bernulli/bernulli.go
index 95fff23..9359323 100644
--- a/mat/rand/bernulli/bernulli.go
+++ b/mat/rand/bernulli/bernulli.go
@@ -5,8 +5,6 @@
 package bernulli
 
 import (
-	"math"
-
 	"github.com/nlpodyssey/spago/mat"
 	"github.com/nlpodyssey/spago/mat/float"
 	"github.com/nlpodyssey/spago/mat/rand"
@@ -20,11 +18,10 @@ func Distribution[T float.DType](r, c int, prob T, generator *rand.LockedRand) m
 	for i := 0; i < r; i++ {
 		for j := 0; j < c; j++ {
 			val := T(dist.Next())
-			fl := math.Floor(float64(val))
 			if val < prob {
-				out.SetScalar(float.Interface(fl), i, j)
+				out.SetScalar(float.Interface(T(0)), i, j)
 			} else {
-				out.SetScalar(float.Interface(fl+1), i, j)
+				out.SetScalar(float.Interface(T(1)), i, j)
 			}
 		}
 	}
-- 
2.43.0


From 5461960b63097cb93d9a2caafef4842e78ffbd0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:13 +0000
Subject: [PATCH 23/30] fix: unique random draws could never select 0

---
 mat/rand/misc.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mat/rand/misc.go b/mat/rand/misc.go
index b6bf3ce..e94b47c 100644
--- a/mat/rand/misc.go
+++ b/mat/rand/misc.go
@@ -51,7 +51,7 @@ func GetUniqueRandomInt(n, max int, valid func(r int) bool) []int {
 	a := make([]int, n)
 	for i := 0; i < n; i++ {
 		r := rand.Intn(max) // Warning: use global rand
-		for !valid(r) || contains(a, r) {
+		for !valid(r) || contains(a[:i], r) {
 			r = rand.Intn(max) // Warning: use global rand
 		}
 		a[i] = r
@@ -67,7 +67,7 @@ func GetUniqueRandomIndices(n int, indices []int, valid func(r int) bool) []int
 		// The generic type is irrelevant, since the given generator is nil.
 		// TODO: ugly API of ShuffleInPlace to be refactored
 		r := ShuffleInPlace(indices, nil)[0] // Warning: use global rand
-		for !valid(r) || contains(a, r) {
+		for !valid(r) || contains(a[:i], r) {
 			r = ShuffleInPlace(indices, nil)[0] // Warning: use global rand
 		}
 		a[i] = r
-- 
2.43.0


From 8c883282521dc3fb0516dc6b2fd5f1984e43548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:13 +0000
Subject: [PATCH 24/30] fix: WeightedChoice returns an event of zero
 probability when the sum is rounded below 1

---
 mat/rand/misc.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mat/rand/misc.go b/mat/rand/misc.go
index e94b47c..a8444e1 100644
--- a/mat/rand/misc.go
+++ b/mat/rand/misc.go
@@ -36,13 +36,18 @@ func WeightedChoice[T float.DType](dist []T) int {
 		panic(fmt.Sprintf("rand: unexpected type %T", T(0)))
 	}
 	var cumulativeProb T
+	last := 0 // the last event of positive probability
 	for i, prob := range dist {
 		cumulativeProb += prob
 		if rnd < cumulativeProb {
 			return i
 		}
+		if prob > 0 {
+			last = i
+		}
 	}
-	return 0
+	// The sum of the probabilities may be rounded below 1.
+	return last
 }
 
 // GetUniqueRandomInt generates n mutually exclusive integers up to max, using the default random source.
-- 
2.43.0


From ba832ddabbeab1a161037a30c332829c069dd009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 25/30] fix: slstm applies the input weights of the candidate
 to the sentence state

---
 nn/gnn/slstm/slstm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nn/gnn/slstm/slstm.go b/nn/gnn/slstm/slstm.go
index 27ceb12..f3e6724 100644
--- a/nn/gnn/slstm/slstm.go
+++ b/nn/gnn/slstm/slstm.go
@@ -185,7 +185,7 @@ func (m *Model) computeVg(s *State, prevG mat.Tensor) {
 	s.VfPrevG = ag.Mul(m.CellGate.V, prevG)
 	s.VsPrevG = ag.Mul(m.SentCellGate.V, prevG)
 	s.VoPrevG = ag.Mul(m.OutputGate.V, prevG)
-	s.VuPrevG = ag.Mul(m.InputActivation.U, prevG)
+	s.VuPrevG = ag.Mul(m.InputActivation.V, prevG)
 }
 
 func (m *Model) updateHiddenNodes(s *State, prevH []mat.Tensor, prevC []mat.Tensor, prevG mat.Tensor) ([]mat.Tensor, []mat.Tensor) {
-- 
2.43.0


From e30d93f2a414866a7ddc630f6055cc01e1d09d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:03 +0000
Subject: [PATCH 26/30] fix: causal mask ignores the cached positions when a
 chunk of several tokens follows a cache

---
 nn/attention/attention.go           | 9 ++++++++-
 nn/attention/selfattention/model.go | 4 +++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/nn/attention/attention.go b/nn/attention/attention.go
index 511f5a0..7bc44ef 100644
--- a/nn/attention/attention.go
+++ b/nn/attention/attention.go
@@ -16,6 +16,13 @@ import (
 // This method requires that the query, the key and the value vectors have already been obtained
 // from the input sequence. The scaled factor is the square root of the dimension of the key vectors.
 func ScaledDotProductAttention(q []mat.Tensor, k, v, scaleFactor mat.Tensor, useCausalMask bool) ([]mat.Tensor, []mat.Tensor) {
+	return ScaledDotProductAttentionWithOffset(q, k, v, scaleFactor, useCausalMask, 0)
+}
+
+// ScaledDotProductAttentionWithOffset is like ScaledDotProductAttention, for queries that
+// follow the given number of earlier positions, whose keys and values are already the
+// first rows of k and v. The offset only affects the causal mask.
+func ScaledDotProductAttentionWithOffset(q []mat.Tensor, k, v, scaleFactor mat.Tensor, useCausalMask bool, offset int) ([]mat.Tensor, []mat.Tensor) {
 	nodes := make([]mat.Tensor, len(q)*2)
 	attention := nodes[:len(q)]
 	weights := nodes[len(q):]
@@ -32,7 +39,7 @@ func ScaledDotProductAttention(q []mat.Tensor, k, v, scaleFactor mat.Tensor, use
 		scores := ag.ProdScalar(kqii, scaleFactor)
 
 		if causalMaskEnabled {
-			causalMask := k.Value().(mat.Matrix).NewMatrix(mat.WithBacking(makeCausalMask(i, kRows))) // TODO: use external cache for causal mask?
+			causalMask := k.Value().(mat.Matrix).NewMatrix(mat.WithBacking(makeCausalMask(offset+i, kRows))) // TODO: use external cache for causal mask?
 			scores = ag.Add(scores, causalMask)
 		}
 
diff --git a/nn/attention/selfattention/model.go b/nn/attention/selfattention/model.go
index fd2faeb..f9b657c 100644
--- a/nn/attention/selfattention/model.go
+++ b/nn/attention/selfattention/model.go
@@ -75,6 +75,7 @@ func (m *Model) Init(rng *rand.LockedRand) {
 // Forward performs the forward step for each input node and returns the result.
 func (m *Model) Forward(cache Cache, q, x []mat.Tensor) ([]mat.Tensor, []mat.Tensor, Cache) {
 	var pk, pv mat.Tensor
+	offset := 0 // number of cached positions preceding the queries
 
 	pq := m.Query.Forward(q...)
 
@@ -86,6 +87,7 @@ func (m *Model) Forward(cache Cache, q, x []mat.Tensor) ([]mat.Tensor, []mat.Ten
 		v := m.Value.Forward(x...)
 
 		if hasCache {
+			offset = cache[0].Value().Shape()[0]
 			pk = ag.AppendRows(cache[0], k...)
 			pv = ag.AppendRows(cache[1], v...)
 		} else {
@@ -94,7 +96,7 @@ func (m *Model) Forward(cache Cache, q, x []mat.Tensor) ([]mat.Tensor, []mat.Ten
 		}
 	}
 
-	result, weights := attention.ScaledDotProductAttention(pq, pk, pv, m.ScaleFactor, m.UseCausalMask)
+	result, weights := attention.ScaledDotProductAttentionWithOffset(pq, pk, pv, m.ScaleFactor, m.UseCausalMask, offset)
 
 	return result, weights, Cache{pk, pv}
 }
-- 
2.43.0


From c293922aa78bcccfd10223134f54c69eaf7cf022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:40 +0000
Subject: [PATCH 27/30] fix: accumulating a gradient of the other precision
 panics

---
 mat/dense_grad.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mat/dense_grad.go b/mat/dense_grad.go
index 278b9f1..f92ab06 100644
--- a/mat/dense_grad.go
+++ b/mat/dense_grad.go
@@ -25,7 +25,8 @@ func (d *Dense[T]) AccGrad(grad Tensor) {
 	d.gradMu.Lock()
 	defer d.gradMu.Unlock()
 	if d.grad == nil {
-		d.grad = grad.(Matrix).Clone().(*Dense[T])
+		// a new matrix, of the receiver's type also when the gradient has another one
+		d.grad = makeDense(copySlice(Data[T](grad)), grad.Shape()...)
 		return
 	}
 	d.grad.AddInPlace(grad.(Matrix))
-- 
2.43.0


From f04fbe07ef5bc4cdc835c17b2c33acb6533adc32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:44 +0000
Subject: [PATCH 28/30] fix: multi-head projection overwrote the operands of
 its own concatenations

---
 nn/attention/multiheadattention/model.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nn/attention/multiheadattention/model.go b/nn/attention/multiheadattention/model.go
index 546a885..0882fe0 100644
--- a/nn/attention/multiheadattention/model.go
+++ b/nn/attention/multiheadattention/model.go
@@ -95,8 +95,8 @@ func (m *Model) Forward(cache Cache, q, x []mat.Tensor) ([]mat.Tensor, [][]mat.T
 
 func (m *Model) project(heads [][]mat.Tensor, seqLen int) []mat.Tensor {
 	n := len(heads)
-	buf := make([]mat.Tensor, seqLen*n)
-	concat := buf[:0] // shares the same backing array with buf
+	buf := make([]mat.Tensor, seqLen*n) // retained as operands by the concatenations
+	concat := make([]mat.Tensor, 0, seqLen)
 
 	for i := 0; i < seqLen; i++ {
 		buf2 := buf[i*n : i*n+n]
-- 
2.43.0


From 35cc117b41e5cc8c3fdb792efde75c6fc41b125f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:24 +0000
Subject: [PATCH 29/30] fix: honour negative increments in the assembly Ger
 kernels

The start of x and y was offset by the byte distance scaled once more by
the element size, the y pointer was reset to the unadjusted base after each
block of rows, and the float64 kernel returned without doing anything when
incY was negative.
---
 mat/internal/f32/asm32/ge_amd64.s  | 5 +++--
 mat/internal/f64/asm64/ger_amd64.s | 8 ++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/mat/internal/f32/asm32/ge_amd64.s b/mat/internal/f32/asm32/ge_amd64.s
index f8fd3df..bff9045 100644
--- a/mat/internal/f32/asm32/ge_amd64.s
+++ b/mat/internal/f32/asm32/ge_amd64.s
@@ -570,7 +570,7 @@ inc:  // Algorithm for incY != 0 ( split loads in kernel )
 	NEGQ    TMP1
 	CMPQ    INC_X, $0
 	CMOVQLT TMP1, TMP2
-	LEAQ    (X_PTR)(TMP2*SIZE), X_PTR
+	LEAQ    (X_PTR)(TMP2*1), X_PTR
 
 	XORQ    TMP2, TMP2
 	MOVQ    N, TMP1
@@ -579,7 +579,8 @@ inc:  // Algorithm for incY != 0 ( split loads in kernel )
 	NEGQ    TMP1
 	CMPQ    INC_Y, $0
 	CMOVQLT TMP1, TMP2
-	LEAQ    (Y_PTR)(TMP2*SIZE), Y_PTR
+	LEAQ    (Y_PTR)(TMP2*1), Y_PTR
+	MOVQ    Y_PTR, Y
 
 	SHRQ $2, M
 	JZ   inc_r2
diff --git a/mat/internal/f64/asm64/ger_amd64.s b/mat/internal/f64/asm64/ger_amd64.s
index 8cae569..6a38d5f 100644
--- a/mat/internal/f64/asm64/ger_amd64.s
+++ b/mat/internal/f64/asm64/ger_amd64.s
@@ -272,11 +272,10 @@ TEXT ·Ger(SB), NOSPLIT, $0
 	NEGQ    TMP1
 	CMPQ    INC_X, $0
 	CMOVQLT TMP1, TMP2
-	LEAQ    (X_PTR)(TMP2*SIZE), X_PTR
+	LEAQ    (X_PTR)(TMP2*1), X_PTR
 
 	CMPQ incY+80(FP), $1 // Check for dense vector Y (fast-path)
-	JG   inc
-	JL   end
+	JNE  inc
 
 	SHRQ $2, M
 	JZ   r2
@@ -441,7 +440,8 @@ inc:  // Algorithm for incY != 1 ( split loads in kernel )
 	NEGQ    TMP1
 	CMPQ    INC_Y, $0
 	CMOVQLT TMP1, TMP2
-	LEAQ    (Y_PTR)(TMP2*SIZE), Y_PTR
+	LEAQ    (Y_PTR)(TMP2*1), Y_PTR
+	MOVQ    Y_PTR, Y
 
 	SHRQ $2, M
 	JZ   inc_r2
-- 
2.43.0


From 245a43a7d2d608bb2ac26ced80e00fec7ab35fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:52 +0000
Subject: [PATCH 30/30] fix: norm of vectors with negative elements

---
 mat/dense.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mat/dense.go b/mat/dense.go
index 211ce80..4c74c18 100644
--- a/mat/dense.go
+++ b/mat/dense.go
@@ -1298,7 +1298,7 @@ func (d *Dense[T]) norm(pow float64) float64 {
 	}
 	var s float64
 	for _, x := range d.data {
-		s += math.Pow(float64(x), pow)
+		s += math.Pow(math.Abs(float64(x)), pow)
 	}
 	return math.Pow(s, 1/pow)
 }
-- 
2.43.0

