From e0bdf8f0ff57161324cdd4a736a0b2a166eb9c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:32 +0000
Subject: [PATCH 01/18] fix: propagate each complete gradient once, in
 topological order

The recursive walk re-propagated the gradient accumulated so far every time
an intermediate tensor was reached again, which gave wrong sums and
exponential work on graphs with reconverging paths.
---
 tensor/internal/gradtrack/back_propagation.go | 65 ++++++++++++++-----
 1 file changed, 48 insertions(+), 17 deletions(-)

diff --git a/tensor/internal/gradtrack/back_propagation.go b/tensor/internal/gradtrack/back_propagation.go
index b95b706..840dc22 100644
--- a/tensor/internal/gradtrack/back_propagation.go
+++ b/tensor/internal/gradtrack/back_propagation.go
@@ -3,7 +3,27 @@ package gradtrack
 import "github.com/sahandsafizadeh/qeep/tensor/internal/tensor"
 
 func BackPropagate(t tensor.Tensor) (err error) {
-	return backward(startEdge(t))
+	order := markReachable(t)
+	if len(order) == 0 {
+		return nil
+	}
+
+	err = propagate(startEdge(t))
+	if err != nil {
+		return
+	}
+
+	// consumers come before their operands: every gradient is complete when its back edges are followed
+	for i := len(order) - 1; i >= 0; i-- {
+		for _, e := range order[i].backEdges {
+			err = propagate(e)
+			if err != nil {
+				return
+			}
+		}
+	}
+
+	return nil
 }
 
 func startEdge(t tensor.Tensor) (edge *backwardEdge) {
@@ -16,13 +36,36 @@ func startEdge(t tensor.Tensor) (edge *backwardEdge) {
 	}
 }
 
-func backward(edge *backwardEdge) (err error) {
+// markReachable marks every tracked context reachable from t and returns them operands first.
+func markReachable(t tensor.Tensor) (order []*GradContext) {
+	visited := make(map[*GradContext]bool)
+
+	var visit func(*GradContext)
+	visit = func(gctx *GradContext) {
+		if !gctx.tracked || visited[gctx] {
+			return
+		}
+
+		visited[gctx] = true
+		gctx.bpdirty = true
+
+		for _, e := range gctx.backEdges {
+			visit(gradContextOf(e.target))
+		}
+
+		order = append(order, gctx)
+	}
+
+	visit(gradContextOf(t))
+
+	return order
+}
+
+func propagate(edge *backwardEdge) (err error) {
 	gctx := gradContextOf(edge.target)
 
 	if !gctx.tracked {
 		return nil
-	} else {
-		gctx.bpdirty = true
 	}
 
 	grad, err := edge.gradFn()
@@ -30,19 +73,7 @@ func backward(edge *backwardEdge) (err error) {
 		return
 	}
 
-	err = accumulateGrad(gctx, grad)
-	if err != nil {
-		return
-	}
-
-	for _, e := range gctx.backEdges {
-		err = backward(e)
-		if err != nil {
-			return
-		}
-	}
-
-	return nil
+	return accumulateGrad(gctx, grad)
 }
 
 func accumulateGrad(gctx *GradContext, grad tensor.Tensor) (err error) {
-- 
2.43.0


From 49ff4dcc0c66532dfd1c3c6a31a020795313dcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:53 +0000
Subject: [PATCH 02/18] fix: sum the gradient of implicitly broadcast operands

Add, Sub, Mul, Div, Dot and MatMul averaged the upstream gradient over the
copies of an expanded operand instead of summing it.
---
 tensor/internal/cputensor/cputensor.go        | 10 +----
 .../internal/cputensor/cputensor_helpers.go   | 44 ++++++++++++++-----
 tensor/internal/gradtrack/gradient_helpers.go | 27 ++++++++++++
 tensor/internal/gradtrack/gradients.go        | 21 +++++++++
 4 files changed, 83 insertions(+), 19 deletions(-)

diff --git a/tensor/internal/cputensor/cputensor.go b/tensor/internal/cputensor/cputensor.go
index becb5fc..a3802a5 100644
--- a/tensor/internal/cputensor/cputensor.go
+++ b/tensor/internal/cputensor/cputensor.go
@@ -257,19 +257,11 @@ func (t *CPUTensor) Flatten(fromDim int) (o tensor.Tensor, err error) {
 }
 
 func (t *CPUTensor) Broadcast(shape []int) (o tensor.Tensor, err error) {
-	err = validator.ValidateInputDims(shape)
-	if err != nil {
-		err = fmt.Errorf("Broadcast input shape validation failed: %w", err)
-		return
-	}
-
-	err = validator.ValidateBroadcastSourceDimsAgainstTargetDims(t.dims, shape)
+	r, err := t.validBroadcast(shape)
 	if err != nil {
-		err = fmt.Errorf("Broadcast input shape validation failed: %w", err)
 		return
 	}
 
-	r := t.broadcast(shape)
 	r.gctx = gradtrack.Broadcast(r, t)
 
 	return r, nil
diff --git a/tensor/internal/cputensor/cputensor_helpers.go b/tensor/internal/cputensor/cputensor_helpers.go
index 6f1dc8a..7a91e19 100644
--- a/tensor/internal/cputensor/cputensor_helpers.go
+++ b/tensor/internal/cputensor/cputensor_helpers.go
@@ -3,7 +3,9 @@ package cputensor
 import (
 	"fmt"
 
+	"github.com/sahandsafizadeh/qeep/tensor/internal/gradtrack"
 	"github.com/sahandsafizadeh/qeep/tensor/internal/tensor"
+	"github.com/sahandsafizadeh/qeep/tensor/internal/validator"
 )
 
 func assertCPUTensor(t tensor.Tensor) (ct *CPUTensor, err error) {
@@ -36,19 +38,16 @@ func assertCPUTensors(ts []tensor.Tensor) (cts []*CPUTensor, err error) {
 func broadcastForBinaryOp(ct1, ct2 *CPUTensor) (bct1, bct2 *CPUTensor, err error) {
 	shape := targetBroadcastDims(ct1.dims, ct2.dims)
 
-	t1, err := ct1.Broadcast(shape)
+	bct1, err = ct1.expandForOp(shape)
 	if err != nil {
 		return
 	}
 
-	t2, err := ct2.Broadcast(shape)
+	bct2, err = ct2.expandForOp(shape)
 	if err != nil {
 		return
 	}
 
-	bct1 = t1.(*CPUTensor)
-	bct2 = t2.(*CPUTensor)
-
 	return bct1, bct2, nil
 }
 
@@ -62,7 +61,7 @@ func broadcastForMatMul(ct1, ct2 *CPUTensor) (bct1, bct2 *CPUTensor, err error)
 	shape[lt-1] = ct1.dims[l1-1]
 	shape[lt-2] = ct1.dims[l1-2]
 
-	t1, err := ct1.Broadcast(shape)
+	bct1, err = ct1.expandForOp(shape)
 	if err != nil {
 		return
 	}
@@ -70,17 +69,42 @@ func broadcastForMatMul(ct1, ct2 *CPUTensor) (bct1, bct2 *CPUTensor, err error)
 	shape[lt-1] = ct2.dims[l2-1]
 	shape[lt-2] = ct2.dims[l2-2]
 
-	t2, err := ct2.Broadcast(shape)
+	bct2, err = ct2.expandForOp(shape)
 	if err != nil {
 		return
 	}
 
-	bct1 = t1.(*CPUTensor)
-	bct2 = t2.(*CPUTensor)
-
 	return bct1, bct2, nil
 }
 
+// expandForOp broadcasts an operand implicitly: its gradient is the sum over the expanded copies.
+func (t *CPUTensor) expandForOp(shape []int) (o *CPUTensor, err error) {
+	o, err = t.validBroadcast(shape)
+	if err != nil {
+		return
+	}
+
+	o.gctx = gradtrack.Expand(o, t)
+
+	return o, nil
+}
+
+func (t *CPUTensor) validBroadcast(shape []int) (o *CPUTensor, err error) {
+	err = validator.ValidateInputDims(shape)
+	if err != nil {
+		err = fmt.Errorf("Broadcast input shape validation failed: %w", err)
+		return
+	}
+
+	err = validator.ValidateBroadcastSourceDimsAgainstTargetDims(t.dims, shape)
+	if err != nil {
+		err = fmt.Errorf("Broadcast input shape validation failed: %w", err)
+		return
+	}
+
+	return t.broadcast(shape), nil
+}
+
 func targetBroadcastDims(dims1, dims2 []int) (dims []int) {
 	var small, large []int
 	if len(dims1) > len(dims2) {
diff --git a/tensor/internal/gradtrack/gradient_helpers.go b/tensor/internal/gradtrack/gradient_helpers.go
index 17d3460..a35b250 100644
--- a/tensor/internal/gradtrack/gradient_helpers.go
+++ b/tensor/internal/gradtrack/gradient_helpers.go
@@ -23,3 +23,30 @@ func reducerBroadcasted(y tensor.Tensor, x tensor.Tensor, dim int) (o tensor.Ten
 
 	return o, nil
 }
+
+func sumOverExpanded(g tensor.Tensor, srcDims []int) (o tensor.Tensor, err error) {
+	for len(g.Shape()) > len(srcDims) {
+		g, err = g.SumAlong(0)
+		if err != nil {
+			return
+		}
+	}
+
+	for i, d := range g.Shape() {
+		if d == srcDims[i] {
+			continue
+		}
+
+		g, err = g.SumAlong(i)
+		if err != nil {
+			return
+		}
+
+		g, err = g.UnSqueeze(i)
+		if err != nil {
+			return
+		}
+	}
+
+	return g, nil
+}
diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index bde4f97..85b95fc 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -246,6 +246,27 @@ func Broadcast(y tensor.Tensor, x tensor.Tensor) (gctx *GradContext) {
 	}
 }
 
+func Expand(y tensor.Tensor, x tensor.Tensor) (gctx *GradContext) {
+	if anyIsBPDirty(x) {
+		return NewDirtyGradContext()
+	}
+	if nonIsTracked(x) {
+		return NewGradContext(false)
+	}
+
+	return &GradContext{
+		tracked: true,
+		backEdges: []*backwardEdge{
+			{
+				target: x,
+				gradFn: func() (tensor.Tensor, error) {
+					return sumOverExpanded(y.Gradient(), x.Shape())
+				},
+			},
+		},
+	}
+}
+
 func SumAlong(y tensor.Tensor, x tensor.Tensor, dim int) (gctx *GradContext) {
 	if anyIsBPDirty(x) {
 		return NewDirtyGradContext()
-- 
2.43.0


From 0de0e6d41134c2ba4149cb72966f297b808ef1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:55 +0000
Subject: [PATCH 03/18] fix: align the upstream gradient of Dot with the
 contracted dimension

For operands of rank above one back-propagation failed or multiplied the
wrong rows.
---
 tensor/internal/gradtrack/gradient_helpers.go | 10 ++++++++++
 tensor/internal/gradtrack/gradients.go        |  4 ++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/tensor/internal/gradtrack/gradient_helpers.go b/tensor/internal/gradtrack/gradient_helpers.go
index a35b250..b2c5182 100644
--- a/tensor/internal/gradtrack/gradient_helpers.go
+++ b/tensor/internal/gradtrack/gradient_helpers.go
@@ -50,3 +50,13 @@ func sumOverExpanded(g tensor.Tensor, srcDims []int) (o tensor.Tensor, err error
 
 	return g, nil
 }
+
+func dotGradient(gy tensor.Tensor, other tensor.Tensor) (o tensor.Tensor, err error) {
+	// one upstream value per contracted row
+	gy, err = gy.UnSqueeze(len(other.Shape()) - 1)
+	if err != nil {
+		return
+	}
+
+	return gy.Mul(other)
+}
diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index 85b95fc..7ef87eb 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -1008,13 +1008,13 @@ func Dot(y tensor.Tensor, a tensor.Tensor, b tensor.Tensor) (gctx *GradContext)
 			{
 				target: a,
 				gradFn: func() (tensor.Tensor, error) {
-					return y.Gradient().Mul(b)
+					return dotGradient(y.Gradient(), b)
 				},
 			},
 			{
 				target: b,
 				gradFn: func() (tensor.Tensor, error) {
-					return y.Gradient().Mul(a)
+					return dotGradient(y.Gradient(), a)
 				},
 			},
 		},
-- 
2.43.0


From 5e804dfe7ddd56fc1b609a01fac0ec5991197c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:57 +0000
Subject: [PATCH 04/18] fix: slice the gradient of a Patch source at the
 source's own block

With an omitted or {0,0} range the source received the gradient of the whole
target dimension, of the wrong shape.
---
 tensor/internal/gradtrack/gradient_helpers.go | 14 ++++++++++++++
 tensor/internal/gradtrack/gradients.go        |  2 +-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/tensor/internal/gradtrack/gradient_helpers.go b/tensor/internal/gradtrack/gradient_helpers.go
index b2c5182..04e46cc 100644
--- a/tensor/internal/gradtrack/gradient_helpers.go
+++ b/tensor/internal/gradtrack/gradient_helpers.go
@@ -60,3 +60,17 @@ func dotGradient(gy tensor.Tensor, other tensor.Tensor) (o tensor.Tensor, err er
 
 	return gy.Mul(other)
 }
+
+// patchedBlock is the full index of the block that a patch source occupies in its target.
+func patchedBlock(index []tensor.Range, srcDims []int) (block []tensor.Range) {
+	block = make([]tensor.Range, len(srcDims))
+	for i, d := range srcDims {
+		if i < len(index) {
+			block[i].From = index[i].From
+		}
+
+		block[i].To = block[i].From + d
+	}
+
+	return block
+}
diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index 7ef87eb..e45d257 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -79,7 +79,7 @@ func Patch(y tensor.Tensor, x tensor.Tensor, p tensor.Tensor, index []tensor.Ran
 			{
 				target: p,
 				gradFn: func() (tensor.Tensor, error) {
-					return y.Gradient().Slice(index)
+					return y.Gradient().Slice(patchedBlock(index, p.Shape()))
 				},
 			},
 		},
-- 
2.43.0


From 765a71a1e769c90c5a7e80c8ab4ea4759600799f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:58 +0000
Subject: [PATCH 05/18] fix: zero gradient of Pow(0) at base 0

The rule evaluated 0 * 0^-1, which is NaN and reached predictions, inputs of
Sigmoid and everything else that derives ones from a tracked tensor.
---
 tensor/internal/gradtrack/gradients.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index e45d257..5ae8a41 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -557,6 +557,10 @@ func Pow(y tensor.Tensor, x tensor.Tensor, a float64) (gctx *GradContext) {
 			{
 				target: x,
 				gradFn: func() (tensor.Tensor, error) {
+					if a == 0 {
+						return toZeros(x), nil
+					}
+
 					gy := y.Gradient()
 					gx := x.Pow(a - 1)
 					gx = gx.Scale(a)
-- 
2.43.0


From b22d93660a3d5607c36ce6b51fafc1f50927c625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:00 +0000
Subject: [PATCH 06/18] fix: keep a copy of the index for the gradients of
 Slice and Patch

Changing the caller's slice after the call changed a later back-propagation.
---
 tensor/internal/gradtrack/gradients.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index 5ae8a41..760d8e8 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -46,6 +46,9 @@ func Slice(y tensor.Tensor, x tensor.Tensor, index []tensor.Range) (gctx *GradCo
 		return NewGradContext(false)
 	}
 
+	// used later, when the caller may have changed its slice
+	index = append([]tensor.Range(nil), index...)
+
 	return &GradContext{
 		tracked: true,
 		backEdges: []*backwardEdge{
@@ -67,6 +70,9 @@ func Patch(y tensor.Tensor, x tensor.Tensor, p tensor.Tensor, index []tensor.Ran
 		return NewGradContext(false)
 	}
 
+	// used later, when the caller may have changed its slice
+	index = append([]tensor.Range(nil), index...)
+
 	return &GradContext{
 		tracked: true,
 		backEdges: []*backwardEdge{
-- 
2.43.0


From 3ec446bfe524110b245feabf7820e13fabee9852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:01 +0000
Subject: [PATCH 07/18] fix: reject data that is ragged at any depth in
 TensorOf

Only siblings of one parent were compared, so deeper raggedness was accepted
or panicked.
---
 tensor/internal/validator/initializers.go | 121 ++++++++++------------
 1 file changed, 54 insertions(+), 67 deletions(-)

diff --git a/tensor/internal/validator/initializers.go b/tensor/internal/validator/initializers.go
index 89b137c..987b16a 100644
--- a/tensor/internal/validator/initializers.go
+++ b/tensor/internal/validator/initializers.go
@@ -1,6 +1,9 @@
 package validator
 
-import "fmt"
+import (
+	"fmt"
+	"slices"
+)
 
 func ValidateInputDims(dims []int) (err error) {
 	for i, d := range dims {
@@ -32,72 +35,8 @@ func ValidateRandNParams(_, s float64) (err error) {
 }
 
 func ValidateInputDataDimUnity(data any) (err error) {
-	zeroLenErr := fmt.Errorf("expected data to not have zero length along any dimension")
-	dimUnityErr := fmt.Errorf("expected data to have have equal length along every dimension")
-
-	switch v := data.(type) {
-	case float64:
-	case []float64:
-		if len(v) == 0 {
-			return zeroLenErr
-		}
-
-	case [][]float64:
-		if len(v) == 0 {
-			return zeroLenErr
-		}
-
-		dim := len(v[0])
-		for _, sub := range v {
-			err = ValidateInputDataDimUnity(sub)
-			if err != nil {
-				return
-			}
-
-			if len(sub) != dim {
-				return dimUnityErr
-			}
-		}
-
-	case [][][]float64:
-		if len(v) == 0 {
-			return zeroLenErr
-		}
-
-		dim := len(v[0])
-		for _, sub := range v {
-			err = ValidateInputDataDimUnity(sub)
-			if err != nil {
-				return
-			}
-
-			if len(sub) != dim {
-				return dimUnityErr
-			}
-		}
-
-	case [][][][]float64:
-		if len(v) == 0 {
-			return zeroLenErr
-		}
-
-		dim := len(v[0])
-		for _, sub := range v {
-			err = ValidateInputDataDimUnity(sub)
-			if err != nil {
-				return
-			}
-
-			if len(sub) != dim {
-				return dimUnityErr
-			}
-		}
-
-	default:
-		panic("unreachable: compiler accepted input must be of type float64 | []float64 | [][]float64 | [][][]float64 | [][][][]float64")
-	}
-
-	return nil
+	_, err = unifiedDataDims(data)
+	return err
 }
 
 func ValidateConcatTensorsDimsAlongDim(tsDims [][]int, dim int) (err error) {
@@ -132,3 +71,51 @@ func ValidateConcatTensorsDimsAlongDim(tsDims [][]int, dim int) (err error) {
 
 	return nil
 }
+
+/* ----- helpers ----- */
+
+func unifiedDataDims(data any) (dims []int, err error) {
+	switch v := data.(type) {
+	case float64:
+		return nil, nil
+
+	case []float64:
+		return unifiedSubDataDims(v)
+
+	case [][]float64:
+		return unifiedSubDataDims(v)
+
+	case [][][]float64:
+		return unifiedSubDataDims(v)
+
+	case [][][][]float64:
+		return unifiedSubDataDims(v)
+
+	default:
+		panic("unreachable: compiler accepted input must be of type float64 | []float64 | [][]float64 | [][][]float64 | [][][][]float64")
+	}
+}
+
+func unifiedSubDataDims[T any](data []T) (dims []int, err error) {
+	if len(data) == 0 {
+		err = fmt.Errorf("expected data to not have zero length along any dimension")
+		return
+	}
+
+	var base []int
+	for i, sub := range data {
+		subDims, err := unifiedDataDims(any(sub))
+		if err != nil {
+			return nil, err
+		}
+
+		if i == 0 {
+			base = subDims
+		} else if !slices.Equal(subDims, base) {
+			err = fmt.Errorf("expected data to have have equal length along every dimension")
+			return nil, err
+		}
+	}
+
+	return append([]int{len(data)}, base...), nil
+}
-- 
2.43.0


From ce9ec12079782e375e7571ae59a91b799d70a17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:02 +0000
Subject: [PATCH 08/18] fix: normalise Softmax along its configured dimension

The reduced sum was right-aligned with the input, which is wrong or fails
for every dimension but the first.
---
 component/layers/activations/softmax.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/component/layers/activations/softmax.go b/component/layers/activations/softmax.go
index d941710..d9ab619 100644
--- a/component/layers/activations/softmax.go
+++ b/component/layers/activations/softmax.go
@@ -46,6 +46,11 @@ func (c *Softmax) forward(x tensor.Tensor) (y tensor.Tensor, err error) {
 		return
 	}
 
+	s, err = s.UnSqueeze(c.dim)
+	if err != nil {
+		return
+	}
+
 	return x.Div(s)
 }
 
-- 
2.43.0


From 898efd846a11799d551638adb4297f883848de62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:04 +0000
Subject: [PATCH 09/18] fix: no overflow in the divisor gradient of Div

Squaring the divisor overflowed or underflowed where the gradient itself is
finite, for example in Softmax of inputs beyond 355.
---
 tensor/internal/gradtrack/gradients.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index 760d8e8..ad780ef 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -989,10 +989,7 @@ func Div(y tensor.Tensor, a tensor.Tensor, b tensor.Tensor) (gctx *GradContext)
 				gradFn: func() (o tensor.Tensor, err error) {
 					gy := y.Gradient()
 
-					n := a.Scale(-1)
-					d := b.Pow(2)
-
-					gb, err := n.Div(d)
+					gb, err := y.Scale(-1).Div(b)
 					if err != nil {
 						return
 					}
-- 
2.43.0


From 14a1b57ce758b1b67d163b064d9ea62d523cd1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:05 +0000
Subject: [PATCH 10/18] fix: report unset Input.SeedFunc and FC parameters as
 errors

Forward panicked on them.
---
 component/layers/fc.go    | 5 +++++
 component/layers/input.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/component/layers/fc.go b/component/layers/fc.go
index 7c2bf74..e76cd6d 100644
--- a/component/layers/fc.go
+++ b/component/layers/fc.go
@@ -114,6 +114,11 @@ func (c *FC) forward(x tensor.Tensor) (y tensor.Tensor, err error) {
 /* ----- helpers ----- */
 
 func (c *FC) toValidInputs(xs []tensor.Tensor) (x tensor.Tensor, err error) {
+	if c.Weight == nil || c.Bias == nil {
+		err = fmt.Errorf("expected weights not to be nil")
+		return
+	}
+
 	if len(xs) != 1 {
 		err = fmt.Errorf("expected exactly one input tensor: got (%d)", len(xs))
 		return
diff --git a/component/layers/input.go b/component/layers/input.go
index c85a765..30e3bf4 100644
--- a/component/layers/input.go
+++ b/component/layers/input.go
@@ -32,5 +32,10 @@ func (c *Input) validateInputs(xs []tensor.Tensor) (err error) {
 		return
 	}
 
+	if c.SeedFunc == nil {
+		err = fmt.Errorf("expected 'SeedFunc' to be set")
+		return
+	}
+
 	return nil
 }
-- 
2.43.0


From e9970169f25898132b72bda31a4cd3fd9fccdb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:06 +0000
Subject: [PATCH 11/18] fix: keep RandU below its upper bound

Rounding could return the excluded bound, and a range wider than the largest
float returned infinities.
---
 tensor/internal/cputensor/initializers.go | 24 +++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/tensor/internal/cputensor/initializers.go b/tensor/internal/cputensor/initializers.go
index 7566020..d7b3060 100644
--- a/tensor/internal/cputensor/initializers.go
+++ b/tensor/internal/cputensor/initializers.go
@@ -1,6 +1,10 @@
 package cputensor
 
-import "gonum.org/v1/gonum/stat/distuv"
+import (
+	"math"
+
+	"gonum.org/v1/gonum/stat/distuv"
+)
 
 func (t *CPUTensor) initWith(initFunc initializerFunc) {
 
@@ -45,7 +49,7 @@ func uniformRandomTensor(l, u float64, dims []int) (t *CPUTensor) {
 	t.dims = make([]int, len(dims))
 	copy(t.dims, dims)
 	t.initWith(func() any {
-		return distuv.Uniform{Min: l, Max: u}.Rand()
+		return uniformSample(l, u)
 	})
 
 	return t
@@ -190,6 +194,22 @@ func initConcatResultTensor(ts []*CPUTensor, dim int) (o *CPUTensor) {
 
 /* ----- helpers ----- */
 
+func uniformSample(l, u float64) (x float64) {
+	if math.IsInf(u-l, 0) {
+		r := distuv.Uniform{Min: 0, Max: 1}.Rand()
+		x = l*(1-r) + u*r
+	} else {
+		x = distuv.Uniform{Min: l, Max: u}.Rand()
+	}
+
+	// rounding may reach the upper bound, which is excluded
+	if x >= u {
+		return math.Nextafter(u, l)
+	}
+
+	return x
+}
+
 func eyeElemGenerator(n int) initializerFunc {
 	var state int
 
-- 
2.43.0


From 26bd9436ec9a2bb15d2baf6caabc4c82db1212c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:07 +0000
Subject: [PATCH 12/18] fix: no integer overflow in the Xavier scales

---
 component/initializers/xavier_normal.go  | 2 +-
 component/initializers/xavier_uniform.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/component/initializers/xavier_normal.go b/component/initializers/xavier_normal.go
index 4df7b74..cc982ff 100644
--- a/component/initializers/xavier_normal.go
+++ b/component/initializers/xavier_normal.go
@@ -31,7 +31,7 @@ func NewXavierNormal(conf *XavierNormalConfig) (c *XavierNormal, err error) {
 }
 
 func (c *XavierNormal) Init(shape []int) (x tensor.Tensor, err error) {
-	s := math.Sqrt(2. / float64(c.fanIn+c.fanOut))
+	s := math.Sqrt(2. / (float64(c.fanIn) + float64(c.fanOut)))
 	return tensor.RandN(shape, 0., s, tensorInitConf())
 }
 
diff --git a/component/initializers/xavier_uniform.go b/component/initializers/xavier_uniform.go
index 575f73b..ff84e48 100644
--- a/component/initializers/xavier_uniform.go
+++ b/component/initializers/xavier_uniform.go
@@ -31,7 +31,7 @@ func NewXavierUniform(conf *XavierUniformConfig) (c *XavierUniform, err error) {
 }
 
 func (c *XavierUniform) Init(shape []int) (x tensor.Tensor, err error) {
-	r := math.Sqrt(6. / float64(c.fanIn+c.fanOut))
+	r := math.Sqrt(6. / (float64(c.fanIn) + float64(c.fanOut)))
 	return tensor.RandU(shape, -r, r, tensorInitConf())
 }
 
-- 
2.43.0


From e069c56f9d7193bbbd60eff9ea89304053dec136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:08 +0000
Subject: [PATCH 13/18] fix: compare exactly in the gradients of extrema

The equality threshold treated distinct values below 1e-240 as ties, so Relu
and Max gradients were wrong for tiny inputs.
---
 tensor/internal/gradtrack/gradient_helpers.go | 24 +++++++++
 tensor/internal/gradtrack/gradients.go        | 52 +++----------------
 2 files changed, 30 insertions(+), 46 deletions(-)

diff --git a/tensor/internal/gradtrack/gradient_helpers.go b/tensor/internal/gradtrack/gradient_helpers.go
index 04e46cc..9cdc45e 100644
--- a/tensor/internal/gradtrack/gradient_helpers.go
+++ b/tensor/internal/gradtrack/gradient_helpers.go
@@ -74,3 +74,27 @@ func patchedBlock(index []tensor.Range, srcDims []int) (block []tensor.Range) {
 
 	return block
 }
+
+// selectionWeight is 1 where the operand is selected, 1/2 where both are equal and 0 elsewhere.
+func selectionWeight(
+	weak func(tensor.Tensor) (tensor.Tensor, error),
+	strict func(tensor.Tensor) (tensor.Tensor, error),
+	other tensor.Tensor,
+) (o tensor.Tensor, err error) {
+	w, err := weak(other)
+	if err != nil {
+		return
+	}
+
+	s, err := strict(other)
+	if err != nil {
+		return
+	}
+
+	o, err = w.Add(s)
+	if err != nil {
+		return
+	}
+
+	return o.Scale(0.5), nil
+}
diff --git a/tensor/internal/gradtrack/gradients.go b/tensor/internal/gradtrack/gradients.go
index ad780ef..e7937b2 100644
--- a/tensor/internal/gradtrack/gradients.go
+++ b/tensor/internal/gradtrack/gradients.go
@@ -318,7 +318,7 @@ func MaxAlong(y tensor.Tensor, x tensor.Tensor, dim int) (gctx *GradContext) {
 						return
 					}
 
-					gx, err := x.Eq(yb)
+					gx, err := x.Ge(yb)
 					if err != nil {
 						return
 					}
@@ -354,7 +354,7 @@ func MinAlong(y tensor.Tensor, x tensor.Tensor, dim int) (gctx *GradContext) {
 						return
 					}
 
-					gx, err := x.Eq(yb)
+					gx, err := x.Le(yb)
 					if err != nil {
 						return
 					}
@@ -780,17 +780,7 @@ func ElMax(y tensor.Tensor, a tensor.Tensor, b tensor.Tensor) (gctx *GradContext
 				gradFn: func() (o tensor.Tensor, err error) {
 					gy := y.Gradient()
 
-					ga, err := y.Eq(a)
-					if err != nil {
-						return
-					}
-
-					eq, err := a.Eq(b)
-					if err != nil {
-						return
-					}
-
-					ga, err = ga.Sub(eq.Scale(0.5))
+					ga, err := selectionWeight(a.Ge, a.Gt, b)
 					if err != nil {
 						return
 					}
@@ -803,17 +793,7 @@ func ElMax(y tensor.Tensor, a tensor.Tensor, b tensor.Tensor) (gctx *GradContext
 				gradFn: func() (o tensor.Tensor, err error) {
 					gy := y.Gradient()
 
-					gb, err := y.Eq(b)
-					if err != nil {
-						return
-					}
-
-					eq, err := b.Eq(a)
-					if err != nil {
-						return
-					}
-
-					gb, err = gb.Sub(eq.Scale(0.5))
+					gb, err := selectionWeight(b.Ge, b.Gt, a)
 					if err != nil {
 						return
 					}
@@ -841,17 +821,7 @@ func ElMin(y tensor.Tensor, a tensor.Tensor, b tensor.Tensor) (gctx *GradContext
 				gradFn: func() (o tensor.Tensor, err error) {
 					gy := y.Gradient()
 
-					ga, err := y.Eq(a)
-					if err != nil {
-						return
-					}
-
-					eq, err := a.Eq(b)
-					if err != nil {
-						return
-					}
-
-					ga, err = ga.Sub(eq.Scale(0.5))
+					ga, err := selectionWeight(a.Le, a.Lt, b)
 					if err != nil {
 						return
 					}
@@ -864,17 +834,7 @@ func ElMin(y tensor.Tensor, a tensor.Tensor, b tensor.Tensor) (gctx *GradContext
 				gradFn: func() (o tensor.Tensor, err error) {
 					gy := y.Gradient()
 
-					gb, err := y.Eq(b)
-					if err != nil {
-						return
-					}
-
-					eq, err := b.Eq(a)
-					if err != nil {
-						return
-					}
-
-					gb, err = gb.Sub(eq.Scale(0.5))
+					gb, err := selectionWeight(b.Le, b.Lt, a)
 					if err != nil {
 						return
 					}
-- 
2.43.0


From 88b3f1279c5f39b5bf0155cae105df0acd8c1005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:19 +0000
Subject: [PATCH 14/18] fix: finite gradient of Sigmoid at large negative
 inputs

Below -709 e^-x overflowed and back-propagation multiplied zero by infinity.
---
 component/layers/activations/sigmoid.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/component/layers/activations/sigmoid.go b/component/layers/activations/sigmoid.go
index 4a47b80..0b9ad12 100644
--- a/component/layers/activations/sigmoid.go
+++ b/component/layers/activations/sigmoid.go
@@ -9,6 +9,8 @@ import (
 type Sigmoid struct {
 }
 
+const sigmoidExpLimit = 709.
+
 func NewSigmoid() (c *Sigmoid) {
 	return &Sigmoid{}
 }
@@ -26,6 +28,13 @@ func (c *Sigmoid) Forward(xs ...tensor.Tensor) (y tensor.Tensor, err error) {
 func (c *Sigmoid) forward(x tensor.Tensor) (y tensor.Tensor, err error) {
 	_1 := x.Pow(0)
 	x = x.Scale(-1)
+
+	// beyond the limit e^-x overflows while the result and its gradient stay (almost) zero
+	x, err = x.ElMin(_1.Scale(sigmoidExpLimit))
+	if err != nil {
+		return
+	}
+
 	x = x.Exp()
 
 	y, err = _1.Add(x)
-- 
2.43.0


From feed4a59020998c7816e637502c07945bc502643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:20 +0000
Subject: [PATCH 15/18] fix: equal infinities compare equal

---
 tensor/internal/cputensor/operators.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tensor/internal/cputensor/operators.go b/tensor/internal/cputensor/operators.go
index f2c3fa6..2805530 100644
--- a/tensor/internal/cputensor/operators.go
+++ b/tensor/internal/cputensor/operators.go
@@ -47,7 +47,7 @@ func (t *CPUTensor) tanh() (o *CPUTensor) {
 func (t *CPUTensor) eq(u *CPUTensor) (o *CPUTensor) {
 	return applyBinaryFuncOnTensorsElemWise(t, u,
 		func(a, b float64) float64 {
-			if math.Abs(a-b) <= float64EqualityThreshold {
+			if a == b || math.Abs(a-b) <= float64EqualityThreshold {
 				return 1.
 			} else {
 				return 0.
@@ -58,7 +58,7 @@ func (t *CPUTensor) eq(u *CPUTensor) (o *CPUTensor) {
 func (t *CPUTensor) ne(u *CPUTensor) (o *CPUTensor) {
 	return applyBinaryFuncOnTensorsElemWise(t, u,
 		func(a, b float64) float64 {
-			if math.Abs(a-b) <= float64EqualityThreshold {
+			if a == b || math.Abs(a-b) <= float64EqualityThreshold {
 				return 0.
 			} else {
 				return 1.
-- 
2.43.0


From 07c53d98cb6289ab3583b8825446edb2d6120152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:14 +0000
Subject: [PATCH 16/18] fix: Softmax gradient was NaN for inputs near -700 with
 large upstream gradients

---
 component/layers/activations/softmax.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/component/layers/activations/softmax.go b/component/layers/activations/softmax.go
index d9ab619..548fc50 100644
--- a/component/layers/activations/softmax.go
+++ b/component/layers/activations/softmax.go
@@ -39,6 +39,24 @@ func (c *Softmax) Forward(xs ...tensor.Tensor) (y tensor.Tensor, err error) {
 }
 
 func (c *Softmax) forward(x tensor.Tensor) (y tensor.Tensor, err error) {
+	// shifting by the maximum along the dimension keeps e^x and its sum in range, the result is the same
+	m, err := x.MaxAlong(c.dim)
+	if err != nil {
+		return
+	}
+
+	m, err = m.UnSqueeze(c.dim)
+	if err != nil {
+		return
+	}
+
+	m.ResetGradContext(false)
+
+	x, err = x.Sub(m)
+	if err != nil {
+		return
+	}
+
 	x = x.Exp()
 
 	s, err := x.SumAlong(c.dim)
-- 
2.43.0


From dfad9d6bcc699a38aa82b24e4d1c3fc71a8fbcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:37 +0000
Subject: [PATCH 17/18] fix: gradients next to infinite operand elements were
 not numbers (zeros were made by scaling)

---
 tensor/internal/gradtrack/gradient_helpers.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tensor/internal/gradtrack/gradient_helpers.go b/tensor/internal/gradtrack/gradient_helpers.go
index 9cdc45e..a24ecbf 100644
--- a/tensor/internal/gradtrack/gradient_helpers.go
+++ b/tensor/internal/gradtrack/gradient_helpers.go
@@ -3,7 +3,8 @@ package gradtrack
 import "github.com/sahandsafizadeh/qeep/tensor/internal/tensor"
 
 func toZeros(t tensor.Tensor) (o tensor.Tensor) {
-	return t.Scale(0)
+	// t may hold infinite values, scaling those by zero is not a number
+	return toOnes(t).Scale(0)
 }
 
 func toOnes(t tensor.Tensor) (o tensor.Tensor) {
-- 
2.43.0


From d150974fe2b74e3cda8b137563db40e883ca6a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 18/18] fix: Reshape accepted sizes whose product overflows to
 the number of elements (and panicked)

---
 tensor/internal/validator/shape_modifiers.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/tensor/internal/validator/shape_modifiers.go b/tensor/internal/validator/shape_modifiers.go
index 05bc66a..e4e9b8a 100644
--- a/tensor/internal/validator/shape_modifiers.go
+++ b/tensor/internal/validator/shape_modifiers.go
@@ -15,7 +15,7 @@ func ValidateReshapeSourceDimsAgainstTargetDims(srcDims, dstDims []int) (err err
 	srcElems := dimsToNumElems(srcDims)
 	dstElems := dimsToNumElems(dstDims)
 
-	if dstElems != srcElems {
+	if !dimsHaveNumElems(dstDims, srcElems) {
 		err = fmt.Errorf("expected number of elements in source and target tensors to match: (%d) != (%d)", srcElems, dstElems)
 		return
 	}
@@ -79,6 +79,19 @@ func ValidateBroadcastSourceDimsAgainstTargetDims(srcDims, dstDims []int) (err e
 
 /* ----- helpers ----- */
 
+// dimsHaveNumElems does not multiply the sizes: an overflowing product may coincide with the number of elements.
+func dimsHaveNumElems(dims []int, elems int) (ok bool) {
+	for _, dim := range dims {
+		if dim <= 0 || elems%dim != 0 {
+			return false
+		}
+
+		elems /= dim
+	}
+
+	return elems == 1
+}
+
 func dimsToNumElems(dims []int) (elems int) {
 	elems = 1
 	for _, dim := range dims {
-- 
2.43.0

