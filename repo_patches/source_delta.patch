From 3b8818d607efe636ef09a0c83dbe682c9a138982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:26 +0000
Subject: [PATCH 001/117] fix: weigh samples, not outputs, in MeanSquaredError
 and MeanAbsoluteError

sampleWeight holds one weight per sample; it was indexed by output.
---
 metrics/regression.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metrics/regression.go b/metrics/regression.go
index a3ad59e..a412235 100644
--- a/metrics/regression.go
+++ b/metrics/regression.go
@@ -160,7 +160,7 @@ func MeanSquaredError(yTrue, yPred mat.Matrix, sampleWeight *mat.Dense, multiout
 			ydiff := yPred.At(i, j) - yTrue.At(i, j)
 			w := 1.
 			if sampleWeight != nil {
-				w = sampleWeight.At(0, j)
+				w = sampleWeight.At(i, 0)
 			}
 			N += w * (ydiff * ydiff)
 			D += w
@@ -227,7 +227,7 @@ func MeanAbsoluteError(yTrue, yPred mat.Matrix, sampleWeight *mat.Dense, multiou
 			ydiff := yPred.At(i, j) - yTrue.At(i, j)
 			w := 1.
 			if sampleWeight != nil {
-				w = sampleWeight.At(0, j)
+				w = sampleWeight.At(i, 0)
 			}
 			N += w * math.Abs(ydiff)
 			D += w
-- 
2.43.0


From f3f2d2e86374c360eb6c888fb6026e8c959a0af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:10 +0000
Subject: [PATCH 002/117] fix: weight classes by support in weighted precision,
 recall and F-score averages

---
 metrics/classification.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metrics/classification.go b/metrics/classification.go
index 6c4d763..6153495 100644
--- a/metrics/classification.go
+++ b/metrics/classification.go
@@ -127,7 +127,7 @@ func PrecisionRecallFScoreSupport(YTrue, YPred *mat.Dense, beta float64, labels
 			}
 		}
 
-		m := prfstype{stat.Mean(p, nil), stat.Mean(r, nil), stat.Mean(f, nil), stat.Mean(s, nil)}
+		m := prfstype{stat.Mean(p, s), stat.Mean(r, s), stat.Mean(f, s), stat.Mean(s, nil)}
 		precision, recall, fscore, support = m.p, m.r, m.f, 0
 	}
 	// for average=micro
-- 
2.43.0


From 12fb9dcc5d33c7db1d22533bedfb108d0940ed32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:10 +0000
Subject: [PATCH 003/117] fix: give labels that occur only in predictions their
 own confusion matrix class

---
 metrics/classification.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metrics/classification.go b/metrics/classification.go
index 6153495..7475ea0 100644
--- a/metrics/classification.go
+++ b/metrics/classification.go
@@ -154,7 +154,12 @@ func ConfusionMatrix(YTrue, YPred *mat.Dense, sampleWeight []float64) *mat.Dense
 func internalConfusionMatrix(YTrue, YPred *mat.Dense, sampleWeight []float64) (*mat.Dense, *mat.Dense, *mat.Dense, *preprocessing.LabelEncoder) {
 	le := preprocessing.NewLabelEncoder()
 	le.Fit(nil, YTrue)
-	//le.PartialFit(nil, YPred)
+	le.PartialFit(nil, YPred)
+	for _, support := range le.Support {
+		for c := range support {
+			support[c] = 0
+		}
+	}
 	_, yt := le.Transform(nil, YTrue)
 	_, yp := le.Transform(nil, YPred)
 	//var tn, fp, fn, tp int
@@ -172,6 +177,7 @@ func internalConfusionMatrix(YTrue, YPred *mat.Dense, sampleWeight []float64) (*
 			}
 			// cm.Set(r, c, cm.At(r, c)+w)
 			cmmat.Data[r*cmmat.Stride+c] += w
+			le.Support[i][r]++
 		}
 	}
 	return cm, yt, yp, le
-- 
2.43.0


From 90bba4dde3ffb11d020e3c6ded3cc98da6073c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:09 +0000
Subject: [PATCH 004/117] fix: IncrementalMeanAndVar combines the variances of
 successive batches

---
 preprocessing/data.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index ade9f73..84535bf 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -522,8 +522,8 @@ func IncrementalMeanAndVar(X, lastMean, lastVariance *mat.Dense,
 		//     (lastSum / lastOverNewCount - newSum) ** 2)
 		tmp.CloneFrom(lastSum)
 		tmp.Scale(1./lastOverNewCount, tmp)
-		tmp.Add(tmp, newSum)
-		tmp.Mul(tmp, tmp)
+		tmp.Sub(tmp, newSum)
+		tmp.MulElem(tmp, tmp)
 		tmp.Scale(lastOverNewCount/float(updatedSampleCount), tmp)
 
 		updatedUnnormalizedVariance.CloneFrom(lastUnnormalizedVariance)
-- 
2.43.0


From c3e92fa5a5383850748a7778850d479517c949da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:09 +0000
Subject: [PATCH 005/117] fix: MeanStdDev rescales to the population standard
 deviation by the number of rows

---
 preprocessing/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 84535bf..4cb5965 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -248,7 +248,7 @@ func MeanStdDev(X mat.Matrix) (mean, std *mat.Dense) {
 			mat.Col(tmp, col, X)
 			meancol, stdcol := stat.MeanStdDev(tmp, nil)
 			mean.Set(0, col, meancol)
-			std.Set(0, col, stdcol*float64(n-1)/float64(n))
+			std.Set(0, col, stdcol*math.Sqrt(float64(m-1)/float64(m)))
 		}
 	})
 
-- 
2.43.0


From 651c580ec296fc97ed3946968cf22de997fee011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:09 +0000
Subject: [PATCH 006/117] fix: RobustScaler can be fitted again on data of
 another size

---
 preprocessing/data.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 4cb5965..b454ada 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -346,6 +346,7 @@ func NewRobustScaler(center bool, scale bool, quantiles *QuantilePair) *RobustSc
 
 // Reset ...
 func (scaler *RobustScaler) Reset() *RobustScaler {
+	scaler.Median, scaler.Tmp, scaler.QuantileDivider = nil, nil, nil
 	return scaler
 }
 
-- 
2.43.0


From a8e2749ea3ca12fbfd7d7c80037c302bb6e19d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:09 +0000
Subject: [PATCH 007/117] fix: MaxAbsScaler.Fit restarts the count of samples
 seen

---
 preprocessing/data.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index b454ada..35f93a4 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -931,6 +931,7 @@ func (m *MaxAbsScaler) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	Xmat := X.RawMatrix()
 	m.MaxAbs = make([]float64, Xmat.Cols)
 	m.Scale = make([]float64, Xmat.Cols)
+	m.NSamplesSeen = 0
 	return m.PartialFit(X, Y)
 }
 
-- 
2.43.0


From abc0fdb79cc5ae739a6521e481a1e7ff4c59e186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:09 +0000
Subject: [PATCH 008/117] fix: Normalizer row norms for non-square data

---
 preprocessing/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 35f93a4..ccb5f65 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1043,7 +1043,7 @@ func (m *Normalizer) Transform(Xmatrix, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 		m.nrmValues = make([]float64, NSamples)
 		for i := 0; i < NSamples; i++ {
 			mat.Row(tmp, i, X)
-			nrm := mat.Norm(mat.NewVecDense(NSamples, tmp), norm)
+			nrm := mat.Norm(mat.NewVecDense(NFeatures, tmp), norm)
 			m.nrmValues[i] = nrm
 			if nrm != 0 {
 				floats.Scale(1/nrm, tmp)
-- 
2.43.0


From f8b17a1291b6c8a8cf399232772badb9b9564354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:09 +0000
Subject: [PATCH 009/117] fix: Normalizer.InverseTransform allocates its output

---
 preprocessing/data.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index ccb5f65..871b5a9 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1064,6 +1064,7 @@ func (m *Normalizer) FitTransform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 // InverseTransform for Normalizer ...
 func (m *Normalizer) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
 	NSamples, NFeatures := X.Dims()
+	Xout, Yout = mat.NewDense(NSamples, NFeatures, nil), Y
 	if m.Axis == 0 {
 		tmp := make([]float64, NSamples)
 		for i := 0; i < NFeatures; i++ {
-- 
2.43.0


From d9b738ec894cd7e3492347c773dd512cfdbd0328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:09 +0000
Subject: [PATCH 010/117] fix: KernelCenterer.Transform output has the shape of
 its input

---
 preprocessing/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 871b5a9..63c5f48 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1130,7 +1130,7 @@ func (m *KernelCenterer) Transform(Xmatrix, Y mat.Matrix) (Xout, Yout *mat.Dense
 		}
 	})
 	Xmat := X.RawMatrix()
-	Xout = mat.NewDense(Xmat.Cols, Xmat.Cols, nil)
+	Xout = mat.NewDense(Xmat.Rows, Xmat.Cols, nil)
 	Xoutmat := Xout.RawMatrix()
 	for j, jX, jXout := 0, 0, 0; j < Xmat.Rows; j, jX, jXout = j+1, jX+Xmat.Stride, jXout+Xoutmat.Stride {
 		for i, v := range Xmat.Data[jX : jX+Xmat.Cols] {
-- 
2.43.0


From 09ed81fb029dcebef2bf65b10fd1edf4297057e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:09 +0000
Subject: [PATCH 011/117] fix: Binarizer.Transform of a strided matrix

---
 preprocessing/data.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 63c5f48..1517d76 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -891,13 +891,13 @@ func (m *Binarizer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	Xout = mat.NewDense(rmx.Rows, rmx.Cols, nil)
 	rmXout := Xout.RawMatrix()
 	Yout = base.ToDense(Y)
-	for r, xpos := 0, 0; r < rmx.Rows; r, xpos = r+1, xpos+rmx.Stride {
+	for r, xpos, xopos := 0, 0, 0; r < rmx.Rows; r, xpos, xopos = r+1, xpos+rmx.Stride, xopos+rmXout.Stride {
 		for c := 0; c < rmx.Cols; c++ {
 
 			if rmx.Data[xpos+c] > m.Threshold {
-				rmXout.Data[xpos+c] = 1
+				rmXout.Data[xopos+c] = 1
 			} else {
-				rmXout.Data[xpos+c] = 0
+				rmXout.Data[xopos+c] = 0
 			}
 		}
 	}
-- 
2.43.0


From 2686f03cef9db89830460d2e2e755fe3ce8cc80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:09 +0000
Subject: [PATCH 012/117] fix: PolynomialFeatures.InverseTransform returns Y

---
 preprocessing/data.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 1517d76..56eefa7 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -648,6 +648,7 @@ func (poly *PolynomialFeatures) InverseTransform(X, Y *mat.Dense) (Xout, Yout *m
 			Xout.Set(i, pair.jorig, X.At(i, pair.jpoly))
 		}
 	}
+	Yout = Y
 	return
 }
 
-- 
2.43.0


From 58bd2e4286064d858602bf5cc7b4290d52ec1d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:09 +0000
Subject: [PATCH 013/117] fix: DenseMean ignores the previous contents of Xmean

---
 preprocessing/data.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 56eefa7..cad38b1 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -658,7 +658,8 @@ func DenseMean(Xmean *mat.Dense, X mat.Matrix) *mat.Dense {
 	if Xmean == nil {
 		Xmean = mat.NewDense(1, nFeatures, nil)
 	}
-	Xmean.Apply(func(i int, j int, v float64) float64 {
+	Xmean.Apply(func(i int, j int, _ float64) float64 {
+		v := 0.
 		for i := 0; i < nSamples; i++ {
 			v += X.At(i, j)
 		}
-- 
2.43.0


From 6435304a7db65248721b228f2cb809618e63ea05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:09 +0000
Subject: [PATCH 014/117] fix: OneHotEncoder.InverseTransform returns the
 encoded values

---
 preprocessing/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index cad38b1..dbd9c32 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -781,7 +781,7 @@ func (m *OneHotEncoder) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense
 		cstart, cend := m.FeatureIndices[feature], m.FeatureIndices[feature+1]
 		for sample := 0; sample < nSamples; sample++ {
 			classNo := floats.MaxIdx(X.RawRowView(sample)[cstart:cend])
-			Xout.Set(sample, feature, float64(classNo))
+			Xout.Set(sample, feature, m.Values[feature][classNo])
 		}
 	}
 	return
-- 
2.43.0


From 8e8b1b3df37bbb77664534b224354677c5eee7d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:09 +0000
Subject: [PATCH 015/117] fix: OneHotEncoder.Transform does not encode an
 unknown value as the first one

---
 preprocessing/data.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index dbd9c32..e223e25 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -757,7 +757,9 @@ func (m *OneHotEncoder) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 		for sample := 0; sample < NSamples; sample++ {
 			v := X.At(sample, feature)
 			//fmt.Printf("sample %d feature %d baseColumn %d nClasses %d y %g min:%d yint %d\n", sample, feature, baseColumn, m.NumClasses[feature], Y.At(sample, feature), m.Min[feature], yint)
-			Xout.Set(sample, baseColumn+cmap[v], 1.)
+			if class, ok := cmap[v]; ok {
+				Xout.Set(sample, baseColumn+class, 1.)
+			}
 		}
 		baseColumn += m.NValues[feature]
 	}
-- 
2.43.0


From ee50736a6354ee7618f83a76385035c6a19caf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:09 +0000
Subject: [PATCH 016/117] fix: Shuffler.InverseTransform of strided matrices

---
 preprocessing/data.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index e223e25..dfcf7fe 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -855,12 +855,12 @@ func (m *Shuffler) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
 		if m.Perm[i] > i {
 			srcxpos, dstxpos = m.Perm[i]*xmat.Stride, i*xmat.Stride
 			srcypos, dstypos = m.Perm[i]*ymat.Stride, i*ymat.Stride
-			for j = 0; j < xmat.Stride; j++ {
+			for j = 0; j < xmat.Cols; j++ {
 				v = xmat.Data[srcxpos+j]
 				xmat.Data[srcxpos+j] = xmat.Data[dstxpos+j]
 				xmat.Data[dstxpos+j] = v
 			}
-			for j = 0; j < ymat.Stride; j++ {
+			for j = 0; j < ymat.Cols; j++ {
 				v := ymat.Data[srcypos+j]
 				ymat.Data[srcypos+j] = ymat.Data[dstypos+j]
 				ymat.Data[dstypos+j] = v
-- 
2.43.0


From 47c372e983fc370d6246164c91010871148e0638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:09 +0000
Subject: [PATCH 017/117] fix: LabelBinarizer.Transform writes NegLabel

---
 preprocessing/label.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/preprocessing/label.go b/preprocessing/label.go
index 70ed591..627308c 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -59,6 +59,7 @@ func (m *LabelBinarizer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	}
 
 	Yout = mat.NewDense(NSamples, NOutputs, nil)
+	Yout.Apply(func(_, _ int, _ float64) float64 { return m.NegLabel }, Yout)
 	y, yo := base.ToDense(Y).RawMatrix(), Yout.RawMatrix()
 	baseCol := 0
 	for j := 0; j < y.Cols; j++ {
@@ -70,8 +71,6 @@ func (m *LabelBinarizer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 			val := y.Data[yi+j]
 			if classNo, ok := cmap[val]; ok {
 				yo.Data[yo0+baseCol+classNo] = m.PosLabel
-			} else {
-				yo.Data[yo0+baseCol+classNo] = m.NegLabel
 			}
 		}
 		baseCol += len(m.Classes[j])
-- 
2.43.0


From 1e29985f191643c3276a04e5df6560f44390e77a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:09 +0000
Subject: [PATCH 018/117] fix: LabelBinarizer.InverseTransform of several
 outputs

---
 preprocessing/label.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/preprocessing/label.go b/preprocessing/label.go
index 627308c..6c8876b 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -98,7 +98,6 @@ func (m *LabelBinarizer) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dens
 
 			yo.Data[yo0+j] = m.Classes[j][classNo]
 		}
-		baseCol += len(m.Classes[j])
 	}
 	return
 }
-- 
2.43.0


From 7d8a3c0629187c892a40fb1d436a77dda4a537ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:09 +0000
Subject: [PATCH 019/117] fix: LabelEncoder.Transform marks every unknown label

---
 preprocessing/label.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/label.go b/preprocessing/label.go
index 6c8876b..0f141af 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -326,7 +326,7 @@ func (m *LabelEncoder) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	for jY, jYout := 0, 0; jY < Ymat.Rows*Ymat.Stride; jY, jYout = jY+Ymat.Stride, jYout+Youtmat.Stride {
 		for i, v := range Ymat.Data[jY : jY+Ymat.Cols] {
 			pos := sort.SearchFloat64s(m.Classes[i], v)
-			if pos < 0 || pos >= len(m.Classes[i]) {
+			if pos >= len(m.Classes[i]) || m.Classes[i][pos] != v {
 				pos = -1
 			}
 			Youtmat.Data[jYout+i] = float64(pos)
-- 
2.43.0


From c62556a7b5830dc4f2fef28dd58b52788f028422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:09 +0000
Subject: [PATCH 020/117] fix: LabelEncoder.InverseTransform of codes out of
 range

---
 preprocessing/label.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preprocessing/label.go b/preprocessing/label.go
index 0f141af..667a6d9 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -349,9 +349,9 @@ func (m *LabelEncoder) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense)
 	Youtmat := Yout.RawMatrix()
 	for jY, jYout := 0, 0; jY < Ymat.Rows*Ymat.Stride; jY, jYout = jY+Ymat.Stride, jYout+Youtmat.Stride {
 		for i, v := range Ymat.Data[jY : jY+Ymat.Cols] {
-			if int(v) < 0 || int(v) > len(m.Classes[i]) {
+			if int(v) < 0 || int(v) >= len(m.Classes[i]) {
 				Youtmat.Data[jYout+i] = math.NaN()
-				break
+				continue
 			}
 			Youtmat.Data[jYout+i] = m.Classes[i][int(v)]
 		}
-- 
2.43.0


From 0607f697036e0447bfe789aca04f10d502900278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:12 +0000
Subject: [PATCH 021/117] fix: KBinsDiscretizer quantile strategy on unsorted
 data

---
 preprocessing/discretization.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/preprocessing/discretization.go b/preprocessing/discretization.go
index 1d7e268..9bdcdb1 100644
--- a/preprocessing/discretization.go
+++ b/preprocessing/discretization.go
@@ -3,6 +3,7 @@ package preprocessing
 import (
 	"fmt"
 	"math"
+	"sort"
 
 	"github.com/pa-m/sklearn/base"
 	"gonum.org/v1/gonum/floats"
@@ -39,6 +40,7 @@ func (m *KBinsDiscretizer) Fit(X, Y mat.Matrix) base.Fiter {
 		tmp := make([]float64, NSamples)
 		for f := start; f < end; f++ {
 			mat.Col(tmp, f, X)
+			sort.Float64s(tmp)
 			min, max := floats.Min(tmp), floats.Max(tmp)
 			m.BinEdges[f] = make([]float64, m.NBins+1)
 			for b := 0; b <= m.NBins; b++ {
-- 
2.43.0


From e1248c7fda18dff065fb15bdd65c34a7d31decd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:12 +0000
Subject: [PATCH 022/117] fix: KBinsDiscretizer.Transform returns Y

---
 preprocessing/discretization.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/preprocessing/discretization.go b/preprocessing/discretization.go
index 9bdcdb1..df6a042 100644
--- a/preprocessing/discretization.go
+++ b/preprocessing/discretization.go
@@ -69,6 +69,7 @@ func (m *KBinsDiscretizer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	case "onehot-dense":
 		Xout = mat.NewDense(NSamples, NFeatures*m.NBins, nil)
 	}
+	Yout = base.ToDense(Y)
 	base.Parallelize(-1, NFeatures, func(th, start, end int) {
 		for f := start; f < end; f++ {
 			for i := 0; i < NSamples; i++ {
-- 
2.43.0


From 29b20afd2bd48658d37ca9ae05bf31f9b4216b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:12 +0000
Subject: [PATCH 023/117] fix: PowerTransformer.Transform does not overwrite
 its input

---
 preprocessing/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index dfcf7fe..343fad2 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1297,7 +1297,7 @@ func (m *PowerTransformer) fit(X, Y mat.Matrix, forceTransform bool) (Xout *mat.
 // Transform apply the power transform to each feature using the fitted lambdas
 func (m *PowerTransformer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	nSamples, nFeatures := X.Dims()
-	Xout = base.ToDense(X)
+	Xout = mat.NewDense(nSamples, nFeatures, nil)
 	Yout = base.ToDense(Y)
 	var transformFunc func(out, x []float64, lmbda float64)
 	switch m.Method {
-- 
2.43.0


From 73175c705c37dcbc48d6a24df67cf47d26546013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:12 +0000
Subject: [PATCH 024/117] fix: yeo-johnson transform with lambda 0

---
 preprocessing/data.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 343fad2..05b035f 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1409,7 +1409,7 @@ func yeoJohnsonOptimize(x []float64) float64 {
 
 // yeoJohnsonTransform returns in out transformed input x following Yeo-Johnson transform with parameter lambda
 func yeoJohnsonTransform(out, x []float64, lmbda float64) {
-	spacing := math.Nextafter(1, 1) - 1
+	spacing := math.Nextafter(1, 2) - 1
 
 	//# when x >= 0
 	if math.Abs(lmbda) < spacing {
@@ -1444,7 +1444,7 @@ func yeoJohnsonTransform(out, x []float64, lmbda float64) {
 
 // yeoJohnsonInverseTransform returns inverse-transformed input x following Yeo-Johnson inverse transform with parameter lambda
 func yeoJohnsonInverseTransform(xinv, x []float64, lmbda float64) {
-	spacing := math.Nextafter(1, 1) - 1
+	spacing := math.Nextafter(1, 2) - 1
 	abs := math.Abs
 	exp := math.Exp
 	power := math.Pow
-- 
2.43.0


From c7c4ae1e84a9173c9f48577e9543a311ebd1b318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:22:15 +0000
Subject: [PATCH 025/117] fix: box-cox inverse transform of negative values

---
 preprocessing/data.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 05b035f..082cb98 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1522,10 +1522,6 @@ func boxCoxInverseTransform(out, x []float64, lmbda float64) {
 		f = math.Exp
 	}
 	for pos, xi := range x {
-		if xi > 0 || (xi >= 0 && lmbda > 0) {
-			out[pos] = f(xi)
-		} else {
-			out[pos] = math.NaN()
-		}
+		out[pos] = f(xi)
 	}
 }
-- 
2.43.0


From 191f732aa62740bc8c8d50dce31c7383378af27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:08 +0000
Subject: [PATCH 026/117] fix: MatRowSlice.Set writes the cell At reads

---
 base/matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/matrix.go b/base/matrix.go
index eb6b8b1..f4a3d1c 100644
--- a/base/matrix.go
+++ b/base/matrix.go
@@ -70,7 +70,7 @@ func (m MatRowSlice) At(i, j int) float64 {
 // Set for MatRowSlice
 func (m MatRowSlice) Set(i, j int, v float64) {
 	if Mutable, ok := m.Matrix.(mat.Mutable); ok {
-		Mutable.Set(i-m.Start, j, v)
+		Mutable.Set(i+m.Start, j, v)
 	} else {
 		panic("underling Matrix is not Mutable")
 	}
-- 
2.43.0


From 3485a1ed065a89d744964c50c37f4d2bd4b07f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:08 +0000
Subject: [PATCH 027/117] fix: MatRowSlice.At rejects the row after the last

---
 base/matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/matrix.go b/base/matrix.go
index f4a3d1c..d8bfa29 100644
--- a/base/matrix.go
+++ b/base/matrix.go
@@ -61,7 +61,7 @@ func (m MatRowSlice) Dims() (int, int) { _, c := m.Matrix.Dims(); return m.End -
 
 // At for MatRowSlice
 func (m MatRowSlice) At(i, j int) float64 {
-	if i < 0 || i > m.End-m.Start {
+	if i < 0 || i >= m.End-m.Start {
 		panic("indexing error")
 	}
 	return m.Matrix.At(i+m.Start, j)
-- 
2.43.0


From 72dde3c7ec1c30b35f631891559dca74f7344aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:08 +0000
Subject: [PATCH 028/117] fix: row slice of a column view reaching its last row

---
 base/matrix.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/matrix.go b/base/matrix.go
index d8bfa29..de0e0cb 100644
--- a/base/matrix.go
+++ b/base/matrix.go
@@ -177,7 +177,7 @@ func MatGeneralRowSlice(M blas64.General, i, k int) blas64.General {
 		Rows:   k - i,
 		Cols:   M.Cols,
 		Stride: M.Stride,
-		Data:   M.Data[i*M.Stride : k*M.Stride],
+		Data:   M.Data[i*M.Stride : (k-1)*M.Stride+M.Cols],
 	}
 }
 
-- 
2.43.0


From 979bda0ffd7caee59e34209d47a9e4287f4a8047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:39 +0000
Subject: [PATCH 029/117] fix: neighbors distances of strided vectors

---
 neighbors/distance.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/neighbors/distance.go b/neighbors/distance.go
index 9353cc6..471ee4f 100644
--- a/neighbors/distance.go
+++ b/neighbors/distance.go
@@ -17,6 +17,8 @@ func MinkowskiDistanceP(a, b mat.Vector, p float64) float64 {
 	var dp float64
 	rva, isrva := a.(mat.RawVectorer)
 	rvb, isrvb := b.(mat.RawVectorer)
+	isrva = isrva && rva.RawVector().Inc == 1
+	isrvb = isrvb && rvb.RawVector().Inc == 1
 	if math.IsInf(p, 1) {
 
 		if isrva && isrvb {
@@ -63,6 +65,8 @@ func EuclideanDistance(a, b mat.Vector) float64 {
 	var d2 float64
 	avd, avdok := a.(mat.RawVectorer)
 	bvd, bvdok := b.(mat.RawVectorer)
+	avdok = avdok && avd.RawVector().Inc == 1
+	bvdok = bvdok && bvd.RawVector().Inc == 1
 	if avdok && bvdok {
 		arv, brv, vb, d := avd.RawVector(), bvd.RawVector(), 0., 0.
 		for j, va := range arv.Data {
-- 
2.43.0


From c181939c8a3291b270b033b2124150bd11acdd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:39 +0000
Subject: [PATCH 030/117] fix: cluster distances of strided vectors

---
 cluster/distance.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cluster/distance.go b/cluster/distance.go
index 98ff7ed..73b5463 100644
--- a/cluster/distance.go
+++ b/cluster/distance.go
@@ -17,6 +17,8 @@ func MinkowskiDistanceP(a, b mat.Vector, p float64) float64 {
 	var dp float64
 	rva, isrva := a.(mat.RawVectorer)
 	rvb, isrvb := b.(mat.RawVectorer)
+	isrva = isrva && rva.RawVector().Inc == 1
+	isrvb = isrvb && rvb.RawVector().Inc == 1
 	if math.IsInf(p, 1) {
 
 		if isrva && isrvb {
-- 
2.43.0


From 7ae1b65660e6c421b3b8a094a25f3ea040f6d1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:24 +0000
Subject: [PATCH 031/117] fix: distance mode of KNeighborsGraph

---
 neighbors/unsupervised.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/neighbors/unsupervised.go b/neighbors/unsupervised.go
index a9cda8c..e7b1ac0 100644
--- a/neighbors/unsupervised.go
+++ b/neighbors/unsupervised.go
@@ -104,22 +104,18 @@ func (m *NearestNeighbors) KNeighborsGraph(X *mat.Dense, NNeighbors int, mode st
 	NSamplesFit, _ := m.X.Dims()
 	distances, indices := m.KNeighbors(X, NNeighbors)
 	graph = mat.NewDense(NSamples, NSamplesFit, nil)
-	var source *mat.Dense
-
-	switch mode {
-	case "connectivity":
-		source = indices
-	default:
-		source = distances
-	}
 	base.Parallelize(m.NJobs, NSamples, func(th, start, end int) {
 		for sample := start; sample < end; sample++ {
 			for ik := 0; ik < NNeighbors; ik++ {
-				index := int(source.At(sample, ik))
+				index := int(indices.At(sample, ik))
 				if sample == index && !includeSelf {
 					continue
 				}
-				graph.Set(sample, index, 1.)
+				weight := 1.
+				if mode != "connectivity" {
+					weight = distances.At(sample, ik)
+				}
+				graph.Set(sample, index, weight)
 			}
 		}
 	})
-- 
2.43.0


From e585d3d505116cd7e72e4161ca0969040c70fe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:13 +0000
Subject: [PATCH 032/117] fix: neighbors power distance of one-dimensional
 vectors

---
 neighbors/distance.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/neighbors/distance.go b/neighbors/distance.go
index 471ee4f..9fe6d3b 100644
--- a/neighbors/distance.go
+++ b/neighbors/distance.go
@@ -11,9 +11,6 @@ type Distance func(a, b mat.Vector) float64
 
 // MinkowskiDistanceP ...
 func MinkowskiDistanceP(a, b mat.Vector, p float64) float64 {
-	if a.Len() == 1 {
-		return math.Abs(b.At(0, 0) - a.At(0, 0))
-	}
 	var dp float64
 	rva, isrva := a.(mat.RawVectorer)
 	rvb, isrvb := b.(mat.RawVectorer)
-- 
2.43.0


From 567b00ef26554ab9c7a00c0ced7a4a039c101870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:13 +0000
Subject: [PATCH 033/117] fix: cluster power distance of one-dimensional
 vectors

---
 cluster/distance.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/cluster/distance.go b/cluster/distance.go
index 73b5463..69427f1 100644
--- a/cluster/distance.go
+++ b/cluster/distance.go
@@ -11,9 +11,6 @@ type Distance func(a, b mat.Vector) float64
 
 // MinkowskiDistanceP ...
 func MinkowskiDistanceP(a, b mat.Vector, p float64) float64 {
-	if a.Len() == 1 {
-		return math.Abs(b.At(0, 0) - a.At(0, 0))
-	}
 	var dp float64
 	rva, isrva := a.(mat.RawVectorer)
 	rvb, isrvb := b.(mat.RawVectorer)
-- 
2.43.0


From 42cc91c1adb72969cbc5128fe4294773b5c43d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:13 +0000
Subject: [PATCH 034/117] fix: k-d tree of rows sharing a coordinate

---
 neighbors/kdtree.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/neighbors/kdtree.go b/neighbors/kdtree.go
index 789091b..a16a9be 100644
--- a/neighbors/kdtree.go
+++ b/neighbors/kdtree.go
@@ -275,13 +275,20 @@ func (tr *KDTree) _build(idx []int, maxes, mins []float64) Node {
 			}
 		}
 		split = M
-		lessIdx, greaterIdx = lgfill(split)
+		lessIdx, greaterIdx = nil, nil
+		for _, i := range idx {
+			if tr.Data.At(i, d) < split {
+				lessIdx = append(lessIdx, i)
+			} else {
+				greaterIdx = append(greaterIdx, i)
+			}
+		}
 	}
 	if len(lessIdx) == 0 {
 		// # _still_ zero? all must have the same value
 		split = tr.Data.At(idx[0], d)
-		lessIdx = _arange(len(idx) - 1)
-		greaterIdx = []int{len(idx) - 1}
+		lessIdx = idx[:len(idx)-1]
+		greaterIdx = idx[len(idx)-1:]
 	}
 	lessmaxes := copyFloatSlice(maxes)
 	lessmaxes[d] = split
-- 
2.43.0


From db90453e80ad3fbd07ee2cad37c0e12dce3a5c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:13 +0000
Subject: [PATCH 035/117] fix: KDTree.Query returns only neighbors within
 distanceUpperBound

---
 neighbors/kdtree.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/neighbors/kdtree.go b/neighbors/kdtree.go
index a16a9be..2f24e16 100644
--- a/neighbors/kdtree.go
+++ b/neighbors/kdtree.go
@@ -484,7 +484,13 @@ func (tr *KDTree) Query(X mat.Matrix, k int, eps, p, distanceUpperBound float64)
 			row = make([]float64, NFeatures)
 		}
 		for sample := start; sample < end; sample++ {
+			for ik := 0; ik < k; ik++ {
+				dd.Set(sample, ik, math.Inf(1))
+			}
 			callback := func(ik int, dist float64, ind int) {
+				if dist > distanceUpperBound {
+					return
+				}
 				ii.Set(sample, ik, float64(ind))
 				dd.Set(sample, ik, dist)
 			}
-- 
2.43.0


From e9d76d3bdab8b374079f32e38a11b66c5f7c1df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:30 +0000
Subject: [PATCH 036/117] fix: NearestNeighbors refitted without a tree drops
 the old one

---
 neighbors/unsupervised.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neighbors/unsupervised.go b/neighbors/unsupervised.go
index e7b1ac0..facf4a1 100644
--- a/neighbors/unsupervised.go
+++ b/neighbors/unsupervised.go
@@ -57,6 +57,8 @@ func (m *NearestNeighbors) Fit(X, Y mat.Matrix) {
 			m.LeafSize = 30
 		}
 		m.Tree = NewKDTree(X, m.LeafSize)
+	} else {
+		m.Tree = nil
 	}
 }
 
-- 
2.43.0


From ac3855faf4b1a973ef8c23b78dd442d41e9a3aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:58 +0000
Subject: [PATCH 037/117] fix: NearestNeighbors metrics l1 and l2

---
 neighbors/unsupervised.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neighbors/unsupervised.go b/neighbors/unsupervised.go
index facf4a1..bc18bbb 100644
--- a/neighbors/unsupervised.go
+++ b/neighbors/unsupervised.go
@@ -38,10 +38,10 @@ func NewNearestNeighbors() *NearestNeighbors {
 func (m *NearestNeighbors) Fit(X, Y mat.Matrix) {
 	r, c := X.Dims()
 	switch m.Metric {
-	case "manhattan", "cityblock":
+	case "manhattan", "cityblock", "l1":
 		m.P = 1
 		m.Distance = MinkowskiDistance(m.P)
-	case "euclidean":
+	case "euclidean", "l2":
 		m.P = 2
 		m.Distance = MinkowskiDistance(m.P)
 	default:
-- 
2.43.0


From a38ac8ffc36173f35dbd08693ba8932cfd016013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:58 +0000
Subject: [PATCH 038/117] fix: class counts in the order of the classes

---
 neighbors/classification.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neighbors/classification.go b/neighbors/classification.go
index dfa9770..0c49743 100644
--- a/neighbors/classification.go
+++ b/neighbors/classification.go
@@ -173,9 +173,11 @@ func getClasses(Y mat.Matrix) (classes [][]float64, counts [][]int) {
 		clcounts := make([]int, 0)
 		for cl := range clmap {
 			clvalues = append(clvalues, cl)
-			clcounts = append(clcounts, clcnt[cl])
 		}
 		sort.Float64s(clvalues)
+		for _, cl := range clvalues {
+			clcounts = append(clcounts, clcnt[cl])
+		}
 		classes = append(classes, clvalues)
 		counts = append(counts, clcounts)
 	}
-- 
2.43.0


From e873daf97bc5a8924bcf5c71cda96e77c977be55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:58 +0000
Subject: [PATCH 039/117] fix: NearestCentroid uses its metric

---
 neighbors/nearest_centroid.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neighbors/nearest_centroid.go b/neighbors/nearest_centroid.go
index e7c5aa0..ebdfcc1 100644
--- a/neighbors/nearest_centroid.go
+++ b/neighbors/nearest_centroid.go
@@ -27,7 +27,7 @@ type NearestCentroid struct {
 // NewNearestCentroid ...
 // if Metric is "manhattan", centroids are computed using median else mean
 func NewNearestCentroid(metric string, shrinkThreshold float64) *NearestCentroid {
-	return &NearestCentroid{Metric: metric, ShrinkThreshold: shrinkThreshold}
+	return &NearestCentroid{Metric: metric, ShrinkThreshold: shrinkThreshold, NearestNeighbors: *NewNearestNeighbors()}
 }
 
 // Fit ...
@@ -65,6 +65,8 @@ func (m *NearestCentroid) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 			Centroids.Set(icl, feature, centroidXfeat)
 		}
 	})
+	m.Centroids = Centroids
+	m.NearestNeighbors.Metric = m.Metric
 	m.NearestNeighbors.Fit(Centroids, mat.Matrix(nil))
 	return m
 }
-- 
2.43.0


From 89441e317c9fab94526f3dd0ff2f1489eae2e625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:58 +0000
Subject: [PATCH 040/117] fix: NearestCentroid median of unsorted data

---
 neighbors/nearest_centroid.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/neighbors/nearest_centroid.go b/neighbors/nearest_centroid.go
index ebdfcc1..74e6c83 100644
--- a/neighbors/nearest_centroid.go
+++ b/neighbors/nearest_centroid.go
@@ -2,6 +2,7 @@ package neighbors
 
 import (
 	"runtime"
+	"sort"
 
 	"github.com/pa-m/sklearn/base"
 	"github.com/pa-m/sklearn/metrics"
@@ -58,6 +59,7 @@ func (m *NearestCentroid) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 				}
 			}
 			if useMedian {
+				sort.Float64s(col[0:rows])
 				centroidXfeat = stat.Quantile(.5, stat.Empirical, col[0:rows], nil)
 			} else {
 				centroidXfeat = stat.Mean(col[0:rows], nil)
-- 
2.43.0


From b92514f1535844c5d31c41ef6a3fe4a6fabe36d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:58 +0000
Subject: [PATCH 041/117] fix: NearestCentroid.Predict with an empty
 destination

---
 neighbors/nearest_centroid.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neighbors/nearest_centroid.go b/neighbors/nearest_centroid.go
index 74e6c83..7687f37 100644
--- a/neighbors/nearest_centroid.go
+++ b/neighbors/nearest_centroid.go
@@ -73,6 +73,9 @@ func (m *NearestCentroid) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	return m
 }
 
+// GetNOutputs returns output columns number for Y to pass to predict
+func (m *NearestCentroid) GetNOutputs() int { return 1 }
+
 // Predict  for NearestCentroid
 func (m *NearestCentroid) Predict(X mat.Matrix, Ymutable mat.Mutable) *mat.Dense {
 	Y := base.ToDense(Ymutable)
-- 
2.43.0


From 63a8015706c06092cbd5d95121b96cc5f0c54c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:58 +0000
Subject: [PATCH 042/117] fix: KNeighborsClassifier keeps its own copy of the
 targets

---
 neighbors/classification.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neighbors/classification.go b/neighbors/classification.go
index 0c49743..050cb46 100644
--- a/neighbors/classification.go
+++ b/neighbors/classification.go
@@ -36,7 +36,7 @@ func NewKNeighborsClassifier(K int, Weights string) *KNeighborsClassifier {
 func (m *KNeighborsClassifier) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
 	m.Xscaled = mat.DenseCopyOf(X)
-	m.Y = Y
+	m.Y = mat.DenseCopyOf(Y)
 	m.nOutputs = Y.RawMatrix().Cols
 	if m.Distance == nil {
 		m.Distance = EuclideanDistance
-- 
2.43.0


From a8ee38034ecd504d39d1359b989a2b18c5f49c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:13 +0000
Subject: [PATCH 043/117] fix: Rectangle.Split swapped bounds

---
 neighbors/kdtree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neighbors/kdtree.go b/neighbors/kdtree.go
index 2f24e16..2f30e81 100644
--- a/neighbors/kdtree.go
+++ b/neighbors/kdtree.go
@@ -55,10 +55,10 @@ func (r *Rectangle) Split(d int, split float64) (less, greater *Rectangle) {
 	cp := copyFloatSlice
 	mid := cp(r.Maxes)
 	mid[d] = split
-	less = NewRectangle(r.Mins, mid)
+	less = NewRectangle(mid, r.Mins)
 	mid = cp(r.Mins)
 	mid[d] = split
-	greater = NewRectangle(mid, r.Maxes)
+	greater = NewRectangle(r.Maxes, mid)
 	return less, greater
 }
 
-- 
2.43.0


From 44dd6df4f3269be784f662656a47e0b1667c8a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:21 +0000
Subject: [PATCH 044/117] fix: LabelEncoder counts of a class inserted before
 others

---
 preprocessing/label.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/label.go b/preprocessing/label.go
index 667a6d9..e261ced 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -312,7 +312,7 @@ func (m *LabelEncoder) PartialFit(X, Y *mat.Dense) base.Transformer {
 			copy(m.Classes[i][pos+1:l+1], m.Classes[i][pos:l])
 			copy(m.Support[i][pos+1:l+1], m.Support[i][pos:l])
 			m.Classes[i][pos] = v
-			m.Support[i][pos] += 1.
+			m.Support[i][pos] = 1.
 		}
 	}
 	return m
-- 
2.43.0


From f1ac85355ca7f2d218b80bcff1ac3a21fa477e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:21 +0000
Subject: [PATCH 045/117] fix: MultiLabelBinarizer.Transform of matrices that
 are not dense

---
 preprocessing/label.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/label.go b/preprocessing/label.go
index e261ced..1fa845a 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -166,7 +166,7 @@ func (m *MultiLabelBinarizer) Fit2(X mat.Matrix, Y interface{}) *MultiLabelBinar
 // Transform for MultiLabelBinarizer ...
 // Y type must be the same passed int Fit
 func (m *MultiLabelBinarizer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
-	return m.Transform2(X, Y)
+	return m.Transform2(X, base.ToDense(Y))
 }
 
 // FitTransform fit to dat, then transform it
-- 
2.43.0


From 85fe1ff0cb13e7f2cbe56d2cccf1061779bdafcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:26 +0000
Subject: [PATCH 046/117] fix: LogLoss gradient includes the features

---
 linear_model/loss.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linear_model/loss.go b/linear_model/loss.go
index 5b197a8..db10f1b 100644
--- a/linear_model/loss.go
+++ b/linear_model/loss.go
@@ -95,7 +95,7 @@ func LogLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha, L
 			g := 0.
 			for i := 0; i < nSamples; i++ {
 				h := Ypred.At(i, o)
-				g += -Ytrue.At(i, o) * activation.Fprime(h) / h
+				g += -Ytrue.At(i, o) * activation.Fprime(h) / h * X.At(i, j)
 			}
 			return g
 		}, Theta)
-- 
2.43.0


From cc1f0eb108cc8dded7da05f45aa6c2f1d10f0003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:26 +0000
Subject: [PATCH 047/117] fix: CrossEntropyLoss gradient includes the features

---
 linear_model/loss.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linear_model/loss.go b/linear_model/loss.go
index db10f1b..9ed3466 100644
--- a/linear_model/loss.go
+++ b/linear_model/loss.go
@@ -153,7 +153,7 @@ func CrossEntropyLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense,
 				for i := 0; i < nSamples; i++ {
 					h := Ypred.At(i, o)
 					y := Ytrue.At(i, o)
-					hprime := activation.Fprime(h)
+					hprime := activation.Fprime(h) * X.At(i, j)
 					if y == 1. {
 						g += -y * hprime / h
 					} else if y == 0. {
-- 
2.43.0


From a67d03cad898bb6c1d100fae22aee9cb744e63e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:26 +0000
Subject: [PATCH 048/117] fix: regularization gradient is the gradient of the
 penalty

---
 linear_model/loss.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/linear_model/loss.go b/linear_model/loss.go
index 9ed3466..d90b185 100644
--- a/linear_model/loss.go
+++ b/linear_model/loss.go
@@ -56,7 +56,7 @@ func SquareLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha
 		}
 	}
 	if Alpha > 0. {
-		J += regularization(Theta, grad, Alpha, L1Ratio, disableRegularizationOfFirstFeature)
+		J += regularization(Theta, grad, Alpha, L1Ratio, .5, disableRegularizationOfFirstFeature)
 	}
 	J /= 2. * float64(nSamples)
 	if grad != nil {
@@ -103,7 +103,7 @@ func LogLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha, L
 
 	// add regularization to cost and grad
 	if Alpha > 0. {
-		J += regularization(Theta, grad, Alpha, L1Ratio, disableRegularizationOfFirstFeature)
+		J += regularization(Theta, grad, Alpha, L1Ratio, 1., disableRegularizationOfFirstFeature)
 	}
 	J /= float64(nSamples)
 	if grad != nil {
@@ -246,7 +246,8 @@ func panicIfNaN(v float64) float64 {
 	return v
 }
 
-func regularization(Theta, grad *mat.Dense, Alpha, L1Ratio float64, disableRegularizationOfFirstFeature bool) float64 {
+// regularization returns the penalty and adds gradScale times its gradient to grad
+func regularization(Theta, grad *mat.Dense, Alpha, L1Ratio, gradScale float64, disableRegularizationOfFirstFeature bool) float64 {
 	JRegul := 0.
 	// add regularization to cost and grad
 	if Alpha > 0. {
@@ -277,11 +278,11 @@ func regularization(Theta, grad *mat.Dense, Alpha, L1Ratio float64, disableRegul
 				for o := 0; o < NOutputs; o++ {
 					g := grad.At(j, o)
 					t := Theta.At(j, o)
-					if L1Ratio > 0. {
-						g += L1Ratio * t / featureL1
+					if L1Ratio > 0. && featureL1 > 0. {
+						g += gradScale * Alpha * L1Ratio * t / featureL1
 					}
 					if L1Ratio < 1. {
-						g += (1. - L1Ratio) * t
+						g += gradScale * Alpha * (1. - L1Ratio) * 2. * t
 					}
 					grad.Set(j, o, g)
 				}
-- 
2.43.0


From 6c3197c2d27897c9effca639ab2f5318951e986c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:26 +0000
Subject: [PATCH 049/117] fix: linear models refitted do not keep the old
 intercept

---
 linear_model/Base.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index 83e981d..72bb74c 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -558,9 +558,7 @@ func LinFitGOM(X, Ytrue *mat.Dense, opts *LinFitOptions) *LinFitResult {
 
 func (regr *LinearModel) setIntercept(XOffset, YOffset, XScale mat.Matrix) {
 	_, nOutputs := regr.Coef.Dims()
-	if regr.Intercept == nil {
-		regr.Intercept = mat.NewDense(1, nOutputs, nil)
-	}
+	regr.Intercept = mat.NewDense(1, nOutputs, nil)
 
 	regr.Coef.Apply(func(j, o int, coef float64) float64 { return coef / XScale.At(0, j) }, regr.Coef)
 	if regr.FitIntercept {
-- 
2.43.0


From 529e09d10586540dd3b0d44fea2507959a6769da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:26 +0000
Subject: [PATCH 050/117] fix: PreprocessData does not divide by the norm of a
 constant column

---
 linear_model/Base.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index 72bb74c..e7e050d 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -623,7 +623,9 @@ func PreprocessData(X, Y *mat.Dense, FitIntercept, Normalize bool, SampleWeight
 			scale := 1.
 			if FitIntercept && Normalize {
 				scale = mat.Norm(Xout.ColView(feature), 2)
-				if scale != 0. {
+				if scale == 0. {
+					scale = 1.
+				} else {
 					for jXout := 0; jXout < Xoutmat.Rows*Xoutmat.Stride; jXout = jXout + Xoutmat.Stride {
 						Xoutmat.Data[jXout+feature] /= scale
 					}
-- 
2.43.0


From fd5d9dbf9bff6ad0271258ce4db7b95e8ff4c7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:26 +0000
Subject: [PATCH 051/117] fix: PreprocessData does not copy the data in every
 thread

---
 linear_model/Base.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index e7e050d..fb22bb1 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -606,6 +606,9 @@ func PreprocessData(X, Y *mat.Dense, FitIntercept, Normalize bool, SampleWeight
 	Xout = mat.NewDense(Xmat.Rows, Xmat.Cols, nil)
 	Xoutmat := Xout.RawMatrix()
 
+	if !FitIntercept {
+		Xout.Copy(X)
+	}
 	Yout = Y
 	base.Parallelize(-1, Xmat.Cols, func(th, start, end int) {
 		for feature := start; feature < end; feature++ {
@@ -617,8 +620,6 @@ func PreprocessData(X, Y *mat.Dense, FitIntercept, Normalize bool, SampleWeight
 				for jX, jXout := 0, 0; jX < Xmat.Rows*Xmat.Stride; jX, jXout = jX+Xmat.Stride, jXout+Xoutmat.Stride {
 					Xoutmat.Data[jXout+feature] = Xmat.Data[jX+feature] - mean
 				}
-			} else {
-				Xout.Copy(X)
 			}
 			scale := 1.
 			if FitIntercept && Normalize {
-- 
2.43.0


From 2a35c74d9fde2f61fa5a0d967f78c03cd12459f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:43 +0000
Subject: [PATCH 052/117] fix: BayesianRidge number of well-determined
 parameters

---
 linear_model/bayes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linear_model/bayes.go b/linear_model/bayes.go
index 87522b6..bbd05be 100644
--- a/linear_model/bayes.go
+++ b/linear_model/bayes.go
@@ -142,7 +142,7 @@ func (regr *BayesianRidge) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 		// gamma = (np.sum((alpha * eigenVals) /(lambda + alpha*eigenVals)))
 		gamma := 0.
 		{
-			var left, right []float
+			left, right := make([]float, len(eigenVals)), make([]float, len(eigenVals))
 			copy(left, eigenVals)
 
 			floats.Scale(alpha, left)
-- 
2.43.0


From ad2c5e0861ed422e5c7ef26a5358851120c50098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:03 +0000
Subject: [PATCH 053/117] fix: BayesianRidge noise precision from the sum of
 squares

---
 linear_model/bayes.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/linear_model/bayes.go b/linear_model/bayes.go
index bbd05be..d7acaea 100644
--- a/linear_model/bayes.go
+++ b/linear_model/bayes.go
@@ -138,6 +138,7 @@ func (regr *BayesianRidge) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 		diff.Sub(diff, Y)
 
 		rmse := mat.Norm(diff, 2)
+		rmse *= rmse
 
 		// gamma = (np.sum((alpha * eigenVals) /(lambda + alpha*eigenVals)))
 		gamma := 0.
-- 
2.43.0


From 201436933eaa2e8e662c9ffe385e84c8f8851461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:03 +0000
Subject: [PATCH 054/117] fix: BayesianRidge score sign of log determinant

---
 linear_model/bayes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linear_model/bayes.go b/linear_model/bayes.go
index d7acaea..d852e25 100644
--- a/linear_model/bayes.go
+++ b/linear_model/bayes.go
@@ -122,7 +122,7 @@ func (regr *BayesianRidge) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 				//logdetSigma = - np.sum(np.log(lambda + alpha * eigenVals))
 				logdetSigma = 0.
 				for _, evi := range eigenVals {
-					logdetSigma += math.Log(lambda + alpha*evi)
+					logdetSigma -= math.Log(lambda + alpha*evi)
 				}
 			}
 		} else { // nSamples<=nFeatures
-- 
2.43.0


From fece88b25a80723433421243873e20c2f52c21ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:03 +0000
Subject: [PATCH 055/117] fix: BayesianRidge keeps the precisions its
 coefficients were computed with

---
 linear_model/bayes.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/linear_model/bayes.go b/linear_model/bayes.go
index d852e25..e25a1f2 100644
--- a/linear_model/bayes.go
+++ b/linear_model/bayes.go
@@ -193,7 +193,6 @@ func (regr *BayesianRidge) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	//sigma = np.dot(Vh.T,Vh / (eigenVals + lambda / alpha)[:, np.newaxis])
 	//regr.sigma = (1. / alpha) * sigma
 	sigma = calcsigma(VhT, eigenVals, lambda, alpha)
-	regr.Alpha = alpha
 	regr.Sigma = mat.NewDense(nFeatures, nFeatures, nil)
 	regr.Sigma.Scale(1./alpha, sigma)
 
-- 
2.43.0


From 63e85141fac91ecd2bc136021465c95186099294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:03 +0000
Subject: [PATCH 056/117] fix: BayesianRidge.Predict2 standard deviation

---
 linear_model/bayes.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/linear_model/bayes.go b/linear_model/bayes.go
index e25a1f2..c996fb1 100644
--- a/linear_model/bayes.go
+++ b/linear_model/bayes.go
@@ -253,12 +253,14 @@ func (regr *BayesianRidge) Predict2(X, Y, yStd *mat.Dense) {
 		v := 0.
 		for j := 0; j < nFeatures; j++ {
 			x := Xn.At(i, j)
-			v += x * regr.Sigma.At(0, j) * x
+			for k := 0; k < nFeatures; k++ {
+				v += x * regr.Sigma.At(j, k) * Xn.At(i, k)
+			}
 		}
 		return v
 	}, sigmasSquaredData)
 	*yStd = *mat.NewDense(nSamples, 1, nil)
 	yStd.Apply(func(i int, j int, sigmasSquaredData float64) float64 {
-		return sigmasSquaredData + 1./regr.Alpha
+		return math.Sqrt(sigmasSquaredData + 1./regr.Alpha)
 	}, sigmasSquaredData)
 }
-- 
2.43.0


From 557a96d7790560aa32d8a67dfafe5f309ce1839c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:24 +0000
Subject: [PATCH 057/117] fix: loss gradients visit the rows of the batch only

---
 linear_model/loss.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/linear_model/loss.go b/linear_model/loss.go
index d90b185..c2967bb 100644
--- a/linear_model/loss.go
+++ b/linear_model/loss.go
@@ -45,9 +45,10 @@ func SquareLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha
 			grad.Mul(X.T(), Ydiff) //<- for identity only
 
 		} else {
+			rows, _ := Ypred.Dims()
 			grad.Apply(func(j, o int, theta float64) float64 {
 				g := 0.
-				for i := 0; i < nSamples; i++ {
+				for i := 0; i < rows; i++ {
 					h := Ypred.At(i, o)
 					g += Ydiff.At(i, o) * X.At(i, j) * activation.Fprime(h)
 				}
@@ -91,9 +92,10 @@ func LogLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha, L
 	}, Ypred)
 	//grad.Mul(X.T(), Ydiff)
 	if grad != nil {
+		rows, _ := Ypred.Dims()
 		grad.Apply(func(j, o int, theta float64) float64 {
 			g := 0.
-			for i := 0; i < nSamples; i++ {
+			for i := 0; i < rows; i++ {
 				h := Ypred.At(i, o)
 				g += -Ytrue.At(i, o) * activation.Fprime(h) / h * X.At(i, j)
 			}
@@ -148,9 +150,10 @@ func CrossEntropyLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense,
 			grad.Mul(X.T(), Ydiff)
 		} else {
 			// // for Logistic activation only
+			rows, _ := Ypred.Dims()
 			grad.Apply(func(j, o int, theta float64) float64 {
 				g := 0.
-				for i := 0; i < nSamples; i++ {
+				for i := 0; i < rows; i++ {
 					h := Ypred.At(i, o)
 					y := Ytrue.At(i, o)
 					hprime := activation.Fprime(h) * X.At(i, j)
-- 
2.43.0


From 8c92d40c865f9b2140adab84862739515f98159d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:24 +0000
Subject: [PATCH 058/117] fix: ElasticNet warm start without coefficients, or
 with those shared with a clone

---
 linear_model/coordinatedescent.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/linear_model/coordinatedescent.go b/linear_model/coordinatedescent.go
index 37d1257..182f98a 100644
--- a/linear_model/coordinatedescent.go
+++ b/linear_model/coordinatedescent.go
@@ -60,7 +60,9 @@ func (regr *ElasticNet) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 
 	l1reg := regr.Alpha * regr.L1Ratio * float64(NSamples)
 	l2reg := regr.Alpha * (1. - regr.L1Ratio) * float64(NSamples)
-	if !regr.WarmStart {
+	if regr.WarmStart && regr.Coef != nil {
+		regr.Coef = mat.DenseCopyOf(regr.Coef)
+	} else {
 		regr.Coef = mat.NewDense(NFeatures, NOutputs, nil)
 	}
 	random := strings.EqualFold("random", regr.Selection)
-- 
2.43.0


From 4c5347be087316c660b91025f7737bd179a54c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:24 +0000
Subject: [PATCH 059/117] fix: LogisticRegression.Fit of dense X with other Y,
 and refit on binarized labels

---
 linear_model/logistic.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index ddeda9e..8c3b7b6 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -337,14 +337,8 @@ func (m *LogisticRegression) IsClassifier() bool {
 // Fit compute Coef and Intercept
 func (m *LogisticRegression) Fit(X, Y mat.Matrix) base.Fiter {
 	var xb, yb *mat.Dense
-	if xg, ok := X.(*mat.Dense); ok {
-		if yg, ok := Y.(*mat.Dense); ok {
-			xb, yb = xg, yg
-		}
-	} else {
-		xb = mat.DenseCopyOf(X)
-		yb = mat.DenseCopyOf(Y)
-	}
+	xb, yb = base.ToDense(X), base.ToDense(Y)
+	m.lb = nil
 	if m.IsClassifier() && !isBinarized(yb) {
 		m.lb = preprocessing.NewLabelBinarizer(0, 1)
 		xbin, ybin := m.lb.FitTransform(X, Y)
-- 
2.43.0


From 4642fcfe1245eb4b5c30c200e98671cccee6b64b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:24 +0000
Subject: [PATCH 060/117] fix: LogisticRegression.Fit of labels with a stride

---
 linear_model/logistic.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index 8c3b7b6..ee401e2 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -251,9 +251,9 @@ func (m *LogisticRegression) backprop(X, y blas64.General, activations []blas64.
 	{
 		H := activations[len(activations)-1]
 		D := deltas
-		for r, pos := 0, 0; r < y.Rows; r, pos = r+1, pos+y.Stride {
-			for o, posc := 0, pos; o < y.Cols; o, posc = o+1, posc+1 {
-				D.Data[posc] = H.Data[posc] - y.Data[posc]
+		for r := 0; r < y.Rows; r++ {
+			for o := 0; o < y.Cols; o++ {
+				D.Data[r*D.Stride+o] = H.Data[r*H.Stride+o] - y.Data[r*y.Stride+o]
 			}
 		}
 	}
-- 
2.43.0


From 5a3754b761d610579c68845b0cb915753e510ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:24 +0000
Subject: [PATCH 061/117] fix: LogisticRegression keeps the parameters of the
 optimum

---
 linear_model/logistic.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index ee401e2..163503a 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -438,6 +438,9 @@ func (m *LogisticRegression) fitLbfgs(X, y blas64.General, activations []blas64.
 	if err != nil {
 		log.Panic(err)
 	}
+	// last evaluation was not necessarily at the optimum found
+	copy(m.packedParameters, res.X)
+	m.Loss = res.F
 	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", m.MaxIter)
 	}
-- 
2.43.0


From b8237926e7654a7ed122ce9f72e0c55025323d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:39 +0000
Subject: [PATCH 062/117] fix: SGDRegressor gradient is that of its loss

---
 linear_model/Base.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index fb22bb1..49a6745 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -222,7 +222,7 @@ func (regr *SGDRegressor) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 			tmp.Sub(tmp, Y.ColView(o))       // Ydiff
 			gradmat := mat.NewDense(nFeatures, 1, nil)
 			gradmat.Mul(X.T(), tmp) // X dot Ydiff
-			al1 := regr.Alpha * regr.L1Ratio / float(nSamples)
+			al1 := regr.Alpha * regr.L1Ratio / 2. / float(nSamples)
 			al2 := regr.Alpha * (1. - regr.L1Ratio) / float(nSamples)
 			sgn := func(x float) float {
 				if x < 0. {
@@ -233,8 +233,8 @@ func (regr *SGDRegressor) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 				}
 				return 0.
 			}
-			gradmat.Apply(func(j int, o int, gradj float64) float64 {
-				grad[j] = gradj + al1*sgn(gradj) + al2*gradj
+			gradmat.Apply(func(j int, _ int, gradj float64) float64 {
+				grad[j] = gradj/float(nSamples) + al1*sgn(coef[j]) + al2*coef[j]
 				return grad[j]
 			}, gradmat)
 		}
-- 
2.43.0


From ca777b0798d5b312708c9c781d188f84779db0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:26 +0000
Subject: [PATCH 063/117] fix: FromDense into an empty matrix

---
 base/matrix.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/base/matrix.go b/base/matrix.go
index de0e0cb..f64ed1a 100644
--- a/base/matrix.go
+++ b/base/matrix.go
@@ -220,6 +220,13 @@ func FromDense(dst mat.Mutable, dense *mat.Dense) *mat.Dense {
 		return dense
 	}
 	src := dense.RawMatrix()
+	if src.Rows == 0 || src.Cols == 0 {
+		return dense
+	}
+	if dstdense, ok := dst.(*mat.Dense); ok && dstdense.IsEmpty() {
+		dstdense.CloneFrom(dense)
+		return dense
+	}
 	if rawmatrixer, ok := dst.(mat.RawMatrixer); ok {
 		dstmat := rawmatrixer.RawMatrix()
 		if &dstmat.Data[0] == &src.Data[0] {
-- 
2.43.0


From bfc7c72510556753bf21180105f5530703e861dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:08 +0000
Subject: [PATCH 064/117] fix: LogisticRegression.Fit does not panic when line
 search reached floating point precision

---
 linear_model/logistic.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index 163503a..3856dce 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -435,7 +435,8 @@ func (m *LogisticRegression) fitLbfgs(X, y blas64.General, activations []blas64.
 		m.beforeMinimize(problem, w)
 	}
 	res, err := optimize.Minimize(problem, w, settings, method)
-	if err != nil {
+	// a line search stopped by floating point precision leaves the best location found
+	if err != nil && err != optimize.ErrLinesearcherFailure && err != optimize.ErrNoProgress && err != optimize.ErrNonDescentDirection {
 		log.Panic(err)
 	}
 	// last evaluation was not necessarily at the optimum found
-- 
2.43.0


From c5a4f1455d3458ea79aebc5f3d2bb74fc4c7d9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:24 +0000
Subject: [PATCH 065/117] fix: MLP lbfgs keeps the parameters of the optimum
 and does not panic when line search reached floating point precision

---
 neural_network/basemlp32.go | 8 +++++++-
 neural_network/basemlp64.go | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index bcdbc41..5f0058e 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -719,9 +719,15 @@ func (mlp *BaseMultilayerPerceptron32) fitLbfgs(X, y blas32General, activations,
 		mlp.beforeMinimize(problem, w)
 	}
 	res, err := optimize.Minimize(problem, w, settings, method)
-	if err != nil {
+	// a line search stopped by floating point precision leaves the best location found
+	if err != nil && err != optimize.ErrLinesearcherFailure && err != optimize.ErrNoProgress && err != optimize.ErrNonDescentDirection {
 		log.Panic(err)
 	}
+	// last evaluation was not necessarily at the optimum found
+	for i, x := range res.X {
+		mlp.packedParameters[i] = float32(x)
+	}
+	mlp.Loss = float32(res.F)
 	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", mlp.MaxIter)
 	}
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index d50f893..d52d676 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -719,9 +719,15 @@ func (mlp *BaseMultilayerPerceptron64) fitLbfgs(X, y blas64General, activations,
 		mlp.beforeMinimize(problem, w)
 	}
 	res, err := optimize.Minimize(problem, w, settings, method)
-	if err != nil {
+	// a line search stopped by floating point precision leaves the best location found
+	if err != nil && err != optimize.ErrLinesearcherFailure && err != optimize.ErrNoProgress && err != optimize.ErrNonDescentDirection {
 		log.Panic(err)
 	}
+	// last evaluation was not necessarily at the optimum found
+	for i, x := range res.X {
+		mlp.packedParameters[i] = float64(x)
+	}
+	mlp.Loss = res.F
 	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", mlp.MaxIter)
 	}
-- 
2.43.0


From 051337817e534b5f40a9fce1a6136165b9954ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:52 +0000
Subject: [PATCH 066/117] fix: GaussianNB.Fit on an already fitted model
 restarts from scratch

---
 naive_bayes/naivebayes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/naive_bayes/naivebayes.go b/naive_bayes/naivebayes.go
index 6869611..fa13733 100644
--- a/naive_bayes/naivebayes.go
+++ b/naive_bayes/naivebayes.go
@@ -154,7 +154,7 @@ func (m *GaussianNB) PartialFit(X, Y mat.Matrix, classes []float64, refit bool,
 	if refit {
 		m.Classes = nil
 	}
-	firstCall := m.Theta == nil
+	firstCall := m.Classes == nil
 	if firstCall {
 		m.Classes = classes
 		nFeatures := xc
-- 
2.43.0


From 70beccdb78c66ed735b0d51123158513225ec012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:52 +0000
Subject: [PATCH 067/117] fix: GaussianNB.PartialFit removes the variance boost
 added by the previous call

---
 naive_bayes/naivebayes.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/naive_bayes/naivebayes.go b/naive_bayes/naivebayes.go
index fa13733..75fc638 100644
--- a/naive_bayes/naivebayes.go
+++ b/naive_bayes/naivebayes.go
@@ -150,6 +150,7 @@ func (m *GaussianNB) PartialFit(X, Y mat.Matrix, classes []float64, refit bool,
 	_, xc := X.Dims()
 
 	_, varX, _ := meanvar(matfiltered{Matrix: X, filter: func(int) bool { return true }}, sampleWeight)
+	previousEpsilon := m.Epsilon
 	m.Epsilon = m.VarSmoothing * floats.Max(varX)
 	if refit {
 		m.Classes = nil
@@ -195,7 +196,7 @@ func (m *GaussianNB) PartialFit(X, Y mat.Matrix, classes []float64, refit bool,
 		}
 		//# Put epsilon back in each time
 		//self.sigma_[:, :] -= self.epsilon_
-		m.Sigma.Apply(func(_, _ int, v float64) float64 { return v - m.Epsilon }, m.Sigma)
+		m.Sigma.Apply(func(_, _ int, v float64) float64 { return v - previousEpsilon }, m.Sigma)
 	}
 	classes = m.Classes
 	uniqueY := npUnique(colAsVector(Y, 0))
-- 
2.43.0


From 36d52957b381cc33f3ee5881b186fbdf9da30c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:52 +0000
Subject: [PATCH 068/117] fix: GaussianNB.Predict into an empty matrix

---
 naive_bayes/naivebayes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/naive_bayes/naivebayes.go b/naive_bayes/naivebayes.go
index 75fc638..6faca8e 100644
--- a/naive_bayes/naivebayes.go
+++ b/naive_bayes/naivebayes.go
@@ -29,7 +29,7 @@ func (m *BaseNB) GetNOutputs() int {
 // Predict perform classification on an array of test vectors X
 func (m *BaseNB) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
 	Ypred := base.ToDense(Y)
-	if Y == mat.Mutable(nil) {
+	if Ypred.IsEmpty() {
 		NSamples, _ := X.Dims()
 		Ypred = mat.NewDense(NSamples, m.GetNOutputs(), nil)
 	}
-- 
2.43.0


From 6114939b1bb5c5e1df50caf8ad10386cd0e058eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:52 +0000
Subject: [PATCH 069/117] fix: GaussianNB.PredicterClone does not share state
 with the original

---
 naive_bayes/naivebayes.go | 52 ++++++++++++++++++++++-----------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/naive_bayes/naivebayes.go b/naive_bayes/naivebayes.go
index 6faca8e..6b76218 100644
--- a/naive_bayes/naivebayes.go
+++ b/naive_bayes/naivebayes.go
@@ -126,6 +126,12 @@ func (m *BaseNB) Score(X, Y mat.Matrix) float64 {
 // PredicterClone return a cloned GaussianNB as base.Predicter
 func (m *GaussianNB) PredicterClone() base.Predicter {
 	clone := *m
+	if m.Theta != nil {
+		clone.Theta, clone.Sigma = mat.DenseCopyOf(m.Theta), mat.DenseCopyOf(m.Sigma)
+		clone.ClassPrior = append([]float64{}, m.ClassPrior...)
+		clone.ClassCount = append([]float64{}, m.ClassCount...)
+		clone.jointLogLikelihood = clone.gaussianJointLogLikelihood
+	}
 	return &clone
 }
 
@@ -235,32 +241,34 @@ func (m *GaussianNB) PartialFit(X, Y mat.Matrix, classes []float64, refit bool,
 		//self.class_prior_ = self.class_count_ / self.class_count_.sum()
 		floats.ScaleTo(m.ClassPrior, 1/floats.Sum(m.ClassCount), m.ClassCount)
 	}
-	m.jointLogLikelihood = func(jll, xrow []float64) {
-		/*
-		   joint_log_likelihood = []
-		      for i in range(np.size(self.classes_)):
-		          jointi = np.log(self.class_prior_[i])
-		          n_ij = - 0.5 * np.sum(np.log(2. * np.pi * self.sigma_[i, :]))
-		          n_ij -= 0.5 * np.sum(((X - self.theta_[i, :]) ** 2) /
-		                               (self.sigma_[i, :]), 1)
-		          joint_log_likelihood.append(jointi + n_ij)
+	m.jointLogLikelihood = m.gaussianJointLogLikelihood
+	return m
+}
 
+func (m *GaussianNB) gaussianJointLogLikelihood(jll, xrow []float64) {
+	/*
+	   joint_log_likelihood = []
+	      for i in range(np.size(self.classes_)):
+	          jointi = np.log(self.class_prior_[i])
+	          n_ij = - 0.5 * np.sum(np.log(2. * np.pi * self.sigma_[i, :]))
+	          n_ij -= 0.5 * np.sum(((X - self.theta_[i, :]) ** 2) /
+	                               (self.sigma_[i, :]), 1)
+	          joint_log_likelihood.append(jointi + n_ij)
 
-		*/
-		for i := range m.Classes {
-			jointi := math.Log(m.ClassPrior[i])
-			nij := 0.
-			sigmai := m.Sigma.RawRowView(i)
-			thetai := m.Theta.RawRowView(i)
-			for j := 0; j < len(xrow); j++ {
-				nij -= .5 * math.Log(2*math.Pi*sigmai[j])
-				xd := xrow[j] - thetai[j]
-				nij -= .5 * xd * xd / sigmai[j]
-			}
-			jll[i] = jointi + nij
+
+	*/
+	for i := range m.Classes {
+		jointi := math.Log(m.ClassPrior[i])
+		nij := 0.
+		sigmai := m.Sigma.RawRowView(i)
+		thetai := m.Theta.RawRowView(i)
+		for j := 0; j < len(xrow); j++ {
+			nij -= .5 * math.Log(2*math.Pi*sigmai[j])
+			xd := xrow[j] - thetai[j]
+			nij -= .5 * xd * xd / sigmai[j]
 		}
+		jll[i] = jointi + nij
 	}
-	return m
 }
 
 type matfiltered struct {
-- 
2.43.0


From cc97eb8f4635cbbc534b44e414db12ba969dcb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:52 +0000
Subject: [PATCH 070/117] fix: micro average of binary scores repeats sample
 weights per label

---
 metrics/base.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metrics/base.go b/metrics/base.go
index 1c263a2..388fac8 100644
--- a/metrics/base.go
+++ b/metrics/base.go
@@ -30,8 +30,10 @@ func averageBinaryScore(binaryMetric func(Ytrue, Yscore *mat.Dense, sampleWeight
 	case "micro":
 		if scoreWeight != nil {
 			tmp := make([]float64, m*n)
-			for i := 0; i < n; i++ {
-				copy(tmp[i*m:(i+1)*m], scoreWeight)
+			for j := 0; j < m; j++ {
+				for i := 0; i < n; i++ {
+					tmp[j*n+i] = scoreWeight[j]
+				}
 			}
 			scoreWeight = tmp
 		}
-- 
2.43.0


From 720409749ca7f62818dfb710dc83f5e61109049b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:52 +0000
Subject: [PATCH 071/117] fix: samples average of binary scores averages over
 samples

---
 metrics/base.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metrics/base.go b/metrics/base.go
index 388fac8..55a7a74 100644
--- a/metrics/base.go
+++ b/metrics/base.go
@@ -20,7 +20,6 @@ func averageBinaryScore(binaryMetric func(Ytrue, Yscore *mat.Dense, sampleWeight
 	if yType == "binary" {
 		return binaryMetric(Ytrue, Yscore, sampleWeight)
 	}
-	notAverageAxis := 1
 	scoreWeight := sampleWeight
 	var averageWeight []float64
 	yt, ys := Ytrue, Yscore
@@ -66,14 +65,15 @@ func averageBinaryScore(binaryMetric func(Ytrue, Yscore *mat.Dense, sampleWeight
 		// # swap average_weight <-> score_weight
 		averageWeight = scoreWeight
 		scoreWeight = nil
-		notAverageAxis = 0
+		// one score per sample
+		yt, ys = mat.DenseCopyOf(Ytrue.T()), mat.DenseCopyOf(Yscore.T())
+		ytmat, ysmat = yt.RawMatrix(), ys.RawMatrix()
 
 	case "macro", "":
 	default:
 		fmt.Println("averageBinaryScore: unsupported average:", average)
 	}
-	ytshape := [2]int{ytmat.Rows, ytmat.Cols}
-	NClasses := ytshape[notAverageAxis]
+	NClasses := ytmat.Cols
 	scores := make([]float64, NClasses)
 	for c := 0; c < NClasses; c++ {
 		scores[c] = binaryMetric(
-- 
2.43.0


From 89432d62675a1e464af0d37aca12d09076ad3b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:52 +0000
Subject: [PATCH 072/117] fix: Pipeline.Predict accepts steps that are not
 InverseTransformer

---
 pipeline/pipeline.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 19e0f0a..7a43455 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -128,7 +128,9 @@ func (p *Pipeline) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
 	}
 	for iStep := len(p.NamedSteps) - 2; iStep >= 0; iStep-- {
 		step := p.NamedSteps[iStep]
-		_, Ytmp = step.Fiter.(preprocessing.InverseTransformer).InverseTransform(nil, Ytmp)
+		if inverser, ok := step.Fiter.(preprocessing.InverseTransformer); ok {
+			_, Ytmp = inverser.InverseTransform(nil, Ytmp)
+		}
 	}
 	return base.FromDense(Y, base.ToDense(Ytmp))
 }
-- 
2.43.0


From ee7db2df6b2da170f649159281138fac293397fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:52 +0000
Subject: [PATCH 073/117] fix: Pipeline.Score compares predictions of last step
 with Y transformed as in Fit

---
 pipeline/pipeline.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 7a43455..34f281b 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -108,7 +108,7 @@ func (p *Pipeline) Score(X, Y mat.Matrix) float64 {
 	if !ok {
 		panic(fmt.Errorf("pipeline.Score: last step is not a Predicter"))
 	}
-	return predicter.Score(Xtmp, Y)
+	return predicter.Score(Xtmp, Ytmp)
 }
 
 // GetNOutputs returns output columns number for Y
-- 
2.43.0


From b23604c37d4016e8c6de06a36653f75826d6c340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:53 +0000
Subject: [PATCH 074/117] fix: NearestNeighbors with a tree keeps its own copy
 of the training data

---
 neighbors/unsupervised.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neighbors/unsupervised.go b/neighbors/unsupervised.go
index bc18bbb..6464395 100644
--- a/neighbors/unsupervised.go
+++ b/neighbors/unsupervised.go
@@ -56,7 +56,7 @@ func (m *NearestNeighbors) Fit(X, Y mat.Matrix) {
 		if m.LeafSize <= 0 {
 			m.LeafSize = 30
 		}
-		m.Tree = NewKDTree(X, m.LeafSize)
+		m.Tree = NewKDTree(m.X, m.LeafSize)
 	} else {
 		m.Tree = nil
 	}
-- 
2.43.0


From 678e2f6463ff6924add982795b9830ab1fbb34a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:53 +0000
Subject: [PATCH 075/117] fix: KNeighborsClassifier implements PredicterClone
 and IsClassifier

---
 neighbors/classification.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/neighbors/classification.go b/neighbors/classification.go
index 050cb46..31b0150 100644
--- a/neighbors/classification.go
+++ b/neighbors/classification.go
@@ -15,7 +15,6 @@ import (
 // The target is predicted by local interpolation of the targets
 // associated of the nearest neighbors in the training set.
 type KNeighborsClassifier struct {
-	base.Predicter
 	NearestNeighbors
 	K        int
 	Weight   string
@@ -32,6 +31,15 @@ func NewKNeighborsClassifier(K int, Weights string) *KNeighborsClassifier {
 	return &KNeighborsClassifier{NearestNeighbors: *NewNearestNeighbors(), K: K, Weight: Weights}
 }
 
+// PredicterClone return a (possibly unfitted) copy of predicter
+func (m *KNeighborsClassifier) PredicterClone() base.Predicter {
+	clone := *m
+	return &clone
+}
+
+// IsClassifier returns true for KNeighborsClassifier
+func (*KNeighborsClassifier) IsClassifier() bool { return true }
+
 // Fit ...
 func (m *KNeighborsClassifier) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
-- 
2.43.0


From 96399cb71b3b9b6b1d6cdc7f2ae100231270efef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:53 +0000
Subject: [PATCH 076/117] fix: NearestCentroid implements PredicterClone and
 IsClassifier

---
 neighbors/nearest_centroid.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/neighbors/nearest_centroid.go b/neighbors/nearest_centroid.go
index 7687f37..d6629f3 100644
--- a/neighbors/nearest_centroid.go
+++ b/neighbors/nearest_centroid.go
@@ -15,7 +15,6 @@ import (
 // The target is predicted by local interpolation of the targets
 // associated of the nearest neighbors in the training set.
 type NearestCentroid struct {
-	base.Predicter
 	Metric          string
 	ShrinkThreshold float64
 	// runtime filled members
@@ -31,6 +30,15 @@ func NewNearestCentroid(metric string, shrinkThreshold float64) *NearestCentroid
 	return &NearestCentroid{Metric: metric, ShrinkThreshold: shrinkThreshold, NearestNeighbors: *NewNearestNeighbors()}
 }
 
+// PredicterClone return a (possibly unfitted) copy of predicter
+func (m *NearestCentroid) PredicterClone() base.Predicter {
+	clone := *m
+	return &clone
+}
+
+// IsClassifier returns true for NearestCentroid
+func (*NearestCentroid) IsClassifier() bool { return true }
+
 // Fit ...
 func (m *NearestCentroid) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
-- 
2.43.0


From 7defa6308f4b0c73aa2fc32de0ef6f72558ac9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:53 +0000
Subject: [PATCH 077/117] fix: KFold.GetNSplits returns the default number of
 splits when none is set

---
 model_selection/split.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model_selection/split.go b/model_selection/split.go
index efc4397..b42c5a8 100644
--- a/model_selection/split.go
+++ b/model_selection/split.go
@@ -107,6 +107,9 @@ func (splitter *KFold) Split(X, Y *mat.Dense) (ch chan Split) {
 
 // GetNSplits for KFold
 func (splitter *KFold) GetNSplits(X, Y *mat.Dense) int {
+	if splitter.NSplits <= 0 {
+		return 3
+	}
 	return splitter.NSplits
 }
 
-- 
2.43.0


From 091b1eff2ace39d18e593049d5c1375eeb48de22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:53 +0000
Subject: [PATCH 078/117] fix: CrossValidate without a splitter uses KFold
 instead of panicking

---
 model_selection/validation.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/model_selection/validation.go b/model_selection/validation.go
index 7e5fc44..f564140 100644
--- a/model_selection/validation.go
+++ b/model_selection/validation.go
@@ -39,13 +39,13 @@ func CrossValidate(estimator base.Predicter, X, Y *mat.Dense, groups []int, scor
 	if NJobs <= 0 {
 		NJobs = runtime.NumCPU()
 	}
+	if cv == Splitter(nil) {
+		cv = &KFold{NSplits: 3, Shuffle: true}
+	}
 	NSplits := cv.GetNSplits(X, Y)
 	if NJobs > NSplits {
 		NJobs = NSplits
 	}
-	if cv == Splitter(nil) {
-		cv = &KFold{NSplits: 3, Shuffle: true}
-	}
 	res.Estimator = make([]base.Predicter, NSplits)
 	res.TestScore = make([]float64, NSplits)
 	res.FitTime = make([]time.Duration, NSplits)
-- 
2.43.0


From e13fd868318800395890f52b66328df4ab4eb973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:53 +0000
Subject: [PATCH 079/117] fix: CrossValidate does not overwrite the training
 data of estimators it returns

---
 model_selection/validation.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/model_selection/validation.go b/model_selection/validation.go
index f564140..878a3ca 100644
--- a/model_selection/validation.go
+++ b/model_selection/validation.go
@@ -96,16 +96,17 @@ func CrossValidate(estimator base.Predicter, X, Y *mat.Dense, groups []int, scor
 			sin = append(sin, structIn{iSplit: len(sin), Split: split})
 		}
 		base.Parallelize(NJobs, NSplits, func(th, start, end int) {
-			var Xjob, Yjob = mat.NewDense(NSamples, NFeatures, nil), mat.NewDense(NSamples, NOutputs, nil)
 			for i := start; i < end; i++ {
+				// estimators may keep their training data
+				var Xjob, Yjob = mat.NewDense(NSamples, NFeatures, nil), mat.NewDense(NSamples, NOutputs, nil)
 				sout := processSplit(th, Xjob, Yjob, sin[i])
 				res.TestScore[sout.iSplit] = sout.score
 			}
 		})
 	} else { // NJobs==1
-		var Xjob, Yjob = mat.NewDense(NSamples, NFeatures, nil), mat.NewDense(NSamples, NOutputs, nil)
 		var isplit int
 		for split := range cv.Split(X, Y) {
+			var Xjob, Yjob = mat.NewDense(NSamples, NFeatures, nil), mat.NewDense(NSamples, NOutputs, nil)
 			sout := processSplit(0, Xjob, Yjob, structIn{iSplit: isplit, Split: split})
 			res.TestScore[sout.iSplit] = sout.score
 			isplit++
-- 
2.43.0


From eafb35aaf2a3ba9b5a9c2c04ba0bbdcda41622f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:53 +0000
Subject: [PATCH 080/117] fix: ParameterGrid is empty when a parameter has no
 value

---
 model_selection/search.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/model_selection/search.go b/model_selection/search.go
index 6550a8b..0a40900 100644
--- a/model_selection/search.go
+++ b/model_selection/search.go
@@ -13,9 +13,9 @@ import (
 
 // ParameterGrid ...
 func ParameterGrid(paramGrid map[string][]interface{}) (out []map[string]interface{}) {
-	makeArr := func(name string, values []interface{}, prevArr []map[string]interface{}) (out []map[string]interface{}) {
+	makeArr := func(name string, values []interface{}, prevArr []map[string]interface{}, first bool) (out []map[string]interface{}) {
 
-		if len(prevArr) == 0 {
+		if first {
 			for _, v := range values {
 				out = append(out, map[string]interface{}{name: v})
 			}
@@ -34,8 +34,10 @@ func ParameterGrid(paramGrid map[string][]interface{}) (out []map[string]interfa
 
 		return
 	}
+	first := true
 	for k, v := range paramGrid {
-		out = makeArr(k, v, out)
+		out = makeArr(k, v, out, first)
+		first = false
 	}
 	return
 }
-- 
2.43.0


From a330ce314f0bb33937f9bde56169716d96b3b1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:53 +0000
Subject: [PATCH 081/117] fix: KNeighborsClassifier.PredictProba sets
 probability zero of classes without neighbors

---
 neighbors/classification.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/neighbors/classification.go b/neighbors/classification.go
index 31b0150..be95008 100644
--- a/neighbors/classification.go
+++ b/neighbors/classification.go
@@ -141,9 +141,8 @@ func (m *KNeighborsClassifier) _predict(X, Y *mat.Dense, wantProba bool) *KNeigh
 				}
 				if wantProba {
 					for icl, cl := range m.Classes[0] {
-						if clw, found := classw[cl]; found {
-							Y.Set(sample, icl, clw/sumweights)
-						}
+						// zero when no neighbor is of class cl
+						Y.Set(sample, icl, classw[cl]/sumweights)
 					}
 				} else {
 					Y.Set(sample, o, clwmax)
-- 
2.43.0


From 83a755d7d0e43e08844c2dfe493f90cd02d145d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:38 +0000
Subject: [PATCH 082/117] fix: Interp2d extends the last cell beyond the
 greatest x, as it does the first one

---
 interpolate/interpolate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interpolate/interpolate.go b/interpolate/interpolate.go
index 42c073d..aef59c1 100644
--- a/interpolate/interpolate.go
+++ b/interpolate/interpolate.go
@@ -84,7 +84,7 @@ func Interp2d(x, y, z []float64) func(x, y float64) float64 {
 		l := len(xsorted)
 		ix2 := l - 1
 		for i := range xsorted {
-			if xsorted[i] > xsorted[ix0] && xsorted[i] <= x && xsorted[i] <= xsorted[ix2] {
+			if xsorted[i] > xsorted[ix0] && xsorted[i] <= x && xsorted[i] < xsorted[ix2] {
 				ix0 = i
 			}
 			if xsorted[l-1-i] <= xsorted[ix2] && xsorted[l-1-i] >= x && xsorted[l-1-i] > xsorted[ix0] {
-- 
2.43.0


From 79ba03fb23639b7ea55c0b00d991d1ca47ed8480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:54 +0000
Subject: [PATCH 083/117] fix: GaussianNB.PartialFit of a further batch uses
 the previous means for the variances

---
 naive_bayes/naivebayes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/naive_bayes/naivebayes.go b/naive_bayes/naivebayes.go
index 6b76218..bb391e5 100644
--- a/naive_bayes/naivebayes.go
+++ b/naive_bayes/naivebayes.go
@@ -367,8 +367,8 @@ func (m *GaussianNB) updateMeanVariance(nPast float64, mu, va []float64, X matfi
 	newMu, newVa, nNew := meanvar(X, sw.sw)
 	nTotal := nPast + nNew
 	for c := 0; c < xc; c++ {
+		dmu := mu[c] - newMu[c] // before setTotalMu, which may change mu
 		setTotalMu(c, (nPast*mu[c]+nNew*newMu[c])/nTotal)
-		dmu := mu[c] - newMu[c]
 		setTotalVar(c, (nPast*va[c]+nNew*newVa[c]+nNew*nPast/nTotal*dmu*dmu)/nTotal)
 	}
 	setClassCount(nTotal)
-- 
2.43.0


From 616efbcac56c712c2c8553ef1350794c05bbd314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:15 +0000
Subject: [PATCH 084/117] fix: DBSCAN core samples have at least MinSamples
 neighbors, and refitting forgets earlier ones

---
 cluster/dbscan.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cluster/dbscan.go b/cluster/dbscan.go
index bdebd83..5c7e14f 100644
--- a/cluster/dbscan.go
+++ b/cluster/dbscan.go
@@ -111,9 +111,10 @@ func (m *DBSCAN) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 		m.Labels[i] = -1
 	}
 	// # A list of all core samples found.
+	m.CoreSampleIndices = nil
 	isCore := make([]bool, NSamples)
 	for sample := range NNeighbors {
-		if NNeighbors[sample] > m.MinSamples {
+		if NNeighbors[sample] >= m.MinSamples {
 			isCore[sample] = true
 			m.CoreSampleIndices = append(m.CoreSampleIndices, sample)
 		}
-- 
2.43.0


From 40e696b5a3cbd8df7ea0b0084c0682969b775e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:55 +0000
Subject: [PATCH 085/117] fix: SVC and SVR without any support vector: no panic

---
 svm/svm.go | 5 ++++-
 svm/svr.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/svm/svm.go b/svm/svm.go
index 06749b9..e576d2d 100644
--- a/svm/svm.go
+++ b/svm/svm.go
@@ -154,13 +154,16 @@ func svmTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 		}
 	}
 	model := &Model{
-		X:              mat.NewDense(len(idx), n, nil),
+		X:              &mat.Dense{},
 		Y:              make([]float64, len(idx)),
 		KernelFunction: KernelFunction,
 		B:              b,
 		Alphas:         make([]float64, len(idx)),
 		Support:        idx,
 	}
+	if len(idx) > 0 {
+		model.X = mat.NewDense(len(idx), n, nil)
+	}
 	for ii, i := range idx {
 		model.X.SetRow(ii, X.RawRowView(i))
 		model.Y[ii] = Y[i]
diff --git a/svm/svr.go b/svm/svr.go
index 780f841..a21b874 100644
--- a/svm/svr.go
+++ b/svm/svr.go
@@ -177,12 +177,15 @@ func svrTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 	}
 
 	model := &Model{
-		X:              mat.NewDense(len(idx), n, nil),
+		X:              &mat.Dense{},
 		KernelFunction: KernelFunction,
 		B:              b,
 		Alphas:         make([]float64, len(idx)),
 		Support:        idx,
 	}
+	if len(idx) > 0 {
+		model.X = mat.NewDense(len(idx), n, nil)
+	}
 	for ii, i := range idx {
 		model.X.SetRow(ii, X.RawRowView(i))
 		model.Alphas[ii] = alphas[i]
-- 
2.43.0


From dcd7858cb8407a8930ab383e4aee8f2441cc6708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:55 +0000
Subject: [PATCH 086/117] fix: SVC training keeps significant decreases of a
 multiplier

---
 svm/svm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svm/svm.go b/svm/svm.go
index e576d2d..284c231 100644
--- a/svm/svm.go
+++ b/svm/svm.go
@@ -112,7 +112,7 @@ func svmTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 				// % Clip
 				alphas[j] = math.Max(L, math.Min(H, alphas[j]))
 				// % Check if change in alpha is significant
-				if alphas[j]-alphajold < Tol {
+				if math.Abs(alphas[j]-alphajold) < Tol {
 					alphas[j] = alphajold
 					continue
 				}
-- 
2.43.0


From 5e349259c9b15f8a8626479a65ab262ad1920265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:40 +0000
Subject: [PATCH 087/117] fix: SVC and SVR with a RandomState fit their outputs
 one after another

---
 svm/svm.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/svm/svm.go b/svm/svm.go
index 284c231..4b9b0d3 100644
--- a/svm/svm.go
+++ b/svm/svm.go
@@ -295,7 +295,12 @@ func (m *BaseLibSVM) fit(X, Y *mat.Dense, svmTrain func(X *mat.Dense, Y []float6
 	}
 	m.Support = make([][]int, Noutputs)
 	m.SupportVectors = make([][][]float64, Noutputs)
-	base.Parallelize(-1, Noutputs, func(th, start, end int) {
+	nJobs := -1
+	if m.RandomState != nil {
+		// the outputs share the source, which is not safe for concurrent use
+		nJobs = 1
+	}
+	base.Parallelize(nJobs, Noutputs, func(th, start, end int) {
 		y := make([]float64, NSamples)
 		for output := start; output < end; output++ {
 			mat.Col(y, output, Y)
-- 
2.43.0


From 9d36821e64756b3d8f1346f5e291efea5f49e9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:27 +0000
Subject: [PATCH 088/117] fix: WhiteKernel.CloneWithTheta sets the parameter of
 the clone

---
 gaussian_process/kernels/kernels.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index 9302e93..2887f20 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -436,7 +436,7 @@ func (k WhiteKernel) Bounds() mat.Matrix {
 // CloneWithTheta ...
 func (k WhiteKernel) CloneWithTheta(theta mat.Matrix) Kernel {
 	clone := k
-	matCopy(k.Theta().(mat.Mutable), theta)
+	matCopy(clone.Theta().(mat.Mutable), theta)
 	return &clone
 }
 
-- 
2.43.0


From f1270fa1131afaf28772881ba39229584f30623f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:27 +0000
Subject: [PATCH 089/117] fix: gradient of WhiteKernel for equal samples

---
 gaussian_process/kernels/kernels.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index 2887f20..e08ce05 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -470,9 +470,7 @@ func (k *WhiteKernel) Eval(X, Y mat.Matrix, evalGradient bool) (*mat.Dense, *t.D
 			it := Kg.Iterator()
 			Kgdata := Kg.Data().([]float64)
 			for i, e := it.Start(); e == nil; i, e = it.Next() {
-				if i%(nx+1) == 0 {
-					Kgdata[i] = k.NoiseLevel
-				}
+				Kgdata[i] = Kr.Data[i]
 			}
 		}
 	}
-- 
2.43.0


From 0f1226211ef307580854a30b9be889ed698a4ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:27 +0000
Subject: [PATCH 090/117] fix: Exponentiation: parameters without endless
 recursion, gradient of the exponentiated kernel, clones keep the exponent

---
 gaussian_process/kernels/kernels.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index e08ce05..f442b92 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -281,7 +281,7 @@ type Exponentiation struct {
 
 // hyperparameters ...
 func (k Exponentiation) hyperparameters() hyperparameters {
-	hps := k.hyperparameters()
+	hps := k.Kernel.hyperparameters()
 	params := make(hyperparameters, len(hps))
 	for i, p := range hps {
 		p.Name = "kernel_" + p.Name
@@ -290,19 +290,28 @@ func (k Exponentiation) hyperparameters() hyperparameters {
 	return params
 }
 
+// CloneWithTheta ...
+func (k Exponentiation) CloneWithTheta(theta mat.Matrix) Kernel {
+	clone := k
+	clone.Kernel = k.Kernel.CloneWithTheta(theta)
+	return &clone
+}
+
 // Eval return the kernel k(X, Y) and optionally its gradient
 func (k *Exponentiation) Eval(X, Y mat.Matrix, evalGradient bool) (*mat.Dense, *t.Dense) {
 	K, Kg := k.Kernel.Eval(X, Y, evalGradient)
-	K.Apply(func(_, _ int, v float64) float64 {
-		return math.Pow(v, k.Exponent)
-	}, K)
 	if evalGradient {
+		// the gradient needs the values before exponentiation
 		Kdata := K.RawMatrix().Data
 		Kgdata := Kg.Data().([]float64)
+		nparams := Kg.Shape()[2]
 		for i := range Kgdata {
-			Kgdata[i] *= k.Exponent * math.Pow(Kdata[i], k.Exponent-1)
+			Kgdata[i] *= k.Exponent * math.Pow(Kdata[i/nparams], k.Exponent-1)
 		}
 	}
+	K.Apply(func(_, _ int, v float64) float64 {
+		return math.Pow(v, k.Exponent)
+	}, K)
 	return K, Kg
 }
 
-- 
2.43.0


From 58230f26f643b002cec01b10c43a7a4c017a0297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:27 +0000
Subject: [PATCH 091/117] fix: RBF gradient has an entry per length scale that
 is not fixed

---
 gaussian_process/kernels/kernels.go | 47 ++++++++++++++++-------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index f442b92..a2c64a8 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -589,28 +589,33 @@ func (k *RBF) Eval(X, Y mat.Matrix, evalGradient bool) (K *mat.Dense, Kg *t.Dens
 		}
 	}
 	if evalGradient && Y == X {
-		if k.hyperparameters()[0].IsFixed() {
-			Kg = t.NewDense(t.Float64, t.Shape{nx, nx, 0}, t.WithBacking(nil))
-		} else {
-			Kg = t.NewDense(t.Float64, t.Shape{nx, nx, 1}, t.WithBacking(make([]float64, nx*nx)))
-			it := Kg.Iterator()
-			Kgdata := Kg.Data().([]float64)
-			Kdata := K.RawMatrix().Data
-			xr, xc, xd := mat.NewVecDense(nfeat, nil), mat.NewVecDense(nfeat, nil), mat.NewVecDense(nfeat, nil)
-			for i, e := it.Start(); e == nil; i, e = it.Next() {
-				r, c := i/nx, i%nx
-				mat.Row(xr.RawVector().Data, r, X)
-				mat.Row(xc.RawVector().Data, c, X)
-				xd.SubVec(xr, xc)
-				switch len(k.LengthScale) {
-				case 1:
-					xd.ScaleVec(1/k.LengthScale[0], xd)
-				case nfeat:
-					xd.DivElemVec(xd, mat.NewVecDense(nfeat, k.LengthScale))
-				default:
-					panic("dim error")
+		// features of each parameter that is not fixed
+		var first, last []int
+		for i, param := range k.hyperparameters() {
+			if param.IsFixed() {
+				continue
+			}
+			if k.IsAnisotropic() {
+				first, last = append(first, i), append(last, i+1)
+			} else {
+				first, last = append(first, 0), append(last, nfeat)
+			}
+		}
+		nparams := len(first)
+		Kgdata := make([]float64, nx*nx*nparams)
+		Kg = t.NewDense(t.Float64, t.Shape{nx, nx, nparams}, t.WithBacking(Kgdata))
+		for ix := 0; ix < nx; ix++ {
+			mat.Row(Xrow, ix, X)
+			for iy := 0; iy < nx; iy++ {
+				mat.Row(Yrow, iy, X)
+				for p := 0; p < nparams; p++ {
+					var d2 float64
+					for feat := first[p]; feat < last[p]; feat++ {
+						d := scale(Xrow, feat) - scale(Yrow, feat)
+						d2 += d * d
+					}
+					Kgdata[(ix*nx+iy)*nparams+p] = Kr.Data[ix*Kr.Stride+iy] * d2
 				}
-				Kgdata[i] = Kdata[i] * mat.Dot(xd, xd)
 			}
 		}
 	}
-- 
2.43.0


From a6c7edaa15f820823e8d6deee578d5bc0e29f508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:27 +0000
Subject: [PATCH 092/117] fix: GP regressor accepts an Alpha per sample

---
 gaussian_process/gpr.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaussian_process/gpr.go b/gaussian_process/gpr.go
index d540063..8f5c2da 100644
--- a/gaussian_process/gpr.go
+++ b/gaussian_process/gpr.go
@@ -74,7 +74,7 @@ func (m *Regressor) GetNOutputs() int {
 
 // Fit Gaussian process regression model
 func (m *Regressor) Fit(X, Y mat.Matrix) base.Fiter {
-	_, ry := Y.Dims()
+	ry, _ := Y.Dims()
 	m.Xtrain = mat.DenseCopyOf(X)
 	m.Ytrain = mat.DenseCopyOf(Y)
 	if len(m.Alpha) != 1 && len(m.Alpha) != ry {
-- 
2.43.0


From f4cad9b9063bfc217e881821d65cdc335fbe29d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:27 +0000
Subject: [PATCH 093/117] fix: cloning operators of kernels whose parameters
 are all fixed

---
 gaussian_process/kernels/kernels.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index a2c64a8..89c6a07 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -126,12 +126,18 @@ func (k KernelOperator) CloneWithTheta(theta mat.Matrix) Kernel {
 	if theta == mat.Matrix(nil) {
 		return KernelOperator{K1: k.K1.CloneWithTheta(nil), K2: k.K2.CloneWithTheta(nil)}
 	}
-	var td = base.ToDense(theta)
 	n1, _ := k.K1.Theta().Dims()
 	n2, _ := k.K2.Theta().Dims()
+	// part is theta[from:to], nil if empty because all parameters of the kernel are fixed
+	part := func(from, to int) mat.Matrix {
+		if from == to {
+			return nil
+		}
+		return base.ToDense(theta).Slice(from, to, 0, 1)
+	}
 	return KernelOperator{
-		K1: k.K1.CloneWithTheta(td.Slice(0, n1, 0, 1)),
-		K2: k.K2.CloneWithTheta(td.Slice(n1, n1+n2, 0, 1)),
+		K1: k.K1.CloneWithTheta(part(0, n1)),
+		K2: k.K2.CloneWithTheta(part(n1, n1+n2)),
 	}
 }
 
-- 
2.43.0


From 8ee2fc7b65a3cbbbf9e6631feb582dae4e18d2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:27 +0000
Subject: [PATCH 094/117] fix: kernels can be cloned with nil theta, keeping
 their parameters

---
 gaussian_process/kernels/matutil.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gaussian_process/kernels/matutil.go b/gaussian_process/kernels/matutil.go
index 6147008..42e4e11 100644
--- a/gaussian_process/kernels/matutil.go
+++ b/gaussian_process/kernels/matutil.go
@@ -49,6 +49,9 @@ func (m matFromFunc) T() mat.Matrix {
 }
 
 func matCopy(dst mat.Mutable, src mat.Matrix) {
+	if src == mat.Matrix(nil) {
+		return
+	}
 	r, c := src.Dims()
 	for i := 0; i < r; i++ {
 		for j := 0; j < c; j++ {
-- 
2.43.0


From 0f0eff123e0357e52c6ae70c5c0394c35fc8c6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:27 +0000
Subject: [PATCH 095/117] fix: tanh activation is tanh(z), not tanh(-z)

---
 neural_network/basemlp32.go | 2 +-
 neural_network/basemlp64.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 5f0058e..573c7ee 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -88,7 +88,7 @@ var Activations32 = map[string]func(z blas32General){
 	"tanh": func(z blas32General) {
 		for row, zpos := 0, 0; row < z.Rows; row, zpos = row+1, zpos+z.Stride {
 			for col := 0; col < z.Cols; col++ {
-				z.Data[zpos+col] = M32.Tanh(-z.Data[zpos+col])
+				z.Data[zpos+col] = M32.Tanh(z.Data[zpos+col])
 			}
 		}
 	},
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index d52d676..51addb6 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -88,7 +88,7 @@ var Activations64 = map[string]func(z blas64General){
 	"tanh": func(z blas64General) {
 		for row, zpos := 0, 0; row < z.Rows; row, zpos = row+1, zpos+z.Stride {
 			for col := 0; col < z.Cols; col++ {
-				z.Data[zpos+col] = M64.Tanh(-z.Data[zpos+col])
+				z.Data[zpos+col] = M64.Tanh(z.Data[zpos+col])
 			}
 		}
 	},
-- 
2.43.0


From 5ba2e61fb4c045e56c3b87a38bb5352cba8596a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:27 +0000
Subject: [PATCH 096/117] fix: targets may be a view of a larger matrix

---
 neural_network/basemlp32.go | 18 ++++++------------
 neural_network/basemlp64.go | 18 ++++++------------
 2 files changed, 12 insertions(+), 24 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 573c7ee..c2ba997 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -374,9 +374,9 @@ func (mlp *BaseMultilayerPerceptron32) backprop(X, y blas32General, activations,
 	{
 		H := activations[len(activations)-1]
 		D := deltas[last]
-		for r, pos := 0, 0; r < y.Rows; r, pos = r+1, pos+y.Stride {
-			for o, posc := 0, pos; o < y.Cols; o, posc = o+1, posc+1 {
-				D.Data[posc] = H.Data[posc] - y.Data[posc]
+		for r, dpos, hpos, ypos := 0, 0, 0, 0; r < y.Rows; r, dpos, hpos, ypos = r+1, dpos+D.Stride, hpos+H.Stride, ypos+y.Stride {
+			for o := 0; o < y.Cols; o++ {
+				D.Data[dpos+o] = H.Data[hpos+o] - y.Data[ypos+o]
 			}
 		}
 	}
@@ -502,13 +502,7 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 	}
 	if !mlp.WarmStart && !incremental {
 		//# First time training the model
-		var isClassifier, isMulticlass = true, y.Cols > 1
-		for _, yval := range y.Data {
-			if yval != 0 && yval != 1 {
-				isClassifier = false
-				break
-			}
-		}
+		var isClassifier, isMulticlass = isBinarized32(y), y.Cols > 1
 		mlp.initialize(y.Cols, layerUnits, isClassifier, isMulticlass)
 	}
 
@@ -1112,8 +1106,8 @@ func r2Score32(yTrue, yPred blas32General) float32 {
 		yTrueAvg /= float32(yTrue.Rows)
 		// yDen = YTrue-YTrueAvg
 
-		for r, ypos := 0, 0; r < yTrue.Rows; r, ypos = r+1, ypos+yTrue.Stride {
-			t := yPred.Data[ypos+c] - yTrue.Data[ypos+c]
+		for r, ypos, ppos := 0, 0, 0; r < yTrue.Rows; r, ypos, ppos = r+1, ypos+yTrue.Stride, ppos+yPred.Stride {
+			t := yPred.Data[ppos+c] - yTrue.Data[ypos+c]
 			yNum += t * t
 			t = yTrue.Data[ypos+c] - yTrueAvg
 			yDen += t * t
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 51addb6..fa82437 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -374,9 +374,9 @@ func (mlp *BaseMultilayerPerceptron64) backprop(X, y blas64General, activations,
 	{
 		H := activations[len(activations)-1]
 		D := deltas[last]
-		for r, pos := 0, 0; r < y.Rows; r, pos = r+1, pos+y.Stride {
-			for o, posc := 0, pos; o < y.Cols; o, posc = o+1, posc+1 {
-				D.Data[posc] = H.Data[posc] - y.Data[posc]
+		for r, dpos, hpos, ypos := 0, 0, 0, 0; r < y.Rows; r, dpos, hpos, ypos = r+1, dpos+D.Stride, hpos+H.Stride, ypos+y.Stride {
+			for o := 0; o < y.Cols; o++ {
+				D.Data[dpos+o] = H.Data[hpos+o] - y.Data[ypos+o]
 			}
 		}
 	}
@@ -502,13 +502,7 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 	}
 	if !mlp.WarmStart && !incremental {
 		//# First time training the model
-		var isClassifier, isMulticlass = true, y.Cols > 1
-		for _, yval := range y.Data {
-			if yval != 0 && yval != 1 {
-				isClassifier = false
-				break
-			}
-		}
+		var isClassifier, isMulticlass = isBinarized64(y), y.Cols > 1
 		mlp.initialize(y.Cols, layerUnits, isClassifier, isMulticlass)
 	}
 
@@ -1112,8 +1106,8 @@ func r2Score64(yTrue, yPred blas64General) float64 {
 		yTrueAvg /= float64(yTrue.Rows)
 		// yDen = YTrue-YTrueAvg
 
-		for r, ypos := 0, 0; r < yTrue.Rows; r, ypos = r+1, ypos+yTrue.Stride {
-			t := yPred.Data[ypos+c] - yTrue.Data[ypos+c]
+		for r, ypos, ppos := 0, 0, 0; r < yTrue.Rows; r, ypos, ppos = r+1, ypos+yTrue.Stride, ppos+yPred.Stride {
+			t := yPred.Data[ppos+c] - yTrue.Data[ypos+c]
 			yNum += t * t
 			t = yTrue.Data[ypos+c] - yTrueAvg
 			yDen += t * t
-- 
2.43.0


From c0ab8cc2b1d4b06f804d06a66f031663d2cd2127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:27 +0000
Subject: [PATCH 097/117] fix: early stopping keeps the best parameters even
 with scores below zero, training starts with no history

---
 neural_network/basemlp32.go | 4 ++++
 neural_network/basemlp64.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index c2ba997..b298b62 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -479,7 +479,11 @@ func (mlp *BaseMultilayerPerceptron32) initialize(yCols int, layerUnits []int, i
 		}
 	}
 
+	mlp.LossCurve = nil
+	mlp.ValidationScores = nil
+	mlp.NoImprovementCount = 0
 	mlp.BestLoss = M32.Inf(1)
+	mlp.BestValidationScore = M32.Inf(-1)
 }
 
 func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool) {
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index fa82437..c1aa416 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -479,7 +479,11 @@ func (mlp *BaseMultilayerPerceptron64) initialize(yCols int, layerUnits []int, i
 		}
 	}
 
+	mlp.LossCurve = nil
+	mlp.ValidationScores = nil
+	mlp.NoImprovementCount = 0
 	mlp.BestLoss = M64.Inf(1)
+	mlp.BestValidationScore = M64.Inf(-1)
 }
 
 func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool) {
-- 
2.43.0


From 7e7bface68816a3d2b85eaba8cd370d6d8297145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:27 +0000
Subject: [PATCH 098/117] fix: early stopping validates on samples not used to
 train, against binarized labels

---
 neural_network/basemlp32.go | 13 +++++++++----
 neural_network/basemlp64.go | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index b298b62..7b16576 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -782,6 +782,10 @@ func (mlp *BaseMultilayerPerceptron32) fitStochastic(X, y blas32General, activat
 	} else {
 		rndShuffle = rand.New(mlp.RandomState).Shuffle
 	}
+	if mlp.Shuffle && earlyStopping {
+		// choose the validation samples
+		rndShuffle(nSamples, indexedXY{idx: sort.IntSlice(idx), X: general32FastSwap(X), Y: general32FastSwap(y)}.Swap)
+	}
 	func() {
 		if r := recover(); r != nil {
 			// ...
@@ -789,7 +793,7 @@ func (mlp *BaseMultilayerPerceptron32) fitStochastic(X, y blas32General, activat
 		}
 		for it := 0; it < mlp.MaxIter; it++ {
 			if mlp.Shuffle {
-				rndShuffle(nSamples, indexedXY{idx: sort.IntSlice(idx), X: general32FastSwap(X), Y: general32FastSwap(y)}.Swap)
+				rndShuffle(nSamples-testSize, indexedXY{idx: sort.IntSlice(idx), X: general32FastSwap(X), Y: general32FastSwap(y)}.Swap)
 			}
 			accumulatedLoss := float32(0.0)
 			for batch := [2]int{0, batchSize}; batch[0] < nSamples-testSize; batch = [2]int{batch[1], batch[1] + batchSize} {
@@ -813,9 +817,9 @@ func (mlp *BaseMultilayerPerceptron32) fitStochastic(X, y blas32General, activat
 				mlp.optimizer.updateParams(packedGrads)
 			}
 			mlp.NIter++
-			mlp.Loss = accumulatedLoss / float32(nSamples)
+			mlp.Loss = accumulatedLoss / float32(nSamples-testSize)
 
-			mlp.t += nSamples
+			mlp.t += nSamples - testSize
 			mlp.LossCurve = append(mlp.LossCurve, mlp.Loss)
 			if mlp.Verbose {
 				fmt.Printf("Iteration %d, loss = %.8f\n", mlp.NIter, mlp.Loss)
@@ -938,8 +942,9 @@ func (mlp *BaseMultilayerPerceptron32) predict(X, Y blas32General) {
 
 func (mlp *BaseMultilayerPerceptron32) score(X, Y blas32General) float32 {
 	H := blas32General{Rows: Y.Rows, Cols: Y.Cols, Stride: Y.Stride, Data: make([]float32, len(Y.Data))}
-	mlp.predict(X, H)
+	mlp.predictProbas(X, H)
 	if mlp.LossFuncName != "square_loss" {
+		toLogits32(H)
 		// accuracy
 		return accuracyScore32(Y, H)
 	}
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index c1aa416..f4ae6ce 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -782,6 +782,10 @@ func (mlp *BaseMultilayerPerceptron64) fitStochastic(X, y blas64General, activat
 	} else {
 		rndShuffle = rand.New(mlp.RandomState).Shuffle
 	}
+	if mlp.Shuffle && earlyStopping {
+		// choose the validation samples
+		rndShuffle(nSamples, indexedXY{idx: sort.IntSlice(idx), X: general64FastSwap(X), Y: general64FastSwap(y)}.Swap)
+	}
 	func() {
 		if r := recover(); r != nil {
 			// ...
@@ -789,7 +793,7 @@ func (mlp *BaseMultilayerPerceptron64) fitStochastic(X, y blas64General, activat
 		}
 		for it := 0; it < mlp.MaxIter; it++ {
 			if mlp.Shuffle {
-				rndShuffle(nSamples, indexedXY{idx: sort.IntSlice(idx), X: general64FastSwap(X), Y: general64FastSwap(y)}.Swap)
+				rndShuffle(nSamples-testSize, indexedXY{idx: sort.IntSlice(idx), X: general64FastSwap(X), Y: general64FastSwap(y)}.Swap)
 			}
 			accumulatedLoss := float64(0.0)
 			for batch := [2]int{0, batchSize}; batch[0] < nSamples-testSize; batch = [2]int{batch[1], batch[1] + batchSize} {
@@ -813,9 +817,9 @@ func (mlp *BaseMultilayerPerceptron64) fitStochastic(X, y blas64General, activat
 				mlp.optimizer.updateParams(packedGrads)
 			}
 			mlp.NIter++
-			mlp.Loss = accumulatedLoss / float64(nSamples)
+			mlp.Loss = accumulatedLoss / float64(nSamples-testSize)
 
-			mlp.t += nSamples
+			mlp.t += nSamples - testSize
 			mlp.LossCurve = append(mlp.LossCurve, mlp.Loss)
 			if mlp.Verbose {
 				fmt.Printf("Iteration %d, loss = %.8f\n", mlp.NIter, mlp.Loss)
@@ -938,8 +942,9 @@ func (mlp *BaseMultilayerPerceptron64) predict(X, Y blas64General) {
 
 func (mlp *BaseMultilayerPerceptron64) score(X, Y blas64General) float64 {
 	H := blas64General{Rows: Y.Rows, Cols: Y.Cols, Stride: Y.Stride, Data: make([]float64, len(Y.Data))}
-	mlp.predict(X, H)
+	mlp.predictProbas(X, H)
 	if mlp.LossFuncName != "square_loss" {
+		toLogits64(H)
 		// accuracy
 		return accuracyScore64(Y, H)
 	}
-- 
2.43.0


From 9d9c58eb141c7465a7e2bbe948f6a1c0ef740e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:27 +0000
Subject: [PATCH 099/117] fix: label binarizer of networks handles several
 outputs and NegLabel

---
 neural_network/basemlp32.go | 7 ++++---
 neural_network/basemlp64.go | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 7b16576..9fd8092 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -1329,10 +1329,11 @@ func (m *LabelBinarizer32) Transform(X, Y mat.Matrix) (Xout, Yout General32) {
 		}
 		for i, yi, yo0 := 0, 0, 0; i < y.Rows; i, yi, yo0 = i+1, yi+y.Stride, yo0+yo.Stride {
 			val := y.Data[yi+j]
+			for classNo := range m.Classes[j] {
+				yo.Data[yo0+baseCol+classNo] = m.NegLabel
+			}
 			if classNo, ok := cmap[val]; ok {
 				yo.Data[yo0+baseCol+classNo] = m.PosLabel
-			} else {
-				yo.Data[yo0+baseCol+classNo] = m.NegLabel
 			}
 		}
 		baseCol += len(m.Classes[j])
@@ -1354,7 +1355,7 @@ func (m *LabelBinarizer32) InverseTransform(X, Y General32) (Xout, Yout General3
 
 	Yout = General32{Rows: NSamples, Cols: NOutputs, Stride: NOutputs, Data: make([]float32, NSamples*NOutputs)}
 	y, yo := Y.RawMatrix(), Yout.RawMatrix()
-	for j, baseCol := 0, 0; baseCol < y.Cols; j, baseCol = j+1, baseCol+len(m.Classes[j]) {
+	for j, baseCol := 0, 0; baseCol < y.Cols; j++ {
 		for i, yi, yo0 := 0, 0, 0; i < y.Rows; i, yi, yo0 = i+1, yi+y.Stride, yo0+yo.Stride {
 			classNo := MaxIdx32(y.Data[yi+baseCol : yi+baseCol+len(m.Classes[j])])
 
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index f4ae6ce..75b4216 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -1329,10 +1329,11 @@ func (m *LabelBinarizer64) Transform(X, Y mat.Matrix) (Xout, Yout General64) {
 		}
 		for i, yi, yo0 := 0, 0, 0; i < y.Rows; i, yi, yo0 = i+1, yi+y.Stride, yo0+yo.Stride {
 			val := y.Data[yi+j]
+			for classNo := range m.Classes[j] {
+				yo.Data[yo0+baseCol+classNo] = m.NegLabel
+			}
 			if classNo, ok := cmap[val]; ok {
 				yo.Data[yo0+baseCol+classNo] = m.PosLabel
-			} else {
-				yo.Data[yo0+baseCol+classNo] = m.NegLabel
 			}
 		}
 		baseCol += len(m.Classes[j])
@@ -1354,7 +1355,7 @@ func (m *LabelBinarizer64) InverseTransform(X, Y General64) (Xout, Yout General6
 
 	Yout = General64{Rows: NSamples, Cols: NOutputs, Stride: NOutputs, Data: make([]float64, NSamples*NOutputs)}
 	y, yo := Y.RawMatrix(), Yout.RawMatrix()
-	for j, baseCol := 0, 0; baseCol < y.Cols; j, baseCol = j+1, baseCol+len(m.Classes[j]) {
+	for j, baseCol := 0, 0; baseCol < y.Cols; j++ {
 		for i, yi, yo0 := 0, 0, 0; i < y.Rows; i, yi, yo0 = i+1, yi+y.Stride, yo0+yo.Stride {
 			classNo := MaxIdx64(y.Data[yi+baseCol : yi+baseCol+len(m.Classes[j])])
 
-- 
2.43.0


From c23516b00590f3d1aa837ef15ba37335fc60f829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:27 +0000
Subject: [PATCH 100/117] fix: networks refitted on binarized targets forget
 the labels of the previous fit

---
 neural_network/basemlp32.go | 1 +
 neural_network/basemlp64.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 9fd8092..4cd64fb 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -589,6 +589,7 @@ func (mlp *BaseMultilayerPerceptron32) Fit(X, Y Matrix) {
 		tmp.Copy(Y)
 		yb = tmp.RawMatrix()
 	}
+	mlp.lb = nil
 	if mlp.IsClassifier() && !isBinarized32(yb) {
 		mlp.lb = NewLabelBinarizer32(0, 1)
 		xbin, ybin := mlp.lb.FitTransform(General32(xb), General32(yb))
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 75b4216..29dd623 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -589,6 +589,7 @@ func (mlp *BaseMultilayerPerceptron64) Fit(X, Y Matrix) {
 		tmp.Copy(Y)
 		yb = tmp.RawMatrix()
 	}
+	mlp.lb = nil
 	if mlp.IsClassifier() && !isBinarized64(yb) {
 		mlp.lb = NewLabelBinarizer64(0, 1)
 		xbin, ybin := mlp.lb.FitTransform(General64(xb), General64(yb))
-- 
2.43.0


From d43e96669a00ba786019bef2594f0fa80f395efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:27 +0000
Subject: [PATCH 101/117] fix: networks accept any mix of matrix
 implementations

---
 neural_network/basemlp32.go | 16 +++-------------
 neural_network/basemlp64.go | 16 +++-------------
 2 files changed, 6 insertions(+), 26 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 4cd64fb..df420bd 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -576,10 +576,8 @@ func (mlp *BaseMultilayerPerceptron32) IsClassifier() bool {
 // Fit compute Coefs and Intercepts
 func (mlp *BaseMultilayerPerceptron32) Fit(X, Y Matrix) {
 	var xb, yb blas32.General
-	if xg, ok := X.(RawMatrixer32); ok && !mlp.Shuffle {
-		if yg, ok := Y.(RawMatrixer32); ok {
-			xb, yb = xg.RawMatrix(), yg.RawMatrix()
-		}
+	if !mlp.Shuffle {
+		xb, yb = ToDense32(X).RawMatrix(), ToDense32(Y).RawMatrix()
 	} else {
 		var tmp General32
 		tmp = General32(xb)
@@ -608,15 +606,7 @@ func (mlp *BaseMultilayerPerceptron32) GetNOutputs() int {
 
 // Predict do forward pass and fills Y (Y must be Mutable)
 func (mlp *BaseMultilayerPerceptron32) Predict(X mat.Matrix, Y Mutable) {
-	var xb, yb General32
-	if xg, ok := X.(RawMatrixer32); ok {
-		if yg, ok := Y.(RawMatrixer32); ok {
-			xb, yb = General32(xg.RawMatrix()), General32(yg.RawMatrix())
-		}
-	} else {
-		xb.Copy(X)
-		yb.Copy(Y)
-	}
+	xb, yb := ToDense32(X), ToDense32(Y)
 	mlp.predict(xb.RawMatrix(), yb.RawMatrix())
 
 	FromDense32(Y, yb)
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 29dd623..047bc5b 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -576,10 +576,8 @@ func (mlp *BaseMultilayerPerceptron64) IsClassifier() bool {
 // Fit compute Coefs and Intercepts
 func (mlp *BaseMultilayerPerceptron64) Fit(X, Y Matrix) {
 	var xb, yb blas64.General
-	if xg, ok := X.(RawMatrixer64); ok && !mlp.Shuffle {
-		if yg, ok := Y.(RawMatrixer64); ok {
-			xb, yb = xg.RawMatrix(), yg.RawMatrix()
-		}
+	if !mlp.Shuffle {
+		xb, yb = ToDense64(X).RawMatrix(), ToDense64(Y).RawMatrix()
 	} else {
 		var tmp General64
 		tmp = General64(xb)
@@ -608,15 +606,7 @@ func (mlp *BaseMultilayerPerceptron64) GetNOutputs() int {
 
 // Predict do forward pass and fills Y (Y must be Mutable)
 func (mlp *BaseMultilayerPerceptron64) Predict(X mat.Matrix, Y Mutable) {
-	var xb, yb General64
-	if xg, ok := X.(RawMatrixer64); ok {
-		if yg, ok := Y.(RawMatrixer64); ok {
-			xb, yb = General64(xg.RawMatrix()), General64(yg.RawMatrix())
-		}
-	} else {
-		xb.Copy(X)
-		yb.Copy(Y)
-	}
+	xb, yb := ToDense64(X), ToDense64(Y)
 	mlp.predict(xb.RawMatrix(), yb.RawMatrix())
 
 	FromDense64(Y, yb)
-- 
2.43.0


From ce6a958999999fb3543ab2d2bfe9a6525b58c3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:27 +0000
Subject: [PATCH 102/117] fix: regressors fit 0/1 targets as numbers, not as
 classes

---
 neural_network/basemlp32.go             | 2 +-
 neural_network/basemlp64.go             | 2 +-
 neural_network/multilayer_perceptron.go | 1 +
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index df420bd..e9144b6 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -506,7 +506,7 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 	}
 	if !mlp.WarmStart && !incremental {
 		//# First time training the model
-		var isClassifier, isMulticlass = isBinarized32(y), y.Cols > 1
+		var isClassifier, isMulticlass = mlp.IsClassifier() && isBinarized32(y), y.Cols > 1
 		mlp.initialize(y.Cols, layerUnits, isClassifier, isMulticlass)
 	}
 
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 047bc5b..97729de 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -506,7 +506,7 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 	}
 	if !mlp.WarmStart && !incremental {
 		//# First time training the model
-		var isClassifier, isMulticlass = isBinarized64(y), y.Cols > 1
+		var isClassifier, isMulticlass = mlp.IsClassifier() && isBinarized64(y), y.Cols > 1
 		mlp.initialize(y.Cols, layerUnits, isClassifier, isMulticlass)
 	}
 
diff --git a/neural_network/multilayer_perceptron.go b/neural_network/multilayer_perceptron.go
index 436735f..558178b 100644
--- a/neural_network/multilayer_perceptron.go
+++ b/neural_network/multilayer_perceptron.go
@@ -45,6 +45,7 @@ func (mlp *MLPRegressor) PredicterClone() base.Predicter {
 // Fit ...
 func (mlp *MLPRegressor) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
+	mlp.LossFuncName = "square_loss"
 	mlp.fit(X.RawMatrix(), Y.RawMatrix(), false)
 	return mlp
 }
-- 
2.43.0


From 04d5cec7eb02189438d5541d56977372436e1423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:01:27 +0000
Subject: [PATCH 103/117] fix: copies and row slices of matrices that are views
 of larger ones

---
 neural_network/general.go | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/neural_network/general.go b/neural_network/general.go
index 849345d..68aa003 100644
--- a/neural_network/general.go
+++ b/neural_network/general.go
@@ -240,29 +240,35 @@ func (mat General64) Slice(i, j, k, l int) Matrix {
 // RowSlice provides view on submatrix(startRow,endRow) as General32
 // returned matrix can be casted to *General32
 func (mat General32) RowSlice(i, j int) General32 {
-	return General32{Rows: j - i, Cols: mat.Cols, Stride: mat.Stride, Data: mat.Data[i*mat.Stride : j*mat.Stride]}
+	if i == j {
+		return General32{Cols: mat.Cols, Stride: mat.Stride}
+	}
+	// the last row of a view of a larger matrix may end before the stride
+	return General32{Rows: j - i, Cols: mat.Cols, Stride: mat.Stride, Data: mat.Data[i*mat.Stride : (j-1)*mat.Stride+mat.Cols]}
 }
 
 // RowSlice provides view on submatrix(startRow,endRow) as General64
 // returned matrix can be casted to *General64
 func (mat General64) RowSlice(i, j int) General64 {
-	return General64{Rows: j - i, Cols: mat.Cols, Stride: mat.Stride, Data: mat.Data[i*mat.Stride : j*mat.Stride]}
+	if i == j {
+		return General64{Cols: mat.Cols, Stride: mat.Stride}
+	}
+	// the last row of a view of a larger matrix may end before the stride
+	return General64{Rows: j - i, Cols: mat.Cols, Stride: mat.Stride, Data: mat.Data[i*mat.Stride : (j-1)*mat.Stride+mat.Cols]}
 }
 
 // Copy fills receiver with input matrix
 func (mat *General32) Copy(a Matrix) {
 	rows, cols := a.Dims()
 	size := rows * cols
-	if cap(mat.Data) < size {
+	if mat.Rows == rows && mat.Cols == cols {
+		// keep the stride, receiver may be a view of a larger matrix
+	} else if cap(mat.Data) < size {
 		*mat = General32{Rows: rows, Cols: cols, Stride: cols, Data: make([]float32, size)}
 	} else {
 		*mat = General32{Rows: rows, Cols: cols, Stride: cols, Data: mat.Data[:size]}
 	}
-	if g, ok := a.(*General32); ok {
-		copy(mat.Data, g.Data)
-	} else if g, ok := a.(RawMatrixer32); ok && mat.Stride == g.RawMatrix().Stride {
-		copy(mat.Data, g.RawMatrix().Data)
-	} else if rrv, ok := a.(RawRowViewer32); ok {
+	if rrv, ok := a.(RawRowViewer32); ok {
 		for r, rowpos := 0, 0; r < rows; r, rowpos = r+1, rowpos+mat.Stride {
 			copy(mat.Data[rowpos:rowpos+mat.Cols], rrv.RawRowView(r))
 		}
@@ -279,16 +285,14 @@ func (mat *General32) Copy(a Matrix) {
 func (mat *General64) Copy(a Matrix) {
 	rows, cols := a.Dims()
 	size := rows * cols
-	if cap(mat.Data) < size {
+	if mat.Rows == rows && mat.Cols == cols {
+		// keep the stride, receiver may be a view of a larger matrix
+	} else if cap(mat.Data) < size {
 		*mat = General64{Rows: rows, Cols: cols, Stride: cols, Data: make([]float64, size)}
 	} else {
 		*mat = General64{Rows: rows, Cols: cols, Stride: cols, Data: mat.Data[:size]}
 	}
-	if g, ok := a.(General64); ok {
-		copy(mat.Data, g.Data)
-	} else if g, ok := a.(RawMatrixer64); ok && mat.Stride == g.RawMatrix().Stride {
-		copy(mat.Data, g.RawMatrix().Data)
-	} else if rrv, ok := a.(RawRowViewer64); ok {
+	if rrv, ok := a.(RawRowViewer64); ok {
 		for r, rowpos := 0, 0; r < rows; r, rowpos = r+1, rowpos+mat.Stride {
 			copy(mat.Data[rowpos:rowpos+mat.Cols], rrv.RawRowView(r))
 		}
-- 
2.43.0


From b73fe8f1bf69af581a0921721e77643edebf3eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:09:30 +0000
Subject: [PATCH 104/117] fix: networks with hidden layers predict after
 Unmarshal

---
 neural_network/basemlp32.go | 3 +++
 neural_network/basemlp64.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index e9144b6..922c722 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -1193,6 +1193,9 @@ func (mlp *BaseMultilayerPerceptron32) Unmarshal(buf []byte) error {
 			for il := range c64 {
 				layerUnits[il+1] = b64coefs[il].Cols
 				packedSize += (1 + layerUnits[il]) * layerUnits[il+1]
+				if il < len(mlp.HiddenLayerSizes) {
+					mlp.HiddenLayerSizes[il] = layerUnits[il+1]
+				}
 			}
 			layerUnits[mlp.NLayers-1] = mlp.NOutputs
 			mlp.initialize(mlp.NOutputs, layerUnits, true, mlp.NOutputs > 1)
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 97729de..25c1800 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -1193,6 +1193,9 @@ func (mlp *BaseMultilayerPerceptron64) Unmarshal(buf []byte) error {
 			for il := range c64 {
 				layerUnits[il+1] = b64coefs[il].Cols
 				packedSize += (1 + layerUnits[il]) * layerUnits[il+1]
+				if il < len(mlp.HiddenLayerSizes) {
+					mlp.HiddenLayerSizes[il] = layerUnits[il+1]
+				}
 			}
 			layerUnits[mlp.NLayers-1] = mlp.NOutputs
 			mlp.initialize(mlp.NOutputs, layerUnits, true, mlp.NOutputs > 1)
-- 
2.43.0


From 5c125346963f70be8a564e2c1ffb765e93ac680e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:33 +0000
Subject: [PATCH 105/117] fix: networks trained by lbfgs keep their parameters
 when evaluations are exhausted in the first iteration

---
 neural_network/basemlp32.go | 10 +++++++---
 neural_network/basemlp64.go | 10 +++++++---
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 922c722..b093268 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"log"
+	"math"
 	"reflect"
 	"runtime"
 	"sort"
@@ -713,10 +714,13 @@ func (mlp *BaseMultilayerPerceptron32) fitLbfgs(X, y blas32General, activations,
 		log.Panic(err)
 	}
 	// last evaluation was not necessarily at the optimum found
-	for i, x := range res.X {
-		mlp.packedParameters[i] = float32(x)
+	// (none is found when evaluations are exhausted before the first iteration ends)
+	if !math.IsInf(res.F, 1) {
+		for i, x := range res.X {
+			mlp.packedParameters[i] = float32(x)
+		}
+		mlp.Loss = float32(res.F)
 	}
-	mlp.Loss = float32(res.F)
 	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", mlp.MaxIter)
 	}
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 25c1800..44ba5d6 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"log"
+	"math"
 	"reflect"
 	"runtime"
 	"sort"
@@ -713,10 +714,13 @@ func (mlp *BaseMultilayerPerceptron64) fitLbfgs(X, y blas64General, activations,
 		log.Panic(err)
 	}
 	// last evaluation was not necessarily at the optimum found
-	for i, x := range res.X {
-		mlp.packedParameters[i] = float64(x)
+	// (none is found when evaluations are exhausted before the first iteration ends)
+	if !math.IsInf(res.F, 1) {
+		for i, x := range res.X {
+			mlp.packedParameters[i] = float64(x)
+		}
+		mlp.Loss = res.F
 	}
-	mlp.Loss = res.F
 	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", mlp.MaxIter)
 	}
-- 
2.43.0


From 1db0fa0e8a048c812c937048dcd29c3d8af4a3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:33 +0000
Subject: [PATCH 106/117] fix: LogisticRegression keeps its parameters when
 evaluations are exhausted in the first iteration

---
 linear_model/logistic.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index 3856dce..3a1b470 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -440,8 +440,11 @@ func (m *LogisticRegression) fitLbfgs(X, y blas64.General, activations []blas64.
 		log.Panic(err)
 	}
 	// last evaluation was not necessarily at the optimum found
-	copy(m.packedParameters, res.X)
-	m.Loss = res.F
+	// (none is found when evaluations are exhausted before the first iteration ends)
+	if !math.IsInf(res.F, 1) {
+		copy(m.packedParameters, res.X)
+		m.Loss = res.F
+	}
 	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", m.MaxIter)
 	}
-- 
2.43.0


From 3a8303163cf56b1af03b44dace23593425123ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:01 +0000
Subject: [PATCH 107/117] fix: fitting a clone of a fitted PCA overwrote the
 directions of the original

---
 preprocessing/pca.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/preprocessing/pca.go b/preprocessing/pca.go
index 067575b..bd00fc0 100644
--- a/preprocessing/pca.go
+++ b/preprocessing/pca.go
@@ -28,6 +28,7 @@ func (m *PCA) TransformerClone() base.Transformer {
 func (m *PCA) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X := base.ToDense(Xmatrix)
 	_, c := X.Dims()
+	m.SVD = mat.SVD{} // clones share the storage of a factorization
 	m.SVD.Factorize(X, mat.SVDThin)
 	m.SingularValues = make([]float64, c)
 	m.ExplainedVarianceRatio = make([]float64, c)
-- 
2.43.0


From 63814fdeac5e9da3a2a506eca263e6c39489a1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:01 +0000
Subject: [PATCH 108/117] fix: PCA.InverseTransform panicked when components
 were dropped

---
 preprocessing/pca.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/preprocessing/pca.go b/preprocessing/pca.go
index bd00fc0..8f0bcca 100644
--- a/preprocessing/pca.go
+++ b/preprocessing/pca.go
@@ -81,9 +81,9 @@ func (m *PCA) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
 	var v = new(mat.Dense)
 	m.SVD.VTo(v)
 	nSamples, _ := X.Dims()
-	_, vCols := v.Dims()
-	Xout = mat.NewDense(nSamples, vCols, nil)
-	Xout.Mul(X, v.T())
+	vRows, _ := v.Dims()
+	Xout = mat.NewDense(nSamples, vRows, nil)
+	Xout.Mul(X, base.MatDenseSlice(v, 0, vRows, 0, m.NComponents).T())
 	Yout = Y
 	return
 }
-- 
2.43.0


From 4c30d6a1f8e23d69eef58f5d5560fb5b54eecf53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:38:01 +0000
Subject: [PATCH 109/117] fix: PCA.Fit panicked on less samples than features

---
 preprocessing/pca.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/preprocessing/pca.go b/preprocessing/pca.go
index 8f0bcca..139ee23 100644
--- a/preprocessing/pca.go
+++ b/preprocessing/pca.go
@@ -27,7 +27,10 @@ func (m *PCA) TransformerClone() base.Transformer {
 // Fit computes the svd of X
 func (m *PCA) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X := base.ToDense(Xmatrix)
-	_, c := X.Dims()
+	r, c := X.Dims()
+	if r < c {
+		c = r
+	}
 	m.SVD = mat.SVD{} // clones share the storage of a factorization
 	m.SVD.Factorize(X, mat.SVDThin)
 	m.SingularValues = make([]float64, c)
-- 
2.43.0


From 11b34a98953c9c7630de470c996aad57c2f4a15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:01 +0000
Subject: [PATCH 110/117] fix: PartialFit of a clone of a fitted scaler changed
 the original

---
 preprocessing/data.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 082cb98..7a67290 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -41,6 +41,8 @@ func NewMinMaxScaler(featureRange []float) *MinMaxScaler {
 // TransformerClone ...
 func (scaler *MinMaxScaler) TransformerClone() base.Transformer {
 	var clone = *scaler
+	clone.Scale, clone.Min = cloneDense(scaler.Scale), cloneDense(scaler.Min)
+	clone.DataMin, clone.DataMax, clone.DataRange = cloneDense(scaler.DataMin), cloneDense(scaler.DataMax), cloneDense(scaler.DataRange)
 	return &clone
 }
 
@@ -135,6 +137,14 @@ type StandardScaler struct {
 	NSamplesSeen      int
 }
 
+// cloneDense returns an independent copy of m (nil if m is nil)
+func cloneDense(m *mat.Dense) *mat.Dense {
+	if m == nil {
+		return nil
+	}
+	return mat.DenseCopyOf(m)
+}
+
 // NewStandardScaler creates a *StandardScaler
 func NewStandardScaler() *StandardScaler {
 	return &StandardScaler{WithMean: true, WithStd: true}
@@ -143,6 +153,7 @@ func NewStandardScaler() *StandardScaler {
 // TransformerClone ...
 func (scaler *StandardScaler) TransformerClone() base.Transformer {
 	var clone = *scaler
+	clone.Scale, clone.Mean, clone.Var = cloneDense(scaler.Scale), cloneDense(scaler.Mean), cloneDense(scaler.Var)
 	return &clone
 }
 
@@ -926,6 +937,7 @@ func NewMaxAbsScaler() *MaxAbsScaler { return &MaxAbsScaler{} }
 // TransformerClone ...
 func (m *MaxAbsScaler) TransformerClone() base.Transformer {
 	var clone = *m
+	clone.MaxAbs, clone.Scale = append([]float64(nil), m.MaxAbs...), append([]float64(nil), m.Scale...)
 	return &clone
 }
 
-- 
2.43.0


From 0efd208dd9ad0b36202061e0db76540cdc4db827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:04 +0000
Subject: [PATCH 111/117] fix: KBinsDiscretizer.Transform with Encode onehot
 returned nothing

---
 preprocessing/discretization.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/preprocessing/discretization.go b/preprocessing/discretization.go
index df6a042..7fca2d3 100644
--- a/preprocessing/discretization.go
+++ b/preprocessing/discretization.go
@@ -65,8 +65,7 @@ func (m *KBinsDiscretizer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	switch m.Encode {
 	case "ordinal":
 		Xout = mat.NewDense(NSamples, NFeatures, nil)
-	case "onehot":
-	case "onehot-dense":
+	case "onehot", "onehot-dense":
 		Xout = mat.NewDense(NSamples, NFeatures*m.NBins, nil)
 	}
 	Yout = base.ToDense(Y)
@@ -85,8 +84,7 @@ func (m *KBinsDiscretizer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 				switch m.Encode {
 				case "ordinal":
 					Xout.Set(i, f, float64(ith))
-				case "onehot":
-				case "onehot-dense":
+				case "onehot", "onehot-dense":
 					Xout.Set(i, f*m.NBins+ith, 1)
 				}
 			}
-- 
2.43.0


From 7d54abf1c271a9713b9efc65ead0c330ca9c1c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:43:04 +0000
Subject: [PATCH 112/117] fix: KBinsDiscretizer.InverseTransform dropped Y

---
 preprocessing/discretization.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/preprocessing/discretization.go b/preprocessing/discretization.go
index 7fca2d3..4e1e726 100644
--- a/preprocessing/discretization.go
+++ b/preprocessing/discretization.go
@@ -131,5 +131,6 @@ func (m *KBinsDiscretizer) InverseTransform(X mat.Matrix, Y mat.Mutable) (Xout,
 			Xout.SetCol(f, tmp)
 		}
 	})
+	Yout = base.ToDense(Y)
 	return
 }
-- 
2.43.0


From 2598a565f7587aaaedf16b284f369feb3bb18da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:45 +0000
Subject: [PATCH 113/117] fix: KMeans.Fit moved samples as near to two
 centroids between them forever

---
 cluster/kmeans.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/cluster/kmeans.go b/cluster/kmeans.go
index c92be35..1411459 100644
--- a/cluster/kmeans.go
+++ b/cluster/kmeans.go
@@ -68,6 +68,9 @@ func (m *KMeans) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	epoch := 0
 	changed := true
 	unchangeCount := 0
+	// assignments of an earlier epoch: coming back to them means that samples as near to several centroids are
+	// moved from one to another forever
+	earlier := make([]int, NSamples)
 
 	if m.NJobs <= 0 {
 		m.NJobs = runtime.NumCPU()
@@ -94,6 +97,12 @@ func (m *KMeans) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 		})
 		if changed {
 			unchangeCount = 0
+			if epoch > 1 && sameAssignments(earlier, NearestCentroid) {
+				break
+			}
+			if epoch&(epoch-1) == 0 {
+				copy(earlier, NearestCentroid)
+			}
 		} else {
 			unchangeCount++
 		}
@@ -101,6 +110,15 @@ func (m *KMeans) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	return m
 }
 
+func sameAssignments(a, b []int) bool {
+	for i := range a {
+		if a[i] != b[i] {
+			return false
+		}
+	}
+	return true
+}
+
 // GetNOutputs returns output columns number for Y to pass to predict
 func (m *KMeans) GetNOutputs() int { return 1 }
 
-- 
2.43.0


From 2f29ad851fe51ffdf3f75a565208bdae4a06b7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:07:04 +0000
Subject: [PATCH 114/117] fix: DBSCAN ignored P

---
 cluster/dbscan.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cluster/dbscan.go b/cluster/dbscan.go
index 5c7e14f..097c2d4 100644
--- a/cluster/dbscan.go
+++ b/cluster/dbscan.go
@@ -83,6 +83,7 @@ func (m *DBSCAN) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X := base.ToDense(Xmatrix)
 	m.NeighborsModel = neighbors.NewNearestNeighbors()
 	m.NeighborsModel.Algorithm = m.Algorithm
+	m.NeighborsModel.P = m.P
 	m.NeighborsModel.Distance = MinkowskiDistance(m.P)
 	m.NeighborsModel.Metric = m.Metric
 	m.NeighborsModel.NJobs = m.NJobs
-- 
2.43.0


From b7cc1740e0cafca36c2a1738d95803dfdcbf114a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:24 +0000
Subject: [PATCH 115/117] fix: QuantileTransformer.Fit took the quantiles of
 unsorted values

---
 preprocessing/data.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 7a67290..98f8ea4 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1189,6 +1189,7 @@ func (m *QuantileTransformer) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	}
 	for feature := 0; feature < nFeatures; feature++ {
 		values := XT.RawRowView(feature)
+		sort.Float64s(values)
 		quantiles := Q.RawRowView(feature)
 		for i := range m.references {
 			realSample := float64(i) / float64(m.NQuantiles-1) * float64(nSamples-1)
-- 
2.43.0


From e966212b74c8f63a272f95ad9f001a9b3ff040f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:24 +0000
Subject: [PATCH 116/117] fix: QuantileTransformer.Transform left columns
 beyond the number of quantiles at zero

---
 preprocessing/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 98f8ea4..a2f78ba 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1212,7 +1212,7 @@ func (m *QuantileTransformer) Transform(Xmatrix, Ymatrix mat.Matrix) (Xout, Yout
 	nSamples, nFeatures := X.Dims()
 	eps := 1e-7
 	Xout = mat.NewDense(nSamples, nFeatures, nil)
-	for c := 0; c < nFeatures && c < len(m.references); c++ {
+	for c := 0; c < nFeatures; c++ {
 		for q := m.NQuantiles - 2; q >= 0; q-- {
 			x0, x1 := m.Quantiles.At(q, c), m.Quantiles.At(q+1, c)
 			for i := 0; i < nSamples; i++ {
-- 
2.43.0


From 510cf0455d02241df503d1147a56a9ac78b8176b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:35:24 +0000
Subject: [PATCH 117/117] fix: QuantileTransformer.Transform gave 0 above the
 largest quantile and NaN for repeated least values

---
 preprocessing/data.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index a2f78ba..5ee7c4b 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1217,8 +1217,12 @@ func (m *QuantileTransformer) Transform(Xmatrix, Ymatrix mat.Matrix) (Xout, Yout
 			x0, x1 := m.Quantiles.At(q, c), m.Quantiles.At(q+1, c)
 			for i := 0; i < nSamples; i++ {
 				x := X.At(i, c)
-				if x >= x0 && x <= x1 {
-					Xout.Set(i, c, math.Min(m.references[m.NQuantiles-1]-eps, math.Max(m.references[0]+eps, m.references[q]+(x-x0)/(x1-x0)*(m.references[q+1]-m.references[q]))))
+				if (x >= x0 || q == 0) && (x <= x1 || q == m.NQuantiles-2) {
+					p := 0.
+					if x != x0 {
+						p = (x - x0) / (x1 - x0)
+					}
+					Xout.Set(i, c, math.Min(m.references[m.NQuantiles-1]-eps, math.Max(m.references[0]+eps, m.references[q]+p*(m.references[q+1]-m.references[q]))))
 				}
 			}
 		}
-- 
2.43.0

