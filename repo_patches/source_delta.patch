From 72b65efd686f0fe164f98db4ee77b7e63461f006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:55 +0000
Subject: [PATCH 01/76] fix: backward pass of PermutationConnection applies the
 inverse permutation

---
 pybrain/structure/connections/permutation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/structure/connections/permutation.py b/pybrain/structure/connections/permutation.py
index 7dda244..37a9b25 100644
--- a/pybrain/structure/connections/permutation.py
+++ b/pybrain/structure/connections/permutation.py
@@ -4,7 +4,7 @@ __author__ = 'Justin Bayer, bayer.justin@googlemail.com'
 __version__ = '$Id$'
 
 
-from scipy import array
+from scipy import argsort, array
 
 from pybrain.structure.connections.connection import Connection
 from pybrain.utilities import permute
@@ -24,7 +24,7 @@ class PermutationConnection(Connection):
                 (self.indim // blocksize), len(permutation)))
 
         self.permutation = array(permutation)
-        self.invpermutation = permute(list(range(len(permutation))), permutation)
+        self.invpermutation = argsort(self.permutation)
         self.blocksize = blocksize
 
     def _forwardImplementation(self, inbuf, outbuf):
-- 
2.43.0


From f6dff719e5d4a6691a00370d31483f9ae8e342f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:55 +0000
Subject: [PATCH 02/76] fix: FullNotSelfConnection accumulates no derivative
 for its unused diagonal weights

---
 pybrain/structure/connections/fullnotself.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/connections/fullnotself.py b/pybrain/structure/connections/fullnotself.py
index 4d81bb2..4c682fe 100644
--- a/pybrain/structure/connections/fullnotself.py
+++ b/pybrain/structure/connections/fullnotself.py
@@ -26,4 +26,4 @@ class FullNotSelfConnection(FullConnection):
         p = reshape(self.params, (self.outdim, self.indim)) * (1-eye(self.outdim))
         inerr += dot(p.T, outerr)
         ds = self.derivs
-        ds += outer(inbuf, outerr).T.flatten()
+        ds += (outer(inbuf, outerr).T * (1-eye(self.outdim))).flatten()
-- 
2.43.0


From 47655313758d15bb627d586670d0d54d3c02ead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:55 +0000
Subject: [PATCH 03/76] fix: LinearConnection accumulates the derivatives of
 its weights

---
 pybrain/structure/connections/linear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/structure/connections/linear.py b/pybrain/structure/connections/linear.py
index 46f8559..ef42134 100644
--- a/pybrain/structure/connections/linear.py
+++ b/pybrain/structure/connections/linear.py
@@ -22,5 +22,6 @@ class LinearConnection(Connection, ParameterContainer):
         outbuf += inbuf * self.params
 
     def _backwardImplementation(self, outerr, inerr, inbuf):
-        #CHECKME: not setting derivatives -- this means the multiplicative weight is never updated!
         inerr += outerr * self.params
+        ds = self.derivs
+        ds += outerr * inbuf
-- 
2.43.0


From 46b1c2783b43f18396a46dc0f91747bc82a18221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:55 +0000
Subject: [PATCH 04/76] fix: a ModuleSlice of a ModuleSlice is positioned
 relative to the outer slice

---
 pybrain/structure/moduleslice.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybrain/structure/moduleslice.py b/pybrain/structure/moduleslice.py
index 762d24a..c58bd20 100644
--- a/pybrain/structure/moduleslice.py
+++ b/pybrain/structure/moduleslice.py
@@ -13,12 +13,12 @@ class ModuleSlice(Named):
         if isinstance(base, ModuleSlice):
             # tolerantly handle the case of a slice of another slice
             self.base = base.base
-            self.inOffset = inSliceFrom + base.inSliceFrom
-            self.outOffset = outSliceFrom + base.outSliceFrom
+            self.inOffset = inSliceFrom + base.inOffset
+            self.outOffset = outSliceFrom + base.outOffset
             if inSliceTo == None:
-                inSliceTo = self.base.indim + base.inSliceFrom
+                inSliceTo = base.indim
             if outSliceTo == None:
-                outSliceTo = self.base.outdim + base.outSliceFrom
+                outSliceTo = base.outdim
             self.name = base.base.name
         else:
             self.base = base
-- 
2.43.0


From dc200b5c8498d530c9146488e6960f9a6abaa537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:34 +0000
Subject: [PATCH 05/76] fix: the copy of a network shares one derivatives array
 with its components

---
 pybrain/structure/networks/network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybrain/structure/networks/network.py b/pybrain/structure/networks/network.py
index d5c4d2f..7ab57f6 100644
--- a/pybrain/structure/networks/network.py
+++ b/pybrain/structure/networks/network.py
@@ -269,6 +269,7 @@ class Network(Module, ParameterContainer):
         cp = Evolvable.copy(self)
         if self.paramdim > 0:
             cp._setParameters(self.params.copy())
+            cp._setDerivatives(self.derivs.copy())
         return cp
 
     def convertToFastNetwork(self):
-- 
2.43.0


From fc6c3cd7c7c1af676fdda7b65c7dc23c467a6b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:52 +0000
Subject: [PATCH 06/76] fix: setting all parameters of a mask that returns
 zeros uses their own positions

---
 pybrain/structure/evolvables/maskedparameters.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pybrain/structure/evolvables/maskedparameters.py b/pybrain/structure/evolvables/maskedparameters.py
index caf0020..5af59ff 100644
--- a/pybrain/structure/evolvables/maskedparameters.py
+++ b/pybrain/structure/evolvables/maskedparameters.py
@@ -62,8 +62,11 @@ class MaskedParameters(TopologyEvolvable):
         paramcount = 0
         for i in range(len(self.maskableParams)):
             if self.mask[i] == True:
-                self.maskableParams[i] = x[paramcount]
-                paramcount += 1
+                if self.returnZeros:
+                    self.maskableParams[i] = x[i]
+                else:
+                    self.maskableParams[i] = x[paramcount]
+                    paramcount += 1
         self._applyMask()
 
     def randomize(self, **args):
-- 
2.43.0


From b093a8a3a17574992aee9dc3f67b2ea196738ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:52 +0000
Subject: [PATCH 07/76] fix: maskOnProbability is the probability of a mask bit
 being on

---
 pybrain/structure/evolvables/maskedparameters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/evolvables/maskedparameters.py b/pybrain/structure/evolvables/maskedparameters.py
index 5af59ff..9583cf9 100644
--- a/pybrain/structure/evolvables/maskedparameters.py
+++ b/pybrain/structure/evolvables/maskedparameters.py
@@ -75,7 +75,7 @@ class MaskedParameters(TopologyEvolvable):
         self.mask = zeros(self.pcontainer.paramdim, dtype=bool)
         onbits = []
         for i in range(self.pcontainer.paramdim):
-            if random() > self.maskOnProbability:
+            if random() < self.maskOnProbability:
                 self.mask[i] = True
                 onbits.append(i)
         over = len(onbits) - self.maxComplexity
-- 
2.43.0


From 1eb05efcd93060dd117897c086f10a7fa8399969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:33 +0000
Subject: [PATCH 08/76] fix: extrapolated border weights are tested against
 None by identity

---
 pybrain/structure/networks/borderswiping.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/networks/borderswiping.py b/pybrain/structure/networks/borderswiping.py
index ab3d4ef..0e98d1b 100644
--- a/pybrain/structure/networks/borderswiping.py
+++ b/pybrain/structure/networks/borderswiping.py
@@ -55,7 +55,7 @@ class BorderSwipingNetwork(SwipingNetwork):
                         tmp[t] = MotherConnection(hiddenmesh.componentIndim, name = 'bconn'+str(dim)+str(t))
                         if self.extrapolateBorderValues:
                             p = self._extrapolateBorderAt(t, self.predefined['bordconns'][dim])
-                            if p != None:
+                            if p is not None:
                                 tmp[t].params[:] = p
                 self.predefined['bordconns'][dim] = tmp
 
-- 
2.43.0


From a558ee5e5a9c4ee0374616f13d6c1653bb26e2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:33 +0000
Subject: [PATCH 09/76] fix: global inputs of capture game networks are linked
 to every hidden unit

---
 pybrain/structure/networks/custom/capturegame.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/structure/networks/custom/capturegame.py b/pybrain/structure/networks/custom/capturegame.py
index 3702ce0..88128d5 100644
--- a/pybrain/structure/networks/custom/capturegame.py
+++ b/pybrain/structure/networks/custom/capturegame.py
@@ -89,7 +89,7 @@ class CaptureGameNetwork(BorderSwipingNetwork):
             cin = LinearLayer(self.combinputs, name = 'globalin')
             self.addInputModule(cin)
             if 'globalinconn' not in self.predefined:
-                self.predefined['globalinconn'] = MotherConnection(cin.componentOutdim*hiddenmesh.componentIndim, 'globalinconn')
+                self.predefined['globalinconn'] = MotherConnection(cin.outdim*hiddenmesh.componentIndim, name = 'globalinconn')
             self._linkToAll(cin, hiddenmesh, self.predefined['globalinconn'])
 
     def _buildDirectLink(self, inmesh, outmesh):
@@ -99,8 +99,8 @@ class CaptureGameNetwork(BorderSwipingNetwork):
             self.addConnection(SharedFullConnection(self.predefined['directconn'], inmesh[unit], outmesh[unit]))
 
     def _linkToAll(self, inmod, mesh, conn):
-        for unit in self._iterateOverUnits():
-            self.addConnection(SharedFullConnection(conn, inmod, mesh[unit]))
+        for c in mesh:
+            self.addConnection(SharedFullConnection(conn, inmod, c))
 
     def _generateName(self):
         """ generate a quasi unique name, using construction parameters """
-- 
2.43.0


From 82b1bf0cb3e4577792dd7cac761565dea7b94bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:51 +0000
Subject: [PATCH 10/76] fix: the direct links of a capture game network can be
 built

---
 pybrain/structure/networks/custom/capturegame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/structure/networks/custom/capturegame.py b/pybrain/structure/networks/custom/capturegame.py
index 88128d5..abedf9e 100644
--- a/pybrain/structure/networks/custom/capturegame.py
+++ b/pybrain/structure/networks/custom/capturegame.py
@@ -94,7 +94,7 @@ class CaptureGameNetwork(BorderSwipingNetwork):
 
     def _buildDirectLink(self, inmesh, outmesh):
         if not 'directconn' in self.predefined:
-            self.predefined['directconn'] = MotherConnection(inmesh.componentOutdim*outmesh.componentIndim, 'inconn')
+            self.predefined['directconn'] = MotherConnection(inmesh.componentOutdim*outmesh.componentIndim, name = 'directconn')
         for unit in self._iterateOverUnits():
             self.addConnection(SharedFullConnection(self.predefined['directconn'], inmesh[unit], outmesh[unit]))
 
-- 
2.43.0


From ed04bc3ffad763c627abbe3f416fa5818c18d11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:51 +0000
Subject: [PATCH 11/76] fix: RBM weights are addressed in the layout of the
 full connection

---
 pybrain/structure/networks/rbm.py    | 3 ++-
 pybrain/unsupervised/trainers/rbm.py | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybrain/structure/networks/rbm.py b/pybrain/structure/networks/rbm.py
index f7f58b9..98617de 100644
--- a/pybrain/structure/networks/rbm.py
+++ b/pybrain/structure/networks/rbm.py
@@ -74,8 +74,9 @@ class Rbm(object):
     def invert(self):
         """Return the inverse rbm."""
         # TODO: check if shape is correct
+        params = self.params.reshape((self.hiddenDim, self.visibleDim)).T.flatten()
         return self.__class__.fromDims(self.hiddenDim, self.visibleDim,
-                                       params=self.params)
+                                       params=params)
 
     def activate(self, inpt):
         return self.net.activate(inpt)
diff --git a/pybrain/unsupervised/trainers/rbm.py b/pybrain/unsupervised/trainers/rbm.py
index 74a2f18..1670f17 100644
--- a/pybrain/unsupervised/trainers/rbm.py
+++ b/pybrain/unsupervised/trainers/rbm.py
@@ -60,7 +60,7 @@ class RbmGibbsTrainer(Trainer):
                 #print("*** Iteration %2d **************************************" % t)
 
                 params = self.rbm.params
-                params = params.reshape((self.rbm.visibleDim, self.rbm.hiddenDim))
+                params = params.reshape((self.rbm.hiddenDim, self.rbm.visibleDim)).T
                 biasParams = self.rbm.biasParams
 
                 mm = cfg.iniMm if t < cfg.mmSwitchIter else cfg.finMm
-- 
2.43.0


From 033e2439db73eabfc325136089ff046af5692a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:56 +0000
Subject: [PATCH 12/76] fix: sequence boundaries of sequential datasets are
 integers

---
 pybrain/datasets/sequential.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pybrain/datasets/sequential.py b/pybrain/datasets/sequential.py
index 03b2144..941ecc5 100644
--- a/pybrain/datasets/sequential.py
+++ b/pybrain/datasets/sequential.py
@@ -39,10 +39,10 @@ class SequentialDataSet(SupervisedDataSet):
     def _getSequenceField(self, index, field):
         """Return a sequence of one single field given by `field` and indexed by
         `index`."""
-        seq = ravel(self.getField('sequence_index'))
+        seq = ravel(self.getField('sequence_index')).astype(int)
         if len(seq) == index + 1:
             # user wants to access the last sequence, return until end of data
-            return self.getField(field)[int(seq[index]):]
+            return self.getField(field)[seq[index]:]
         if len(seq) < index + 1:
             # sequence index beyond number of sequences. raise exception
             raise IndexError('sequence does not exist.')
@@ -67,7 +67,7 @@ class SequentialDataSet(SupervisedDataSet):
         sequence `index`, False otherwise.
 
         Mostly used like .endOfData() with while loops."""
-        seq = ravel(self.getField('sequence_index'))
+        seq = ravel(self.getField('sequence_index')).astype(int)
         if len(seq) == index + 1:
             # user wants to access the last sequence, return until end of data
             return self.endOfData()
@@ -80,13 +80,13 @@ class SequentialDataSet(SupervisedDataSet):
     def gotoSequence(self, index):
         """Move the internal marker to the beginning of sequence `index`."""
         try:
-            self.index = ravel(self.getField('sequence_index'))[index]
+            self.index = int(ravel(self.getField('sequence_index'))[index])
         except IndexError:
             raise IndexError('sequence does not exist')
 
     def getCurrentSequence(self):
         """Return the current sequence, according to the marker position."""
-        seq = ravel(self.getField('sequence_index'))
+        seq = ravel(self.getField('sequence_index')).astype(int)
         return len(seq) - sum(seq > self.index) - 1
 
     def getNumSequences(self):
@@ -98,7 +98,7 @@ class SequentialDataSet(SupervisedDataSet):
         """Return the length of the given sequence. If `index` is pointing
         to the last sequence, the sequence is considered to go until the end
         of the dataset."""
-        seq = ravel(self.getField('sequence_index'))
+        seq = ravel(self.getField('sequence_index')).astype(int)
         if len(seq) == index + 1:
             # user wants to access the last sequence, return until end of data
             return int(self.getLength() - seq[index])
@@ -113,7 +113,7 @@ class SequentialDataSet(SupervisedDataSet):
         if index >= self.getNumSequences():
             # sequence doesn't exist, raise exception
             raise IndexError('sequence does not exist.')
-        sequences = ravel(self.getField('sequence_index'))
+        sequences = ravel(self.getField('sequence_index')).astype(int)
         seqstart = sequences[index]
         if index == self.getNumSequences() - 1:
             # last sequence is going to be removed
@@ -154,7 +154,7 @@ class SequentialDataSet(SupervisedDataSet):
             # move sequence marker to the new sequence at position 'index'
             self.currentSeq = index
             # move sample marker to beginning of sequence at position 'index'
-            self.index = ravel(self.getField('sequence_index'))[index]
+            self.index = int(ravel(self.getField('sequence_index'))[index])
 
 
     def clear(self):
-- 
2.43.0


From f3f98fbb76c4e05c2cba2b7ab9096a61aeed7a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:56 +0000
Subject: [PATCH 13/76] fix: importance vectors are tested against None by
 identity

---
 pybrain/datasets/importance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/datasets/importance.py b/pybrain/datasets/importance.py
index bd8235f..ecb5743 100644
--- a/pybrain/datasets/importance.py
+++ b/pybrain/datasets/importance.py
@@ -28,7 +28,7 @@ class ImportanceDataSet(SequentialDataSet):
             :key importance: the importance of the sample. If left None, the
                  importance will be set to 1.0
         """
-        if importance == None:
+        if importance is None:
             importance = ones(len(target))
         self.appendLinked(inp, target, importance)
 
-- 
2.43.0


From 015af2a9a7e5ca3f739d8a436f1849999a3f980a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:56 +0000
Subject: [PATCH 14/76] fix: converting the type of a field keeps its length

---
 pybrain/datasets/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index 6a11890..c9acbd1 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -261,7 +261,7 @@ class DataSet(Serializable):
     def convertField(self, label, newtype):
         """Convert the given field to a different data type."""
         try:
-            self.setField(label, self.data[label].astype(newtype))
+            self.setField(label, self.data[label][:self.endmarker[label]].astype(newtype))
         except KeyError:
             raise KeyError('convertField: dataset field %s not found.' % label)
 
-- 
2.43.0


From 2bf20cae7c9224167608b7d6d77de8c0ec5e1f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:56 +0000
Subject: [PATCH 15/76] fix: the length of a dataset without linked fields is
 that of the longest field

---
 pybrain/datasets/dataset.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index c9acbd1..83da8bf 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -160,7 +160,7 @@ class DataSet(Serializable):
         return the length of the longest field."""
         if self.link == []:
             try:
-                length = self.endmarker[max(self.endmarker)]
+                length = max(self.endmarker.values())
             except ValueError:
                 return 0
             return length
-- 
2.43.0


From b7a229dfc7640a40bef2171dfd07def89f84f7e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:56 +0000
Subject: [PATCH 16/76] fix: randomBatches shuffles the batches

---
 pybrain/datasets/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/datasets/dataset.py b/pybrain/datasets/dataset.py
index 83da8bf..6f53882 100644
--- a/pybrain/datasets/dataset.py
+++ b/pybrain/datasets/dataset.py
@@ -359,7 +359,8 @@ class DataSet(Serializable):
 
     def randomBatches(self, label, n):
         """Like .batches(), but the order is random."""
-        permutation = random.shuffle(list(range(len(self))))
+        permutation = list(range((len(self) + n - 1) // n))
+        random.shuffle(permutation)
         return self.batches(label, n, permutation)
 
     def replaceNansByMeans(self):
-- 
2.43.0


From 590e25242919e0c299855bafa47f93e91fe64f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:56 +0000
Subject: [PATCH 17/76] fix: the one-of-many conversion uses an existing dtype

---
 pybrain/datasets/classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/datasets/classification.py b/pybrain/datasets/classification.py
index c2b52e5..81b7f16 100644
--- a/pybrain/datasets/classification.py
+++ b/pybrain/datasets/classification.py
@@ -139,7 +139,7 @@ class ClassificationDataSet(SupervisedDataSet):
         if self.nClasses <= 0:
             self.calculateStatistics()
         oldtarg = self.getField('target')
-        newtarg = zeros([len(self), self.nClasses], dtype='Int32') + bounds[0]
+        newtarg = zeros([len(self), self.nClasses], dtype='int32') + bounds[0]
         for i in range(len(self)):
             newtarg[i, int(oldtarg[i])] = bounds[1]
         self.setField('target', newtarg)
-- 
2.43.0


From 7f7c63864f85ef7944fad34242d5575cc6dff97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:56 +0000
Subject: [PATCH 18/76] fix: stratifiedSplit keeps the last sequence

---
 pybrain/datasets/classification.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pybrain/datasets/classification.py b/pybrain/datasets/classification.py
index 81b7f16..3814279 100644
--- a/pybrain/datasets/classification.py
+++ b/pybrain/datasets/classification.py
@@ -2,7 +2,7 @@ from __future__ import print_function
 
 __author__ = "Martin Felder, felder@in.tum.de"
 
-from numpy import zeros, where, ravel, r_, single
+from numpy import zeros, where, ravel, r_, single, unique
 from numpy.random import permutation
 from pybrain.datasets import SupervisedDataSet, SequentialDataSet
 
@@ -235,7 +235,8 @@ class SequenceClassificationDataSet(SequentialDataSet, ClassificationDataSet):
         It is assumed that the last target for each class is the class of the
         sequence. Also mind that the data will be sorted by class in the
         resulting data sets."""
-        lastidx = ravel(self['sequence_index'][1:] - 1).astype(int)
+        lastidx = unique(r_[self['sequence_index'][1:, 0], len(self)]).astype(int) - 1
+        lastidx = lastidx[lastidx >= 0]
         classes = ravel(self['class'][lastidx])
         trnDs = self.copy()
         trnDs.clear()
-- 
2.43.0


From 8e8f95f11b489d5b734541f0abfa1500fb7564f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:56 +0000
Subject: [PATCH 19/76] fix: time windows cover the whole of every sequence

---
 pybrain/tools/datasettools.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/datasettools.py b/pybrain/tools/datasettools.py
index 39a54b7..1b866ea 100644
--- a/pybrain/tools/datasettools.py
+++ b/pybrain/tools/datasettools.py
@@ -22,14 +22,14 @@ def convertSequenceToTimeWindows(DSseq, NewClass, winsize):
     DSwin = NewClass(DSseq.indim * winsize, DSseq.outdim)
     nsamples = 0
     nseqs = 0
-    si = r_[DSseq['sequence_index'].flatten(), DSseq.endmarker['sequence_index']]
+    si = r_[DSseq['sequence_index'].flatten(), len(DSseq)].astype(int)
     for i in range(DSseq.getNumSequences()):
         # get one sequence as arrays
         input = DSseq['input'][si[i]:si[i + 1], :]
         target = DSseq['target'][si[i]:si[i + 1], :]
         nseqs += 1
         # cut this sequence into windows, assuming class is given at the last step of each sequence
-        for k in range(winsize, input.shape[0], winsize):
+        for k in range(winsize, input.shape[0] + 1, winsize):
             inp_win = input[k - winsize:k, :]
             tar_win = target[k - 1, :]
             DSwin.addSample(inp_win.flatten(), tar_win.flatten())
-- 
2.43.0


From bc64bf1459bff94177f0a742c1244c7eeed45cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:56 +0000
Subject: [PATCH 20/76] fix: a saved dataset normalization can be loaded

---
 pybrain/tools/datasettools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybrain/tools/datasettools.py b/pybrain/tools/datasettools.py
index 1b866ea..f2a3dc5 100644
--- a/pybrain/tools/datasettools.py
+++ b/pybrain/tools/datasettools.py
@@ -88,7 +88,7 @@ class DataSetNormalizer(object):
         # the first line determines whether we interpret the file as
         # giving min/max of features or mean/std
         x = f.readline()
-        self.meanstd = False if x == 'x' else True
+        self.meanstd = False if x.strip() == 'x' else True
 
         # the next line gives the normalization bounds
         bounds = array(f.readline().split()).astype(float)
@@ -104,10 +104,10 @@ class DataSetNormalizer(object):
 
     def save(self, fname):
         f = open(fname, "w+")
-        f.write('x\n')
-        f.write('%g %g' % (self.newmin, self.newmax))
+        f.write('meanstd\n' if self.meanstd else 'x\n')
+        f.write('%g %g\n' % (self.newmin, self.newmax))
         for i in range(self.dim):
-            f.write('%d %g %g' % (i + 1, self.par1[i], self.par2[i]))
+            f.write('%d %g %g\n' % (i + 1, self.par1[i], self.par2[i]))
         f.close()
 
     def normalizePattern(self, y):
-- 
2.43.0


From f551d444a0f30ab7b102ec65639ab4931cf2f6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:49 +0000
Subject: [PATCH 21/76] fix: recurrent networks accept forget as a constructor
 argument

---
 pybrain/structure/networks/recurrent.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pybrain/structure/networks/recurrent.py b/pybrain/structure/networks/recurrent.py
index c814b03..606027a 100644
--- a/pybrain/structure/networks/recurrent.py
+++ b/pybrain/structure/networks/recurrent.py
@@ -14,6 +14,7 @@ from pybrain.structure.connections.shared import SharedConnection
 class RecurrentNetworkComponent(object):
 
     sequential = True
+    forget = None
 
     def __init__(self, forget=None, name=None, *args, **kwargs):
         self.recurrentConns = []
@@ -148,8 +149,5 @@ class RecurrentNetwork(RecurrentNetworkComponent, Network):
 
     def __init__(self, *args, **kwargs):
         Network.__init__(self, *args, **kwargs)
-        if 'forget' in kwargs:
-            forget = kwargs['forget']
-        else:
-            forget = False
+        forget = kwargs.pop('forget', False)
         RecurrentNetworkComponent.__init__(self, forget, *args, **kwargs)
-- 
2.43.0


From 55faba236405c65de430afc51af1a340df6bfc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:49 +0000
Subject: [PATCH 22/76] fix: gaussian layers can be read back from XML

---
 pybrain/structure/modules/gaussianlayer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/structure/modules/gaussianlayer.py b/pybrain/structure/modules/gaussianlayer.py
index 499a4fa..7ee0b50 100644
--- a/pybrain/structure/modules/gaussianlayer.py
+++ b/pybrain/structure/modules/gaussianlayer.py
@@ -13,7 +13,8 @@ class GaussianLayer(NeuronLayer, ParameterContainer):
     def __init__(self, dim, name=None):
         NeuronLayer.__init__(self, dim, name)
         # initialize sigmas to 0
-        ParameterContainer.__init__(self, dim, stdParams = 0)
+        self.stdParams = 0
+        ParameterContainer.__init__(self, dim)
         # if autoalpha is set to True, alpha_sigma = alpha_mu = alpha*sigma^2
         self.autoalpha = False
         self.enabled = True
-- 
2.43.0


From 5c834c5323c182f88ea37e2608d4d96cbfb0b1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:49 +0000
Subject: [PATCH 23/76] fix: permutation connections store their arguments for
 XML

---
 pybrain/structure/connections/permutation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybrain/structure/connections/permutation.py b/pybrain/structure/connections/permutation.py
index 37a9b25..e925a36 100644
--- a/pybrain/structure/connections/permutation.py
+++ b/pybrain/structure/connections/permutation.py
@@ -26,6 +26,8 @@ class PermutationConnection(Connection):
         self.permutation = array(permutation)
         self.invpermutation = argsort(self.permutation)
         self.blocksize = blocksize
+        self.argdict['permutation'] = self.permutation.tolist()
+        self.argdict['blocksize'] = blocksize
 
     def _forwardImplementation(self, inbuf, outbuf):
         inbuf = inbuf.reshape(self.indim // self.blocksize, self.blocksize)
-- 
2.43.0


From 0bfdaa0d0e5c79aa17a58fa6d68cd606732197f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:49 +0000
Subject: [PATCH 24/76] fix: modules that are both input and output survive XML
 storage

---
 pybrain/tools/customxml/networkreader.py | 4 ++--
 pybrain/tools/customxml/networkwriter.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/tools/customxml/networkreader.py b/pybrain/tools/customxml/networkreader.py
index 9462a51..8e2384f 100644
--- a/pybrain/tools/customxml/networkreader.py
+++ b/pybrain/tools/customxml/networkreader.py
@@ -49,9 +49,9 @@ class NetworkReader(XMLHandling):
             m, inmodule, outmodule = self.readModule(mnode)
             if inmodule:
                 n.addInputModule(m)
-            elif outmodule:
+            if outmodule:
                 n.addOutputModule(m)
-            else:
+            if not inmodule and not outmodule:
                 n.addModule(m)
 
         mconns = self.getChild(node, 'MotherConnections')
diff --git a/pybrain/tools/customxml/networkwriter.py b/pybrain/tools/customxml/networkwriter.py
index c5ffc52..3241645 100644
--- a/pybrain/tools/customxml/networkwriter.py
+++ b/pybrain/tools/customxml/networkwriter.py
@@ -74,7 +74,7 @@ class NetworkWriter(XMLHandling):
             mnode = self.writeBuildable(rootnode, m)
         if inmodule:
             mnode.setAttribute('inmodule', 'True')
-        elif outmodule:
+        if outmodule:
             mnode.setAttribute('outmodule', 'True')
 
     def writeConnection(self, rootnode, c, recurrent):
-- 
2.43.0


From f83f67606f6ee0a54e4b7851f02fbe06d513e913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:49 +0000
Subject: [PATCH 25/76] fix: every network reader resolves names of its own
 file only

---
 pybrain/tools/customxml/networkreader.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/customxml/networkreader.py b/pybrain/tools/customxml/networkreader.py
index 8e2384f..19dacad 100644
--- a/pybrain/tools/customxml/networkreader.py
+++ b/pybrain/tools/customxml/networkreader.py
@@ -19,8 +19,10 @@ except ImportError:
 class NetworkReader(XMLHandling):
     """ A class that can take read a network from an XML file """
 
-    mothers = {}
-    modules = {}
+    def __init__(self, filename, newfile):
+        XMLHandling.__init__(self, filename, newfile)
+        self.mothers = {}
+        self.modules = {}
 
     @staticmethod
     def readFrom(filename, name = None, index = 0):
-- 
2.43.0


From cf798cd519a7dd065ed8664c24f4a53101e00932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:49 +0000
Subject: [PATCH 26/76] fix: numbers in XML nodes can be read

---
 pybrain/tools/customxml/handling.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pybrain/tools/customxml/handling.py b/pybrain/tools/customxml/handling.py
index 237cbad..2a9336d 100644
--- a/pybrain/tools/customxml/handling.py
+++ b/pybrain/tools/customxml/handling.py
@@ -3,7 +3,6 @@ __author__ = 'Tom Schaul, tom@idsia.ch'
 from xml.dom.minidom import parse, getDOMImplementation
 from pybrain.utilities import fListToString
 from scipy import zeros
-import string
 
 class XMLHandling:
     """ general purpose methods for reading, writing and editing XML files.
@@ -113,7 +112,7 @@ class XMLHandling:
             self.writeDoubles(r, row, precision)
 
     def readDoubles(self, node):
-        dstrings = string.split(node.firstChild.data)
+        dstrings = node.firstChild.data.split()
         return [float(s) for s in dstrings]
 
     def readMatrix(self, node):
-- 
2.43.0


From 061e65be9c845ecf4bb88e33f064c35b4251cd10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:49 +0000
Subject: [PATCH 27/76] fix: partial softmax writes its output

---
 pybrain/structure/modules/softmax.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pybrain/structure/modules/softmax.py b/pybrain/structure/modules/softmax.py
index 0d28f4f..a648c4d 100644
--- a/pybrain/structure/modules/softmax.py
+++ b/pybrain/structure/modules/softmax.py
@@ -29,10 +29,8 @@ class PartialSoftmaxLayer(NeuronLayer):
         self.slicelength = slicelength
 
     def _forwardImplementation(self, inbuf, outbuf):
-        outbuf[:] = safeExp(inbuf)
-        outbuf.shape = scipy.size(outbuf) / self.slicelength, self.slicelength
-        s = outbuf.sum(axis=1)
-        outbuf = (outbuf.T / s).T.flatten()
+        slices = safeExp(inbuf).reshape(-1, self.slicelength)
+        outbuf[:] = (slices.T / slices.sum(axis=1)).T.flatten()
 
     def _backwardImplementation(self, outerr, inerr, outbuf, inbuf):
         inerr[:] = outerr
-- 
2.43.0


From 7751d117d0bbdba7229ce17a28ba6a9d47c5db26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:32 +0000
Subject: [PATCH 28/76] fix: saved files are opened with a valid mode

---
 pybrain/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index 21ac18f..363827b 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -184,7 +184,7 @@ class Serializable(object):
         if format is None:
             # try to derive protocol from file extension
             format = formatFromExtension(filename)
-        with open(filename, 'rbU') as fp:
+        with open(filename, 'rb') as fp:
             obj = cls.loadFromFileLike(fp, format)
             obj.filename = filename
             return obj
-- 
2.43.0


From 953e5b99a3ed451a198ae50ec782ab09145e71fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:58 +0000
Subject: [PATCH 29/76] fix: an rbm finds its layers in networks with other
 layer names

---
 pybrain/structure/networks/rbm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/structure/networks/rbm.py b/pybrain/structure/networks/rbm.py
index 98617de..db8c79b 100644
--- a/pybrain/structure/networks/rbm.py
+++ b/pybrain/structure/networks/rbm.py
@@ -33,8 +33,8 @@ class Rbm(object):
         self.net.sortModules()
         self.bias = [i for i in self.net.modules if isinstance(i, BiasUnit)][0]
         self.biascon = self.net.connections[self.bias][0]
-        self.visible = net['visible']
-        self.hidden = net['hidden']
+        self.visible = net.inmodules[0]
+        self.hidden = net.outmodules[0]
         self.con = self.net.connections[self.visible][0]
 
     @classmethod
-- 
2.43.0


From a29ac43d9868ed800c82ead2e8c19268694eebe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:58 +0000
Subject: [PATCH 30/76] fix: deep belief training feeds the data through the
 trained layers

---
 pybrain/unsupervised/trainers/deepbelief.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pybrain/unsupervised/trainers/deepbelief.py b/pybrain/unsupervised/trainers/deepbelief.py
index 24125d1..9946e2f 100644
--- a/pybrain/unsupervised/trainers/deepbelief.py
+++ b/pybrain/unsupervised/trainers/deepbelief.py
@@ -75,14 +75,12 @@ class DeepBeliefTrainer(Trainer):
         # for each layer.
         dataset = self.dataset
         piecenet = FeedForwardNetwork()
-        piecenet.addInputModule(copy.deepcopy(self.net.inmodules[0]))
+        # The first visible layer is the input of the network
+        visible = copy.deepcopy(self.net.inmodules[0])
+        piecenet.addInputModule(visible)
         # Add a bias
         bias = BiasUnit()
         piecenet.addModule(bias)
-        # Add the first visible layer
-        firstRbm = next(self.iterRbms())
-        visible = copy.deepcopy(firstRbm.visible)
-        piecenet.addModule(visible)
         # For saving the rbms and their inverses
         self.invRbms = []
         self.rbms = []
-- 
2.43.0


From 73fc483a819544ed890820b915563959ab0540b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:58 +0000
Subject: [PATCH 31/76] fix: deep belief training accepts supervised datasets

---
 pybrain/unsupervised/trainers/deepbelief.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/unsupervised/trainers/deepbelief.py b/pybrain/unsupervised/trainers/deepbelief.py
index 9946e2f..f0d391f 100644
--- a/pybrain/unsupervised/trainers/deepbelief.py
+++ b/pybrain/unsupervised/trainers/deepbelief.py
@@ -108,7 +108,7 @@ class DeepBeliefTrainer(Trainer):
             piecenet.sortModules()
 
             dataset = UnsupervisedDataSet(rbm.hiddenDim)
-            for sample, in self.dataset:
+            for sample in self.dataset[self.datasetfield]:
                 new_sample = piecenet.activate(sample)
                 dataset.addSample(new_sample)
             visible = hidden
-- 
2.43.0


From b8075fa302f2ee9f0e3d30e18a18484eb39b30ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:06 +0000
Subject: [PATCH 32/76] fix: deep belief training copies the trained weights

---
 pybrain/unsupervised/trainers/deepbelief.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/unsupervised/trainers/deepbelief.py b/pybrain/unsupervised/trainers/deepbelief.py
index f0d391f..cff0ecd 100644
--- a/pybrain/unsupervised/trainers/deepbelief.py
+++ b/pybrain/unsupervised/trainers/deepbelief.py
@@ -95,9 +95,9 @@ class DeepBeliefTrainer(Trainer):
             # Add the connections and the hidden layer of the rbm to the net.
             hidden = copy.deepcopy(rbm.hidden)
             biascon = FullConnection(bias, hidden)
-            biascon.params[:] = rbm.biasWeights
+            biascon.params[:] = rbm.biasParams
             con = FullConnection(visible, hidden)
-            con.params[:] = rbm.weights
+            con.params[:] = rbm.params
 
             piecenet.addConnection(biascon)
             piecenet.addConnection(con)
-- 
2.43.0


From 85366775be8655e38627216448f318355cbbe7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:26 +0000
Subject: [PATCH 33/76] fix: networks own their parameters again after deep
 belief training

---
 pybrain/unsupervised/trainers/deepbelief.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pybrain/unsupervised/trainers/deepbelief.py b/pybrain/unsupervised/trainers/deepbelief.py
index cff0ecd..2d2c56c 100644
--- a/pybrain/unsupervised/trainers/deepbelief.py
+++ b/pybrain/unsupervised/trainers/deepbelief.py
@@ -112,3 +112,8 @@ class DeepBeliefTrainer(Trainer):
                 new_sample = piecenet.activate(sample)
                 dataset.addSample(new_sample)
             visible = hidden
+        # The rbms have taken over the parameters of the connections.
+        for container in self.net._containerIterator():
+            container.owner = self.net
+        self.net.sorted = False
+        self.net.sortModules()
-- 
2.43.0


From bdb87f46f76fa594f5c5822d9e694f0745585eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:31 +0000
Subject: [PATCH 34/76] fix: batch learning applies the weight decay

---
 pybrain/supervised/trainers/backprop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pybrain/supervised/trainers/backprop.py b/pybrain/supervised/trainers/backprop.py
index b4c9f5f..b0a1b3c 100644
--- a/pybrain/supervised/trainers/backprop.py
+++ b/pybrain/supervised/trainers/backprop.py
@@ -71,7 +71,8 @@ class BackpropTrainer(Trainer):
         if self.verbose:
             print("Total error: {z: .12g}".format(z=errors / ponderation))
         if self.batchlearning:
-            self.module._setParameters(self.descent(self.module.derivs))
+            gradient = self.module.derivs - self.weightdecay * self.module.params
+            self.module._setParameters(self.descent(gradient))
         self.epoch += 1
         self.totalepochs += 1
         return errors / ponderation
-- 
2.43.0


From 97815d0770eb21ed44090cd040fa94b12652ba4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:31 +0000
Subject: [PATCH 35/76] fix: the natural gradient estimate only uses its own
 samples

---
 pybrain/auxiliary/gradientdescent.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybrain/auxiliary/gradientdescent.py b/pybrain/auxiliary/gradientdescent.py
index 4b8b0bb..b4fd6d8 100644
--- a/pybrain/auxiliary/gradientdescent.py
+++ b/pybrain/auxiliary/gradientdescent.py
@@ -116,6 +116,7 @@ class NaturalGradient(object):
         # After all the samples have been put into a single array, we can
         # delete them.
         gradientarray = array(self.samples).T
+        self.samples = []
         inv_covar = inv(cov(gradientarray))
         self.values += dot(inv_covar, gradientarray.sum(axis=1))
         return self.values
-- 
2.43.0


From 272155f45d7599b74b161153d8ff968815e3e13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:27 +0000
Subject: [PATCH 36/76] fix: ES: replicate the parents an integral number of
 times

---
 pybrain/optimization/populationbased/es.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/populationbased/es.py b/pybrain/optimization/populationbased/es.py
index c2405b7..1d8557e 100644
--- a/pybrain/optimization/populationbased/es.py
+++ b/pybrain/optimization/populationbased/es.py
@@ -49,7 +49,7 @@ class ES(BlackBoxOptimizer):
             self._sortPopulation(noHallOfFame = True)
 
         # produce offspring from the the mu best ones
-        self.population = self.population[:self.mu] * (self._popsize/self.mu)
+        self.population = self.population[:self.mu] * (self._popsize // self.mu)
 
         # mutate the offspring
         if self.elitism:
-- 
2.43.0


From 992eff8fc42010865e0fc44fdd1d6357ccc2eb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:27 +0000
Subject: [PATCH 37/76] fix: optimizers compare dimensions by value

---
 pybrain/optimization/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/optimizer.py b/pybrain/optimization/optimizer.py
index d6faf3f..93bd73d 100644
--- a/pybrain/optimization/optimizer.py
+++ b/pybrain/optimization/optimizer.py
@@ -129,7 +129,7 @@ class BlackBoxOptimizer(DirectSearchLearner):
             if isinstance(evaluator, FunctionEnvironment):
                 if self.numParameters is None:            
                     self.numParameters = evaluator.xdim
-                elif self.numParameters is not evaluator.xdim:
+                elif self.numParameters != evaluator.xdim:
                     raise ValueError("Parameter dimension mismatch: evaluator expects "+str(evaluator.xdim)\
                                      +" but it was set to "+str(self.numParameters)+".")
                 '''added by JPQ to handle boundaries on the parameters'''
-- 
2.43.0


From 75c1216e023826dbfbe4ec676164060b3ec06acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:27 +0000
Subject: [PATCH 38/76] fix: optimizers keep the best point found while they
 initialise

---
 pybrain/optimization/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/optimizer.py b/pybrain/optimization/optimizer.py
index 93bd73d..07dc32e 100644
--- a/pybrain/optimization/optimizer.py
+++ b/pybrain/optimization/optimizer.py
@@ -152,8 +152,8 @@ class BlackBoxOptimizer(DirectSearchLearner):
         #set the starting point for optimization (as provided, or randomly)
         self._setInitEvaluable(initEvaluable)        
         self.bestEvaluation = None
-        self._additionalInit()
         self.bestEvaluable = self._initEvaluable
+        self._additionalInit()
         
     def _flipDirection(self):
         self.__evaluator = oppositeFunction(self.__evaluator)
-- 
2.43.0


From d63901f2e9cb672a55f2352cbcdf0dcdd5044cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:27 +0000
Subject: [PATCH 39/76] fix: optimizers stop after maxLearningSteps steps

---
 pybrain/optimization/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/optimization/optimizer.py b/pybrain/optimization/optimizer.py
index 07dc32e..37e7f17 100644
--- a/pybrain/optimization/optimizer.py
+++ b/pybrain/optimization/optimizer.py
@@ -195,7 +195,7 @@ class BlackBoxOptimizer(DirectSearchLearner):
         """ The main loop that does the learning. """
         assert self.__evaluator is not None, "No evaluator has been set. Learning cannot start."
         if additionalLearningSteps is not None:
-            self.maxLearningSteps = self.numLearningSteps + additionalLearningSteps - 1
+            self.maxLearningSteps = self.numLearningSteps + additionalLearningSteps
         while not self._stoppingCriterion():
             try:
                 self._learnStep()
@@ -287,7 +287,7 @@ class BlackBoxOptimizer(DirectSearchLearner):
             if ((self.minimize and self.bestEvaluation <= self.desiredEvaluation)
                 or (not self.minimize and self.bestEvaluation >= self.desiredEvaluation)):
                 return True
-        if self.maxLearningSteps is not None and self.numLearningSteps > self.maxLearningSteps:
+        if self.maxLearningSteps is not None and self.numLearningSteps >= self.maxLearningSteps:
             return True
         return False
     
-- 
2.43.0


From 36d6c2e32f353321ea9fc5bda242c87d8d844d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:27 +0000
Subject: [PATCH 40/76] fix: PGPE: global exploration uses the current
 perturbation

---
 pybrain/optimization/finitedifference/pgpe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/finitedifference/pgpe.py b/pybrain/optimization/finitedifference/pgpe.py
index c6da77d..1264cd6 100644
--- a/pybrain/optimization/finitedifference/pgpe.py
+++ b/pybrain/optimization/finitedifference/pgpe.py
@@ -72,7 +72,7 @@ class PGPE(FiniteDifferences):
         if fakt2 > 0.: #for sigma adaption alg. follows only positive gradients
             if self.exploration == "global":         
                 #apply sigma update globally        
-                self.sigList = self.gdSig(fakt2 * ((self.deltas ** 2).sum() - (self.sigList ** 2).sum())
+                self.sigList = self.gdSig(fakt2 * ((deltas ** 2).sum() - (self.sigList ** 2).sum())
                                           / (self.sigList * float(self.numParameters)))
             elif self.exploration == "local":
                 #apply sigma update locally
-- 
2.43.0


From a055f5d205e56d1143e7eadc5f7bb3acaac67df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:27 +0000
Subject: [PATCH 41/76] fix: XNES: importance mixing reuses points, not
 fitnesses

---
 pybrain/optimization/distributionbased/xnes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/distributionbased/xnes.py b/pybrain/optimization/distributionbased/xnes.py
index 245ebe3..7f42607 100644
--- a/pybrain/optimization/distributionbased/xnes.py
+++ b/pybrain/optimization/distributionbased/xnes.py
@@ -125,7 +125,7 @@ class XNES(DistributionBasedOptimizer):
             [self._oneEvaluation(self._sample2base(self._produceSample())) for _ in range(self.batchSize)]
             self._pointers = list(range(len(self._allEvaluated)-self.batchSize, len(self._allEvaluated)))
         else:
-            reuseindices, newpoints = importanceMixing(list(map(self._base2sample, self._currentEvaluations)),
+            reuseindices, newpoints = importanceMixing(list(map(self._base2sample, self._population)),
                                                        self._oldpdf, self._newpdf, self._produceSample, self.forcedRefresh)
             [self._oneEvaluation(self._sample2base(s)) for s in newpoints]
             self._pointers = ([self._pointers[i] for i in reuseindices]+
-- 
2.43.0


From b57707707c4c02bdd81343c359e826dbbe651fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:27 +0000
Subject: [PATCH 42/76] fix: FEM: mean shifts are measured from the previous
 center

---
 pybrain/optimization/distributionbased/fem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/distributionbased/fem.py b/pybrain/optimization/distributionbased/fem.py
index 86edfb9..7f3646c 100644
--- a/pybrain/optimization/distributionbased/fem.py
+++ b/pybrain/optimization/distributionbased/fem.py
@@ -151,7 +151,7 @@ class FEM(DistributionBasedOptimizer):
 
     def _updateMus(self, updateSize, lastSample):
         for c in range(self.numberOfCenters):
-            oldmu = self.mus[c]
+            oldmu = self.mus[c].copy()
             self.mus[c] *= 1. - self.muMultiplier * updateSize[c]
             self.mus[c] += self.muMultiplier * updateSize[c] * lastSample
             # don't update with the ones that were produced with a mean shift
-- 
2.43.0


From 0aa2a9a25b529c0446d2ba8f12c5676efd997cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:27 +0000
Subject: [PATCH 43/76] fix: FEM: accept arrays for ranges and covariances

---
 pybrain/optimization/distributionbased/fem.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/optimization/distributionbased/fem.py b/pybrain/optimization/distributionbased/fem.py
index 7f3646c..6fa1b8f 100644
--- a/pybrain/optimization/distributionbased/fem.py
+++ b/pybrain/optimization/distributionbased/fem.py
@@ -59,11 +59,11 @@ class FEM(DistributionBasedOptimizer):
         self.mus = []
         self.sigmas = []
 
-        if self.rangemins == None:
+        if self.rangemins is None:
             self.rangemins = -ones(xdim)
-        if self.rangemaxs == None:
+        if self.rangemaxs is None:
             self.rangemaxs = ones(xdim)
-        if self.initCovariances == None:
+        if self.initCovariances is None:
             if self.diagonalOnly:
                 self.initCovariances = ones(xdim)
             else:
-- 
2.43.0


From e311270d455600e568aa55a15bc25ea390e71a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:27 +0000
Subject: [PATCH 44/76] fix: VES: accept arrays for ranges, covariances and
 given samples

---
 pybrain/optimization/distributionbased/ves.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybrain/optimization/distributionbased/ves.py b/pybrain/optimization/distributionbased/ves.py
index 4851294..bff7084 100644
--- a/pybrain/optimization/distributionbased/ves.py
+++ b/pybrain/optimization/distributionbased/ves.py
@@ -56,11 +56,11 @@ class VanillaGradientEvolutionStrategies(DistributionBasedOptimizer):
         if self.batchSize is None:
             self.batchSize = 10 * self.numParameters
 
-        if self.rangemins == None:
+        if self.rangemins is None:
             self.rangemins = -ones(xdim)
-        if self.rangemaxs == None:
+        if self.rangemaxs is None:
             self.rangemaxs = ones(xdim)
-        if self.initCovariances == None:
+        if self.initCovariances is None:
             if self.diagonalOnly:
                 self.initCovariances = ones(xdim)
             else:
@@ -86,7 +86,7 @@ class VanillaGradientEvolutionStrategies(DistributionBasedOptimizer):
             self._allDistributions = [(self.x.copy(), self.sigma.copy())]
 
     def _produceNewSample(self, z=None):
-        if z == None:
+        if z is None:
             p = randn(self.numParameters)
             z = dot(self.factorSigma.T, p) + self.x
         self.allSamples.append(z)
-- 
2.43.0


From a907f56272d89c28f0833fab357375d06c2384ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:27 +0000
Subject: [PATCH 45/76] fix: VES: integral number of distribution parameters

---
 pybrain/optimization/distributionbased/ves.py | 2 +-
 pybrain/utilities.py                          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/optimization/distributionbased/ves.py b/pybrain/optimization/distributionbased/ves.py
index bff7084..f339c4e 100644
--- a/pybrain/optimization/distributionbased/ves.py
+++ b/pybrain/optimization/distributionbased/ves.py
@@ -47,7 +47,7 @@ class VanillaGradientEvolutionStrategies(DistributionBasedOptimizer):
     def _additionalInit(self):
         xdim = self.numParameters
         assert not self.diagonalOnly, 'Diagonal-only not yet supported'
-        self.numDistrParams = xdim + xdim * (xdim + 1) / 2
+        self.numDistrParams = xdim + xdim * (xdim + 1) // 2
 
         if self.momentum != None:
             self.momentumVector = zeros(self.numDistrParams)
diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index 363827b..432a9d0 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -557,7 +557,7 @@ def triu2flat(m):
     """ Flattens an upper triangular matrix, returning a vector of the
     non-zero elements. """
     dim = m.shape[0]
-    res = zeros(dim * (dim + 1) / 2)
+    res = zeros(dim * (dim + 1) // 2)
     index = 0
     for row in range(dim):
         res[index:index + dim - row] = m[row, row:]
-- 
2.43.0


From 53d7f04a31985eb08d90e36f83d6f6cb400baaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:27 +0000
Subject: [PATCH 46/76] fix: memetic search sets all masked parameters in its
 local search

---
 pybrain/optimization/memetic/memetic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pybrain/optimization/memetic/memetic.py b/pybrain/optimization/memetic/memetic.py
index 74ab11e..77b7600 100644
--- a/pybrain/optimization/memetic/memetic.py
+++ b/pybrain/optimization/memetic/memetic.py
@@ -31,7 +31,9 @@ class MemeticSearch(HillClimber, TopologyOptimizer):
                 x0 = evaluable.params
                 evaluable.returnZeros = True
                 def f(x):
+                    evaluable.returnZeros = False
                     evaluable._setParameters(x)
+                    evaluable.returnZeros = True
                     return BlackBoxOptimizer._oneEvaluation(self, evaluable)
             else:
                 f = lambda x: BlackBoxOptimizer._oneEvaluation(self, x)
-- 
2.43.0


From 9a16aa05234187a403cbff7e0c1db96c132eb7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:27 +0000
Subject: [PATCH 47/76] fix: coevolution modules import their base from its
 package

---
 .../populationbased/coevolution/competitivecoevolution.py       | 2 +-
 .../populationbased/coevolution/multipopulationcoevolution.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/optimization/populationbased/coevolution/competitivecoevolution.py b/pybrain/optimization/populationbased/coevolution/competitivecoevolution.py
index 39c27bd..f9da56b 100644
--- a/pybrain/optimization/populationbased/coevolution/competitivecoevolution.py
+++ b/pybrain/optimization/populationbased/coevolution/competitivecoevolution.py
@@ -2,7 +2,7 @@ from __future__ import print_function
 
 __author__ = 'Tom Schaul, tom@idsia.ch'
 
-from pybrain.optimization.coevolution.coevolution import Coevolution
+from pybrain.optimization.populationbased.coevolution.coevolution import Coevolution
 
 
 class CompetitiveCoevolution(Coevolution):
diff --git a/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py b/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
index 9d0895a..321a2fb 100644
--- a/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
+++ b/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
@@ -2,7 +2,7 @@ __author__ = 'Tom Schaul, tom@idsia.ch'
 
 from random import choice
 
-from pybrain.optimization.coevolution.coevolution import Coevolution
+from pybrain.optimization.populationbased.coevolution.coevolution import Coevolution
 
 
 class MultiPopulationCoevolution(Coevolution):
-- 
2.43.0


From 675ec7ec669b2671e83e01b220b5ba10b7ef3ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:27 +0000
Subject: [PATCH 48/76] fix: coevolution: average children with their parents
 without elitism

---
 pybrain/optimization/populationbased/coevolution/coevolution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/optimization/populationbased/coevolution/coevolution.py b/pybrain/optimization/populationbased/coevolution/coevolution.py
index b7f3aa6..bd21b0d 100644
--- a/pybrain/optimization/populationbased/coevolution/coevolution.py
+++ b/pybrain/optimization/populationbased/coevolution/coevolution.py
@@ -169,7 +169,7 @@ class Coevolution(Named):
             newpop = self._extendPopulation(selected, self.populationSize
                                             + self._numSelected()) [self._numSelected():]
             if self.parentChildAverage < 1:
-                self._averageWithParents(newpop[self._numSelected():], self.parentChildAverage)
+                self._averageWithParents(newpop, self.parentChildAverage)
         return newpop
 
     def _beats(self, h, p):
-- 
2.43.0


From 8bf877816548f5ed1dc888cf540c4eda2386c591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:27 +0000
Subject: [PATCH 49/76] fix: multi-population coevolution leaves the seed list
 alone

---
 .../populationbased/coevolution/multipopulationcoevolution.py    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py b/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
index 321a2fb..146c35b 100644
--- a/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
+++ b/pybrain/optimization/populationbased/coevolution/multipopulationcoevolution.py
@@ -15,6 +15,7 @@ class MultiPopulationCoevolution(Coevolution):
 
     def _initPopulation(self, seeds):
         """ one part of the seeds for each population, if there's not enough: randomize. """
+        seeds = seeds[:]
         for s in seeds:
             s.parent = None
         while len(seeds) < self.numPops:
-- 
2.43.0


From a5ac0da4382f557886dea5df13a54dbc98ad9436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:27 +0000
Subject: [PATCH 50/76] fix: non-dominated fronts split large populations at
 integral positions

---
 pybrain/tools/nondominated.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/tools/nondominated.py b/pybrain/tools/nondominated.py
index 9f0fb7d..9ba0fcb 100644
--- a/pybrain/tools/nondominated.py
+++ b/pybrain/tools/nondominated.py
@@ -150,9 +150,9 @@ def _non_dominated_front_merge_arr(iterable, key=lambda x: x, allowequality=True
     items = list(iterable)
     l = len(items)
     if l > 100:
-        part1 = list(_non_dominated_front_merge_arr(items[:l / 2], key, allowequality))
-        part2 = list(_non_dominated_front_merge_arr(items[l / 2:], key, allowequality))
-        if len(part1) >= l / 3 or len(part2) >= l / 3:
+        part1 = list(_non_dominated_front_merge_arr(items[:l // 2], key, allowequality))
+        part2 = list(_non_dominated_front_merge_arr(items[l // 2:], key, allowequality))
+        if len(part1) >= l // 3 or len(part2) >= l // 3:
             return _non_dominated_front_arr(part1 + part2, key, allowequality)
         else:
             return _non_dominated_front_merge_arr(part1 + part2, key, allowequality)
-- 
2.43.0


From 1f035e7b4efc04020488f1d3529573f6b38e316f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:27 +0000
Subject: [PATCH 51/76] fix: crowding distance ignores objectives that do not
 vary

---
 pybrain/tools/nondominated.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pybrain/tools/nondominated.py b/pybrain/tools/nondominated.py
index 9ba0fcb..7d70c3f 100644
--- a/pybrain/tools/nondominated.py
+++ b/pybrain/tools/nondominated.py
@@ -18,6 +18,8 @@ def crowding_distance(individuals, fitnesses):
         # Make sure the boundary points are always selected.
         distances[individuals[0]] = 1e100
         distances[individuals[-1]] = 1e100
+        if normalization == 0:
+            continue
         tripled = list(zip(individuals, individuals[1:-1], individuals[2:]))
         for pre, ind, post in tripled:
             distances[ind] += (fitnesses[pre][i] - fitnesses[post][i]) / normalization
@@ -267,6 +269,8 @@ def const_crowding_distance(individuals, fitnesses):
         # Make sure the boundary points are always selected.
         distances[individuals[0]] = 1e100
         distances[individuals[-1]] = 1e100
+        if normalization == 0:
+            continue
         tripled = list(zip(individuals, individuals[1:-1], individuals[2:]))
         for pre, ind, post in tripled:
             distances[ind] += (fitnesses[pre][0][i] - fitnesses[post][0][i]) / normalization
-- 
2.43.0


From 01be54efeaa870b0a2929919ccd6d707fea9aef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:23 +0000
Subject: [PATCH 52/76] fix: the order checks of LoggingAgent work with array
 observations and actions

---
 pybrain/rl/agents/logging.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pybrain/rl/agents/logging.py b/pybrain/rl/agents/logging.py
index c13e356..745b7ba 100644
--- a/pybrain/rl/agents/logging.py
+++ b/pybrain/rl/agents/logging.py
@@ -41,9 +41,9 @@ class LoggingAgent(Agent):
 
     def getAction(self):
         """Step 2: store the action in a temporary variable until reward is given. """
-        assert self.lastobs != None
-        assert self.lastaction == None
-        assert self.lastreward == None
+        assert self.lastobs is not None
+        assert self.lastaction is None
+        assert self.lastreward is None
 
         # implement getAction in subclass and set self.lastaction
 
@@ -51,9 +51,9 @@ class LoggingAgent(Agent):
     def giveReward(self, r):
         """Step 3: store observation, action and reward in the history dataset. """
         # step 3: assume that state and action have been set
-        assert self.lastobs != None
-        assert self.lastaction != None
-        assert self.lastreward == None
+        assert self.lastobs is not None
+        assert self.lastaction is not None
+        assert self.lastreward is None
 
         self.lastreward = r
 
-- 
2.43.0


From 93db5ae61c1d1edd34474f91029164ea859192b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:23 +0000
Subject: [PATCH 53/76] fix: ActionValueTable.getActionValues accepts an
 observation as state, like getMaxAction

---
 pybrain/rl/learners/valuebased/interface.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/learners/valuebased/interface.py b/pybrain/rl/learners/valuebased/interface.py
index c4a6ae1..9c4b657 100644
--- a/pybrain/rl/learners/valuebased/interface.py
+++ b/pybrain/rl/learners/valuebased/interface.py
@@ -56,7 +56,7 @@ class ActionValueTable(Table, ActionValueInterface):
         return action
 
     def getActionValues(self, state):
-        return self.params.reshape(self.numRows, self.numColumns)[state, :].flatten()
+        return self.params.reshape(self.numRows, self.numColumns)[int(state), :].flatten()
 
     def initialize(self, value=0.0):
         """ Initialize the whole table with the given value. """
-- 
2.43.0


From df3faf25e96fc6c5b1e4e571e74505530ef828d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:23 +0000
Subject: [PATCH 54/76] fix: QLambda does not truncate rewards to integers

---
 pybrain/rl/learners/valuebased/qlambda.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/learners/valuebased/qlambda.py b/pybrain/rl/learners/valuebased/qlambda.py
index 1c6a507..ef4f510 100644
--- a/pybrain/rl/learners/valuebased/qlambda.py
+++ b/pybrain/rl/learners/valuebased/qlambda.py
@@ -35,7 +35,7 @@ class QLambda(ValueBasedLearner):
             laststate = int(states[i - 1])
             # action = int(actions[i])
             lastaction = int(actions[i - 1])
-            lastreward = int(rewards[i - 1])
+            lastreward = float(rewards[i - 1])
 
             qvalue = self.module.getValue(laststate, lastaction)
             maxnext = self.module.getValue(state, self.module.getMaxAction(state))
-- 
2.43.0


From de7751fd2ed846a282e554e1c665c33bda9b4d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:23 +0000
Subject: [PATCH 55/76] fix: a batch-learning LinearFA_Agent does not connect
 separate sequences

---
 pybrain/rl/agents/linearfa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pybrain/rl/agents/linearfa.py b/pybrain/rl/agents/linearfa.py
index 8a6024d..bba22c5 100644
--- a/pybrain/rl/agents/linearfa.py
+++ b/pybrain/rl/agents/linearfa.py
@@ -80,6 +80,7 @@ class LinearFA_Agent(LoggingAgent):
             print('Learning is done online, and already finished.')
             return
         for seq in self.history:
+            self.lastobs = None
             for obs, action, reward in seq:
                 if self.lastobs is not None:
                     self.learner._updateWeights(self.lastobs, self.lastaction, self.lastreward, obs)
-- 
2.43.0


From 2b69ce62195403db39a23346145459691ed59704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:23 +0000
Subject: [PATCH 56/76] fix: Task.normalize clips the scaled sensors when
 clipping is enabled

---
 pybrain/rl/environments/task.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pybrain/rl/environments/task.py b/pybrain/rl/environments/task.py
index e771044..261c0ee 100644
--- a/pybrain/rl/environments/task.py
+++ b/pybrain/rl/environments/task.py
@@ -52,9 +52,10 @@ class Task(object):
             if not l:
                 result.append(s)
             else:
-                result.append((s - l[0]) / (l[1] - l[0]) * 2 - 1.0)
-        if self.clipping:
-            clip(result, -1, 1)
+                r = (s - l[0]) / (l[1] - l[0]) * 2 - 1.0
+                if self.clipping:
+                    r = clip(r, -1, 1)
+                result.append(r)
         return asarray(result)
 
     def denormalize(self, actors):
-- 
2.43.0


From 94d27c1459df6d887f6bc22ad4c788187ffb6258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:23 +0000
Subject: [PATCH 57/76] fix: randomDeterministic assigns the chosen action of
 every state

---
 pybrain/rl/learners/modelbased/policyiteration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/learners/modelbased/policyiteration.py b/pybrain/rl/learners/modelbased/policyiteration.py
index e04a668..bcb0845 100644
--- a/pybrain/rl/learners/modelbased/policyiteration.py
+++ b/pybrain/rl/learners/modelbased/policyiteration.py
@@ -113,7 +113,7 @@ def randomDeterministic(Ts):
     dim = len(Ts[0])
     choices = (rand(dim) * numA).astype(int)
     policy = zeros((dim, numA))
-    for si, a in choices:
+    for si, a in enumerate(choices):
         policy[si, a] = 1
     return policy, collapsedTransitions(Ts, policy)
 
-- 
2.43.0


From 6461239e0abb124a62a599b96af1309daecd95e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:23 +0000
Subject: [PATCH 58/76] fix: a drawn game counts as a draw in a tournament

---
 pybrain/rl/experiments/tournament.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pybrain/rl/experiments/tournament.py b/pybrain/rl/experiments/tournament.py
index d298311..b972fb1 100644
--- a/pybrain/rl/experiments/tournament.py
+++ b/pybrain/rl/experiments/tournament.py
@@ -66,8 +66,10 @@ class Tournament(Named):
         wincolor = self.env.getWinner()
         if wincolor == p1.color:
             winner = p1
-        else:
+        elif wincolor == p2.color:
             winner = p2
+        else:
+            winner = self.env.DRAW
         self.results[players].append(winner)
 
     def organize(self, repeat=1):
-- 
2.43.0


From 227857abb745da0d88fa76615ac5bfa5f0bc4ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:23 +0000
Subject: [PATCH 59/76] fix: translated and rotated functions accept an
 explicit offset or matrix and leave the base function alone

---
 pybrain/rl/environments/functions/transformations.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pybrain/rl/environments/functions/transformations.py b/pybrain/rl/environments/functions/transformations.py
index d34f00f..afc7eae 100644
--- a/pybrain/rl/environments/functions/transformations.py
+++ b/pybrain/rl/environments/functions/transformations.py
@@ -39,12 +39,12 @@ class TranslateFunction(FunctionEnvironment):
     def __init__(self, basef, distance=0.1, offset=None):
         """ by default the offset is random, with a distance of 0.1 to the old one """
         FunctionEnvironment.__init__(self, basef.xdim, basef.xopt)
-        if offset == None:
+        if offset is None:
             self._offset = rand(basef.xdim)
             self._offset *= distance / norm(self._offset)
         else:
             self._offset = offset
-        self.xopt += self._offset
+        self.xopt = self.xopt + self._offset
         self.desiredValue = basef.desiredValue            
         self.toBeMinimized = basef.toBeMinimized
         def tf(x):
@@ -61,7 +61,7 @@ class RotateFunction(FunctionEnvironment):
     def __init__(self, basef, rotMat=None):
         """ by default the rotation matrix is random. """
         FunctionEnvironment.__init__(self, basef.xdim, basef.xopt)
-        if rotMat == None:
+        if rotMat is None:
             # make a random orthogonal rotation matrix
             self._M = orth(rand(basef.xdim, basef.xdim))
         else:
-- 
2.43.0


From 22fa947cf6d286d4d2e835306a8da6ece5599176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:23 +0000
Subject: [PATCH 60/76] fix: RosenbrockFunction accepts an explicit optimum

---
 pybrain/rl/environments/functions/unimodal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/functions/unimodal.py b/pybrain/rl/environments/functions/unimodal.py
index b842619..027d5f2 100644
--- a/pybrain/rl/environments/functions/unimodal.py
+++ b/pybrain/rl/environments/functions/unimodal.py
@@ -108,7 +108,7 @@ class RosenbrockFunction(FunctionEnvironment):
     def __init__(self, xdim = 2, xopt = None):
         assert xdim >= self.xdimMin and not (self.xdimMax != None and xdim > self.xdimMax)
         self.xdim = xdim
-        if xopt == None:
+        if xopt is None:
             self.xopt = ones(self.xdim)
         else:
             self.xopt = xopt
-- 
2.43.0


From a8a6457120975da1b651781c89a965a0eed6f5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:23 +0000
Subject: [PATCH 61/76] fix: evaluating BoundedLinear or BucheRastriginFunction
 does not modify the point

---
 pybrain/rl/environments/functions/multimodal.py | 2 +-
 pybrain/rl/environments/functions/unimodal.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/environments/functions/multimodal.py b/pybrain/rl/environments/functions/multimodal.py
index f8d746e..dbfaf4e 100644
--- a/pybrain/rl/environments/functions/multimodal.py
+++ b/pybrain/rl/environments/functions/multimodal.py
@@ -86,7 +86,7 @@ class BucheRastriginFunction(MultiModalFunction):
     """ Deceptive and highly multi-modal."""
     
     def f(self, x):
-        z = x[:]
+        z = x.copy()
         for i in range(self.xdim):
             e = i/(self.xdim-1.)/2.
             if x[i] <= 0 or i%2==0:
diff --git a/pybrain/rl/environments/functions/unimodal.py b/pybrain/rl/environments/functions/unimodal.py
index 027d5f2..3651e5c 100644
--- a/pybrain/rl/environments/functions/unimodal.py
+++ b/pybrain/rl/environments/functions/unimodal.py
@@ -140,7 +140,7 @@ class BoundedLinear(FunctionEnvironment):
         self._signs = sign(randn(self.xdim))       
     
     def f(self, x):
-        x_ = x[:]
+        x_ = x.copy()
         for i, xi in enumerate(x):
             if xi*self._signs[i] > 5:
                 x_[i] = self._signs[i]*5
-- 
2.43.0


From 3c4d6ed6d563b84ff7bcf28f2f22979f15c1049a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:23 +0000
Subject: [PATCH 62/76] fix: permuteToBlocks2d uses integer indices

---
 pybrain/utilities.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index 432a9d0..9e6160b 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -542,12 +542,12 @@ def permuteToBlocks2d(arr, blockheight, blockwidth):
     arr = arr.flatten()
     new = zeros(size(arr))
     for i in range(size(arr)):
-        blockx = (i % width) / blockwidth
-        blocky = i / width / blockheight
-        blockoffset = blocky * width / blockwidth + blockx
+        blockx = (i % width) // blockwidth
+        blocky = i // width // blockheight
+        blockoffset = blocky * width // blockwidth + blockx
         blockoffset *= blockwidth * blockheight
         inblockx = i % blockwidth
-        inblocky = (i / width) % blockheight
+        inblocky = (i // width) % blockheight
         j = blockoffset + inblocky * blockwidth + inblockx
         new[j] = arr[i]
     return new
-- 
2.43.0


From 8890df4815fa8ea6930696494f5a146fb0d0c4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:23 +0000
Subject: [PATCH 63/76] fix: blockCombine handles matrices that are not square

---
 pybrain/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index 9e6160b..b101e3e 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -596,7 +596,7 @@ def blockCombine(l):
     hs = sum(hdims)
     vdims = [row[0].shape[0] for row in l]
     vs = sum(vdims)
-    res = zeros((hs, vs))
+    res = zeros((vs, hs))
     vindex = 0
     for i, row in enumerate(l):
         hindex = 0
-- 
2.43.0


From c6d04efb8ba49f644ec11b55f7b54aa3630c47ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:23 +0000
Subject: [PATCH 64/76] fix: linscale scales to the requested interval

---
 pybrain/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index b101e3e..3b07ae0 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -108,7 +108,7 @@ def setAllArgs(obj, argdict):
 
 def linscale(d, lim):
     """ utility function to linearly scale array d to the interval defined by lim """
-    return (d - d.min())*(lim[1] - lim[0]) + lim[0]
+    return (d - d.min())*(lim[1] - lim[0])/(d.max() - d.min()) + lim[0]
 
 
 def percentError(out, true):
-- 
2.43.0


From 07f12d2934fd57b5896886e861833cacb121e250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:23 +0000
Subject: [PATCH 65/76] fix: a tolerant drawIndex does not modify the given
 probabilities

---
 pybrain/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index 3b07ae0..4780110 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -38,7 +38,7 @@ def drawIndex(probs, tolerant=False):
     :key tolerant: if set to True, the array is normalized to sum to 1.  """
     if not sum(probs) < 1.00001 or not sum(probs) > 0.99999:
         if tolerant:
-            probs /= sum(probs)
+            probs = array(probs) / float(sum(probs))
         else:
             print((probs, 1 - sum(probs)))
             raise ValueError()
-- 
2.43.0


From 03637ef1239104dd3b749d795b9df25ca3bc9639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:23 +0000
Subject: [PATCH 66/76] fix: ranking sorts by key

---
 pybrain/tools/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/tools/functions.py b/pybrain/tools/functions.py
index 9c0d847..2ab13bd 100644
--- a/pybrain/tools/functions.py
+++ b/pybrain/tools/functions.py
@@ -70,8 +70,8 @@ def tanhPrime(x):
 
 def ranking(R):
     """ Produces a linear ranking of the values in R. """
-    l = sorted(list(enumerate(R)), cmp=lambda a, b: cmp(a[1], b[1]))
-    l = sorted(list(enumerate(l)), cmp=lambda a, b: cmp(a[1], b[1]))
+    l = sorted(list(enumerate(R)), key=lambda a: a[1])
+    l = sorted(list(enumerate(l)), key=lambda a: a[1][0])
     return array([kv[0] for kv in l])
 
 
-- 
2.43.0


From 422465a478fbfa535744418384747882c7a588da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:24 +0000
Subject: [PATCH 67/76] fix: semilinear and semilinearPrime accept arrays of
 any shape

---
 pybrain/tools/functions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pybrain/tools/functions.py b/pybrain/tools/functions.py
index 2ab13bd..eab2c05 100644
--- a/pybrain/tools/functions.py
+++ b/pybrain/tools/functions.py
@@ -10,8 +10,7 @@ def semilinear(x):
     try:
         # assume x is a numpy array
         shape = x.shape
-        x.flatten()
-        x = x.tolist()
+        x = x.flatten().tolist()
     except AttributeError:
         # no, it wasn't: build shape from length of list
         shape = (1, len(x))
@@ -31,8 +30,7 @@ def semilinearPrime(x):
     try:
         # assume x is a numpy array
         shape = x.shape
-        x.flatten()
-        x = x.tolist()
+        x = x.flatten().tolist()
     except AttributeError:
         # no, it wasn't: build shape from length of list
         shape = (1, len(x))
-- 
2.43.0


From a3bc9ae795b74e57c24e755ef4d975f2623b8180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:24 +0000
Subject: [PATCH 68/76] fix: getSequenceEndsImportance indexes with integers

---
 pybrain/tools/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/tools/validation.py b/pybrain/tools/validation.py
index 5fdb1f6..493315d 100644
--- a/pybrain/tools/validation.py
+++ b/pybrain/tools/validation.py
@@ -137,7 +137,7 @@ class SequenceHelper(object):
             :arg dataset: Must implement :class:`ImportanceDataSet`
         """
         importance = zeros(dataset.getLength())
-        importance[cls.getSequenceEnds(dataset)] = 1.
+        importance[cls.getSequenceEnds(dataset).astype(int)] = 1.
         return importance
 
 
-- 
2.43.0


From 1ad63edd205089150a8419a85573cdf50657faa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:09 +0000
Subject: [PATCH 69/76] fix: one_to_n accepts action values read back from a
 dataset (floats)

---
 pybrain/utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/utilities.py b/pybrain/utilities.py
index 4780110..fd98712 100644
--- a/pybrain/utilities.py
+++ b/pybrain/utilities.py
@@ -382,7 +382,7 @@ def asBinary(i):
 def one_to_n(val, maxval):
     """ Returns a 1-in-n binary encoding of a non-negative integer. """
     a = zeros(maxval, float)
-    a[val] = 1.
+    a[int(val)] = 1.
     return a
 
 
-- 
2.43.0


From 5dba53efc0d7162fb1531629e0c69774f733d0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:51 +0000
Subject: [PATCH 70/76] fix: matrices written to XML can be read back

---
 pybrain/tools/customxml/handling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/tools/customxml/handling.py b/pybrain/tools/customxml/handling.py
index 2a9336d..d2828b6 100644
--- a/pybrain/tools/customxml/handling.py
+++ b/pybrain/tools/customxml/handling.py
@@ -103,7 +103,7 @@ class XMLHandling:
         return None
 
     def writeDoubles(self, node, l, precision = 6):
-        self.addTextNode(node, fListToString(l, precision)[2:-1])
+        self.addTextNode(node, fListToString(l, precision)[1:-1].replace(',', ' '))
 
     def writeMatrix(self, node, m, precision = 6):
         for i, row in enumerate(m):
-- 
2.43.0


From a1b59b3ee7a7ffc6d2cede94bfbb1a68c5f146df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:51 +0000
Subject: [PATCH 71/76] fix: MDPMazeTask numbers the cells of mazes wider than
 high uniquely

---
 pybrain/rl/environments/mazes/tasks/mdp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/mazes/tasks/mdp.py b/pybrain/rl/environments/mazes/tasks/mdp.py
index 23a97ec..0d32a0f 100644
--- a/pybrain/rl/environments/mazes/tasks/mdp.py
+++ b/pybrain/rl/environments/mazes/tasks/mdp.py
@@ -28,7 +28,7 @@ class MDPMazeTask(Task):
         """ The agent receives its position in the maze, to make this a fully observable
             MDP problem.
         """
-        obs = array([self.env.perseus[0] * self.env.mazeTable.shape[0] + self.env.perseus[1]])
+        obs = array([self.env.perseus[0] * self.env.mazeTable.shape[1] + self.env.perseus[1]])
         return obs
 
 
-- 
2.43.0


From b8e645a26687642b7b6181286cc433c85731bdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:51 +0000
Subject: [PATCH 72/76] fix: FourByThreeMaze slips to the two perpendicular
 directions only

---
 pybrain/rl/environments/mazes/tasks/maze4x3.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/mazes/tasks/maze4x3.py b/pybrain/rl/environments/mazes/tasks/maze4x3.py
index 5fbfe30..63d802a 100644
--- a/pybrain/rl/environments/mazes/tasks/maze4x3.py
+++ b/pybrain/rl/environments/mazes/tasks/maze4x3.py
@@ -40,7 +40,7 @@ class FourByThreeMaze(MazeTask):
     def performAction(self, action):
         poss = []
         for a in range(self.actions):
-            if action - a % 4 != 2:
+            if (action - a) % 4 != 2:
                 poss.append(a)
         if random() < self.stochAction * len(poss):
             MazeTask.performAction(self, choice(poss))
-- 
2.43.0


From cdaaa3a8b3ec2e3b5ce1499ae5c6366828b9b2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:51 +0000
Subject: [PATCH 73/76] fix: the Forward action of ShuttleDocking moves forward

---
 pybrain/rl/environments/mazes/tasks/shuttle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pybrain/rl/environments/mazes/tasks/shuttle.py b/pybrain/rl/environments/mazes/tasks/shuttle.py
index f13a6fe..da5859f 100644
--- a/pybrain/rl/environments/mazes/tasks/shuttle.py
+++ b/pybrain/rl/environments/mazes/tasks/shuttle.py
@@ -91,7 +91,7 @@ class ShuttleDocking(MazeTask):
 
     def _forward(self):
         old = self.env.perseus
-        self.env.performAction(PolarMaze.TurnAround)
+        self.env.performAction(PolarMaze.Forward)
         if self.env.perseus == self.env.goal or self.env.perseus == self.env.initPos[0]:
             self.env.perseus = old
             self.env.bang = True
-- 
2.43.0


From 7116cb2f3fe9ce66138873d4311c6ad989f537aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:51 +0000
Subject: [PATCH 74/76] fix: XOR tasks produce binary observations

---
 pybrain/rl/environments/classic/xor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/environments/classic/xor.py b/pybrain/rl/environments/classic/xor.py
index 98ef395..cfb551c 100644
--- a/pybrain/rl/environments/classic/xor.py
+++ b/pybrain/rl/environments/classic/xor.py
@@ -26,7 +26,7 @@ class XORTask(EpisodicTask):
         if self.randomorder:
             self.obs = array([randint(0,1), randint(0,1), 1])
         else:
-            self.obs = array([self._counter%2, (self._counter/2)%2, 1])    
+            self.obs = array([self._counter%2, (self._counter//2)%2, 1])    
         self._counter += 1    
         return self.obs
         
@@ -64,7 +64,7 @@ class XORChainTask(XORTask):
         self.state = 0
         
     def getObservation(self):
-        self.obs = array([self.state%2, (self.state/2)%2, 1])    
+        self.obs = array([self.state%2, (self.state//2)%2, 1])    
         return self.obs
         
     def performAction(self, action):
-- 
2.43.0


From 77aa1132e6a318db149b2c05e8054e5a82d70ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:40:51 +0000
Subject: [PATCH 75/76] fix: TigerTask and ShuttleDocking accumulate their
 rewards

---
 pybrain/rl/environments/mazes/tasks/shuttle.py | 2 ++
 pybrain/rl/environments/mazes/tasks/tiger.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pybrain/rl/environments/mazes/tasks/shuttle.py b/pybrain/rl/environments/mazes/tasks/shuttle.py
index da5859f..150b80f 100644
--- a/pybrain/rl/environments/mazes/tasks/shuttle.py
+++ b/pybrain/rl/environments/mazes/tasks/shuttle.py
@@ -80,6 +80,8 @@ class ShuttleDocking(MazeTask):
                 # close to station, back to station
                 if r < 0.7:
                     self._backup()
+        self.samples += 1
+        self.addReward()
 
     def _backup(self):
         self.env.performAction(PolarMaze.TurnAround)
diff --git a/pybrain/rl/environments/mazes/tasks/tiger.py b/pybrain/rl/environments/mazes/tasks/tiger.py
index 6d0b056..7872a60 100644
--- a/pybrain/rl/environments/mazes/tasks/tiger.py
+++ b/pybrain/rl/environments/mazes/tasks/tiger.py
@@ -38,6 +38,8 @@ class TigerTask(POMDPTask):
                 self.nextReward = -100
             else:
                 self.nextReward = 10
+        self.samples += 1
+        self.addReward()
 
     def getObservation(self):
         """ do we think we heard something on the left or on the right?  """
-- 
2.43.0


From 192b12af9a84d8ea2ba011a1fba17e9b6a80d01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:20 +0000
Subject: [PATCH 76/76] fix: ENAC and Reinforce index with integer sequence
 starts

---
 pybrain/rl/learners/directsearch/enac.py      | 2 +-
 pybrain/rl/learners/directsearch/reinforce.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pybrain/rl/learners/directsearch/enac.py b/pybrain/rl/learners/directsearch/enac.py
index 397bd9b..7ae1618 100644
--- a/pybrain/rl/learners/directsearch/enac.py
+++ b/pybrain/rl/learners/directsearch/enac.py
@@ -24,7 +24,7 @@ class ENAC(PolicyGradientLearner):
         print((self.dataset.getNumSequences()))
         for n in range(self.dataset.getNumSequences()):
             _state, _action, reward = self.dataset.getSequence(n)
-            seqidx = ravel(self.dataset['sequence_index'])
+            seqidx = ravel(self.dataset['sequence_index']).astype(int)
             if n == self.dataset.getNumSequences() - 1:
                 # last sequence until end of dataset
                 loglh = self.loglh['loglh'][seqidx[n]:, :]
diff --git a/pybrain/rl/learners/directsearch/reinforce.py b/pybrain/rl/learners/directsearch/reinforce.py
index 5f4217f..a0020a6 100644
--- a/pybrain/rl/learners/directsearch/reinforce.py
+++ b/pybrain/rl/learners/directsearch/reinforce.py
@@ -17,7 +17,7 @@ class Reinforce(PolicyGradientLearner):
 
         # initialize variables
         returns = self.dataset.getSumOverSequences('reward')
-        seqidx = ravel(self.dataset['sequence_index'])
+        seqidx = ravel(self.dataset['sequence_index']).astype(int)
 
         # sum of sequences up to n-1
         loglhs = [sum(self.loglh['loglh'][seqidx[n]:seqidx[n + 1], :]) for n in range(self.dataset.getNumSequences() - 1)]
-- 
2.43.0

