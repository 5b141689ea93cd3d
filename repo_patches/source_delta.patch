From 693adccc538ba69a43ad0fb40420085fec025dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:05 +0000
Subject: [PATCH 01/76] fix: MPS.fromList accepts its optional centre matrix

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 4b0a70b..0f9972b 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -264,7 +264,7 @@ class MPS:
         """
 
         mps=cls(tensors,schmidt_thresh,r_thresh)
-        if all(mat)!=None:
+        if mat is not None:
             mps._mat=np.copy(mat)
         mps.__position__(0)        
         mps.__position__(mps._N)
-- 
2.43.0


From 9c0c4eacd416c1cfc4e0755c815f0352a42d4b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:05 +0000
Subject: [PATCH 02/76] fix: copies of an MPS keep its boundary condition

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 0f9972b..12e6050 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -325,7 +325,7 @@ class MPS:
         cop._position=self._position
         cop._gamma=copy.deepcopy(self._gamma)
         cop._lambda=copy.deepcopy(self._lambda)
-        cop._obc-self._obc
+        cop._obc=self._obc
         cop._dtype=self._dtype
         cop._schmidt_thresh=self._schmidt_thresh
         cop._r_thresh=self._r_thresh
-- 
2.43.0


From 14a3be05b3da14dfe7c8e463ef915e3c6f2d5268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:05 +0000
Subject: [PATCH 03/76] fix: complex conjugation of an MPS works and includes
 centre matrix and norm

---
 lib/mpslib/mps.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 12e6050..efd8625 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -352,7 +352,7 @@ class MPS:
                    the operation to be applied to the mps tensors
         *args,**kwargs: arguments of operation
         """
-        for n in range(len(res)):
+        for n in range(len(self)):
             self[n]=operation(self[n],*args,**kwargs)
 
 
@@ -377,13 +377,16 @@ class MPS:
         in-place complex conjugation of the MPS
         """
         self.__in_place_unary_operations__(np.conj,*args,**kwargs)
+        self._mat=np.conj(self._mat)
+        self._connector=np.conj(self._connector)
+        self._Z=np.conj(self._Z)
     
     def __conjugate__(self,*args,**kwargs):
         """
         returns the complex conjugated MPS
         """
-        res=self.__unary_operations__(np.conj,*args,**kwargs)
-        res._qflow=utils.flipsigns(res._qflow)                
+        res=self.__copy__()
+        res.__conj__(*args,**kwargs)
         return res
 
 
@@ -391,7 +394,7 @@ class MPS:
         """
         returns the complex conjugated MPS
         """
-        return self.__conjugate__(self,*args,**kwargs)
+        return self.__conjugate__(*args,**kwargs)
 
     def conj(self,*args,**kwargs):
         """
-- 
2.43.0


From eeae50c24d8f803d12b49bd8757173179043b577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:05 +0000
Subject: [PATCH 04/76] fix: negation of an MPS negates the state, not every
 tensor

---
 lib/mpslib/mps.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index efd8625..af0ed18 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -461,7 +461,12 @@ class MPS:
         return self.__imag__(*args,**kwargs)
     
 
-    __neg__ = generate_unary_deferer(opr.neg)
+    def __neg__(self):
+        """
+        returns the MPS multiplied with -1 (negating every tensor would give a factor (-1)**N)
+        """
+        return self*(-1)
+
     __pos__ = generate_unary_deferer(opr.pos)
     __abs__ = generate_unary_deferer(abs)
     __invert__ = generate_unary_deferer(opr.invert)
-- 
2.43.0


From 87d469ef6f0dc759c0dd225b2b83b39efa34ae8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 05/76] fix: in-place addition of MPS resets centre matrix,
 position and dtype

---
 lib/mpslib/mps.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index af0ed18..36f53b7 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -554,7 +554,13 @@ class MPS:
         adds self with other;
         leaves self unnormalized
         """
-        self._tensors=mf.addMPS(self.tolist(),self._Z,other.tolist(),other._Z)
+        res=self+other #the sum contains the center matrices of self and other
+        self._tensors=res._tensors
+        self._mat=res._mat
+        self._connector=res._connector
+        self._position=res._position
+        self._dtype=res._dtype
+        self._D=max(self._D,res._D)
         self._Z=1.0 
         return self
     
-- 
2.43.0


From c1229a93e7ee45a2cf016280a4cbe487b1128136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 06/76] fix: in-place scaling of an MPS updates its dtype,
 in-place division works in python 3

---
 lib/mpslib/mps.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 36f53b7..bb05694 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -493,6 +493,7 @@ class MPS:
         if not np.isscalar(num):
             raise TypeError("in MPS.__mul__(self,num): num is not a number")
         self._Z*=num
+        self._dtype=np.result_type(type(num),self._dtype)
         return self
     
 
@@ -505,7 +506,10 @@ class MPS:
         if not np.isscalar(num):
             raise TypeError("in MPS.__mul__(self,num): num is not a number")
         self._Z/=num
+        self._dtype=np.result_type(type(num),self._dtype)
         return self
+
+    __itruediv__=__idiv__
     
     def __truediv__(self,num):
         """
-- 
2.43.0


From f2f762d440a9e9aa1efaa12199c9e35424c2236b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 07/76] fix: MPS.load restores the bond limit

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index bb05694..a513e57 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -1310,7 +1310,7 @@ class MPS:
         with open(filename+'.pickle', 'rb') as f:
             mps=pickle.load(f)
         self._N=mps._N
-        self._D=mps._N
+        self._D=mps._D
         self._obc=mps._obc
         self._dtype=mps._dtype
         self._schmidt_thresh=mps._schmidt_thresh
-- 
2.43.0


From 9273c33d89901963c6234eb194d66c1b2109bcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 08/76] fix: measureMatrixElementList returns its result,
 including the norm factors

---
 lib/mpslib/mps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index a513e57..3c6c021 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -838,7 +838,7 @@ class MPS:
         it back to its original position; this might cause some overhead
         """
         
-        self.__measureMatrixElementList__(mps,ops,lb,rb)
+        return self.__measureMatrixElementList__(mps,ops,lb,rb)
         
     def __measureMatrixElementList__(self,mps,ops,lb=None,rb=None):
 
@@ -863,7 +863,7 @@ class MPS:
                 v2=np.copy(mps._mat[0][0])
                 self.__position__(pos)
                 mps.__position__(mpspos)                
-                return L*v1*np.conj(v2)
+                return L*v1*np.conj(v2)*self._Z*np.conj(mps._Z)
 
 
     def measureLocal(self,op,site,lb=None,rb=None):
-- 
2.43.0


From 63017b248c94a6842c0ed96d5832f17c7d12278b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 09/76] fix: MPS.measure: operator dimension, fermionic string
 and complex operators

---
 lib/mpslib/mps.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 3c6c021..e92bf2f 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -945,24 +945,22 @@ class MPS:
             #for fermionic modes one has to take into consideration the fermionic minus signs from the start (if len(ops) is odd)
             L=np.zeros((self[0].shape[0],self[0].shape[0],1)).astype(self._dtype)
             L[:,:,0]=np.copy(np.eye(self[0].shape[0]))
-            for n in range(sites[s]-1):
-                L=mf.addLayer(L,self[n],P[n],self[n],1)
+            for n in range(sites[s]):
+                L=mf.addLayer(L,self[n],np.reshape(P[n],(1,1,P[n].shape[0],P[n].shape[1])),self[n],1)
 
         while s<len(sites):
             if s<len(sites):
                 n=s
-                op=np.eye(self[s].shape[2])
+                op=np.eye(self[sites[s]].shape[2])
                 while n<len(sites) and sites[n]==sites[s]:
                     op=op.dot(ops[n])
                     par=(par+1)%2
                     n+=1
 
             assert(sites[s]==sites[n-1])
-            mpo=np.zeros((1,1,op.shape[0],op.shape[1])).astype(self._dtype)
-            if P==None or par==0:
-                mpo[0,0,:,:]=op
-            elif P!=None and par==1:
-                mpo[0,0,:,:]=op.dot(P[sites[s]])                
+            if P!=None and par==1:
+                op=op.dot(P[sites[s]])                
+            mpo=np.reshape(op,(1,1,op.shape[0],op.shape[1]))
 
             L=mf.addLayer(L,self[sites[s]],mpo,self[sites[s]],1)
             if n<len(sites):
-- 
2.43.0


From e535e9e490c797eb57d16f80fa92edb0e791b473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 10/76] fix: MPS.applyMPO works

---
 lib/mpslib/mps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index e92bf2f..15bf91c 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -1271,10 +1271,10 @@ class MPS:
         """
         applies an mpo to an mps; no truncation is done
         """
-        assert(len(mpo)==len(mps))
+        assert(len(mpo)==len(self))
         self.__position__(0)
         self.__absorbCenterMatrix__(1)
-        for n in range(len(mps)):
+        for n in range(len(self)):
             Ml,Mr,din,dout=mpo[n].shape 
             Dl,Dr,d=self[n].shape
             if n==0:
-- 
2.43.0


From 82afa497341a5bbd31ac384c4f4ea1e92ee7ebe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 11/76] fix: applyTwoSiteGate works with its default Dmax

---
 lib/mpslib/mps.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 15bf91c..14319df 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -1219,6 +1219,8 @@ class MPS:
         [Dl,d1,d2,Dr]=newState.shape
         U,S,V=mf.svd(np.reshape(newState,(Dl*d1,Dr*d2)))
         tw=0
+        if Dmax is None:
+            Dmax=len(S)
         Strunc=S[S>thresh]
         tw=sum(S[min(len(Strunc),Dmax)::]**2)
         Strunc=S[0:min(len(Strunc),Dmax)]
-- 
2.43.0


From e1f62193f1f70047eaa58110072f989bc8f4ed79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:45 +0000
Subject: [PATCH 12/76] fix: operations that turn a real MPS complex update its
 dtype

---
 lib/mpslib/mps.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 14319df..c4d7ef4 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -341,6 +341,7 @@ class MPS:
     def __setitem__(self,n,tensor):
         assert((n<len(self)) and (abs(n)<=len(self)))        
         self._tensors[n]=np.copy(tensor)
+        self._dtype=np.result_type(self._dtype,self._tensors[n].dtype)
 
 
     def __in_place_unary_operations__(self,operation,*args,**kwargs):
@@ -1230,6 +1231,7 @@ class MPS:
         self._tensors[site]=np.transpose(np.reshape(U,(Dl,d1,len(Strunc))),(0,2,1))
         self._tensors[site+1]=np.transpose(np.reshape(V,(len(Strunc),d2,Dr)),(0,2,1))
         self._mat=np.diag(Strunc)
+        self._dtype=np.result_type(self._dtype,newState.dtype)
         return tw,len(Strunc)
 
 
@@ -1257,6 +1259,7 @@ class MPS:
             self._Z*=Z
             self._tensors[site]=A
             self._mat=mat
+            self._dtype=np.result_type(self._dtype,A.dtype)
         else:
             tensor=ncon.ncon([self[site],gate],[[-1,-2,1],[1,-3]])
             self[site]=tensor
-- 
2.43.0


From 9c771335c6e06e4fcb355960dc9651d65255ef30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:45 +0000
Subject: [PATCH 13/76] fix: MPS.zeros returns zeros instead of dividing by a
 vanishing norm

---
 lib/mpslib/mps.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index c4d7ef4..8d9817b 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -208,8 +208,6 @@ class MPS:
         tensors=mf.MPSinitializer(np.zeros,N,D,d,obc,dtype,scale=1.0,shift=0.0)
         mps=cls(tensors,schmidt_thresh,r_thresh)
         mps._obc=obc
-        mps.__position__(0)        
-        mps.__position__(mps._N)
         mps._Z=1.0        
         return mps
 
-- 
2.43.0


From c00ab43c9e106108223c264a27761084f82ec27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:45 +0000
Subject: [PATCH 14/76] fix: MPS.productState brings unnormalized local states
 into canonical form

---
 lib/mpslib/mps.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 8d9817b..d512cfb 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -302,6 +302,10 @@ class MPS:
         mps=cls(tensors,schmidt_thresh,r_thresh)
         mps._obc=obc
         mps._Z=1.0
+        if obc==True:
+            #the norm of the local states goes into mps._Z
+            mps.__position__(0)
+            mps.__position__(mps._N)
         return mps
     
     def copy(self):
-- 
2.43.0


From a66770b2d9b1d909eb6eb8d27ace562180d976da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:45 +0000
Subject: [PATCH 15/76] fix: indexing an MPS with a numpy integer returns the
 tensor, not None

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index d512cfb..015b836 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -336,7 +336,7 @@ class MPS:
 
 
     def __getitem__(self,n):
-        if isinstance(n,int):
+        if isinstance(n,(int,np.integer)):
             assert((n<len(self)) and (abs(n)<=len(self)))
             return self._tensors[n]
 
-- 
2.43.0


From 049038c39aff6dbe8130a813aad7f0b82f23887f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:45 +0000
Subject: [PATCH 16/76] fix: MPS.truncate respects D also if bonds have grown
 beyond self._D

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 015b836..c51adb4 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -1008,7 +1008,7 @@ class MPS:
         returned_gauge: 'left','right' or 'symmetric': the desired gauge after truncation
         """
         
-        if D!=None and D>self._D:
+        if D!=None and D>max([self._D]+self.D):
             print('MPS.__truncate__(): D>self._D, no truncation neccessary')
             return
         else:
-- 
2.43.0


From fee1f6ad0e2003ad40cefd7114d47d33b0a48137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:45 +0000
Subject: [PATCH 17/76] fix: overlap includes the boundary bond matrices and
 works for tensor lists

---
 lib/mpslib/mpsfunctions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index b2d61db..bdfb794 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -70,10 +70,13 @@ def overlap(mps1,mps2):
     for n in range(1,len(mps1)):
         L=addELayer(L,mps1[n],mps2[n],direction=1)
         
+    result=np.trace(L[:,:,0])
     if isinstance(mps1,MPSL.MPS) and isinstance(mps2,MPSL.MPS):        
+        #for obc the bond matrices at the boundary are phases
+        result=result*mps1._mat[0,0]*mps1._Z*np.conj(mps2._mat[0,0]*mps2._Z)
         mps1.__position__(pos1)
         mps2.__position__(pos2)    
-    return np.trace(L[:,:,0])*mps1._Z*np.conj(mps2._Z)
+    return result
 
 def check_normalization(tensor,which,thresh=1E-10):
     """
-- 
2.43.0


From 9e83bae1ff655f9b0e8297dc62ba177ff322ce39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:45 +0000
Subject: [PATCH 18/76] fix: adding real and complex MPS keeps the imaginary
 parts

---
 lib/mpslib/mpsfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index bdfb794..780c10f 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -166,7 +166,7 @@ def directsum(m1,m2):
     returns: the direct sum of two matrices
     """
 
-    dtype=type(m1[0,0])
+    dtype=np.result_type(m1,m2)
     out=np.zeros((list(map(sum,zip(m1.shape,m2.shape)))),dtype=dtype)
     out[0:m1.shape[0],0:m1.shape[1]]=m1
     out[m1.shape[0]:m1.shape[0]+m2.shape[0],m1.shape[1]:m1.shape[1]+m2.shape[1]]=m2
@@ -182,7 +182,7 @@ def addMPS(mps1,Z1,mps2,Z2,obc=True):
     if len(mps1)!=len(mps2):
         raise ValueError("addMPS(mps1,mps2): mps1 and mps2 have different length")
     
-    dtype=int
+    dtype=np.result_type(int,type(Z1),type(Z2))
 
     for n in range(len(mps1)):
         dtype=np.result_type(dtype,mps1[n].dtype)
-- 
2.43.0


From 92841cac832a5eb75cc7366501790d22a7f202c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:45 +0000
Subject: [PATCH 19/76] fix: prepareTensorSVD fixes the phase of u for
 direction>0

---
 lib/mpslib/mpsfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 780c10f..f24499e 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -622,8 +622,8 @@ def prepareTensorSVD(tensor,direction,fixphase=False):
         if fixphase==True:
             phase=np.angle(np.diag(u))
             unit=np.diag(np.exp(-1j*phase))
-            u=u.dot(herm(unit))
-            v=unit.dot(v)
+            u=u.dot(unit)
+            v=herm(unit).dot(v)
         Z=np.linalg.norm(s)            
         s/=Z
         [size1,size2]=u.shape
-- 
2.43.0


From ff5edf1b833a2e51bc40aaa1e5e728e3088234d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:45 +0000
Subject: [PATCH 20/76] fix: qr sign fixing keeps the decomposition valid for
 vanishing diagonal elements

---
 lib/mpslib/mpsfunctions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index f24499e..1a5dd58 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -151,10 +151,12 @@ def qr(mat,signfix):
     q,r=np.linalg.qr(mat)
     if signfix=='q':
         sign=np.sign(np.diag(q))
+        sign[sign==0]=1
         unit=np.diag(sign)
         return q.dot(unit),herm(unit).dot(r)
     if signfix=='r':
         sign=np.sign(np.diag(r))
+        sign[sign==0]=1
         unit=np.diag(sign)
         return q.dot(herm(unit)),unit.dot(r)
 
-- 
2.43.0


From c0f51d1a6b24d95a7202328bd5322ef77d4e35e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:45 +0000
Subject: [PATCH 21/76] fix: HAproductZeroSite uses the left bond dimension for
 position left

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 1a5dd58..d7ee3fa 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -994,7 +994,7 @@ def HAproductZeroSite(L,mpo,mps,R,position,vec):
 
     #contracts vec on the left site of mps
     if position=='left':
-        chi1=np.shape(mps)[1]
+        chi1=np.shape(mps)[0]
         mat=np.reshape(vec,(chi1,chi1))
         R1=addLayer(R,mps,mpo,mps,-1)
         term1=np.tensordot(L,mat,([0],[0]))
-- 
2.43.0


From 4abfe58c8ac62b843b0b4614895af98b777497d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:45 +0000
Subject: [PATCH 22/76] fix: MPSinit respects its dtype argument

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index d7ee3fa..2e699a2 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -600,7 +600,7 @@ def MPSinit(length,D,d,obc=True,dtype=np.dtype(float),scale=1.0,shift=0.5):
     shift: shift of the interval where random numbers are drawn from 
     """
     
-    return MPSinitializer(np.random.random_sample,length,D,d,obc=obc,dtype=np.dtype(float),scale=scale,shift=shift)
+    return MPSinitializer(np.random.random_sample,length,D,d,obc=obc,dtype=dtype,scale=scale,shift=shift)
 
 
 
-- 
2.43.0


From 1d45fe8900c889c11ce02cae2ba596d81d484159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:45 +0000
Subject: [PATCH 23/76] fix: matrixElementLocal keeps the imaginary part of
 complex operators

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 2e699a2..179ac7c 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -494,7 +494,7 @@ def matrixElementLocal(mps1,mps2,operators,lb,rb):
     rb: right boundary of the mps (for obc, rb=np.ones((1,1,1))
     ortho (str): can be {'left','right'} and denotes the orthogonal state of the mps
     """
-    dtype=np.result_type(mps1[0].dtype,mps2[0].dtype)
+    dtype=np.result_type(*([m.dtype for m in mps1]+[m.dtype for m in mps2]+[o.dtype for o in operators]))
     N=len(mps1)
     if len(mps1)!=len(mps2):
         raise ValueError("matrixElementLocal: mps1 and mps2 have different lengths")
-- 
2.43.0


From d60d306f14c5d1e57b3ae00df22cc552d2ec1ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:48 +0000
Subject: [PATCH 24/76] fix: MPS.conj does not pass self twice

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index c51adb4..d922814 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -403,7 +403,7 @@ class MPS:
         """
         in-place complex conjugation of the MPS
         """        
-        return self.__conj__(self,*args,**kwargs)
+        return self.__conj__(*args,**kwargs)
 
     def __exp__(self,*args,**kwargs):
         """
-- 
2.43.0


From 5dc2b9be5775368835152e4a967fc3daa006cc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:06 +0000
Subject: [PATCH 25/76] fix: canonizing a finite MPS includes its centre matrix

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 179ac7c..a672490 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2274,7 +2274,7 @@ def canonizeMPS(mps,tr_thresh=1E-16,r_thresh=1E-14):
         assert(mps[len(mps)-1].shape[1]==1)
         #make a copy of the state
         if isinstance(mps,MPSL.MPS):
-            Gamma=copy.deepcopy(mps._tensors)
+            Gamma=mps.tolist() #contains the center matrix
         elif isinstance(mps,list):
             Gamma=copy.deepcopy(mps)
         else:
-- 
2.43.0


From 7ac24d50b25f4a864ac8b52a92522b8c78d77cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:44 +0000
Subject: [PATCH 26/76] fix: FinegrainDolfi works for tensors with different
 left and right bond dimensions

---
 lib/mpslib/mpsfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index a672490..29db3e8 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -115,12 +115,12 @@ def FinegrainDolfi(mps):
             raise ValueError("in FinegrainDolfi: local hilbert space dimension d has to be 2")
         tensor=np.transpose(np.tensordot(mps[n],T,([2],[0])),(0,2,1,3))
         matrix=np.reshape(tensor,(D1*2,D2*2))
-        U,S,V=np.linalg.svd(matrix)
+        U,S,V=np.linalg.svd(matrix,full_matrices=False)
 
         leftmat=U.dot(np.diag(np.sqrt(S)))
         rightmat=np.diag(np.sqrt(S)).dot(V)
         lefttens=np.transpose(np.reshape(leftmat,(D1,2,len(S))),(0,2,1))
-        righttens=np.reshape(rightmat,(len(S),D1,2))
+        righttens=np.reshape(rightmat,(len(S),D2,2))
 
         mpsfine.append(np.copy(lefttens))
         mpsfine.append(np.copy(righttens))
-- 
2.43.0


From 3fe5c7b4205b4b85f081d644411d190eb61d76f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:10 +0000
Subject: [PATCH 27/76] fix: MPO.fromMPO copies the tensors of its argument

---
 lib/mpslib/Hamiltonians.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index decd5a4..f8febaf 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -25,7 +25,7 @@ class MPO:
   @classmethod
   def fromMPO(cls, other):
     #a list of mpo-tensors, to be initialized in the derived class
-    return cls(other._mpolist)
+    return cls(other._mpo)
 
   @classmethod
   def fromlist(cls, mpolist):
-- 
2.43.0


From 42662d0a735eb960540fba5ccaf2e9726adf3ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:10 +0000
Subject: [PATCH 28/76] fix: twoSiteGate works for exchanged sites and for
 two-site chains

---
 lib/mpslib/Hamiltonians.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index f8febaf..24ee434 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -47,7 +47,7 @@ class MPO:
       mpo1 = self._mpo[n][-1, :, :, :]
       mpo2 = self._mpo[m][:, 0, :, :]
       nl = n
-      mr = m
+      nr = m
     if n > m:
       mpo1 = self._mpo[m][-1, :, :, :]
       mpo2 = self._mpo[n][:, 0, :, :]
@@ -71,6 +71,10 @@ class MPO:
       for s in range(1, mpo1.shape[0] - 1):
         h += np.kron(mpo1[s, :, :], mpo2[s, :, :])
       h += np.kron(mpo1[-1, :, :], mpo2[-1, :, :] / 2.0)
+    else:
+      h = np.kron(mpo1[0, :, :], mpo2[0, :, :])
+      for s in range(1, mpo1.shape[0]):
+        h += np.kron(mpo1[s, :, :], mpo2[s, :, :])
     Gate = np.reshape(sp.linalg.expm(tau * h), (d1, d2, d1, d2))
     #Gate=np.reshape(np.eye(4),(d1,d2,d1,d2))
 
-- 
2.43.0


From 9101debb6694cda3598e9465d22a686b204ba964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:10 +0000
Subject: [PATCH 29/76] fix: generic MPOs have a dtype

---
 lib/mpslib/Hamiltonians.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index 24ee434..3ac45f3 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -21,6 +21,8 @@ class MPO:
     #a list of mpo-tensors, to be initialized in the derived class
     self._mpo = copy.deepcopy(mpos)
     self._N = len(self._mpo)
+    self._dtype = np.result_type(
+        *[m.dtype for m in self._mpo]).type if self._N > 0 else float
 
   @classmethod
   def fromMPO(cls, other):
-- 
2.43.0


From ce4674430aa89ab11928d8300034a38a156bb9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:10 +0000
Subject: [PATCH 30/76] fix: TFI_2 with open boundaries uses its transverse
 field

---
 lib/mpslib/Hamiltonians.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index 3ac45f3..7a10ed4 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -115,7 +115,7 @@ class TFI_2(MPO):
       self._mpo = []
       temp = np.zeros((1, 3, 2, 2), self.dtype)
       #Bx
-      temp[0, 0, :, :] = self._Bz[0] * sig_x
+      temp[0, 0, :, :] = self._Bx[0] * sig_x
       #Sz
       temp[0, 1, :, :] = self._Jz[0] * sig_z
       #11
@@ -145,7 +145,7 @@ class TFI_2(MPO):
       #Sz
       temp[1, 0, :, :] = sig_z
       #Bx Sx
-      temp[2, 0, :, :] = sig_x * self._Bz[-1]
+      temp[2, 0, :, :] = sig_x * self._Bx[-1]
       self._mpo.append(np.copy(temp))
 
     if obc == False:
-- 
2.43.0


From 4ceea3fa16b9e8aed3f1338e4a1526dec8464b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:11 +0000
Subject: [PATCH 31/76] fix: XXZflipped uses the coupling of each bond and a
 complex default dtype

---
 lib/mpslib/Hamiltonians.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index 7a10ed4..180fb20 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -499,7 +499,7 @@ class XXZflipped(MPO):
     again the famous Heisenberg Hamiltonian, but in a slightly less common form
     """
 
-  def __init__(self, Delta, J, obc=True, dtype=float):
+  def __init__(self, Delta, J, obc=True, dtype=complex):
     self._Delta = Delta
     self._J = J
     self._dtype = dtype
@@ -539,11 +539,11 @@ class XXZflipped(MPO):
         temp[3, 0, 1, 1] = +1.0
 
         #Sx
-        temp[4, 1, 0, 1] = J[0]
-        temp[4, 1, 1, 0] = J[0]
+        temp[4, 1, 0, 1] = J[site]
+        temp[4, 1, 1, 0] = J[site]
         #Sy
-        temp[4, 2, 0, 1] = +1j * (-J[0])
-        temp[4, 2, 1, 0] = -1j * (-J[0])
+        temp[4, 2, 0, 1] = +1j * (-J[site])
+        temp[4, 2, 1, 0] = -1j * (-J[site])
 
         #Sz
         temp[4, 3, 0, 0] = -Delta[site] * J[site] * (-1.0)
@@ -588,11 +588,11 @@ class XXZflipped(MPO):
         temp[3, 0, 1, 1] = +1.0
 
         #Sx
-        temp[4, 1, 0, 1] = J[0]
-        temp[4, 1, 1, 0] = J[0]
+        temp[4, 1, 0, 1] = J[site]
+        temp[4, 1, 1, 0] = J[site]
         #Sy
-        temp[4, 2, 0, 1] = +1j * (-J[0])
-        temp[4, 2, 1, 0] = -1j * (-J[0])
+        temp[4, 2, 0, 1] = +1j * (-J[site])
+        temp[4, 2, 1, 0] = -1j * (-J[site])
 
         #Sz
         temp[4, 3, 0, 0] = -Delta[site] * J[site] * (-1.0)
-- 
2.43.0


From 8b96cbbd113aad62da4bc105f52c9e17d9063e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:11 +0000
Subject: [PATCH 32/76] fix: SpinlessFermions can be built for infinite
 systems, with the hopping sign of the open chain

---
 lib/mpslib/Hamiltonians.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index 180fb20..d792298 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -610,7 +610,10 @@ class SpinlessFermions(MPO):
 
   def __init__(self, interaction, hopping, chempot, obc, dtype=complex):
     assert (len(interaction) == len(hopping))
-    assert (len(interaction) == len(chempot) - 1)
+    if obc:
+      assert (len(interaction) == len(chempot) - 1)
+    else:
+      assert (len(interaction) == len(chempot))
 
     self._mpo = []
     self._interaction = interaction
@@ -659,13 +662,13 @@ class SpinlessFermions(MPO):
       for n in range(self._N):
         tensor = np.zeros((5, 5, 2, 2)).astype(dtype)
         tensor[0, 0, :, :] = np.eye(2)
-        tensor[1, 0, :, :] = c.dot(P)
-        tensor[2, 0, :, :] = herm(c).dot(P)
+        tensor[1, 0, :, :] = c
+        tensor[2, 0, :, :] = herm(c)
         tensor[3, 0, :, :] = herm(c).dot(c)
         tensor[4, 0, :, :] = chempot[n] * herm(c).dot(c)
 
-        tensor[4, 1, :, :] = (-1.0) * hopping[n] * herm(c)
-        tensor[4, 2, :, :] = (+1.0) * hopping[n] * c
+        tensor[4, 1, :, :] = (-1.0) * hopping[n] * herm(c).dot(P)
+        tensor[4, 2, :, :] = (+1.0) * hopping[n] * c.dot(P)
         tensor[4, 3, :, :] = interaction[n] * herm(c).dot(c)
         tensor[4, 4, :, :] = np.eye(2)
         self._mpo.append(np.copy(tensor))
-- 
2.43.0


From 82f1fc21b4de9f22d60c3c05045eb8f640183b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:11 +0000
Subject: [PATCH 33/76] fix: HubbardChain can be built for infinite systems

---
 lib/mpslib/Hamiltonians.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/Hamiltonians.py b/lib/mpslib/Hamiltonians.py
index d792298..00d502a 100644
--- a/lib/mpslib/Hamiltonians.py
+++ b/lib/mpslib/Hamiltonians.py
@@ -952,8 +952,9 @@ class HubbardChain(MPO):
 
     assert (len(mu_up) == self._N)
     assert (len(mu_down) == self._N)
-    assert (len(t_up) == self._N - 1)
-    assert (len(t_down) == self._N - 1)
+    nbonds = self._N - 1 if obc else self._N
+    assert (len(t_up) == nbonds)
+    assert (len(t_down) == nbonds)
 
     self._mpo = []
     c = np.zeros((2, 2), dtype=self.dtype)
-- 
2.43.0


From ff9d77dff6ed764691ae55aba6682d14835a33bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:43 +0000
Subject: [PATCH 34/76] fix: binarybasis keeps all bits for more than 53 sites

---
 lib/utils/binaryoperations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/utils/binaryoperations.py b/lib/utils/binaryoperations.py
index 923a77c..f97b2a5 100644
--- a/lib/utils/binaryoperations.py
+++ b/lib/utils/binaryoperations.py
@@ -37,7 +37,7 @@ def binarybasis(N,Nup):
         for p in range(Nup-1,N):
             rest=binarybasis(p,Nup-1)
             for n in rest:
-                basis.append(np.uint64(n+2**p))
+                basis.append(n|(np.uint64(1)<<np.uint64(p)))
         return basis
 
 
-- 
2.43.0


From 5b18984b149b8593d53999039dc239b674e4df98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:43 +0000
Subject: [PATCH 35/76] fix: the two bisection routines no longer shadow each
 other, grid bisection works in python 3

---
 lib/utils/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/utils/utilities.py b/lib/utils/utilities.py
index 68971b4..69f9c74 100644
--- a/lib/utils/utilities.py
+++ b/lib/utils/utilities.py
@@ -637,11 +637,11 @@ def isDiagUnitary(matrix,err=1E-8):
 
 
 #N is the lenght of the fine grid on which grid is defined
-def bisection(grid,position):
+def bisectionGrid(grid,position):
     g=np.copy(grid)
     while  True:
         N=len(g)
-        i0=(N-N%2)/2
+        i0=(N-N%2)//2
         lgrid=np.copy(g[0:i0])
         rgrid=np.copy(g[i0::])
         if (position>=lgrid[-1])&(position<=rgrid[0]):
-- 
2.43.0


From f5820af8d49bf86f281f00841665dbdfb14be95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:43 +0000
Subject: [PATCH 36/76] fix: ncon does not modify the contraction order of its
 caller

---
 lib/ncon/ncon.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/ncon/ncon.py b/lib/ncon/ncon.py
index ac005b2..e9deab5 100644
--- a/lib/ncon/ncon.py
+++ b/lib/ncon/ncon.py
@@ -38,9 +38,12 @@ def ncon(AA, v, order=None, forder=None, check_indices=True):
     else:
         v = list(map(list, v))
 
-    if order == None:
+    if order is None:
         order = create_order(v)
-    if forder == None:
+    else:
+        # connect_graph extends order in place
+        order = list(order)
+    if forder is None:
         forder = create_forder(v)
 
     if check_indices:
-- 
2.43.0


From 1cc5eb16742e405a3f40fe2c534293e1461c19c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:41 +0000
Subject: [PATCH 37/76] fix: computedx takes its left boundary into account

---
 lib/utils/utilities.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/utils/utilities.py b/lib/utils/utilities.py
index 69f9c74..99df277 100644
--- a/lib/utils/utilities.py
+++ b/lib/utils/utilities.py
@@ -65,11 +65,11 @@ def computedx(x0,x,xN):
     for n in range(len(x)):
         #mat=np.zeros((self.D,self.D,2)).astype(self.type)
         if n==0:
-            dx=(x[n+1]+x[n])/2.0
+            dx=(x[n+1]+x[n])/2.0-x0
         if n>0 and n<(len(x)-1):
             dx=(x[n+1]-x[n-1])/2.0
         if n==len(x)-1:
-            dx=xN-x0-(x[n]+x[n-1])/2.0
+            dx=xN-(x[n]+x[n-1])/2.0
         dxs[n]=dx
     assert(np.abs(np.sum(dxs)-(xN-x0))<1E-12)
     return dxs
-- 
2.43.0


From 119a1c29afcaf42612749b0622c8d0546561aa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:04 +0000
Subject: [PATCH 38/76] fix: Container.update and truncateMPS leave a list of
 left environments that position() can fill

---
 lib/mpslib/engines.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 5019a22..ad6df2e 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -113,8 +113,8 @@ class Container:
         """
         self._mps.truncate(schmidt_thresh=truncation_threshold,D=D,nmaxit=100000,tol=tol,ncv=ncv,pinv=pinv,r_thresh=1E-14)
         self._mps.position(0)
-        self._L=[]*len(self._mps)
-        self._L.insert(0,self._lb)
+        self._L=[None]*(len(self._mps)+1)
+        self._L[0]=self._lb
         self._R=mf.getR(self._mps._tensors,self._mpo,self._rb)
         self._R.insert(0,self._rb)
         return self
@@ -165,8 +165,8 @@ class Container:
         returns: self
         """
         self._mps.position(0)
-        self._L=[]*len(self._mps)        
-        self._L.insert(0,self._lb)
+        self._L=[None]*(len(self._mps)+1)
+        self._L[0]=self._lb
         self._R=mf.getR(self._mps._tensors,self._mpo,self._rb)
         self._R.insert(0,self._rb)
         return self
-- 
2.43.0


From 0f7c3d998895536c68ade910da827dc9137868f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:15 +0000
Subject: [PATCH 39/76] fix: DMRGengine.simulate leaves a normalised state (the
 centre matrix was left as identity/sqrt(D), so all measurements after it were
 wrong by 1/D)

---
 lib/mpslib/engines.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index ad6df2e..4aa262a 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -289,6 +289,7 @@ class DMRGengine(Container):
                     print()
                     print ('reached maximum iteration number ',Nmax)
                 break
+        self.position(0) #absorbs the center matrix
         self._mps.resetZ()
         return e
 
-- 
2.43.0


From 539f3e93c8fe8e874ad751734b94f52aa13b3ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:53 +0000
Subject: [PATCH 40/76] fix: eigsh diagonalises local problems that are too
 small for the sparse eigensolver densely (DMRG with complex Hamiltonians
 raised TypeError at small bond dimensions)

---
 lib/mpslib/mpsfunctions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 29db3e8..e2cb89d 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1221,7 +1221,11 @@ def eigsh(L,mpo,R,mps0,tolerance=1e-6,numvecs=1,numcv=10,numvecs_returned=1):
     dp=np.shape(mpo)[3]
     mv=fct.partial(HAproductSingleSite,*[L,mpo,R])
     LOP=LinearOperator((chi1*chi2*d,chi1*chi2*d),matvec=mv,rmatvec=None,matmat=None,dtype=dtype)
-    e,v=sp.sparse.linalg.eigsh(LOP,k=numvecs,which='SA',maxiter=1000000,tol=tolerance,v0=np.reshape(mps0,chi1*chi2*d),ncv=numcv)
+    if numvecs>=chi1*chi2*d-1: #too small for arpack
+        e,v=np.linalg.eigh(LOP.matmat(np.eye(chi1*chi2*d,dtype=dtype)))
+        e,v=e[0:numvecs],v[:,0:numvecs]
+    else:
+        e,v=sp.sparse.linalg.eigsh(LOP,k=numvecs,which='SA',maxiter=1000000,tol=tolerance,v0=np.reshape(mps0,chi1*chi2*d),ncv=numcv)
     #return [e,np.reshape(v,(chi1p,chi2p,dp))]    
     if numvecs_returned==1:
         ind=np.nonzero(e==min(e))
-- 
2.43.0


From 86e9c6897af0a8dfe522b72bd964a7c60072cbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:37 +0000
Subject: [PATCH 41/76] fix: simulateTwoSite updates the right environments
 when the centre is not at the left end (first half sweep used stale
 environments)

---
 lib/mpslib/engines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 4aa262a..74733fd 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -325,7 +325,7 @@ class DMRGengine(Container):
         converged=False
         energy=100000.0
         it=1
-        self._mps.__position__(0)        
+        self.position(0)
         while not converged:
             for n in range(0,self._mps._N-2):
                 self._mps.__position__(n+1)
-- 
2.43.0


From 77838098aa5bec4edd6382617cddf2f2a063c6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:45 +0000
Subject: [PATCH 42/76] fix: gexpmv solves small problems with the complete
 Krylov space (m=n-1 silently stopped short of t for n=2 and was refused for
 n=1) and detects Krylov breakdown with the default tolerance

---
 lib/mpslib/sexpmv.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/mpslib/sexpmv.py b/lib/mpslib/sexpmv.py
index 5ccabf5..802b56d 100644
--- a/lib/mpslib/sexpmv.py
+++ b/lib/mpslib/sexpmv.py
@@ -18,10 +18,6 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, itrace=0, mxs
       delta = 1.2
       gamma = 0.9
 
-      if break_tol is None:
-            #break_tol = tol  
-            break_tol = anorm*tol
-
       n = A.shape[0]
 
       if hasattr(A, "matvec"):
@@ -30,12 +26,12 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, itrace=0, mxs
             matvec = lambda v: sp.dot(A,v)
 
       if m is None:
-            m = min(20, n-1)
+            m = min(20, n)
       
       if len(A.shape) != 2 or A.shape[0] != A.shape[1]:
             raise ValueError("A is not a square matrix")
       
-      if m >= n or m <= 0:
+      if m > n or m <= 0:
             raise ValueError("m is invalid")
 
       k1 = 2
@@ -69,6 +65,9 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, itrace=0, mxs
             eps = abs( p3-1.0 )
       if tol <= eps: 
             tol = sqrt( eps )
+      if break_tol is None:
+            #break_tol = tol  
+            break_tol = anorm*tol
       rndoff = eps*anorm
 
       sgn = copysign( 1.0, t )
@@ -117,7 +116,8 @@ def gexpmv(A, v, t, anorm, m=None, tol=0.0, w=None, verbose=False, itrace=0, mxs
                   hj1j = la.norm( vs[j,:] )
                   #if the orthogonalized Krylov vector is zero, stop!
                   if hj1j <= break_tol:
-                        print('breakdown: mbrkdwn =',j,' h =',hj1j)
+                        if verbose:
+                              print('breakdown: mbrkdwn =',j,' h =',hj1j)
                         k1 = 0
                         ibrkflag = 1
                         mbrkdwn = j
-- 
2.43.0


From 5f9eb4669e06cad773d44d1ed88f0b96729ded37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:45 +0000
Subject: [PATCH 43/76] fix: Lanczos time steps keep the type of state and
 operator (a complex state was cast to real for a real dt, a complex operator
 raised an exception)

---
 lib/Lanczos/LanczosEngine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/Lanczos/LanczosEngine.py b/lib/Lanczos/LanczosEngine.py
index 93447fd..32f85e1 100644
--- a/lib/Lanczos/LanczosEngine.py
+++ b/lib/Lanczos/LanczosEngine.py
@@ -104,7 +104,7 @@ class LanczosEngine:
         eta,u=np.linalg.eigh(self._Heff)
         states=[]
         for n2 in range(min(self._numeig,len(eta))):
-            state=np.zeros(initialstate.shape,dtype=initialstate.dtype)
+            state=np.zeros(initialstate.shape,dtype=dtype)
             for n1 in range(len(self._vecs)):
                 state+=self._vecs[n1]*u[n1,n2]
             states.append(state/np.sqrt(self._dot(state.conjugate(),state)))
@@ -133,7 +133,7 @@ class LanczosTimeEvolution(LanczosEngine):
         dt: time increment
         verbose: verbosity flag
         """
-        self._dtype=type(dt)        
+        self._dtype=np.result_type(type(dt),state.dtype,self._matvec(state).dtype)
         self.__simulate__(state.astype(self._dtype),verbose=True,reortho=True)
         #take the expm of self._Heff
         U=sp.linalg.expm(dt*self._Heff)
-- 
2.43.0


From c1a64619aefcfe4dd92d73ad165dc89c2927fcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:45 +0000
Subject: [PATCH 44/76] fix: Lanczos time steps evolve the given state, not the
 normalised one

---
 lib/Lanczos/LanczosEngine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Lanczos/LanczosEngine.py b/lib/Lanczos/LanczosEngine.py
index 32f85e1..768ef4f 100644
--- a/lib/Lanczos/LanczosEngine.py
+++ b/lib/Lanczos/LanczosEngine.py
@@ -140,5 +140,5 @@ class LanczosTimeEvolution(LanczosEngine):
         result=np.zeros(state.shape,dtype=self._dtype)
         for n in range(min(self._ncv,self._Heff.shape[0])):
             result+=self._vecs[n]*U[n,0]
-        return result
+        return result*np.sqrt(self._dot(state.conjugate(),state))
         
-- 
2.43.0


From 098d4b1190f7977370aa52490d901629521603c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:15 +0000
Subject: [PATCH 45/76] fix: real-time evolution of real tensors with solve_ivp
 (the initial value was real, so scipy discarded the imaginary derivative and
 nothing evolved)

---
 lib/mpslib/mpsfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index e2cb89d..8d54f24 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1357,7 +1357,7 @@ def evolveTensorsolve_ivp(L,mpo,R,mps,tau,method='RK45',rtol=1E-3,atol=1E-6):
     chi2p=np.shape(R)[1]
     dp=np.shape(mpo)[3]
     mv=fct.partial(HAproductSingleSite,*[L,mpo,R])
-    out=solve_ivp(lambda t,y:(-1j)*mv(y),t_span=(0.0,tau),y0=np.reshape(mps,(chi1*chi2*d)),method=method,rtol=rtol,atol=atol)    
+    out=solve_ivp(lambda t,y:(-1j)*mv(y),t_span=(0.0,tau),y0=np.reshape(mps,(chi1*chi2*d)).astype(np.result_type(mps,complex)),method=method,rtol=rtol,atol=atol)    
     #solver=RK45(lambda t,y:(-1j)*mv(y),t0=0.0,y0=np.reshape(mps,(chi1*chi2*d)),t_bound=tau,rtol=rtol,atol=atol)    
     #return np.reshape(solver.dense_output()(tau),mps.shape)
     return np.reshape(out.y[:,-1],mps.shape)
@@ -1371,7 +1371,7 @@ def evolveMatrixsolve_ivp(L,R,mat,tau,method='RK45',rtol=1E-3,atol=1E-6):
     chi1p=np.shape(L)[1]
     chi2p=np.shape(R)[1]
     mv=fct.partial(HAproductBond,*[L,R])
-    out=solve_ivp(lambda t,y:(-1j)*mv(y),t_span=(0.0,tau),y0=np.reshape(mat,(chi1*chi2)),method=method,rtol=rtol,atol=atol)
+    out=solve_ivp(lambda t,y:(-1j)*mv(y),t_span=(0.0,tau),y0=np.reshape(mat,(chi1*chi2)).astype(np.result_type(mat,complex)),method=method,rtol=rtol,atol=atol)
     return np.reshape(out.y[:,-1],mat.shape)
     #solver=RK45(lambda t,y:(-1j)*mv(y),t0=0.0,y0=np.reshape(mat,(chi1*chi2)),t_bound=tau,rtol=rtol,atol=atol)
     #solver.step()
-- 
2.43.0


From 479e249a0382ad09c298c02606ebe9c65db6eb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:36 +0000
Subject: [PATCH 46/76] fix: eigshbond and lanczosbond return matrices of the
 shape of the bond (the outer bonds of the environments were used)

---
 lib/mpslib/mpsfunctions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 8d54f24..10bfcac 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1191,14 +1191,14 @@ def lanczosbond(L,mpo,mps,R,mat0,position,Ndiag=10,nmax=500,numeig=1,delta=1E-10
     e,v,con=lan.__simulate__(initialstate=np.reshape(mat0,chi1*chi2).astype(dtype),verbose=False)
 
     if numeig==1:
-        return e[0],np.reshape(v[0],(chi1p,chi2p))
+        return e[0],np.reshape(v[0],(chi1,chi2))
     else:
         es=[]
         vs=[]
         
         for n in range(numeig):
             es.append(e[n])
-            vs.append(np.reshape(v[n],(chi1p,chi2p)))
+            vs.append(np.reshape(v[n],(chi1,chi2)))
         return es,vs
 
 
@@ -1431,7 +1431,7 @@ def eigshbond(L,mpo,mps,R,mat0,position,tolerance=1e-6,numvecs=1,numcv=10,numvec
     if numvecs_returned==1:
         ind=np.nonzero(e==min(e))
         #return [e,np.reshape(v,(chi1p,chi2p,dp))]
-        return e[ind[0][0]],np.reshape(v[:,ind[0][0]],(chi1p,chi2p))
+        return e[ind[0][0]],np.reshape(v[:,ind[0][0]],(chi1,chi2))
     elif numvecs_returned>1:
         if (numvecs_returned>numvecs):
             sys.warning('mpsfunctions.eigsh: request to return more vectors than calcuated: setting numvecs_returned=numvecs',stacklevel=2)
-- 
2.43.0


From eb9e04930122a64ff50d73cfd6b03cb74077d31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:35 +0000
Subject: [PATCH 47/76] fix: the solve_ivp methods Radau and LSODA evolve
 complex tensors (scipy refuses complex initial values for them, so TDVP could
 not use them)

---
 lib/mpslib/mpsfunctions.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 10bfcac..135d7ac 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1349,6 +1349,19 @@ def evolveMatrixLan(L,R,mat,tau,krylov_dimension=20,delta=1E-8):
     return np.reshape(v,mat.shape)
 
 
+def evolveVectorsolve_ivp(mv,vec,tau,method,rtol,atol):
+    """
+    integrates dy/dt=-1j*mv(y), y(0)=vec from t=0 to t=tau; real and imaginary part are passed 
+    separately because not all methods of solve_ivp support complex vectors
+    """
+    N=len(vec)
+    def rhs(t,y):
+        dy=(-1j)*mv(y[0:N]+1j*y[N:])
+        return np.concatenate([np.real(dy),np.imag(dy)])
+    out=solve_ivp(rhs,t_span=(0.0,tau),y0=np.concatenate([np.real(vec),np.imag(vec)]),method=method,rtol=rtol,atol=atol)
+    return out.y[0:N,-1]+1j*out.y[N:,-1]
+
+
 def evolveTensorsolve_ivp(L,mpo,R,mps,tau,method='RK45',rtol=1E-3,atol=1E-6):
     if not np.issubdtype(type(tau),np.dtype(float)):                        
         raise TypeError(" evolveTensorRK45(L,mpo,R,mps,tau,rtol=1E-3,atol=1E-6): tau has to be a float")
@@ -1357,10 +1370,10 @@ def evolveTensorsolve_ivp(L,mpo,R,mps,tau,method='RK45',rtol=1E-3,atol=1E-6):
     chi2p=np.shape(R)[1]
     dp=np.shape(mpo)[3]
     mv=fct.partial(HAproductSingleSite,*[L,mpo,R])
-    out=solve_ivp(lambda t,y:(-1j)*mv(y),t_span=(0.0,tau),y0=np.reshape(mps,(chi1*chi2*d)).astype(np.result_type(mps,complex)),method=method,rtol=rtol,atol=atol)    
+    y=evolveVectorsolve_ivp(mv,np.reshape(mps,(chi1*chi2*d)),tau,method,rtol,atol)
     #solver=RK45(lambda t,y:(-1j)*mv(y),t0=0.0,y0=np.reshape(mps,(chi1*chi2*d)),t_bound=tau,rtol=rtol,atol=atol)    
     #return np.reshape(solver.dense_output()(tau),mps.shape)
-    return np.reshape(out.y[:,-1],mps.shape)
+    return np.reshape(y,mps.shape)
 
 
 def evolveMatrixsolve_ivp(L,R,mat,tau,method='RK45',rtol=1E-3,atol=1E-6):
@@ -1371,8 +1384,8 @@ def evolveMatrixsolve_ivp(L,R,mat,tau,method='RK45',rtol=1E-3,atol=1E-6):
     chi1p=np.shape(L)[1]
     chi2p=np.shape(R)[1]
     mv=fct.partial(HAproductBond,*[L,R])
-    out=solve_ivp(lambda t,y:(-1j)*mv(y),t_span=(0.0,tau),y0=np.reshape(mat,(chi1*chi2)).astype(np.result_type(mat,complex)),method=method,rtol=rtol,atol=atol)
-    return np.reshape(out.y[:,-1],mat.shape)
+    y=evolveVectorsolve_ivp(mv,np.reshape(mat,(chi1*chi2)),tau,method,rtol,atol)
+    return np.reshape(y,mat.shape)
     #solver=RK45(lambda t,y:(-1j)*mv(y),t0=0.0,y0=np.reshape(mat,(chi1*chi2)),t_bound=tau,rtol=rtol,atol=atol)
     #solver.step()
     #return np.reshape(solver.dense_output()(tau),mat.shape)    
-- 
2.43.0


From 4d42ee55242a61feddc7654d0790bfa24ea426fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:06 +0000
Subject: [PATCH 48/76] fix: local eigensolvers return several eigenpairs on
 request (eigshbond and lobpcg raised UnboundLocalError/NameError, sys.warning
 does not exist)

---
 lib/mpslib/mpsfunctions.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 135d7ac..e4c5a28 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1234,7 +1234,7 @@ def eigsh(L,mpo,R,mps0,tolerance=1e-6,numvecs=1,numcv=10,numvecs_returned=1):
 
     elif numvecs_returned>1:
         if (numvecs_returned>numvecs):
-            sys.warning('mpsfunctions.eigsh: requestion to return more vectors than calcuated: setting numvecs_returned=numvecs',stacklevel=2)
+            warnings.warn('mpsfunctions.eigsh: requestion to return more vectors than calcuated: setting numvecs_returned=numvecs',stacklevel=2)
             numvecs_returned=numvecs
         es=[]
         vs=[]
@@ -1273,9 +1273,6 @@ def lobpcg(L,mpo,R,mps0,tolerance=1e-6,numvecs_returned=1):
         return e[ind[0][0]],np.reshape(v[:,ind[0][0]],(chi1p,chi2p,dp))
 
     elif numvecs_returned>1:
-        if (numvecs_returned>numvecs):
-            sys.warning('mpsfunctions.eigsh: requestion to return more vectors than calcuated: setting numvecs_returned=numvecs',stacklevel=2)
-            numvecs_returned=numvecs
         es=[]
         vs=[]
         esorted=np.sort(e)
@@ -1447,15 +1444,15 @@ def eigshbond(L,mpo,mps,R,mat0,position,tolerance=1e-6,numvecs=1,numcv=10,numvec
         return e[ind[0][0]],np.reshape(v[:,ind[0][0]],(chi1,chi2))
     elif numvecs_returned>1:
         if (numvecs_returned>numvecs):
-            sys.warning('mpsfunctions.eigsh: request to return more vectors than calcuated: setting numvecs_returned=numvecs',stacklevel=2)
+            warnings.warn('mpsfunctions.eigshbond: request to return more vectors than calcuated: setting numvecs_returned=numvecs',stacklevel=2)
             numvecs_returned=numvecs
-            es=[]
-            vs=[]
-            esorted=np.sort(e)
-            for n in range(numvecs_returned):
-                es.append(esorted[n])
-                ind=np.nonzero(e==esorted[n])
-                vs.append(np.reshape(v[:,ind[0][0]],(chi1p,chi2p)))
+        es=[]
+        vs=[]
+        esorted=np.sort(e)
+        for n in range(numvecs_returned):
+            es.append(esorted[n])
+            ind=np.nonzero(e==esorted[n])
+            vs.append(np.reshape(v[:,ind[0][0]],(chi1,chi2)))
         return es,vs
         
     #if position=='left':
-- 
2.43.0


From d02c4734dffc956ae07df740a66d970b5b85e561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:55 +0000
Subject: [PATCH 49/76] fix: TEBD counts the evolved time independently of the
 verbosity

---
 lib/mpslib/engines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 74733fd..fdc2884 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1252,8 +1252,8 @@ class TimeEvolutionEngine(Container):
         for step in range(numsteps):
             #odd step updates:
             self.applyOdd(dt,Dmax,tr_thresh)
+            self._t0+=np.abs(np.imag(dt))
             if verbose>=1:
-                self._t0+=np.abs(np.imag(dt))
                 stdout.write("\rTEBD engine: t=%4.4f truncated weight=%.16f at D/Dmax=%i/%i, truncation threshold=%1.16f, |dt|=%1.5f"%(self._t0,self._tw,np.max(self.mps.D),Dmax,tr_thresh,np.abs(dt)))
                 stdout.flush()
             if verbose>=2:
-- 
2.43.0


From ece4a6bbc055136473ae97cbcfbb705ff0d08ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:55 +0000
Subject: [PATCH 50/76] fix: doTEBD with numsteps=0 does not apply half a step
 of the even gates

---
 lib/mpslib/engines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index fdc2884..d9ecf25 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1248,7 +1248,8 @@ class TimeEvolutionEngine(Container):
 
         #even half-step:
         current='None'
-        self.applyEven(dt/2.0,Dmax,tr_thresh)
+        if numsteps>0:
+            self.applyEven(dt/2.0,Dmax,tr_thresh)
         for step in range(numsteps):
             #odd step updates:
             self.applyOdd(dt,Dmax,tr_thresh)
-- 
2.43.0


From a4dc55a4e2e3b805eaf88d0cffc238a9b3a32dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:55 +0000
Subject: [PATCH 51/76] fix: TDVP counts the evolved time independently of the
 verbosity

---
 lib/mpslib/engines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index d9ecf25..273df81 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1377,8 +1377,8 @@ class TimeEvolutionEngine(Container):
 
                 self._mps._mat=mat
                 self._mps._position=n
+            self._t0+=np.abs(np.imag(dt))                
             if verbose>=1:
-                self._t0+=np.abs(np.imag(dt))                
                 stdout.write("\rTDVP engine using %s solver: t=%4.4f, D=%i, |dt|=%1.5f"%(solver,self._t0,np.max(self._mps.D),np.abs(dt)))
                 stdout.flush()
             if verbose>=2:                
-- 
2.43.0


From 2e455b3b30214cd038352328ea771ab2bd7b8d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:00 +0000
Subject: [PATCH 52/76] fix: TDVP with the solve_ivp solvers evolves in the
 direction of dt (it ran backwards in real time and did nothing in imaginary
 time)

---
 lib/mpslib/engines.py      |  8 ++++----
 lib/mpslib/mpsfunctions.py | 17 ++++++++++-------
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 273df81..6c826aa 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1325,7 +1325,7 @@ class TimeEvolutionEngine(Container):
                 self._mps.__position__(n+1)
                 #evolve tensor forward
                 if solver in ['Radau','RK45','RK23','BDF','LSODA','RK23']:
-                    evTen=mf.evolveTensorsolve_ivp(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),np.imag(dt_),method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
+                    evTen=mf.evolveTensorsolve_ivp(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),1j*dt_,method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
                 elif solver=='LAN':
                     evTen=mf.evolveTensorLan(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),dt_,krylov_dimension=krylov_dim) #clear=True resets self._mat to identity
                 elif solver=='SEXPMV':                    
@@ -1338,7 +1338,7 @@ class TimeEvolutionEngine(Container):
                 #evolve matrix backward                    
                 if n<(self._mps._N-1):
                     if solver in ['Radau','RK45','RK23','BDF','LSODA','RK23']:
-                        evMat=mf.evolveMatrixsolve_ivp(self._L[n+1],self._R[self._mps._N-1-n],mat,-np.imag(dt_),method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
+                        evMat=mf.evolveMatrixsolve_ivp(self._L[n+1],self._R[self._mps._N-1-n],mat,-1j*dt_,method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
                     elif solver=='LAN':                        
                         evMat=mf. evolveMatrixLan(self._L[n+1],self._R[self._mps._N-1-n],mat,-dt_,krylov_dimension=krylov_dim)
                     elif solver=='SEXPMV':                                            
@@ -1354,7 +1354,7 @@ class TimeEvolutionEngine(Container):
                 self._mps.__position__(n+1)
                 self._R[self._mps._N-n-1]=mf.addLayer(self._R[self._mps._N-n-2],self._mps[n+1],self._mpo[n+1],self._mps[n+1],-1)
                 if solver in ['Radau','RK45','RK23','BDF','LSODA','RK23']:                    
-                    evMat=mf.evolveMatrixsolve_ivp(self._L[n+1],self._R[self._mps._N-1-n],self._mps._mat,-np.imag(dt_),method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity                    
+                    evMat=mf.evolveMatrixsolve_ivp(self._L[n+1],self._R[self._mps._N-1-n],self._mps._mat,-1j*dt_,method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity                    
                 elif solver=='LAN':                
                     evMat=mf. evolveMatrixLan(self._L[n+1],self._R[self._mps._N-1-n],self._mps._mat,-dt_,krylov_dimension=krylov_dim)
                 elif solver=='SEXPMV':                                    
@@ -1365,7 +1365,7 @@ class TimeEvolutionEngine(Container):
             
                 #evolve tensor forward: the back-evolved center matrix is absorbed into the left-side tensor, and the product is evolved forward in time
                 if solver in ['Radau','RK45','RK23','BDF','LSODA','RK23']:                                    
-                    evTen=mf.evolveTensorsolve_ivp(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),np.imag(dt_),method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
+                    evTen=mf.evolveTensorsolve_ivp(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),1j*dt_,method=solver,rtol=rtol,atol=atol) #clear=True resets self._mat to identity
                 elif solver=='LAN':                                
                     evTen=mf. evolveTensorLan(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),dt_,krylov_dimension=krylov_dim)
                 elif solver=='SEXPMV':                                                        
diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index e4c5a28..3323eb6 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1348,20 +1348,23 @@ def evolveMatrixLan(L,R,mat,tau,krylov_dimension=20,delta=1E-8):
 
 def evolveVectorsolve_ivp(mv,vec,tau,method,rtol,atol):
     """
-    integrates dy/dt=-1j*mv(y), y(0)=vec from t=0 to t=tau; real and imaginary part are passed 
+    integrates dy/dt=-1j*mv(y), y(0)=vec from t=0 to t=tau (real or complex); real and imaginary part are passed 
     separately because not all methods of solve_ivp support complex vectors
     """
     N=len(vec)
+    if tau==0:
+        return vec.astype(np.result_type(vec,complex))
+    phase=tau/np.abs(tau)
     def rhs(t,y):
-        dy=(-1j)*mv(y[0:N]+1j*y[N:])
+        dy=(-1j)*phase*mv(y[0:N]+1j*y[N:])
         return np.concatenate([np.real(dy),np.imag(dy)])
-    out=solve_ivp(rhs,t_span=(0.0,tau),y0=np.concatenate([np.real(vec),np.imag(vec)]),method=method,rtol=rtol,atol=atol)
+    out=solve_ivp(rhs,t_span=(0.0,np.abs(tau)),y0=np.concatenate([np.real(vec),np.imag(vec)]),method=method,rtol=rtol,atol=atol)
     return out.y[0:N,-1]+1j*out.y[N:,-1]
 
 
 def evolveTensorsolve_ivp(L,mpo,R,mps,tau,method='RK45',rtol=1E-3,atol=1E-6):
-    if not np.issubdtype(type(tau),np.dtype(float)):                        
-        raise TypeError(" evolveTensorRK45(L,mpo,R,mps,tau,rtol=1E-3,atol=1E-6): tau has to be a float")
+    if not (np.issubdtype(type(tau),np.floating) or np.issubdtype(type(tau),np.complexfloating)):
+        raise TypeError(" evolveTensorRK45(L,mpo,R,mps,tau,rtol=1E-3,atol=1E-6): tau has to be float or complex")
     [chi1,chi2,d]=np.shape(mps)
     chi1p=np.shape(L)[1]
     chi2p=np.shape(R)[1]
@@ -1374,8 +1377,8 @@ def evolveTensorsolve_ivp(L,mpo,R,mps,tau,method='RK45',rtol=1E-3,atol=1E-6):
 
 
 def evolveMatrixsolve_ivp(L,R,mat,tau,method='RK45',rtol=1E-3,atol=1E-6):
-    if not np.issubdtype(type(tau),np.dtype(float)):                
-        raise TypeError(" evolveTensorRK45(L,mpo,R,mps,tau,rtol=1E-3,atol=1E-6): tau has to be a float")
+    if not (np.issubdtype(type(tau),np.floating) or np.issubdtype(type(tau),np.complexfloating)):
+        raise TypeError(" evolveTensorRK45(L,mpo,R,mps,tau,rtol=1E-3,atol=1E-6): tau has to be float or complex")
     
     [chi1,chi2]=np.shape(mat)
     chi1p=np.shape(L)[1]
-- 
2.43.0


From 89c7b51ffd5af1c22efc73ed079471e15b71cf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:55 +0000
Subject: [PATCH 53/76] fix: doTDVP starts with up-to-date right environments
 wherever the engine was positioned

---
 lib/mpslib/engines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 6c826aa..ea51b05 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1315,7 +1315,7 @@ class TimeEvolutionEngine(Container):
             raise ValueError("TDVPengine.__doTDVP__(): unknown solver type {0}; use {'LAN','Radau','SEXPMV','RK45','BDF','LSODA','RK23'}".format(solver))
         converged=False
         current='None'
-        self._mps.__position__(0)
+        self.position(0)
         for step in range(numsteps):
             for n in range(self._mps._N):
                 if n==self._mps._N-1:
-- 
2.43.0


From ea187cfec7f5518111ab7c5ca13e7d96712362a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:24 +0000
Subject: [PATCH 54/76] fix: TMeigs, UnitcellTMeigs, MixedUnitcellTMeigs:
 diagonalise transfer operators densely that are too small for arpack

---
 lib/mpslib/mpsfunctions.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 3323eb6..2210b08 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1605,6 +1605,16 @@ def GeneralizedMatrixVectorProduct(direction,A,B,vector):
     warnings.warn('GeneralizedMatrixVectorProduct(direction,A,B,vector) is deprecated; used MixedTransferOperator instead')
     return MixedTransferOperator(direction=direction,mpsA=B,mpsB=A,vector=vector)
 
+def transferEigs(LOP,k,which,v0,maxiter,tol,ncv):
+    """
+    eigenvalues and eigenvectors of a transfer operator LOP (a LinearOperator); calls arpack, unless LOP is too small for it,
+    in which case LOP is diagonalised densely; see scipy.sparse.linalg.eigs for the parameters
+    """
+    N=LOP.shape[0]
+    if k>=N-1:
+        return np.linalg.eig(LOP.matmat(np.eye(N,dtype=LOP.dtype)))
+    return sp.sparse.linalg.eigs(LOP,k=k,which=which,v0=v0,maxiter=maxiter,tol=tol,ncv=ncv)
+
 def TMeigs(tensor,direction,numeig,init=None,nmax=6000,tolerance=1e-10,ncv=100,which='LR'):
     """
     TMeigs(tensor,direction,numeig,init=None,nmax=6000,tolerance=1e-10,ncv=100,which='LR'):
@@ -1626,11 +1636,11 @@ def TMeigs(tensor,direction,numeig,init=None,nmax=6000,tolerance=1e-10,ncv=100,w
     LOP=LinearOperator((chi1*chi1,chi2*chi2),matvec=mv,rmatvec=None,matmat=None,dtype=dtype)
 
     try:
-        eta,vec=sp.sparse.linalg.eigs(LOP,k=numeig,which=which,v0=init,maxiter=nmax,tol=tolerance,ncv=ncv)
+        eta,vec=transferEigs(LOP,k=numeig,which=which,v0=init,maxiter=nmax,tol=tolerance,ncv=ncv)
         m=np.argmax(np.real(eta))
         while np.abs(np.imag(eta[m]))/np.abs(np.real(eta[m]))>1E-5:
             print ('found TM eigenvalue eta ={0} with large imaginary part (ARPACK BUG); recalculating with a new initial state'.format(eta))
-            eta,vec=sp.sparse.linalg.eigs(LOP,k=numeig,which='LR',v0=np.random.rand(chi2*chi2),maxiter=nmax,tol=tolerance,ncv=ncv)
+            eta,vec=transferEigs(LOP,k=numeig,which='LR',v0=np.random.rand(chi2*chi2),maxiter=nmax,tol=tolerance,ncv=ncv)
             m=np.argmax(np.real(eta))
 
         if np.issubdtype(dtype,np.dtype(float)):
@@ -1699,14 +1709,14 @@ def UnitcellTMeigs(mps,direction,numeig,init=None,nmax=800,tolerance=1e-12,ncv=1
     
     mv=fct.partial(UnitcellTransferOperator,*[direction,mps])
     LOP=LinearOperator((D1l*D1l,D2r*D2r),matvec=mv,rmatvec=None,matmat=None,dtype=dtype)
-    eta,vec=sp.sparse.linalg.eigs(LOP,k=numeig,which=which,v0=init,maxiter=nmax,tol=tolerance,ncv=ncv)
+    eta,vec=transferEigs(LOP,k=numeig,which=which,v0=init,maxiter=nmax,tol=tolerance,ncv=ncv)
     m=np.argmax(np.real(eta))
 
     while np.abs(np.imag(eta[m]))/np.abs(np.real(eta[m]))>1E-4:
         numeig=numeig+1
         print ('found TM eigenvalue with large imaginary part (ARPACK BUG); recalculating with larger numeig={0}'.format(numeig))
         print (eta)
-        eta,vec=sp.sparse.linalg.eigs(LOP,k=numeig,which=which,v0=init,maxiter=nmax,tol=tolerance,ncv=ncv)
+        eta,vec=transferEigs(LOP,k=numeig,which=which,v0=init,maxiter=nmax,tol=tolerance,ncv=ncv)
         m=np.argmax(np.real(eta))
     if np.issubdtype(dtype,np.dtype(float)):
         out=np.reshape(vec[:,m],D1l*D1l)
@@ -1733,7 +1743,7 @@ def MixedUnitcellTMeigs(mps1,mps2,direction,numeig,init=None,nmax=800,tolerance=
 
     mv=fct.partial(MixedUnitcellTransferOperator,*[direction,mps2,mps1])
     LOP=LinearOperator((D1lmps1*D1lmps2,D2rmps1*D2rmps2),matvec=mv,rmatvec=None,matmat=None,dtype=mps1[0].dtype)
-    eta,vec=sp.sparse.linalg.eigs(LOP,k=numeig,which=which,v0=init,maxiter=nmax,tol=tolerance,ncv=ncv)
+    eta,vec=transferEigs(LOP,k=numeig,which=which,v0=init,maxiter=nmax,tol=tolerance,ncv=ncv)
     m=np.argmax(np.abs(eta))
     if direction<0:
         return eta[m],np.reshape(vec[:,m],D1lmps1*D1lmps2),numeig
-- 
2.43.0


From 14dfd5f0ae42a0ea041c56c552ce817dd6d8445c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:33 +0000
Subject: [PATCH 55/76] fix: canonizeMPS: keep the unitary of the last
 decomposition of an infinite state

---
 lib/mpslib/mpsfunctions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 2210b08..75132fd 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2361,6 +2361,9 @@ def canonizeMPS(mps,tr_thresh=1E-16,r_thresh=1E-14):
             Lam[n]=S
             if n>0:
                 Gamma[n-1]=np.transpose(np.tensordot(Gamma[n-1],U.dot(np.diag(S)),([1],[0])),(0,2,1))
+            if n==0:
+                #U commutes with S; it has to stay in the unitcell for the state to connect back to itself
+                Gamma[n]=np.tensordot(U,Gamma[n],([1],[0]))
         return Gamma,Lam
 
     else:
-- 
2.43.0


From 67b95b2070360500a7d782e25928dc1f5d5755c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:20 +0000
Subject: [PATCH 56/76] fix: regauge: do not rescale the input tensor in place
 for gauge='left'

---
 lib/mpslib/mpsfunctions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 75132fd..b3f1bac 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2399,8 +2399,7 @@ def regauge(tensor,gauge,initial=None,nmaxit=100000,tol=1E-10,ncv=50,numeig=6,pi
         #find left eigenvalue
         [eta,v,numeig]=TMeigs(tensor,direction=1,numeig=numeig,init=initial,nmax=nmaxit,tolerance=tol,ncv=ncv)
         #rescale so that eta=1
-        #tensor=tensor/np.sqrt(np.real(eta))
-        tensor/=np.sqrt(np.real(eta))        
+        tensor=tensor/np.sqrt(np.real(eta))
         if np.abs(np.imag(eta))/np.abs(np.real(eta))>thresh:
             print ('in regauge: warning: found eigenvalue eta with large imaginary part: {0}'.format(eta))
         l=np.reshape(v,(chi,chi))
-- 
2.43.0


From 82bf6c96c8e943cbdba4cfb85f86c89028d660cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:47 +0000
Subject: [PATCH 57/76] fix: TransferOperator, MixedTransferOperator: check the
 length of the MPS that was passed

---
 lib/mpslib/mpsfunctions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index b3f1bac..3e431ae 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1527,7 +1527,7 @@ def TransferOperator(direction,mps,vector):
         A=mps
         [D1,D2,d]= A.shape
     elif isinstance(mps,MPSL.MPS):
-        if len(A)>1:
+        if len(mps)>1:
             raise ValueError("in TransferOperator: got an MPS object of len(MPS)>1; can only handle single-site objects")
         A=mps[0]
         [D1,D2,d]= A.shape
@@ -1559,9 +1559,9 @@ def MixedTransferOperator(direction,mpsA,mpsB,vector):
         [D1B,D2B,dB]= Upper.shape
         
     elif isinstance(mpsA,MPSL.MPS) and isinstance(mpsB,MPSL.MPS):
-        if len(A)>1:
+        if len(mpsA)>1:
             raise ValueError("in TransferOperator: got an MPS object mpsA of len(mpsA)>1; can only handle single-site objects")
-        if len(B)>1:
+        if len(mpsB)>1:
             raise ValueError("in TransferOperator: got an MPS object mpsB of len(mpsB)>1; can only handle single-site objects")
         Upper=mpsA[0]
         Lower=mpsB[0]
@@ -1569,14 +1569,14 @@ def MixedTransferOperator(direction,mpsA,mpsB,vector):
         [D1B,D2B,dB]= Upper.shape
         
     elif isinstance(mpsA,MPSL.MPS) and isinstance(mpsB,np.ndarray):
-        if len(A)>1:
+        if len(mpsA)>1:
             raise ValueError("in TransferOperator: got an MPS object mpsA of len(mpsA)>1; can only handle single-site objects")
         Upper=mpsA[0]
         Lower=mpsB
         [D1A,D2A,dA]= Lower.shape
         [D1B,D2B,dB]= Upper.shape
     elif isinstance(mpsB,MPSL.MPS) and isinstance(mpsA,np.ndarray):
-        if len(B)>1:
+        if len(mpsB)>1:
             raise ValueError("in TransferOperator: got an MPS object mpsA of len(mpsA)>1; can only handle single-site objects")
         Upper=mpsA
         Lower=mpsB[0]
-- 
2.43.0


From 9908e394c69865e35c7b98624c4a4e1b478d3bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:47 +0000
Subject: [PATCH 58/76] fix: MixedUnitcellTransferOperator: use the names of
 the arguments

---
 lib/mpslib/mpsfunctions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 3e431ae..c0af5cb 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1681,15 +1681,15 @@ def UnitcellTransferOperator(direction,mps,vector):
 #mps1 is the lower (conjugated) MPS, mps2 the upper (unconjugated) MPS
 def MixedUnitcellTransferOperator(direction,Upper,Lower,vector):
     x=np.copy(vector)
-    assert(len(mps1)==len(mps2))
+    assert(len(Upper)==len(Lower))
     if direction>0:
         #bring the vector in matrix form
-        for n in range(len(mps1)):
+        for n in range(len(Upper)):
             x=MixedTransferOperator(direction,Upper[n],Lower[n],x)
         return x
     if direction<0:
         #bring the vector in matrix form
-        for n in range(len(mps1)-1,-1,-1):
+        for n in range(len(Upper)-1,-1,-1):
             x=MixedTransferOperator(direction,Upper[n],Lower[n],x)
         return x
 
-- 
2.43.0


From 8457a9341dd41f96befb1750ebdb0a6233e63a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:47 +0000
Subject: [PATCH 59/76] fix: OneMinusPseudoTransferOperator: negative momenta
 are not zero

---
 lib/mpslib/mpsfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index c0af5cb..24e7470 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2568,13 +2568,13 @@ def OneMinusPseudoTransferOperator(Upper,Lower,r,l,direction,momentum,vector):
     [chiL1,chiL2,dL]=np.shape(Lower)
     if direction>0:
         x=np.reshape(vector,(chiU1,chiL1))
-        if np.abs(momentum<1E-8):
+        if np.abs(momentum)<1E-8:
             return vector-MixedTransferOperator(direction,Upper,Lower,vector)+np.reshape(np.tensordot(x,r,([0,1],[0,1]))*l,(chiU2*chiL2))
         else:
             return vector-np.exp(1j*momentum)*MixedTransferOperator(direction,Upper,Lower,vector)
     if direction<0:
         x=np.reshape(vector,(chiU2,chiL2))
-        if np.abs(momentum<1E-8):
+        if np.abs(momentum)<1E-8:
             return vector-MixedTransferOperator(direction,Upper,Lower,vector)+np.reshape(np.tensordot(l,x,([0,1],[0,1]))*r,(chiU1*chiL1))
         else:
             return vector-np.exp(1j*momentum)*MixedTransferOperator(direction,Upper,Lower,vector)
-- 
2.43.0


From 4383fe833ae2d790a61d1b7017af17a7073d7d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:47 +0000
Subject: [PATCH 60/76] fix: RENORMBLOCKHAMGMRES, TDVPGMRES: complex momentum
 phases and right-hand sides, forward the momentum

---
 lib/mpslib/mpsfunctions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 24e7470..3150179 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -2622,7 +2622,7 @@ def TDVPGMRES(tensorU,tensorL,r,l,inhom,x0,tolerance=1e-10,maxiteration=2000,dir
     """
     
     warnings.warn('mpsfunctions.TDVPGMRES is deprecated; use mpsfunctions.RENORMBLOCKHAMGMRES instead')
-    return RENORMBLOCKHAMGMRES(tensorU,tensorL,r,l,inhom,x0,tolerance,maxiteration,direction)
+    return RENORMBLOCKHAMGMRES(tensorU,tensorL,r,l,inhom,x0,tolerance,maxiteration,direction,momentum)
 
 #calculates the reduced block hamiltonian for left or right side (depending on dir)
 def RENORMBLOCKHAMGMRES(tensorU,tensorL,r,l,inhom,x0,tolerance=1e-10,maxiteration=200,direction=1,momentum=0.0):
@@ -2644,7 +2644,9 @@ def RENORMBLOCKHAMGMRES(tensorU,tensorL,r,l,inhom,x0,tolerance=1e-10,maxiteratio
     """
     
     x0=None
-    dtype=tensorU.dtype
+    dtype=np.result_type(tensorU,tensorL,r,l,inhom)
+    if not np.abs(momentum)<1E-8:
+        dtype=np.result_type(dtype,complex)
     if np.any(x0==None):
         x0=np.random.random_sample(inhom.shape).astype(dtype)
     [chiU1,chiU2,d]=np.shape(tensorU)
-- 
2.43.0


From 1b720451146070e9d79ebd6db1b47221c355f093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:47 +0000
Subject: [PATCH 61/76] fix: computeUCsteadyStateHamiltonianGMRES: count the
 local terms of the boundary site once

---
 lib/mpslib/mpsfunctions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 3150179..51e5eb7 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1949,6 +1949,7 @@ def computeUCsteadyStateHamiltonianGMRES(mps,mpopbc,boundary,ldens,rdens,directi
     if direction>0:
         mpo=np.zeros((1,B2,d1,d2),dtype=dtype)
         mpo[0,:,:,:]=mpopbc[NUC-1][-1,:,:,:]
+        mpo[0,0,:,:]=0.0 #the local terms at the last site are part of the unitcell that is added below
         L=initializeLayer(mps[NUC-1],np.eye(D1r),mps[NUC-1],mpo,1)
 
         for n in range(0,len(mps)):
@@ -1963,6 +1964,7 @@ def computeUCsteadyStateHamiltonianGMRES(mps,mpopbc,boundary,ldens,rdens,directi
     if direction<0:
         mpo=np.zeros((B1,1,d1,d2),dtype=dtype)
         mpo[:,0,:,:]=mpopbc[0][:,0,:,:]
+        mpo[-1,0,:,:]=0.0 #the local terms at the first site are part of the unitcell that is added below
         R=initializeLayer(mps[0],np.eye(D2l),mps[0],mpo,-1)
         for n in range(len(mps)-1,-1,-1):
             R=addLayer(R,mps[n],mpopbc[n],mps[n],-1)    
-- 
2.43.0


From 9f9fd6d0da828d94bb2528c09a6c2e10895e7f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 62/76] fix: computeUCsteadyStateHamiltonianGMRES: energy of
 complex states

---
 lib/mpslib/mpsfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 51e5eb7..07f793d 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1955,7 +1955,7 @@ def computeUCsteadyStateHamiltonianGMRES(mps,mpopbc,boundary,ldens,rdens,directi
         for n in range(0,len(mps)):
             L=addLayer(L,mps[n],mpopbc[n],mps[n],1)    
 
-        h=np.trace(L[:,:,0].dot(rdens[-1]))
+        h=np.tensordot(L[:,:,0],rdens[-1],([0,1],[0,1]))
         inhom=np.reshape(L[:,:,0]-h*np.transpose(np.eye(D2r)),D2r*D2r) 
         [k2,info]=TDVPGMRESUC(mps,ldens,rdens,inhom,np.reshape(boundary,(D1l*D1l)),thresh,imax,datatype=dtype,direction=1)
         L[:,:,0]=np.reshape(k2,(D2r,D2r))
@@ -1969,7 +1969,7 @@ def computeUCsteadyStateHamiltonianGMRES(mps,mpopbc,boundary,ldens,rdens,directi
         for n in range(len(mps)-1,-1,-1):
             R=addLayer(R,mps[n],mpopbc[n],mps[n],-1)    
 
-        h=np.trace(R[:,:,-1].dot(ldens[0]))
+        h=np.tensordot(R[:,:,-1],ldens[0],([0,1],[0,1]))
         inhom=np.reshape(R[:,:,-1]-h*np.transpose(np.eye(D1l)),D1l*D1l)
 
         [k2,info]=TDVPGMRESUC(mps,ldens,rdens,inhom,np.reshape(boundary,(D2r*D2r)),thresh,imax,datatype=dtype,direction=-1)
-- 
2.43.0


From 4bd3c69b2684d2bc83b85c6d68d08438b5027a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:41 +0000
Subject: [PATCH 63/76] fix: getBoundaryHams: return the energies for every
 position of the center site

---
 lib/mpslib/mpsfunctions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 07f793d..4051615 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1879,7 +1879,7 @@ def getBoundaryHams(mps,mpo,regauge=False):
         
         lb=np.copy(f0l)
         rb=np.copy(f0r)
-        return lb,rb,lbound,rbound
+        return lb,rb,lbound,rbound,hl,hr
 
     if mps.pos==len(mps):
         D=np.shape(mps[-1])[1]
-- 
2.43.0


From fcefac6f546ad73a7f4f1d81dd5f5353140e4e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 64/76] fix: computeUCsteadyStateHamiltonianGMRES: use the
 dimensions of the first site for the right environment

---
 lib/mpslib/mpsfunctions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 4051615..d600cad 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1962,6 +1962,7 @@ def computeUCsteadyStateHamiltonianGMRES(mps,mpopbc,boundary,ldens,rdens,directi
         return np.copy(L),h
 
     if direction<0:
+        [B1,B2,d1,d2]=np.shape(mpopbc[0])
         mpo=np.zeros((B1,1,d1,d2),dtype=dtype)
         mpo[:,0,:,:]=mpopbc[0][:,0,:,:]
         mpo[-1,0,:,:]=0.0 #the local terms at the first site are part of the unitcell that is added below
-- 
2.43.0


From 9689660a3d7906d1c66724648a4b66b4543bbdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:02 +0000
Subject: [PATCH 65/76] fix: TEBD, TDVP checkpoints: save the number of
 finished steps and the normalised state, and keep only the last file if asked
 to

---
 lib/mpslib/engines.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index ea51b05..7dce87e 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1247,7 +1247,7 @@ class TimeEvolutionEngine(Container):
         """
 
         #even half-step:
-        current='None'
+        current=None
         if numsteps>0:
             self.applyEven(dt/2.0,Dmax,tr_thresh)
         for step in range(numsteps):
@@ -1259,13 +1259,15 @@ class TimeEvolutionEngine(Container):
                 stdout.flush()
             if verbose>=2:
                 print('')
+            self._it=self._it+1
             #if this is a cp step, save between two half-steps
             if (cp!=None) and (self._it>0) and (self._it%cp==0):
                 #if the cp step does not coincide with the last step, do a half step, save, and do another half step
                 if step<(numsteps-1):                
                     self.applyEven(dt/2.0,Dmax,tr_thresh)
+                    self._mps.resetZ()
                     if not keep_cp:
-                        if os.path.exists(current+'.pickle'):
+                        if current!=None and os.path.exists(current+'.pickle'):
                             os.remove(current+'.pickle')
                         current=self._filename+'_tebd_cp'+str(self._it)
                         self.save(current)
@@ -1276,6 +1278,9 @@ class TimeEvolutionEngine(Container):
                 #if the cp step coincides with the last step, only do a half step and save the state
                 else:
                     self.applyEven(dt/2.0,Dmax,tr_thresh)
+                    self._mps.resetZ()
+                    if not keep_cp and current!=None and os.path.exists(current+'.pickle'):
+                        os.remove(current+'.pickle')
                     newname=self._filename+'_tebd_cp'+str(self._it)
                     self.save(newname)                    
             #if step is not a cp step:
@@ -1286,7 +1291,6 @@ class TimeEvolutionEngine(Container):
                 #if step is the last step, do a half step
                 else:
                     self.applyEven(dt/2.0,Dmax,tr_thresh)
-            self._it=self._it+1
             self._mps.resetZ()
         return self._tw,self._t0
 
@@ -1314,7 +1318,7 @@ class TimeEvolutionEngine(Container):
         if solver not in ['LAN','Radau','SEXPMV','RK45','BDF','LSODA','RK23']:
             raise ValueError("TDVPengine.__doTDVP__(): unknown solver type {0}; use {'LAN','Radau','SEXPMV','RK45','BDF','LSODA','RK23'}".format(solver))
         converged=False
-        current='None'
+        current=None
         self.position(0)
         for step in range(numsteps):
             for n in range(self._mps._N):
@@ -1383,9 +1387,11 @@ class TimeEvolutionEngine(Container):
                 stdout.flush()
             if verbose>=2:                
                 print('')
+            self._it=self._it+1
             if (cp!=None) and (self._it>0) and (self._it%cp==0):
+                self._mps.resetZ()
                 if not keep_cp:
-                    if os.path.exists(current+'.pickle'):
+                    if current!=None and os.path.exists(current+'.pickle'):
                         os.remove(current+'.pickle')
                     current=self._filename+'_tdvp_cp'+str(self._it)
                     self.save(current)
@@ -1393,7 +1399,6 @@ class TimeEvolutionEngine(Container):
                     current=self._filename+'_tdvp_cp'+str(self._it)
                     self.save(current)
 
-            self._it=self._it+1
         self._mps.position(0)
         self._mps.resetZ()        
         return self._t0
-- 
2.43.0


From 4b68ffbfcea271622ac6b41d014005ee9e5a20ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:26 +0000
Subject: [PATCH 66/76] fix: TimeEvolutionEngine.TEBD: return an engine object

---
 lib/mpslib/engines.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 7dce87e..c982f04 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -1093,11 +1093,7 @@ class TimeEvolutionEngine(Container):
                        if None, obc are assumed
         """
         
-        cls._gates=copy.deepcopy(gatecontainer)
-        cls._mps=copy.deepcopy(mps)
-        cls._mpo=copy.deepcopy(mpo)
-        cls._filename=filename        
-        return cls
+        return cls(mps,gatecontainer,filename)
 
     @classmethod
     def TDVP(cls,mps,mpo,filename,lb=None,rb=None):
-- 
2.43.0


From a13843028f23c17396b6ddd3a394b230c76018e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:41 +0000
Subject: [PATCH 67/76] fix: unknown solver types: raise the ValueError of the
 message instead of a KeyError

---
 lib/mpslib/engines.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index c982f04..62c766a 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -231,7 +231,7 @@ class DMRGengine(Container):
             e,opt=mf.lanczos(self._L[n],self._mpo[n],self._R[self._mps._N-1-n],self._mps.__tensor__(n,clear=True),tol,Ndiag=Ndiag,nmax=nmaxlan,numeig=1,delta=landelta,\
                               deltaEta=landeltaEta)
         else:
-            raise ValueError("DMRGengine.optimize: unknown solver type {0}: use {'AR','LAN','LOBPCG'}".format(solver))
+            raise ValueError("DMRGengine.optimize: unknown solver type {0}: use {{'AR','LAN','LOBPCG'}}".format(solver))
         Dnew=opt.shape[1]
         if verbose>0:
             stdout.write("\rSS-DMRG using %s solver: it=%i/%i, site=%i/%i: optimized E=%.16f+%.16f at D=%i"%(solver,self._it,self._Nmax,n,self._N,np.real(e),np.imag(e),Dnew))
@@ -262,7 +262,7 @@ class DMRGengine(Container):
 
         """
         if solver not in ['AR','LAN','LOBPCG']:
-            raise ValueError("DMRGengine.__simulate__: unknown solver type {0}: use {'AR','LAN','LOBPCG'}".format(solver))
+            raise ValueError("DMRGengine.__simulate__: unknown solver type {0}: use {{'AR','LAN','LOBPCG'}}".format(solver))
         self._Nmax=Nmax
         converged=False
         energy=100000.0
@@ -319,7 +319,7 @@ class DMRGengine(Container):
 
         """
         if solver not in ['AR','LAN','LOBPCG']:
-            raise ValueError("DMRGengine.__simulateTwoSite__: unknown solver type {0}: use {'AR','LAN','LOBPCG'}".format(solver))
+            raise ValueError("DMRGengine.__simulateTwoSite__: unknown solver type {0}: use {{'AR','LAN','LOBPCG'}}".format(solver))
         self._Nmax=Nmax
 
         converged=False
@@ -1312,7 +1312,7 @@ class TimeEvolutionEngine(Container):
         """
 
         if solver not in ['LAN','Radau','SEXPMV','RK45','BDF','LSODA','RK23']:
-            raise ValueError("TDVPengine.__doTDVP__(): unknown solver type {0}; use {'LAN','Radau','SEXPMV','RK45','BDF','LSODA','RK23'}".format(solver))
+            raise ValueError("TDVPengine.__doTDVP__(): unknown solver type {0}; use {{'LAN','Radau','SEXPMV','RK45','BDF','LSODA','RK23'}}".format(solver))
         converged=False
         current=None
         self.position(0)
-- 
2.43.0


From c91d1ed0b98b8115cc53d8b5ff93e04282e1fef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:06 +0000
Subject: [PATCH 68/76] fix: IDMRG: shift unit cells of odd length

---
 lib/mpslib/engines.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 62c766a..8e07c0b 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -472,7 +472,7 @@ class IDMRGengine(DMRGengine):
         for n in range(self._mps._N):
             self._mps._tensors[n]=mps[n]
             
-        self._mps._position=int(self._mps._N/2)
+        self._mps._position=self._mps._N-int(self._mps._N/2)
         self._mps._mat=lamR.dot(self._mps._connector).dot(lamL)
         self._mps._connector=connector
         self._mps.__position__(0)
-- 
2.43.0


From 78f052edccec3e4946441291137f4b27f114d482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:06 +0000
Subject: [PATCH 69/76] fix: lanczos, lanczosbond: return as many eigenpairs as
 were found

---
 lib/mpslib/mpsfunctions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index d600cad..5813874 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1173,7 +1173,7 @@ def lanczos(L,mpo,R,mps0,tolerance=1e-6,Ndiag=10,nmax=500,numeig=1,delta=1E-8,de
     else:
         es=[]
         vs=[]
-        for n in range(numeig):
+        for n in range(len(v)):
             es.append(e[n])
             vs.append(np.reshape(v[n],(chi1p,chi2p,dp)))
         return es,vs
@@ -1196,7 +1196,7 @@ def lanczosbond(L,mpo,mps,R,mat0,position,Ndiag=10,nmax=500,numeig=1,delta=1E-10
         es=[]
         vs=[]
         
-        for n in range(numeig):
+        for n in range(len(v)):
             es.append(e[n])
             vs.append(np.reshape(v[n],(chi1,chi2)))
         return es,vs
-- 
2.43.0


From 0e9be9bfe2cc12caa07ab7517499366eb7fbff92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:06 +0000
Subject: [PATCH 70/76] fix: eigshbond: diagonalise effective Hamiltonians
 densely that are too small for arpack

---
 lib/mpslib/mpsfunctions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 5813874..ca8b177 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1439,7 +1439,11 @@ def eigshbond(L,mpo,mps,R,mat0,position,tolerance=1e-6,numvecs=1,numcv=10,numvec
     dp=np.shape(mpo)[3]
     mv=fct.partial(HAproductZeroSite,*[L,mpo,mps,R,position])
     LOP=LinearOperator((chi1*chi2,chi1*chi2),matvec=mv,rmatvec=None,matmat=None,dtype=dtype)
-    e,v=sp.sparse.linalg.eigsh(LOP,k=numvecs,which='SA',maxiter=100000,tol=tolerance,v0=np.reshape(mat0,chi1*chi2),ncv=numcv)
+    if numvecs>=chi1*chi2-1: #too small for arpack
+        e,v=np.linalg.eigh(LOP.matmat(np.eye(chi1*chi2,dtype=dtype)))
+        e,v=e[0:numvecs],v[:,0:numvecs]
+    else:
+        e,v=sp.sparse.linalg.eigsh(LOP,k=numvecs,which='SA',maxiter=100000,tol=tolerance,v0=np.reshape(mat0,chi1*chi2),ncv=numcv)
 
     if numvecs_returned==1:
         ind=np.nonzero(e==min(e))
-- 
2.43.0


From e3460d5c32176f5d5b130c173a5f65e8f2bf8ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:06 +0000
Subject: [PATCH 71/76] fix: VUMPS: calculate the requested number of
 eigenvectors

---
 lib/mpslib/engines.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/mpslib/engines.py b/lib/mpslib/engines.py
index 8e07c0b..420c874 100644
--- a/lib/mpslib/engines.py
+++ b/lib/mpslib/engines.py
@@ -939,21 +939,19 @@ class VUMPSengine(Container):
         self._gradnorm=np.linalg.norm(AC_-ncon.ncon([self._A,C_],[[-1,1,-3],[1,-2]]))
 
         if self._solver=='AR':
-            e1,mps=mf.eigsh(self._lb,self._mpo[1],self._rb,self._mps[0],self._artol_,numvecs=1,numcv=self._arncv,numvecs_returned=self._arnumvecs)#mps._mat set to 11 during call of __tensor__()
+            e1,mps=mf.eigsh(self._lb,self._mpo[1],self._rb,self._mps[0],self._artol_,numvecs=self._arnumvecs,numcv=self._arncv,numvecs_returned=self._arnumvecs)#mps._mat set to 11 during call of __tensor__()
             e2,self._mat=mf.eigshbond(self._lb,self._mpo[1],self._A,self._rb,self._mat,position='right',tolerance=self._artol_,numvecs=self._arnumvecs,numcv=self._arncv)
             if self._arnumvecs>1:        
-                self._mat/=np.linalg.norm(self._mat[0])
-                self._gap=e1[1]-e1[0]
+                self._gap=e1[1]-e1[0] if len(e1)>1 else np.nan
                 self._mps[0]=mps[0]
             else:
                 self._mps[0]=mps
         elif self._solver=='LAN':
             e1,mps=mf.lanczos(self._lb,self._mpo[1],self._rb,self._mps[0],self._artol,self._Ndiag,self._nmaxlan,self._arnumvecs,self._landelta,deltaEta=self._artol)
-            e2,self._mat=mf.lanczosbond(self._lb,self._mpo[1],self._A,self._rb,self._mat,'right',self._Ndiag,self._nmaxlan,self._arnumvecs,delta=self._landelta,deltaEta=self._artol)
+            e2,self._mat=mf.lanczosbond(self._lb,self._mpo[1],self._A,self._rb,self._mat,'right',self._Ndiag,self._nmaxlan,numeig=1,delta=self._landelta,deltaEta=self._artol)
             if self._arnumvecs>1:        
-                self._gap=e1[1]-e1[0]
+                self._gap=e1[1]-e1[0] if len(e1)>1 else np.nan
                 self._mps[0]=mps[0]
-                self._mat=self._mat[0]
             else:
                 self._mps[0]=mps
         else:
-- 
2.43.0


From fceb7bb0d4bf7a70cd5c13f526ae07c463f04cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:05 +0000
Subject: [PATCH 72/76] fix: prepareTensor, prepareTensorSVD, prepareTruncate:
 do not divide the null vector by its norm

---
 lib/mpslib/mpsfunctions.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index ca8b177..45e9864 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -627,7 +627,8 @@ def prepareTensorSVD(tensor,direction,fixphase=False):
             u=u.dot(unit)
             v=herm(unit).dot(v)
         Z=np.linalg.norm(s)            
-        s/=Z
+        if Z>0:
+            s/=Z
         [size1,size2]=u.shape
         out=np.transpose(np.reshape(u,(d,l1,size2)),(1,2,0))
         return out,s,v,Z
@@ -641,7 +642,8 @@ def prepareTensorSVD(tensor,direction,fixphase=False):
             u=u.dot(herm(unit))
             v=unit.dot(v)
         Z=np.linalg.norm(s)                        
-        s/=Z
+        if Z>0:
+            s/=Z
         [size1,size2]=v.shape
         out=np.reshape(v,(size1,l2,d))
         return out,s,u,Z
@@ -696,7 +698,8 @@ def prepareTruncate(tensor,direction,D=None,thresh=1E-32,r_thresh=1E-14):
             v=v[0:len(s),:]
             s=s[0:len(s)]
 
-        s/=np.linalg.norm(s)            
+        if Z>0:
+            s/=np.linalg.norm(s)            
         [size1,size2]=u.shape
         out=np.transpose(np.reshape(u,(d,l1,size2)),(1,2,0))
         return out,s,v,Z
@@ -727,7 +730,8 @@ def prepareTruncate(tensor,direction,D=None,thresh=1E-32,r_thresh=1E-14):
             s=s[0:len(s)]
 
 
-        s/=np.linalg.norm(s)            
+        if Z>0:
+            s/=np.linalg.norm(s)            
         [size1,size2]=v.shape
         out=np.reshape(v,(size1,l2,d))
     return u,s,out,Z
@@ -765,7 +769,8 @@ def prepareTensor(tensor,direction,fixphase=None):
 
         #normalize the bond matrix
         Z=np.linalg.norm(r)        
-        r/=Z
+        if Z>0:
+            r/=Z
         [size1,size2]=q.shape
         out=np.transpose(np.reshape(q,(d,l1,size2)),(1,2,0))
     
@@ -790,7 +795,8 @@ def prepareTensor(tensor,direction,fixphase=None):
         r=np.conjugate(np.transpose(r_,(1,0)))
         #normalize the bond matrix
         Z=np.linalg.norm(r)
-        r/=Z
+        if Z>0:
+            r/=Z
 
     return out,r,Z
 
-- 
2.43.0


From 50dd0f5006ce244df9024e3be3d9aa3cfe531f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:59 +0000
Subject: [PATCH 73/76] fix: measure: rectangular bond matrices at the last
 site

---
 lib/mpslib/mps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index d922814..305001e 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -976,8 +976,8 @@ class MPS:
 
         assert(self._position==sites[-1]+1)
 
-        R=np.zeros((self[sites[s-1]].shape[1],self[sites[s-1]].shape[1],1))
-        R[:,:,0]=np.eye(self[sites[s-1]].shape[1])
+        R=np.zeros((self._mat.shape[1],self._mat.shape[1],1))
+        R[:,:,0]=np.eye(self._mat.shape[1])
         Z=np.trace(self._mat.dot(herm(self._mat)))
         if not((np.abs(np.trace(self._mat.dot(herm(self._mat))))-1.0)<1E-10):
             warnings.warn('mps.py.measure(self,ops,sites): state is not normalized')
-- 
2.43.0


From 2f2ff6abe2710c8ec8ba751405045054a9cdb407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:00 +0000
Subject: [PATCH 74/76] fix: tensor(clear=True): the identity has the dimension
 of the returned tensor also for rectangular bond matrices

---
 lib/mpslib/mps.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 305001e..29d17f1 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -1051,14 +1051,14 @@ class MPS:
         if (site==self._position):
             out=np.tensordot(self._mat,self._tensors[site],([1],[0]))
             if clear==True:
-                self._mat=np.eye(np.shape(self._tensors[site])[0])
+                self._mat=np.eye(np.shape(out)[0])
                 self._mat/=np.linalg.norm(self._mat)                                
             return out
 
         if (site==(self._position-1)):
             out=np.transpose(np.tensordot(self._tensors[site],self._mat,([1],[0])),(0,2,1))            
             if clear==True:
-                self._mat=np.eye(np.shape(self._tensors[site])[1])
+                self._mat=np.eye(np.shape(out)[1])
                 self._mat/=np.linalg.norm(self._mat)                
             return out
         
-- 
2.43.0


From 34e3220f3527be7e1efa6f40f32d9c3f601ac773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:46 +0000
Subject: [PATCH 75/76] fix: HAproductBond: rectangular bond matrices (TDVP of
 states with wider bonds than necessary)

---
 lib/mpslib/mpsfunctions.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/mpslib/mpsfunctions.py b/lib/mpslib/mpsfunctions.py
index 45e9864..d240b96 100644
--- a/lib/mpslib/mpsfunctions.py
+++ b/lib/mpslib/mpsfunctions.py
@@ -1023,10 +1023,11 @@ def HAproductZeroSiteMat(L,mpo,mps,R,position,mat):
 
 #does the matrix vector product on the bond; vec is a vectorized bond matrix
 def HAproductBond(L,R,vec):
-    chi=np.shape(L)[0]
-    mat=np.reshape(vec,(chi,chi))
+    chi1=np.shape(L)[0]
+    chi2=np.shape(R)[0]
+    mat=np.reshape(vec,(chi1,chi2))
     temp=np.tensordot(L,mat,([0],[0]))
-    return np.reshape(np.tensordot(temp,R,([2,1],[0,2])),chi*chi)
+    return np.reshape(np.tensordot(temp,R,([2,1],[0,2])),np.shape(L)[1]*np.shape(R)[1])
 
 
 def contractionE(Lexp,mps,Rexp):
-- 
2.43.0


From 2529db3f491c3a1cedfeeef2570cd3a4bd06da2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:58 +0000
Subject: [PATCH 76/76] fix: MPS.ones: complex states are filled with 1, not
 with 1+1j

---
 lib/mpslib/mps.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mpslib/mps.py b/lib/mpslib/mps.py
index 29d17f1..e0c07ff 100644
--- a/lib/mpslib/mps.py
+++ b/lib/mpslib/mps.py
@@ -235,7 +235,7 @@ class MPS:
 
         """
         
-        tensors=mf.MPSinitializer(np.ones,N,D,d,obc,dtype,scale=1.0,shift=0.0)
+        tensors=[t.astype(dtype) for t in mf.MPSinitializer(np.ones,N,D,d,obc,np.dtype(float),scale=1.0,shift=0.0)]
         mps=cls(tensors,schmidt_thresh,r_thresh)
         mps._obc=obc
         mps.__position__(0)        
-- 
2.43.0

