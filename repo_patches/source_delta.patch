From 4ddcda0265e68f2629364747e41e40c22a742015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:52 +0000
Subject: [PATCH 01/38] fix: R2rot returns a unit axis as an array for the
 identity and for every half turn

---
 .../general_robotics_toolbox.py                    | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index bea5303..76aa507 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -108,16 +108,12 @@ def R2rot(R):
     if sin_theta < 1e-6:
                
         if (cos_theta > 0):
-            return [0,0,1], 0
+            return np.array([0,0,1]), 0
         else:
-            B = (1.0/2.0) *(R + np.eye(3))
-            k = np.sqrt([B[0,0], B[1,1], B[2,2]])
-            if np.abs(k[0]) > 1e-6:
-                k[1] = k[1] * np.sign(B[0,1] / k[0])
-                k[2] = k[2] * np.sign(B[0,2] / k[0])
-            elif np.abs(k[1]) > 1e-6:
-                k[2] = k[2] * np.sign(B[0,2] / k[1])
-            return k, np.pi
+            # B = k*k^T. The column of the largest diagonal element is well conditioned
+            B = (1.0/4.0) * (R + R.transpose()) + (1.0/2.0) * np.eye(3)
+            k = B[:,np.argmax(np.diag(B))]
+            return k/np.linalg.norm(k), np.pi
     
     k = invhat(R1)/(2.0*sin_theta)    
     return k, theta
-- 
2.43.0


From f6185efdabce30ef4fff35a224f0692d0fb7b652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:52 +0000
Subject: [PATCH 02/38] fix: q2rot returns a finite unit axis for quaternions
 at and close to +-1

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 76aa507..867e353 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -203,10 +203,11 @@ def q2rot(q):
     :rtype:  (numpy.array, number)
     :return: the 3x1 rotation vector and theta    
     """
-    theta = 2 * np.arccos(q[0])
-    if np.abs(theta) < 1e-6:
+    sin_theta_2 = np.linalg.norm(q[1:4])
+    theta = 2 * np.arctan2(sin_theta_2, q[0])
+    if sin_theta_2 < 5e-7:
         return np.array([0,0,1]), 0.0
-    k = q[1:4]/np.sin(theta/2.0)
+    k = q[1:4]/sin_theta_2
     return k, theta
 
 def rot2q(k, theta):
-- 
2.43.0


From babc660c82b937ec03bb1b8dd71d60446790ac9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:52 +0000
Subject: [PATCH 03/38] fix: slerp of equal orientations does not return nan

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 867e353..fca8bab 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -318,7 +318,7 @@ def slerp(q0, q1, t):
     if (np.dot(q0,q1) < 0):
         q0 = -q0
     
-    theta = np.arccos(np.dot(q0,q1))
+    theta = np.arccos(np.clip(np.dot(q0,q1), -1.0, 1.0))
     
     if (np.abs(theta) < 1e-6):
         return q0
-- 
2.43.0


From 6bba1f5e60b870827ca6cbc054f972933a7b79ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:23 +0000
Subject: [PATCH 04/38] fix: check the joint limits of an N x 1 theta joint by
 joint

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index fca8bab..c50895f 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -540,8 +540,8 @@ def fwdkin(robot, theta, _ignore_limits = False):
     if not _ignore_limits:
 
         if (robot.joint_lower_limit is not None and robot.joint_upper_limit is not None):
-            assert np.greater_equal(theta, robot.joint_lower_limit).all(), "Specified joints out of range"
-            assert np.less_equal(theta, robot.joint_upper_limit).all(), "Specified joints out of range"
+            assert np.greater_equal(np.ravel(theta), robot.joint_lower_limit).all(), "Specified joints out of range"
+            assert np.less_equal(np.ravel(theta), robot.joint_upper_limit).all(), "Specified joints out of range"
     
     p = robot.P[:,[0]]
     R = np.identity(3)
@@ -572,8 +572,8 @@ def robotjacobian(robot, theta, _ignore_limits = False):
     
     if not _ignore_limits:
         if (robot.joint_lower_limit is not None and robot.joint_upper_limit is not None):
-            assert np.greater_equal(theta, robot.joint_lower_limit).all(), "Specified joints out of range"
-            assert np.less_equal(theta, robot.joint_upper_limit).all(), "Specified joints out of range"
+            assert np.greater_equal(np.ravel(theta), robot.joint_lower_limit).all(), "Specified joints out of range"
+            assert np.less_equal(np.ravel(theta), robot.joint_upper_limit).all(), "Specified joints out of range"
     
     
     hi = np.zeros(robot.H.shape)
-- 
2.43.0


From fc91e2f020cff48724e719772a0a9bb669865045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:46 +0000
Subject: [PATCH 05/38] fix: subproblem0 refuses vectors on either side of the
 plane and tolerates rounding

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index c50895f..a19aea3 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -653,12 +653,12 @@ def subproblem0(p, q, k):
     :return: theta angle as scalar in radians
     """
     
-    eps = np.finfo(np.float64).eps    
-    assert (np.dot(k,p) < eps) and (np.dot(k,q) < eps), \
-           "k must be perpendicular to p and q"
-    
     norm = np.linalg.norm
     
+    tol = np.sqrt(np.finfo(np.float64).eps)
+    assert (np.abs(np.dot(k,p)) < tol*norm(p)) and (np.abs(np.dot(k,q)) < tol*norm(q)), \
+           "k must be perpendicular to p and q"
+    
     ep = p / norm(p)
     eq = q / norm(q)
     
-- 
2.43.0


From 149783e7e5ea0edcccbabb7e4671d8ab538dd28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:46 +0000
Subject: [PATCH 06/38] fix: subproblem2 returns the right angles when the
 cones touch

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index a19aea3..56a67e8 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -759,8 +759,8 @@ def subproblem2(p, q, k1, k2):
     if (np.abs(gamma) < eps):
         cm=np.array([k1, k2, np.cross(k1,k2)]).T
         c1 = np.dot(cm, np.hstack((a, gamma)))
-        theta2 = subproblem1(k2, p, c1)
-        theta1 = -subproblem1(k1, q, c1)
+        theta2 = subproblem1(p, c1, k2)
+        theta1 = -subproblem1(q, c1, k1)
         return [(theta1, theta2)]
     
     cm=np.array([k1, k2, np.cross(k1,k2)]).T
-- 
2.43.0


From 4d078d82457dba09c681900d5f81ab8664ac41d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:46 +0000
Subject: [PATCH 07/38] fix: subproblem4 returns no solution for a displacement
 too far below the range

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 56a67e8..f8c8249 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -844,7 +844,7 @@ def subproblem4(p, q, k, d):
     
     d = c / np.linalg.norm([a,b])
     
-    if d > 1:
+    if np.abs(d) > 1:
         return []
     
     psi = np.arcsin(d)
-- 
2.43.0


From 05806ac0f70c1cfedc0890955e3b8c8f58a33ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:33 +0000
Subject: [PATCH 08/38] fix: subproblem2 recognizes parallel axes that differ
 by rounding

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index f8c8249..10cc087 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -742,7 +742,7 @@ def subproblem2(p, q, k1, k2):
     qk = np.dot(q, k1)
     
     # check if solution exists
-    if (np.abs( 1 - k12**2) < eps):
+    if (norm(np.cross(k1, k2)) < np.sqrt(eps)):
         warnings.warn("No solution - k1 != k2")
         return []
     
-- 
2.43.0


From 36aad10435cd89a190a046dd92a664920f3af978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:33 +0000
Subject: [PATCH 09/38] fix: subproblem1 returns zero for vectors along the
 axis

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 10cc087..23e07f0 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -697,6 +697,10 @@ def subproblem1(p, q, k):
     pp = np.subtract(p,np.dot(p, k)*k)
     qp = np.subtract(q,np.dot(q, k)*k)
     
+    # vectors along the axis are not moved by the rotation
+    if norm(pp) < np.sqrt(eps)*norm(p) or norm(qp) < np.sqrt(eps)*norm(q):
+        return 0.0
+    
     epp = np.divide(pp, norm(pp))    
     eqp = np.divide(qp, norm(qp))
     
-- 
2.43.0


From 922fc9efdb022516db582d962baeca836e40a41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:58 +0000
Subject: [PATCH 10/38] fix: subproblem2 finds the solution of cones that touch
 up to rounding

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 23e07f0..79cd5a1 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -753,7 +753,7 @@ def subproblem2(p, q, k1, k2):
     a = np.matmul([[k12, -1], [-1, k12]],[pk, qk]) / (k12**2 - 1)
     
     bb = (np.dot(p,p) - np.dot(a,a) - 2*a[0]*a[1]*k12)
-    if (np.abs(bb) < eps): bb=0
+    if (np.abs(bb) < 1e-12*np.dot(p,p)): bb=0
     
     if (bb < 0):
         warnings.warn("No solution - no intersection found between cones")
-- 
2.43.0


From c8a253d52e66524f3a13b239ee77f10cde753800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:24 +0000
Subject: [PATCH 11/38] fix: bring inverse kinematics angles into the joint
 limits by any number of turns

---
 .../general_robotics_toolbox_invkin.py              | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 8606696..8be4abd 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -58,12 +58,13 @@ class normalize_joints(object):
             u = self._upper_limit[joint]
             
             if not (l < theta and theta < u ):
-                a = 2*np.pi*np.array([-1,1])
-                b = a + theta
-                c = np.argwhere(np.logical_and(l < b,  b < u))
-                if len(c) == 0:
-                    return None                
-                theta += (a[c[0]]).item()
+                if theta <= l:
+                    n_turns = np.floor_divide(l - theta, 2*np.pi) + 1
+                else:
+                    n_turns = -np.floor_divide(theta - u, 2*np.pi) - 1
+                theta = theta + 2*np.pi*n_turns
+                if not (l < theta and theta < u ):
+                    return None
         
         if self._use_last_joints:
             diff = self._last_joints[joint] - theta                               
-- 
2.43.0


From 615a87b2fe1474982874204dc55ea677e04a2878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:24 +0000
Subject: [PATCH 12/38] fix: robot6_sphericalwrist_invkin does not modify the
 robot

---
 src/general_robotics_toolbox/general_robotics_toolbox_invkin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 8be4abd..4be16e5 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -144,7 +144,7 @@ def robot6_sphericalwrist_invkin(robot, desired_pose, last_joints = None):
     p0T = desired_pose2.p
     
     H = robot.H
-    P = robot.P
+    P = np.array(robot.P)
     
     theta_v = []
     
-- 
2.43.0


From aa96b302dfb2bb3461db06ba1d9961deb8f1e61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:24 +0000
Subject: [PATCH 13/38] fix: inverse kinematics with last_joints returns an
 empty list when there is no solution

---
 .../general_robotics_toolbox_invkin.py                      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 4be16e5..30dca1c 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -221,7 +221,7 @@ def robot6_sphericalwrist_invkin(robot, desired_pose, last_joints = None):
                 q6 = q6[0]
                 
                 theta_v.append(np.array([q1, q2, q3, q4, q5, q6]))                        
-    if last_joints is not None:
+    if last_joints is not None and len(theta_v) > 0:
         theta_dist = np.linalg.norm(np.subtract(theta_v,last_joints), axis=1)
         return [theta_v[i] for i in list(np.argsort(theta_dist))]
     else:
@@ -320,7 +320,7 @@ def ur_invkin(robot, desired_pose, last_joints = None):
                 
                 theta_v.append(np.array([q1, q2, q3, q4, q5, q6]))   
 
-    if last_joints is not None:
+    if last_joints is not None and len(theta_v) > 0:
         theta_dist = np.linalg.norm(np.subtract(theta_v,last_joints), axis=1)
         return [theta_v[i] for i in list(np.argsort(theta_dist))]
     else:
@@ -385,7 +385,7 @@ def equivalent_configurations(robot, theta_v, last_joints = None):
                 continue
         theta_ret.append(eq_theta)
     
-    if last_joints is not None:
+    if last_joints is not None and len(theta_ret) > 0:
         theta_dist = np.linalg.norm(np.subtract(theta_ret,last_joints), axis=1)
         return [theta_ret[i] for i in list(np.argsort(theta_dist))]
     else:
-- 
2.43.0


From 7af612be72084c0545fe4b65394b7df8576c6bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:24 +0000
Subject: [PATCH 14/38] fix: ur_invkin applies joint limits and last_joints to
 joint 5

---
 .../general_robotics_toolbox_invkin.py                       | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 30dca1c..22898a3 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -279,6 +279,11 @@ def ur_invkin(robot, desired_pose, last_joints = None):
         Q24_Q5 = rox.subproblem2(p4, v4, H[:,3], H[:,4])
 
         for q24, q5 in Q24_Q5:
+            q5 = normalize(4, [q5])
+            if len(q5) == 0:
+                continue
+            q5 = q5[0]
+
             R04 = np.matmul(rox.rot(H[:,0],q1),rox.rot(H[:,3],q24))
             
             p23p = p04 - P[:,0] - np.matmul(R01,P[:,1]) - np.matmul(R04,P[:,4])
-- 
2.43.0


From aec2d97a4f9c22e401f02445b8ebea09e451176a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:24 +0000
Subject: [PATCH 15/38] fix: equivalent_configurations leaves out
 configurations already given

---
 .../general_robotics_toolbox_invkin.py                       | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 22898a3..c6e2a74 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -385,9 +385,8 @@ def equivalent_configurations(robot, theta_v, last_joints = None):
     theta_ret =[]
 
     for eq_theta in equiv_theta:
-        for theta1 in theta_v:
-            if np.allclose(theta1, eq_theta):
-                continue
+        if any(np.allclose(theta1, eq_theta) for theta1 in list(theta_v) + theta_ret):
+            continue
         theta_ret.append(eq_theta)
     
     if last_joints is not None and len(theta_ret) > 0:
-- 
2.43.0


From 53a6c9fe3a2821f0ac40dc51365d788d90a74f4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:24 +0000
Subject: [PATCH 16/38] fix: iterative_invkin works for one joint and for list
 and tuple seeds

---
 .../general_robotics_toolbox_invkin.py                      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index c6e2a74..b081eaa 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -431,10 +431,10 @@ def iterative_invkin(robot, desired_pose, q_current, max_steps = 200, Kp = 0.3*n
 
     num_joints = len(robot.joint_type)
 
-    normalize = normalize_joints(robot, q_current, _ignore_limits = True)
+    normalize = normalize_joints(robot, np.ravel(q_current), _ignore_limits = True)
     
     q_cur = d_q # initial guess on the current joint angles
-    q_cur = q_cur.reshape((num_joints,1)) 
+    q_cur = np.reshape(q_cur, (num_joints,1))
     
     # hist_b = []
     
@@ -496,6 +496,6 @@ def iterative_invkin(robot, desired_pose, q_current, max_steps = 200, Kp = 0.3*n
         itr += 1 # Increase the iteration
 
 
-    q_normed = normalize(np.arange(num_joints), [np.squeeze(q_cur)])
+    q_normed = normalize(np.arange(num_joints), [q_cur.flatten()])
     
     return converged, q_normed
\ No newline at end of file
-- 
2.43.0


From e7ef167f4b3da1aec0f810c5ba1e632f393f650d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:24 +0000
Subject: [PATCH 17/38] fix: iterative_invkin does not shift prismatic joints
 by full turns

---
 .../general_robotics_toolbox_invkin.py                     | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index b081eaa..c43c35f 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -49,10 +49,17 @@ class normalize_joints(object):
         self._check_limits = self._lower_limit is not None \
             and self._upper_limit is not None and not _ignore_limits
                   
+        self._joint_type = robot.joint_type
         self._last_joints = last_joints
         self._use_last_joints = last_joints is not None
             
     def normalize(self, joint, theta):
+        if self._joint_type[joint] not in (0, 2):
+            # Only rotary joints have equivalent full turns
+            if self._check_limits and not (self._lower_limit[joint] <= theta <= self._upper_limit[joint]):
+                return None
+            return theta
+
         if self._check_limits:
             l = self._lower_limit[joint]
             u = self._upper_limit[joint]
-- 
2.43.0


From cf7aa9723688feb3e14b242186b6f417dc74629b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:24 +0000
Subject: [PATCH 18/38] fix: equivalent_configurations accepts the tuples
 iterative_invkin returns

---
 src/general_robotics_toolbox/general_robotics_toolbox_invkin.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index c43c35f..448f4d2 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -359,6 +359,7 @@ def equivalent_configurations(robot, theta_v, last_joints = None):
     
     equiv_theta = []
     for theta1 in theta_v:
+        theta1 = np.array(theta1, dtype=np.float64)
         equiv_theta1 = []
         upper_div, _ = np.divmod(robot.joint_upper_limit - theta1, 2*np.pi)
         lower_div, _ = np.divmod(theta1 - robot.joint_lower_limit, 2*np.pi)
-- 
2.43.0


From df5fe6c4a5e91030c19586319aa6b98eb3d68c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:04 +0000
Subject: [PATCH 19/38] fix: URDF joints without an axis rotate about or move
 along x

---
 src/general_robotics_toolbox/urdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/urdf.py b/src/general_robotics_toolbox/urdf.py
index b5fa7b3..ea19ac6 100644
--- a/src/general_robotics_toolbox/urdf.py
+++ b/src/general_robotics_toolbox/urdf.py
@@ -136,7 +136,7 @@ def _robot_from_urdf_robot(urdf_robot, root_link = None, tip_link = None):
         if j.joint_type == 'fixed':
             pass            
         elif j.joint_type == 'revolute' or j.joint_type == 'prismatic':            
-            H[:,i] = np.matmul(R,j.axis)
+            H[:,i] = np.matmul(R,j.axis if j.axis is not None else [1,0,0])
             joint_type[i] = 0 if j.joint_type == 'revolute' else 1
             if j.limit is not None:
                 joint_lower_limit[i] = j.limit.lower
-- 
2.43.0


From e273bf57baf5d6019d1174e6db3d47c12190c00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:19 +0000
Subject: [PATCH 20/38] fix: robot info joints are those the chain refers to by
 number

---
 src/general_robotics_toolbox/robotraconteur.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/robotraconteur.py b/src/general_robotics_toolbox/robotraconteur.py
index 216b01b..5554379 100644
--- a/src/general_robotics_toolbox/robotraconteur.py
+++ b/src/general_robotics_toolbox/robotraconteur.py
@@ -122,7 +122,7 @@ def load_robot_info_yaml_to_robot(robot_info_file, chain_number=0):
     joint_names = [None]*joint_count
 
     for i in range(joint_count):
-        j = robot_yml["joint_info"][i]
+        j = robot_yml["joint_info"][chain["joint_numbers"][i]]
         if j["joint_type"] == "revolute":
             # Revolute joint
             joint_type[i] = 0
-- 
2.43.0


From 1203c396286fc7a49473661b5efa103c21206bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:19 +0000
Subject: [PATCH 21/38] fix: robot info joint numbers are bound checked for
 every joint

---
 src/general_robotics_toolbox/robotraconteur.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/general_robotics_toolbox/robotraconteur.py b/src/general_robotics_toolbox/robotraconteur.py
index 5554379..8f9eace 100644
--- a/src/general_robotics_toolbox/robotraconteur.py
+++ b/src/general_robotics_toolbox/robotraconteur.py
@@ -92,12 +92,12 @@ def load_robot_info_yaml_to_robot(robot_info_file, chain_number=0):
 
     chain = robot_yml["chains"][chain_number]
     joint_count = len(chain["joint_numbers"])
-    for i in range(1, joint_count):
-        if chain["joint_numbers"][i-1] >= chain["joint_numbers"][i]:
+    for i in range(joint_count):
+        if i > 0 and chain["joint_numbers"][i-1] >= chain["joint_numbers"][i]:
             raise ValueError(
                 "joint numbers must be increasing in chain number " + str(chain_number))
 
-        if chain["joint_numbers"][i] >= len(robot_yml["joint_info"]):
+        if not (0 <= chain["joint_numbers"][i] < len(robot_yml["joint_info"])):
             raise ValueError(
                 "joint number out of bounds in chain number " + str(chain_number))
 
-- 
2.43.0


From 60fd304dd741fe3c5ddf6f1248a06985b52581c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:19 +0000
Subject: [PATCH 22/38] fix: negative robot info chain numbers are refused

---
 src/general_robotics_toolbox/robotraconteur.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/robotraconteur.py b/src/general_robotics_toolbox/robotraconteur.py
index 8f9eace..27a91e7 100644
--- a/src/general_robotics_toolbox/robotraconteur.py
+++ b/src/general_robotics_toolbox/robotraconteur.py
@@ -87,7 +87,7 @@ def load_robot_info_yaml_to_robot(robot_info_file, chain_number=0):
         robot_yml = yaml.safe_load(robot_info_file)
     _check_list(
         robot_yml["chains"], "could not find kinematic chain number " + str(chain_number))
-    if chain_number >= len(robot_yml["chains"]):
+    if not (0 <= chain_number < len(robot_yml["chains"])):
         raise ValueError("invalid kinematic chain number " + str(chain_number))
 
     chain = robot_yml["chains"][chain_number]
-- 
2.43.0


From 268a50735be4b29488408af1c73d8b4ecd33f025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:08 +0000
Subject: [PATCH 23/38] fix: OPW parameters of an upright robot require an
 upright flange

---
 src/general_robotics_toolbox/tesseract.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index 6725650..3e7dfe4 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -635,7 +635,6 @@ def robot_to_opw_inv_kin_parameters(robot):
     ez = np.array([0.,0.,1.])
 
     assert robot.T_flange
-    assert np.allclose(robot.T_flange.R, rox.rot([0,1,0], np.pi/2.0))
     assert np.allclose(robot.T_flange.p.flatten(), np.array([0.,0.,0.]))
 
     assert len(robot.joint_type) == 6
@@ -655,6 +654,12 @@ def robot_to_opw_inv_kin_parameters(robot):
     assert axis_sign(robot.H[:,3], robot.H[:,5]) != 0
     assert axis_sign(robot.H[:,5], ez) != 0 or axis_sign(robot.H[:,5], ex) != 0
 
+    # The flange z axis points along the last axis, away from the wrist
+    if axis_sign(robot.H[:,5], ex) != 0:
+        assert np.allclose(robot.T_flange.R, rox.rot([0,1,0], np.pi/2.0))
+    else:
+        assert np.allclose(robot.T_flange.R, np.eye(3))
+
     H2 = np.copy(robot.H)
     P2 = np.copy(robot.P)
 
-- 
2.43.0


From 8cbc12cbf78a2b5c3dd99be3e54d6c3d0cf180a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:08 +0000
Subject: [PATCH 24/38] fix: OPW and UR parameters are refused for prismatic
 joints

---
 src/general_robotics_toolbox/tesseract.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index 3e7dfe4..af3447b 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -638,6 +638,7 @@ def robot_to_opw_inv_kin_parameters(robot):
     assert np.allclose(robot.T_flange.p.flatten(), np.array([0.,0.,0.]))
 
     assert len(robot.joint_type) == 6
+    assert np.all(np.asarray(robot.joint_type) == 0)
 
     def axis_sign(_h, _e):
         if np.allclose(_h, _e):
@@ -978,6 +979,8 @@ def robot_to_ur_inv_kin_parameters(robot):
     ey = np.array([0.,1.,0.])
     ez = np.array([0.,0.,1.])
 
+    assert np.all(np.asarray(robot.joint_type) == 0)
+
     assert robot.T_flange
     assert np.allclose(robot.T_flange.R, np.array([ex, ez, -ey]).T, atol=1e-6)
     assert np.allclose(robot.T_flange.p.flatten(), np.array([0.,0.,0.]))
-- 
2.43.0


From d24207ae8e70031f74c3620e893b3edcf10cd965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:08 +0000
Subject: [PATCH 25/38] fix: UR parameters are extracted from robots aligned
 with +x

---
 src/general_robotics_toolbox/tesseract.py | 26 +++++++++++------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index af3447b..57983fa 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -981,24 +981,24 @@ def robot_to_ur_inv_kin_parameters(robot):
 
     assert np.all(np.asarray(robot.joint_type) == 0)
 
-    assert robot.T_flange
-    assert np.allclose(robot.T_flange.R, np.array([ex, ez, -ey]).T, atol=1e-6)
-    assert np.allclose(robot.T_flange.p.flatten(), np.array([0.,0.,0.]))
+    minus_x = np.allclose(robot.H, np.array([ez,-ey,-ey,-ey,-ez,-ey]).T)
+    plus_x = np.allclose(robot.H, np.array([ez,ey,ey,ey,-ez,ey]).T)
 
-    assert robot.T_base
-    assert np.allclose(robot.T_base.R, rox.rot([0,0,1], np.pi), atol=1e-6)
-    assert np.allclose(robot.T_base.p.flatten(), np.array([0.,0.,0.]))
+    assert minus_x or plus_x
 
-    minus_x = np.allclose(robot.H, np.array([ez,-ey,-ey,-ey,-ez,-ey]).T)
-    plus_x = np.allclose(robot.H, -np.array([ez,-ey,-ey,-ey,-ez,-ey]).T)
+    # Rotation between the frame of the DH parameters and the base of the robot
+    R = rox.rot(ez,np.pi) if plus_x else np.eye(3)
 
-    P2 = robot.P
+    assert robot.T_flange
+    assert np.allclose(robot.T_flange.R, np.matmul(R, np.array([ex, ez, -ey]).T), atol=1e-6)
+    assert np.allclose(robot.T_flange.p.flatten(), np.array([0.,0.,0.]))
 
-    assert minus_x or plus_x
+    # The solver base is rotated by 180 degrees from the frame of the DH parameters
+    T_base = robot.T_base if robot.T_base else rox.Transform(np.eye(3), np.zeros((3,)))
+    assert np.allclose(T_base.R, np.matmul(R, rox.rot([0,0,1], np.pi)), atol=1e-6)
+    assert np.allclose(T_base.p.flatten(), np.array([0.,0.,0.]))
 
-    if plus_x:
-        R = rox.rot(ez,np.pi)
-        P2 = np.matmul(R, P2)
+    P2 = np.matmul(R, robot.P)
 
     assert np.allclose(P2[0:2,0], 0.0)
     d1 = P2[2,0].item()
-- 
2.43.0


From 7e83b36c2632d4d8c62cb8cecedf02d3f60025d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:08 +0000
Subject: [PATCH 26/38] fix: UR parameter d6 includes the offset of the tip

---
 src/general_robotics_toolbox/tesseract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index 57983fa..919c9de 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -1012,7 +1012,7 @@ def robot_to_ur_inv_kin_parameters(robot):
     d5 = -np.sum(P2[2,4:5]).item()
     assert np.allclose(P2[2,5:], 0.0)
     assert np.allclose(P2[0,5:], 0.0)
-    d6 = -np.sum(P2[1,5:6]).item()
+    d6 = -np.sum(P2[1,5:7]).item()
 
     ret = URInvKinParameters(d1,a2,a3,d4,d5,d6)
 
-- 
2.43.0


From 385d611d48775d73de1c59f2e95e5687ffa93ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:08 +0000
Subject: [PATCH 27/38] fix: the UR solver solves for the flange of robots with
 a tool

---
 src/general_robotics_toolbox/tesseract.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index 919c9de..a3d3165 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -543,7 +543,7 @@ def kinematics_plugin_info_dict(robot, robot_name, link_names, joint_names, chai
         elif invkin_solver == "URInvKin":
             ur_params = robot_to_ur_inv_kin_parameters(robot)
             invkin_plugin_info, invkin_libs = kinematics_plugin_invkin_ur_plugin_info_dict(robot_name, base_link,
-                tip_link, ur_params)
+                robot_name + "_flange", ur_params)
         else:
             assert False, "Unknown inverse kinematics solver"
 
-- 
2.43.0


From 2d077edaec44dc87be9bea8525b08fbcb5506b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:23 +0000
Subject: [PATCH 28/38] fix: closed-form solvers ignored an offset of joint 1
 across its axis

---
 .../general_robotics_toolbox_invkin.py                      | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 448f4d2..a2e5f7e 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -148,7 +148,7 @@ def robot6_sphericalwrist_invkin(robot, desired_pose, last_joints = None):
     desired_pose2 = rox.unapply_robot_aux_transforms(robot, desired_pose)
 
     R06 = desired_pose2.R
-    p0T = desired_pose2.p
+    p0T = desired_pose2.p - robot.P[:,0]
     
     H = robot.H
     P = np.array(robot.P)
@@ -180,7 +180,7 @@ def robot6_sphericalwrist_invkin(robot, desired_pose, last_joints = None):
                 
         R01=rox.rot(H[:,0], q1)
         
-        p26_q1 = R01.T.dot(p0T - R06.dot(P[:,6])) - (P[:,0] + P[:,1])
+        p26_q1 = R01.T.dot(p0T - R06.dot(P[:,6])) - P[:,1]
         
         d3 = np.linalg.norm(p26_q1)
         v3 = P[:,2]        
@@ -268,7 +268,7 @@ def ur_invkin(robot, desired_pose, last_joints = None):
 
     d1 = np.dot(ey, P[:,1] + P[:,2] + P[:,3] + P[:,4])
     p04 = p0T - np.matmul(R06,P[:,6] + P[:,5])
-    v1 = p04
+    v1 = p04 - P[:,0]
     p1 = ey
     
     Q1 = rox.subproblem4(p1, v1, -H[:,0], d1)
-- 
2.43.0


From b9ede128c12327cb03761469673863e713853d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:23 +0000
Subject: [PATCH 29/38] fix: spherical wrist solver assumed joint 2 turns about
 y

---
 .../general_robotics_toolbox_invkin.py                      | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index a2e5f7e..05d8662 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -155,6 +155,8 @@ def robot6_sphericalwrist_invkin(robot, desired_pose, last_joints = None):
     
     theta_v = []
     
+    assert np.allclose(np.cross(H[:,1], H[:,2]), 0), "Joints 2 and 3 must be parallel"
+    
     #Correct for spherical joint position vectors
     if not np.all(P[:,4] == 0):
         P4_d = P[:,4].dot(H[:,3])
@@ -168,9 +170,9 @@ def robot6_sphericalwrist_invkin(robot, desired_pose, last_joints = None):
         P[:,6] += P[:,5]
         P[:,5] = np.zeros(3)       
     
-    d1 = np.dot(ey, P[:,1] + P[:,2] + P[:,3])
+    d1 = np.dot(H[:,1], P[:,1] + P[:,2] + P[:,3])
     v1 = p0T - R06.dot(P[:,6])    
-    p1 = ey
+    p1 = H[:,1]
     
     Q1 = rox.subproblem4(p1, v1, -H[:,0], d1)
     
-- 
2.43.0


From 2939ffd945cc0091e5149739ba52b47e9435943c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:23 +0000
Subject: [PATCH 30/38] fix: spherical wrist offsets were only accepted when
 exact to the last bit

---
 .../general_robotics_toolbox_invkin.py                        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 05d8662..181cdc7 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -160,13 +160,13 @@ def robot6_sphericalwrist_invkin(robot, desired_pose, last_joints = None):
     #Correct for spherical joint position vectors
     if not np.all(P[:,4] == 0):
         P4_d = P[:,4].dot(H[:,3])
-        assert np.all(P[:,4] - P4_d*H[:,3] == 0)
+        assert np.allclose(P[:,4], P4_d*H[:,3])
         P[:,3] += P[:,4]
         P[:,4] = np.zeros(3)
             
     if not np.all(P[:,5] == 0):
         P5_d = P[:,5].dot(H[:,5])
-        assert np.all(P[:,5] - P5_d*H[:,5] == 0)
+        assert np.allclose(P[:,5], P5_d*H[:,5])
         P[:,6] += P[:,5]
         P[:,5] = np.zeros(3)       
     
-- 
2.43.0


From 996a68b4eec05f0844544ae9b906725f9f3f433f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:23 +0000
Subject: [PATCH 31/38] fix: UR solver gave wrong solutions for an offset
 across joint 6

---
 .../general_robotics_toolbox_invkin.py                      | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index 181cdc7..e73e98e 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -266,6 +266,12 @@ def ur_invkin(robot, desired_pose, last_joints = None):
            np.allclose((np.array([ez,ey,ey,ey,-ez,ey]).T), H), \
            "Invalid UR robot format"
     
+    # An offset along joint 5 before joint 6 is the same before joint 5
+    P = np.array(P)
+    P[2,4] += P[2,5]
+    P[2,5] = 0
+    assert np.isclose(P[0,5], 0), "Invalid UR robot format"
+
     theta_v = []
 
     d1 = np.dot(ey, P[:,1] + P[:,2] + P[:,3] + P[:,4])
-- 
2.43.0


From 5d753e6a8afea4343450114923b000b9746b2321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:36 +0000
Subject: [PATCH 32/38] fix: closed-form solvers: no empty answer for a
 reachable pose because last_joints pruned the wrong branches

---
 .../general_robotics_toolbox_invkin.py                      | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
index e73e98e..7f2876b 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox_invkin.py
@@ -230,6 +230,9 @@ def robot6_sphericalwrist_invkin(robot, desired_pose, last_joints = None):
                 q6 = q6[0]
                 
                 theta_v.append(np.array([q1, q2, q3, q4, q5, q6]))                        
+    if last_joints is not None and len(theta_v) == 0:
+        # The branches selected by last_joints do not reach the pose, use the other ones
+        theta_v = [np.array(q) for q in normalize(range(6), robot6_sphericalwrist_invkin(robot, desired_pose))]
     if last_joints is not None and len(theta_v) > 0:
         theta_dist = np.linalg.norm(np.subtract(theta_v,last_joints), axis=1)
         return [theta_v[i] for i in list(np.argsort(theta_dist))]
@@ -340,6 +343,9 @@ def ur_invkin(robot, desired_pose, last_joints = None):
                 
                 theta_v.append(np.array([q1, q2, q3, q4, q5, q6]))   
 
+    if last_joints is not None and len(theta_v) == 0:
+        # The branches selected by last_joints do not reach the pose, use the other ones
+        theta_v = [np.array(q) for q in normalize(range(6), ur_invkin(robot, desired_pose))]
     if last_joints is not None and len(theta_v) > 0:
         theta_dist = np.linalg.norm(np.subtract(theta_v,last_joints), axis=1)
         return [theta_v[i] for i in list(np.argsort(theta_dist))]
-- 
2.43.0


From 74215b7591f2197ff4d20be228738d794360d598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:07:17 +0000
Subject: [PATCH 33/38] fix: a null joint limit in a robot info file was loaded
 as NaN instead of being refused

---
 src/general_robotics_toolbox/robotraconteur.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/general_robotics_toolbox/robotraconteur.py b/src/general_robotics_toolbox/robotraconteur.py
index 27a91e7..64f5e0f 100644
--- a/src/general_robotics_toolbox/robotraconteur.py
+++ b/src/general_robotics_toolbox/robotraconteur.py
@@ -134,6 +134,9 @@ def load_robot_info_yaml_to_robot(robot_info_file, chain_number=0):
 
         if j["joint_limits"] is None:
             raise ValueError("joint_limits must not be null")
+        for limit in ("lower", "upper", "velocity", "acceleration"):
+            if j["joint_limits"][limit] is None:
+                raise ValueError("joint limit must not be null: " + limit)
         joint_lower_limit[i] = j["joint_limits"]["lower"]
         joint_upper_limit[i] = j["joint_limits"]["upper"]
         joint_vel_limit[i] = j["joint_limits"]["velocity"]
-- 
2.43.0


From 32229a50dd220b8e9d1c27f836fd9237dc5d1f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:35 +0000
Subject: [PATCH 34/38] fix: OPW parameters of a robot with whole-number
 offsets were truncated to whole numbers

---
 src/general_robotics_toolbox/tesseract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index a3d3165..be8473f 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -661,8 +661,8 @@ def robot_to_opw_inv_kin_parameters(robot):
     else:
         assert np.allclose(robot.T_flange.R, np.eye(3))
 
-    H2 = np.copy(robot.H)
-    P2 = np.copy(robot.P)
+    H2 = np.array(robot.H, dtype=np.float64)
+    P2 = np.array(robot.P, dtype=np.float64)
 
     offset = np.zeros((6,))
     
-- 
2.43.0


From c676d657697b60f72d423909badbfd239301a182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:47 +0000
Subject: [PATCH 35/38] fix: transforms and robots of whole numbers could not
 be converted to Tesseract

---
 src/general_robotics_toolbox/tesseract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index be8473f..7e133cc 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -101,7 +101,7 @@ def transform_to_isometry3d(T):
     :return : The converted transform
     """
     # TODO: Use better Isometry3d constructor
-    return Translation3d(T.p) * AngleAxisd(T.R)
+    return Translation3d(np.asarray(T.p, dtype=np.float64)) * AngleAxisd(np.asarray(T.R, dtype=np.float64))
 
 def isometry3d_to_transform(eig_iso):
     """
@@ -159,7 +159,7 @@ def get_link_and_joint(h, p, joint_type, joint_lower_limit, joint_upper_limit, j
     else:
         assert False, "Unsupported Tesseract joint type: " + str(joint.type)
     joint.parent_to_joint_origin_transform = transform_to_isometry3d(rox.Transform(np.eye(3), p))
-    joint.axis = h
+    joint.axis = np.asarray(h, dtype=np.float64)
     joint.parent_link_name = parent_link_name
     joint.child_link_name = link_name
     joint.limits = JointLimits(joint_lower_limit, joint_upper_limit, joint_effort_limit,
-- 
2.43.0


From e544944ddc032686b696df454e7aa9c74755bb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:57 +0000
Subject: [PATCH 36/38] fix: a robot with joint limits in arrays of whole
 numbers could not be converted to Tesseract

---
 src/general_robotics_toolbox/tesseract.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/general_robotics_toolbox/tesseract.py b/src/general_robotics_toolbox/tesseract.py
index 7e133cc..3a24dae 100644
--- a/src/general_robotics_toolbox/tesseract.py
+++ b/src/general_robotics_toolbox/tesseract.py
@@ -162,8 +162,8 @@ def get_link_and_joint(h, p, joint_type, joint_lower_limit, joint_upper_limit, j
     joint.axis = np.asarray(h, dtype=np.float64)
     joint.parent_link_name = parent_link_name
     joint.child_link_name = link_name
-    joint.limits = JointLimits(joint_lower_limit, joint_upper_limit, joint_effort_limit,
-         joint_vel_limit, joint_acc_limit)
+    joint.limits = JointLimits(float(joint_lower_limit), float(joint_upper_limit), float(joint_effort_limit),
+         float(joint_vel_limit), float(joint_acc_limit))
     return link,joint
 
 def get_fixed_link_and_joint(T, link_name, joint_name, parent_link_name):
-- 
2.43.0


From 1154296f8fd8c65e80e7351929828c08dafd3e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:38:47 +0000
Subject: [PATCH 37/38] fix: robotjacobian applied a tool offset without a tool
 rotation, which fwdkin ignores

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 79cd5a1..47f9aa5 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -603,7 +603,7 @@ def robotjacobian(robot, theta, _ignore_limits = False):
 
     if robot.T_flange is not None:
         pOT += np.matmul(R,np.reshape(robot.T_flange.p,(3,1)))
-    if robot.p_tool is not None:
+    if robot.R_tool is not None and robot.p_tool is not None:
         pOT += np.matmul(np.matmul(R,R_flange),np.reshape(robot.p_tool,(3,1)))
     
     J = np.zeros([6,len(joint_type)])
-- 
2.43.0


From d28a5b978586ca37d1d982464a43fef738d27460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:34 +0000
Subject: [PATCH 38/38] fix: subproblem1 failed on vectors almost along the
 axis

---
 src/general_robotics_toolbox/general_robotics_toolbox.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/general_robotics_toolbox/general_robotics_toolbox.py b/src/general_robotics_toolbox/general_robotics_toolbox.py
index 47f9aa5..3ba629c 100644
--- a/src/general_robotics_toolbox/general_robotics_toolbox.py
+++ b/src/general_robotics_toolbox/general_robotics_toolbox.py
@@ -697,6 +697,10 @@ def subproblem1(p, q, k):
     pp = np.subtract(p,np.dot(p, k)*k)
     qp = np.subtract(q,np.dot(q, k)*k)
     
+    # remove what rounding leaves along the axis when p and q are close to it
+    pp = np.subtract(pp,np.dot(pp, k)*k)
+    qp = np.subtract(qp,np.dot(qp, k)*k)
+    
     # vectors along the axis are not moved by the rotation
     if norm(pp) < np.sqrt(eps)*norm(p) or norm(qp) < np.sqrt(eps)*norm(q):
         return 0.0
-- 
2.43.0

