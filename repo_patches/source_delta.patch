From 549f5b89ab6b93561efc7fed476757d01db2524d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:21 +0000
Subject: [PATCH 01/35] fix: inverse twist of a rigid motion uses the adjoint,
 not its inverse

itwist is the twist of r relative to n expressed in r, -Ad_rn T_nr. Using
Ad_nr gave a wrong idadjoint, hence wrong body djacobian and Coriolis terms
for every joint whose adjoint does not leave its twist invariant (FreeJoint,
RzRyRx, RzRy, RzRx, RyRx).
---
 arboris/rigidmotion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/rigidmotion.py b/arboris/rigidmotion.py
index 48926cc..c76d905 100644
--- a/arboris/rigidmotion.py
+++ b/arboris/rigidmotion.py
@@ -46,7 +46,7 @@ class RigidMotion(object):
 
     @property
     def itwist(self):
-        return -dot(self.iadjoint, self.twist)
+        return -dot(self.adjoint, self.twist)
 
     @property
     def adjoint(self):
-- 
2.43.0


From 6c74def46081b2eed9934d96ba103cbe94fe5bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 02/35] fix: PD controller accepts joints of different
 dimensions

---
 arboris/controllers.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/arboris/controllers.py b/arboris/controllers.py
index 11bcbcd..05c5eec 100644
--- a/arboris/controllers.py
+++ b/arboris/controllers.py
@@ -173,12 +173,9 @@ class ProportionalDerivativeController(Controller):
         impedance = zeros((self._wndof, self._wndof))
 
         gpos = []
-        gvel = []
         for j in self.joints:
-            gpos.append(j.gpos)
-            gvel.append(j.gvel)
+            gpos.extend(j.gpos)
         gpos = array(gpos).reshape(self._cndof)
-        gvel = array(gvel).reshape(self._cndof)
         gforce[self._dof_map] = \
                 dot(self.kp, self.gpos_des - gpos) + \
                 dot(self.kd, self.gvel_des)
-- 
2.43.0


From 8488e80c093c1112eac9539901c1369e96b2395b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:22 +0000
Subject: [PATCH 03/35] fix: joint positions and velocities given as integers
 can be integrated

---
 arboris/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/core.py b/arboris/core.py
index 3417700..c6940b1 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -279,11 +279,11 @@ class LinearConfigurationSpaceJoint(Joint):
         if gpos is None:
             self.gpos = zeros(self.ndof)
         else:
-            self.gpos = array(gpos).reshape((self.ndof))
+            self.gpos = array(gpos, dtype=float).reshape((self.ndof))
         if gvel is None:
             self.gvel = zeros(self.ndof)
         else:
-            self.gvel = array(gvel).reshape((self.ndof))
+            self.gvel = array(gvel, dtype=float).reshape((self.ndof))
 
     def integrate(self, gvel, dt):
         self.gvel = gvel
-- 
2.43.0


From 259cc70af8eca332d7982570295051069b9b458b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 04/35] fix: subframes no longer share their offset with the
 caller's array

---
 arboris/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/arboris/core.py b/arboris/core.py
index c6940b1..e13027d 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -1113,7 +1113,8 @@ class _SubFrame(NamedObject, Frame):
             bpose = eye(4)
 
         assert Hg.ishomogeneousmatrix(bpose)
-        self._bpose = bpose
+        # keep a private copy: the caller's array may be changed or shared
+        self._bpose = array(bpose, dtype=float)
         if not(isinstance(body, Body)):
             raise ValueError(
             "The ``body`` argument must be an instance of the ``Boby`` class")
-- 
2.43.0


From f5e10f8892a68a9d83e573ba93745aae4b7fd279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:10 +0000
Subject: [PATCH 05/35] fix: limits of a joint with several dofs are enforced
 on each dof

---
 arboris/constraints.py | 38 ++++++++++++++++++++------------------
 1 file changed, 20 insertions(+), 18 deletions(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index eacbe42..542a6b5 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -72,25 +72,27 @@ class JointLimits(Constraint):
                (self._max-self._pos0<self._proximity).any()
 
     def solve(self, vel, admittance, dt):
-        pred = self._pos0 + dt*(vel - dot(admittance, self._force))
         prev_force = self._force.copy()
-        # pos = self._pos0 + dt*(vel + admittance*dforce)
-        if (pred <= self._min).any():
-            # the min limit is violated, we want pos == min
-            self._force = dot(pinv(admittance), (self._min - pred)/dt)
-            self._force = self._force.clip(min=0)
-            dforce = self._force - prev_force
-        elif (self._max <= pred).any():
-            #the max limit is violated, we want pos == max
-            self._force = dot(pinv(admittance), (self._max - pred)/dt)
-            self._force = self._force.clip(max=0)
-            dforce = self._force - prev_force
-        else:
-            # the joint is within its limits, we ensure the
-            # generalized force is zero
-            dforce = -self._force
-            self._force[:] = 0.
-        return dforce
+        vel = vel.copy()
+        # Each dof has its own pair of limits: handle them one after the other
+        # while taking into account the effect of the previous ones.
+        for i in arange(self._joint.ndof):
+            y = admittance[i, i]
+            pred = self._pos0[i] + dt*(vel[i] - y*self._force[i])
+            # pos = pred + dt*y*force
+            force = 0.
+            if y != 0.:
+                if pred <= self._min[i]:
+                    # the min limit is violated, we want pos == min
+                    force = max((self._min[i] - pred)/(dt*y), 0.)
+                elif self._max[i] <= pred:
+                    # the max limit is violated, we want pos == max
+                    force = min((self._max[i] - pred)/(dt*y), 0.)
+                # otherwise the joint is within its limits, we ensure the
+                # generalized force is zero
+            vel += admittance[:, i]*(force - self._force[i])
+            self._force[i] = force
+        return self._force - prev_force
 
 class BallAndSocketConstraint(Constraint):
     r""" Create a ball and socket joint constraint between two frames.
-- 
2.43.0


From c8063697c354dea9aed067fa91b4a075ac1c40d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:08 +0000
Subject: [PATCH 06/35] fix: sliding friction of soft-finger contacts solves
 the documented law and never pulls

The matrix products of the sliding case were inner products instead of
outer ones and had a sign error, so that the force left the friction cone;
the static case accepted adhesive normal forces; and a frictionless contact
or one which cannot move along its normal crashed the solver.
---
 arboris/constraints.py | 51 ++++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 22 deletions(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index 542a6b5..5b3ee4b 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -6,8 +6,8 @@
 
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
-from numpy        import array, zeros, eye, dot, diag, logical_and, arange
-from numpy.linalg import solve, eigvals, pinv
+from numpy        import array, zeros, eye, dot, diag, outer, logical_and, arange
+from numpy.linalg import solve, eigvals, norm, pinv
 import arboris.homogeneousmatrix as Hg
 from   arboris.core       import MovingSubFrame, Constraint, Shape, World
 from   arboris.joints     import LinearConfigurationSpaceJoint
@@ -755,7 +755,7 @@ class SoftFingerContact(PointContact):
                 0 & 0 & 0 & 0 & 0 & e_y^2
             \end{bmatrix}
             \begin{bmatrix}
-                Y_t - Y_c\;Y_c\tp/y_n + 2 \frac{\beta b\tp}{a}
+                Y_t - Y_c\;Y_c\tp/y_n - 2 \frac{\beta b\tp}{a}
                     & -\frac{\beta \beta\tp}{a^2} \\
                 b b\tp -
                 \begin{bmatrix}
@@ -786,8 +786,10 @@ class SoftFingerContact(PointContact):
 
         """
         vel_no_force = vel - dot(admittance, self._force)
-        if self._sdist + dt*vel_no_force[3] > 0:
-            # if there is no contact, the contact force should be 0
+        if self._sdist + dt*vel_no_force[3] > 0 or \
+           admittance[3, 3] <= 1e-15*max(diag(admittance)):
+            # if there is no contact (or if no force could change the
+            # distance), the contact force should be 0
             dforce = -self._force
             self._force[:] = 0.
             return dforce
@@ -805,7 +807,8 @@ class SoftFingerContact(PointContact):
             dforce = dot(-pinv(admittance), zero_tan_vel)
             force = self._force + dforce
 
-            if sum((force[0:3]/self._eps)**2) <= (force[3]*self._mu)**2:
+            if force[3] >= 0. and \
+               sum((force[0:3]/self._eps)**2) <= (force[3]*self._mu)**2:
                 # the elliptic dry friction law is respected.
                 self._force = force
                 return dforce
@@ -816,27 +819,31 @@ class SoftFingerContact(PointContact):
                 alpha = vel - dot(admittance, self._force)
                 alpha[3] += self._sdist/dt
                 Y_c = admittance[0:3, 3]
+                Y_r = admittance[3, 0:3] # same as Y_c if Y is symmetric
                 y_n = admittance[3, 3]
                 Y_t = admittance[0:3, 0:3]
                 beta = alpha[0:3] - alpha[3]/y_n*Y_c
                 a = self._mu/y_n * alpha[3]
-                b = self._mu/y_n * Y_c
-                B = zeros((6, 6))
-                E = diag(self._eps**2)
-                Y_that = Y_t - dot(Y_c, Y_c.T)/y_n
-                B[3:6, 3:6] = dot(E, Y_that)
-                B[0:3, 0:3] = dot(E, Y_that + 2/a*dot(beta, b.T))
-                B[0:3, 3:6] = -dot(E, dot(beta, beta.T)/(a**2))
-                B[3:6, 0:3] = dot(E, dot(b, b.T)) - eye(3)
-
-                # s is the real part of the eigenvalue with the smallest
-                # imaginary par within those with a positive real part
-                S = eigvals(B)
-                S = S[logical_and(S.imag == 0, S.real <= 0)]
-                if len(S)==0:
-                    s = -1e10 #TODO: log when len(S)==0
+                b = self._mu/y_n * Y_r
+                if abs(a) <= 1e-10*norm(beta):
+                    # (nearly) no friction
+                    s = -1e10
                 else:
-                    s = max(min(S), -1e10) #TODO: log when |s|>=1e10
+                    B = zeros((6, 6))
+                    E = diag(self._eps**2)
+                    Y_that = Y_t - outer(Y_c, Y_r)/y_n
+                    B[3:6, 3:6] = dot(E, Y_that.T)
+                    B[0:3, 0:3] = dot(E, Y_that - 2/a*outer(beta, b))
+                    B[0:3, 3:6] = -dot(E, outer(beta, beta)/(a**2))
+                    B[3:6, 0:3] = dot(E, outer(b, b)) - eye(3)
+
+                    # s is the smallest negative real eigenvalue
+                    S = eigvals(B)
+                    S = S[logical_and(S.imag == 0, S.real <= 0)].real
+                    if len(S)==0:
+                        s = -1e10 #TODO: log when len(S)==0
+                    else:
+                        s = max(min(S), -1e10) #TODO: log when |s|>=1e10
                 prev_force = self._force.copy()
                 A = admittance.copy()
                 A[0:3, 0:3] -= s*diag(self._eps**-2)
-- 
2.43.0


From 88e9fd74c07f4dc8933c6b40570df20ec07d0307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:19 +0000
Subject: [PATCH 07/35] fix: contact frames of tilted planes and of boxes
 containing the sphere center

The normals were left in the shape's frame instead of the ground's, the contact
point of a sphere sinking in a plane was on its wrong side, and planes whose
normalized normal is not exactly unit were refused by an assertion.
---
 arboris/collisions.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/arboris/collisions.py b/arboris/collisions.py
index eee6548..6d5bf06 100644
--- a/arboris/collisions.py
+++ b/arboris/collisions.py
@@ -7,7 +7,7 @@
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
 from numpy.linalg import norm
-from numpy        import zeros, argmin, dot, sign, arange
+from numpy        import zeros, argmin, dot, arange
 import arboris.homogeneousmatrix as Hg
 from   arboris.core   import Shape
 from   arboris.shapes import Plane, Point, Box, Sphere
@@ -277,16 +277,17 @@ def _plane_sphere_collision(H_g0, coeffs0, p_g1, radius1):
 
     """
     assert Hg.ishomogeneousmatrix(H_g0)
-    assert norm(coeffs0[0:3]) == 1.
+    assert abs(norm(coeffs0[0:3]) - 1.) < 1e-9
     assert radius1 >= 0.
     normal = coeffs0[0:3] # the plane normal
     p_01 = Hg.pdot(Hg.inv(H_g0), p_g1)
     csdist = dot(normal, p_01) - coeffs0[3] # signed distance from the center
     sdist = csdist - radius1
+    normal = dot(H_g0[0:3, 0:3], normal) # now relative to the ground
     H_gc0 = Hg.zaligned(normal)
-    H_gc0[0:3, 3] = p_01 - csdist * normal
+    H_gc0[0:3, 3] = p_g1 - csdist * normal
     H_gc1 = H_gc0.copy()
-    H_gc1[0:3, 3] = p_01 - sign(sdist) * radius1 * normal
+    H_gc1[0:3, 3] = p_g1 - radius1 * normal
     return (sdist, H_gc0, H_gc1)
 
 def _box_sphere_collision(H_g0, half_extents0, p_g1, radius1):
@@ -375,6 +376,7 @@ def _box_sphere_collision(H_g0, half_extents0, p_g1, radius1):
             f_0[i-3] = -half_extents0[i-3]
             normal[i-3] = -1 #TODO check this line is correct
         f_g = Hg.pdot(H_g0, f_0)
+        normal = dot(H_g0[0:3, 0:3], normal) # now relative to the ground
         sdist = -norm(f_g - p_g1)-radius1
     else:
         # find the point x inside the box that is the nearest to
-- 
2.43.0


From 6b594d847e4bfca60e32a106314954f3d6f8b251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:21 +0000
Subject: [PATCH 08/35] fix: the force of a disabled constraint is zero

---
 arboris/core.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arboris/core.py b/arboris/core.py
index e13027d..8a076c9 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -344,6 +344,7 @@ class Constraint(NamedObject):
 
     def disable(self):
         self._is_enabled = False
+        self._force[:] = 0. # a disabled constraint exerts no force
 
     @abstractmethod
     def init(self, world):
-- 
2.43.0


From cd9164d95955a66fb7a01a7bef991f6fcaec4010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:32 +0000
Subject: [PATCH 09/35] fix: contacts with a singular admittance (planar
 mechanisms) stay in the cone and never pull

---
 arboris/constraints.py | 54 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 7 deletions(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index 5b3ee4b..675ac32 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -804,20 +804,21 @@ class SoftFingerContact(PointContact):
             # First, try with static friction: zero tangent velocity
             zero_tan_vel     = vel.copy()
             zero_tan_vel[3] += self._sdist/dt
+            alpha = zero_tan_vel - dot(admittance, self._force)
             dforce = dot(-pinv(admittance), zero_tan_vel)
             force = self._force + dforce
+            residual = zero_tan_vel + dot(admittance, dforce)
 
-            if force[3] >= 0. and \
+            if norm(residual) <= 1e-9*norm(alpha) and force[3] >= 0. and \
                sum((force[0:3]/self._eps)**2) <= (force[3]*self._mu)**2:
                 # the elliptic dry friction law is respected.
                 self._force = force
                 return dforce
             else:
-                # the elliptic dry friction law is not respected.
+                # the elliptic dry friction law is not respected (or no force
+                # can cancel the tangent velocity).
                 # We have to look for a solution with sliding
                 #
-                alpha = vel - dot(admittance, self._force)
-                alpha[3] += self._sdist/dt
                 Y_c = admittance[0:3, 3]
                 Y_r = admittance[3, 0:3] # same as Y_c if Y is symmetric
                 y_n = admittance[3, 3]
@@ -845,12 +846,51 @@ class SoftFingerContact(PointContact):
                     else:
                         s = max(min(S), -1e10) #TODO: log when |s|>=1e10
                 prev_force = self._force.copy()
-                A = admittance.copy()
-                A[0:3, 0:3] -= s*diag(self._eps**-2)
-                self._force = solve(A, -alpha)
+                self._force = self._sliding_force(s, alpha, admittance)
                 dforce = self._force - prev_force
                 return dforce
 
+    def _sliding_force(self, s, alpha, admittance):
+        """Return the force that closes the gap while the sliding velocity is
+        `s` times the (normalized) tangent force.
+
+        When the admittance is (close to) singular, which is usual in planar
+        mechanisms, `s` may not be accurate enough to get a force on the
+        friction cone: it is then looked for by bisection. If there is no such
+        force (friction cannot stop the motion imposed by the rest of the
+        mechanism), the friction force is zero.
+
+        """
+        def force(s):
+            A = admittance.copy()
+            A[0:3, 0:3] -= s*diag(self._eps**-2)
+            return solve(A, -alpha)
+
+        def inside(f, tol):
+            return norm(f[0:3]/self._eps) <= self._mu*f[3]*(1. + tol)
+
+        def acceptable(s):
+            f = force(s)
+            return inside(f, 1e-6) and norm(f) <= 1e6*norm(no_friction) and \
+                (not inside(f, -1e-6) or
+                 norm(s*f[0:3]/self._eps**2) <= 1e-9*norm(alpha))
+
+        lower, upper = -1e10, -1e-15*max(diag(admittance))
+        no_friction = force(lower)
+        s = min(s, upper)
+        if not acceptable(s) and inside(no_friction, 0.):
+            for k in arange(100):
+                s = -(lower*upper)**0.5
+                if inside(force(s), 0.):
+                    lower = s
+                else:
+                    upper = s
+            s = lower
+        if acceptable(s):
+            return force(s)
+        else:
+            return no_friction
+
 
 def get_all_contacts(world, contact_class=None, **args):
     """ Init all the possible collisions in world.
-- 
2.43.0


From fd905f8c96487a510b679f1a7af40d1e396adaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:22 +0000
Subject: [PATCH 10/35] fix: bodies and boxes keep private copies of the arrays
 they are given

---
 arboris/core.py   | 4 +++-
 arboris/shapes.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/arboris/core.py b/arboris/core.py
index 8a076c9..f2614e0 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -1181,10 +1181,12 @@ class Body(NamedObject, Frame):
             mass = zeros((6, 6))
         else:
             assert(ismassmatrix(mass, True))
+            mass = array(mass, dtype=float)
         if viscosity is None:
             viscosity = zeros((6, 6))
         else:
-            pass #TODO: check the viscosity matrix
+            #TODO: check the viscosity matrix
+            viscosity = array(viscosity, dtype=float)
 
         # the object will have a frame, with the same name as the object itself
         self.parentjoint    = None
diff --git a/arboris/shapes.py b/arboris/shapes.py
index 66bd443..6a8b49d 100644
--- a/arboris/shapes.py
+++ b/arboris/shapes.py
@@ -56,7 +56,7 @@ class Box(Shape):
 
         """
         Shape.__init__(self, frame, name)
-        self.half_extents = half_extents
+        self.half_extents = array(half_extents, dtype=float)
 
 
 class Cylinder(Shape):
-- 
2.43.0


From 17ada99a11a1df7e7bfa970ea2534ad86c625169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:24 +0000
Subject: [PATCH 11/35] fix: World.up, mass, viscosity and nleffects return
 copies, as gvel and gforce do

---
 arboris/core.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/arboris/core.py b/arboris/core.py
index f2614e0..7fa9ad6 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -715,19 +715,19 @@ class World(NamedObject):
 
     @property
     def up(self):
-        return self._up
+        return self._up.copy()
 
     @property
     def mass(self):
-        return self._mass
+        return self._mass.copy()
 
     @property
     def viscosity(self):
-        return self._viscosity
+        return self._viscosity.copy()
 
     @property
     def nleffects(self):
-        return self._nleffects
+        return self._nleffects.copy()
 
     @property
     def ndof(self):
-- 
2.43.0


From 7513821fa51785d2f1dae2d3df725b5786834da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:25 +0000
Subject: [PATCH 12/35] fix: PD controllers accept any iterable of joints and
 keep their own list

---
 arboris/controllers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/arboris/controllers.py b/arboris/controllers.py
index 05c5eec..36cc10b 100644
--- a/arboris/controllers.py
+++ b/arboris/controllers.py
@@ -122,6 +122,7 @@ class ProportionalDerivativeController(Controller):
         """
         Controller.__init__(self, name=name)
         self._cndof = 0
+        joints = list(joints)
         dof_map = []
         for j in joints:
             if not isinstance(j, LinearConfigurationSpaceJoint):
-- 
2.43.0


From 6a799e662cab5122d3fcb4de64dc6757a42128bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:46 +0000
Subject: [PATCH 13/35] fix: joint limits jacobian and weight impedance are
 handed out as copies

---
 arboris/constraints.py | 2 +-
 arboris/controllers.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index 675ac32..b4f7ea6 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -57,7 +57,7 @@ class JointLimits(Constraint):
 
     @property
     def jacobian(self):
-        return self._jacobian
+        return self._jacobian.copy()
 
     @property
     def ndol(self):
diff --git a/arboris/controllers.py b/arboris/controllers.py
index 36cc10b..aeb929c 100644
--- a/arboris/controllers.py
+++ b/arboris/controllers.py
@@ -63,7 +63,7 @@ class WeightController(Controller):
             g       = dot(Hg.iadjoint(b.pose), self._gravity_dtwist)
             gforce += dot(b.jacobian.T, dot(b.mass, g))
 
-        return (gforce, self._impedance)
+        return (gforce, self._impedance.copy())
 
 
 class ProportionalDerivativeController(Controller):
-- 
2.43.0


From a394611b2db694f3cc869280334c4a75b0fad3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:59 +0000
Subject: [PATCH 14/35] fix: principalframe is orthonormal for equal moments
 and accepts massless and point bodies

---
 arboris/massmatrix.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/arboris/massmatrix.py b/arboris/massmatrix.py
index 7d3ef47..9eee19b 100644
--- a/arboris/massmatrix.py
+++ b/arboris/massmatrix.py
@@ -5,8 +5,9 @@
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
 import arboris.homogeneousmatrix as Hg
-from   numpy        import diag, eye, dot, array, allclose
-from   numpy.linalg import eig, eigvals, det
+from   itertools    import permutations
+from   numpy        import diag, eye, dot, array, allclose, zeros
+from   numpy.linalg import eigh, eigvals, det
 
 def ismassmatrix(M, semi=False):
     """ Check whether M is a valid mass matrix.
@@ -92,17 +93,19 @@ def principalframe(M):
            [ 0.,  0.,  0.,  1.]])
 
     """
-    assert ismassmatrix(M)
+    assert ismassmatrix(M, True)
     m = M[5, 5]
-    rx = M[0:3, 3:6]/m
+    rx = M[0:3, 3:6]/m if m > 0. else zeros((3, 3))
     H = eye(4)
     H[0:3, 3] = [rx[2, 1], rx[0, 2], rx[1, 0]]
     RSR = M[0:3, 0:3] + m*dot(rx, rx)
-    [S, R] = eig(RSR)
+    [S, R] = eigh((RSR + RSR.T)/2.)
+    # eigh sorts the moments: rather keep each axis close to the one of M
+    axes = max(permutations(range(3)),
+               key=lambda p: sum(abs(R[i, p[i]]) for i in range(3)))
+    R = R[:, axes]
     if det(R)<0.:
-        iI = array([[0, 0, 1], [0, 1, 0], [1, 0, 0]])
-        R = dot(R, iI)
-        S = dot(iI, dot(S, iI))
+        R[:, 2] = -R[:, 2]
     H[0:3, 0:3] = R
     return H
 
-- 
2.43.0


From 1700aad99d1d2faef7a0f736385e6fdfd4c4b9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:14 +0000
Subject: [PATCH 15/35] fix: mass matrices of points, rods and discs are
 accepted wherever their frame is

---
 arboris/massmatrix.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arboris/massmatrix.py b/arboris/massmatrix.py
index 9eee19b..9393d78 100644
--- a/arboris/massmatrix.py
+++ b/arboris/massmatrix.py
@@ -22,7 +22,8 @@ def ismassmatrix(M, semi=False):
     common = M.shape == (6, 6) and allclose(M, M.T) and \
             allclose(M[3:6, 3:6], M[3,3]*eye(3))
     if semi:
-        return common and (eigvals(M) >= 0.).all()
+        # rounding may make a null eigenvalue slightly negative
+        return common and (eigvals(M).real >= -1e-12*abs(M).max()).all()
     else:
         return common and (eigvals(M) > 0.).all()
 
@@ -65,7 +66,7 @@ def transport(M, H):
     True
 
     """
-    assert ismassmatrix(M)
+    assert ismassmatrix(M, True)
     assert Hg.ishomogeneousmatrix(H)
     Ad = Hg.adjoint(H)
     return dot(Ad.T, dot(M, Ad))
-- 
2.43.0


From c33af67a2459477b4ecaaffb5fa790ebc2a935cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:15 +0000
Subject: [PATCH 16/35] fix: simulate accepts any iterable of observers, it
 used to iterate several times over an iterator

---
 arboris/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/arboris/core.py b/arboris/core.py
index 7fa9ad6..dccab52 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -1481,9 +1481,9 @@ def simulate(world, timeline, observers=()):
 
     """
     if isinstance(observers, dict):
-        observers_list = observers.values()
+        observers_list = list(observers.values())
     else:
-        observers_list = observers
+        observers_list = list(observers)
 
     if world.current_time != timeline[0]:
         warnings.warn('world.current_time != timeline[0]: \
-- 
2.43.0


From ed2c8ab6a6aee3b0d76c25a89f8b74fa11fcf721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:47 +0000
Subject: [PATCH 17/35] fix: derivative of the CoM Jacobian ignored the
 velocity of the body origin relative to its CoM

---
 arboris/observers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index 9ae2896..026dbe2 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -4,7 +4,7 @@
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>",
               "Joseph SALINI <joseph.salini@gmail.com>")
 
-from numpy import dot, zeros, arange
+from numpy import dot, zeros, arange, cross
 
 from arboris.core import Observer, MovingSubFrame, name_all_elements
 from arboris.massmatrix import principalframe
@@ -508,8 +508,10 @@ class CoMObserver(Observer):
                 self._CoMJacobian[:] += self.mass[i] * dot(Ad_com2_body, self.bodies[i].jacobian)[3:6,:]
 
                 ##### For dJacobian
+                #twist of the body relative to com2, which moves with the CoM
+                #of the body but keeps the orientation of the ground
                 T_com2_body = self.bodies[i].twist.copy()
-                T_com2_body[3:6] = 0.
+                T_com2_body[3:6] = cross(self.H_body_com[i][0:3, 3], T_com2_body[0:3])
                 dAd_com2_body = dAdjoint(Ad_com2_body, T_com2_body)
                 dJ_com2 = dot(Ad_com2_body, self.bodies[i].djacobian) + dot(dAd_com2_body, self.bodies[i].jacobian)
                 self._CoMdJacobian[:] += self.mass[i] * dJ_com2[3:6,:]
-- 
2.43.0


From 372f3dd73a1c5afd233acbf38b73a650a93a2c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:57 +0000
Subject: [PATCH 18/35] fix: collision of spheres with the same center raised
 instead of returning their distance

---
 arboris/collisions.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/arboris/collisions.py b/arboris/collisions.py
index 6d5bf06..9f1363e 100644
--- a/arboris/collisions.py
+++ b/arboris/collisions.py
@@ -7,7 +7,7 @@
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
 from numpy.linalg import norm
-from numpy        import zeros, argmin, dot, arange
+from numpy        import zeros, array, argmin, dot, arange
 import arboris.homogeneousmatrix as Hg
 from   arboris.core   import Shape
 from   arboris.shapes import Plane, Point, Box, Sphere
@@ -226,8 +226,13 @@ def _sphere_sphere_collision(p_g0, radius0, p_g1, radius1):
 
     """
     vec = p_g1 - p_g0
-    sdist = norm(vec) - radius0 - radius1
-    normal = vec/norm(vec)
+    cdist = norm(vec) # distance between the centers
+    sdist = cdist - radius0 - radius1
+    if cdist > 0.:
+        normal = vec/cdist
+    else:
+        # same center: all the directions are equivalent
+        normal = array([0., 0., 1.])
     H_gc0 = Hg.zaligned(normal)
     z = H_gc0[0:3, 2]
     H_gc0[0:3, 3] = p_g0 + radius0*z
-- 
2.43.0


From a750841a2d4b594505f4e197ef8a3dbd514e4d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:29 +0000
Subject: [PATCH 19/35] fix: HDF5 logs of joint states and model had the shape
 of transforms, elements with the same name were merged silently in logs

---
 arboris/core.py      |  1 +
 arboris/observers.py | 16 +++++++++-------
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/arboris/core.py b/arboris/core.py
index dccab52..fac7b61 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -140,6 +140,7 @@ class DuplicateNameError(Exception):
 
 def name_all_elements(nlist, check_unicity=False):
     # give a unique name for all unnamed elements
+    nlist = list(nlist) # an iterator would be exhausted by the first pass
     for elem in nlist: 
         if elem.name is None:
             elem.name = str(id(elem))
diff --git a/arboris/observers.py b/arboris/observers.py
index 026dbe2..5f77733 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -260,16 +260,18 @@ class SaveLogger(Observer):
             self._arb_transforms     = {}
             self._transforms         = {}
             self._root['transforms'] = self._transforms
+            # all the transforms lie in the same group: their names must differ
+            moving = list(self._world.itermovingsubframes())
             if self._flat:
-                name_all_elements(self._world.iterbodies(), True)
-                for b in self._world.iterbodies():
+                bodies = list(self._world.iterbodies())
+                name_all_elements(bodies + moving, True)
+                for b in bodies:
                     self._arb_transforms[b.name] = b
             else:
-                nonflatlist = [j.frames[1] for j in self._world.getjoints()]
-                name_all_elements(nonflatlist, True)
-                for j in  self._world.getjoints():
+                joints = self._world.getjoints()
+                name_all_elements([j.frames[1] for j in joints] + moving, True)
+                for j in joints:
                     self._arb_transforms[j.frames[1].name] = j
-            name_all_elements(self._world.itermovingsubframes(), True)
 
             for f in self._world.itermovingsubframes():
                 self._arb_transforms[f.name] = f
@@ -393,7 +395,7 @@ class Hdf5Logger(SaveLogger):
         for elem in group_elements:
             g = self._h5_root.require_group(elem)
             for k, v in self._root[elem].items():
-                dset = g.require_dataset(k, (self._nb_steps, 4,4), "f8")
+                dset = g.require_dataset(k, v.shape, "f8")
                 dset[:] = v
 
         self._file.close()
-- 
2.43.0


From eb6c61025be2828f040481342466e1a234aa098a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:08 +0000
Subject: [PATCH 20/35] fix: the visu modules run with Python 3 and without
 pydaenim

---
 arboris/visu/__init__.py   |  7 +++++--
 arboris/visu/dae_writer.py | 18 +++++++++---------
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/arboris/visu/__init__.py b/arboris/visu/__init__.py
index b09fab9..d1fbf64 100644
--- a/arboris/visu/__init__.py
+++ b/arboris/visu/__init__.py
@@ -6,7 +6,10 @@
 
 from arboris.core import Observer
 
-import pydaenim
+try:
+    import pydaenim
+except ImportError: # the viewer is optional
+    pydaenim = None
 
 from threading import Timer
 import json
@@ -80,7 +83,7 @@ def view(world, browser=None, **kwargs):
 
         write_collada_scene(world, collada_path)
 
-    elif isinstance(world, basestring):
+    elif isinstance(world, str):
         collada_path = world
 
     pydaenim.create_pydaenimViewer(collada_path, **kwargs)
diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index 69ab969..27100ae 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -79,7 +79,7 @@ def write_collada_animation(collada_animation, collada_scene, sim_file, file_typ
             raise IOError("Cannot load file '"+sim_file+"'. It may not be a hdf5 file.")
     elif file_type in ["pickle", "pkl"]:
         try:
-            f = open(sim_file,'r')
+            f = open(sim_file,'rb')
             sim = pkl.load(f)
             timeline = sim["timeline"]
             transforms = sim["transforms"]
@@ -100,7 +100,7 @@ def write_collada_animation_from_transforms(collada_animation, collada_scene, ti
         src_elem = E.source(id=idName)
         
         idName += "-array"
-        count = len(src_data)/16 if param_type=="float4x4" else len(src_data)
+        count = len(src_data)//16 if param_type=="float4x4" else len(src_data)
         
         if src_type == "float":
             str_src_data = " ".join([str(round(val, precision)) for val in src_data])+" "
@@ -183,7 +183,7 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
                     dae.nodes.append(child_shape_node)
 
             else:
-                print "warning: cannot find shapes for node: '",node_id, "'"
+                print("warning: cannot find shapes for node: '",node_id, "'")
 
     else:
         for mesh_info in added_shapes:
@@ -204,11 +204,11 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
 
              #check whether parent exist
             if parent_node_id not in dae_nodes:
-                print "warning: cannot find node in input file: '", parent_node_id, "'"
+                print("warning: cannot find node in input file: '", parent_node_id, "'")
 
              #check whether shape exists
             elif (shape_id != "") and (shape_id not in shapes_dae_nodes):
-                print "warning: cannot find shape in collada file: '", shape_id, "'"
+                print("warning: cannot find shape in collada file: '", shape_id, "'")
 
             else:
                  #create node that will contain scale, transform and instance_node
@@ -237,7 +237,7 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
                 if len(mesh_data) >= 4:
                     #add a scale tranform Node
                     scale = mesh_data[3]
-                    if isinstance(scale, (int, float, long)):
+                    if isinstance(scale, (int, float)):
                         scale = [scale]*3
                     instance_node.transforms.append(collada.scene.ScaleTransform(*scale))
 
@@ -253,8 +253,8 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
 def _write_pycollada_in_file(dae, output_file):
     """
     """
-    with open(output_file, "w") as f:
-        f.write('<?xml version="1.0" encoding="UTF-8"?>')
+    with open(output_file, "wb") as f:
+        f.write(b'<?xml version="1.0" encoding="UTF-8"?>')
         dae.write(f)
 
 
@@ -348,7 +348,7 @@ class pydaenimColladaDriver(DrawerDriver):
                 new_name = name + "_{}".format(i)
                 if new_name not in self._names:
                     break
-            print "warning: name collision: "+name+": modify name to "+new_name
+            print("warning: name collision: "+name+": modify name to "+new_name)
         self._names.append(new_name)
         node = collada.scene.Node(new_name)
         return node
-- 
2.43.0


From 98866f33dea6be94e6322353c8a258336b507a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:33 +0000
Subject: [PATCH 21/35] fix: a missing, stalled or lost viewer no longer
 disturbs the simulation

The end message was sent as str, the absence of a connection raised an
AttributeError, partial sends were not completed, a stalled viewer blocked the
simulation forever, the sockets were not both closed, and a second run listened
on a closed socket.
---
 arboris/observers.py         | 51 ++++++++++++++++++++++++++++++++----
 arboris/visu/visu_collada.py | 14 ++++++----
 2 files changed, 55 insertions(+), 10 deletions(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index 5f77733..f15b425 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -418,6 +418,11 @@ class SocketCom(Observer):
 
         """
         Observer.__init__(self, name)
+        self.timeout = timeout
+        self._bind(host, port, timeout)
+
+    def _bind(self, host, port, timeout):
+        """ Create the listening socket, on the first free port. """
         self.s = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
         self.s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
         self.s.settimeout(timeout)
@@ -429,25 +434,61 @@ class SocketCom(Observer):
             except socket.error:
                 port += 1
                 print("change port!!!")
+        else:
+            self.s.close()
+            self.s = None
+            port = max_port - 50
         self.host = host
         self.port = port
         self.conn = None
         self.addr = None
 
-    def init(self, world, timeline):
+    def _listen(self):
+        """ Wait for the viewer, on a new socket if the previous one is closed. """
+        self._close_connection()
+        if self.s is None:
+            self._bind(self.host, self.port, self.timeout)
+        if self.s is None:
+            raise socket.error("no free port")
         self.s.listen(1)
+
+    def init(self, world, timeline):
         try:
+            self._listen()
             self.conn, self.addr = self.s.accept()
+            # the viewer may stall: don't wait for it forever
+            self.conn.settimeout(self.timeout)
             print('Connected by', self.addr)
         except socket.error:
             print("Connection error: no connection occurs")
 
-    def finish(self):
+    def _send(self, msg):
+        """ Send the whole message, return False if it is not possible.
+
+        The connection is closed at the first failure, so that the viewer
+        never gets anything after an incomplete message.
+
+        """
+        if self.conn is None:
+            return False
         try:
-            self.conn.send("close_connection")
-            self.s.close()
+            self.conn.sendall(msg.encode("utf-8"))
+            return True
         except socket.error:
-            pass
+            self._close_connection()
+            return False
+
+    def _close_connection(self):
+        conn, self.conn = self.conn, None
+        if conn is not None:
+            conn.close()
+
+    def finish(self):
+        self._send("close_connection")
+        self._close_connection()
+        if self.s is not None:
+            self.s.close()
+            self.s = None
 
 
 
diff --git a/arboris/visu/visu_collada.py b/arboris/visu/visu_collada.py
index 7c1b5f8..9e0e376 100644
--- a/arboris/visu/visu_collada.py
+++ b/arboris/visu/visu_collada.py
@@ -189,6 +189,12 @@ class DaenimCom(SocketCom):
             write_collada_scene(world, tmp_daefile, flat=self.flat)
             self.app_call[1] = tmp_daefile
 
+        try:
+            self._listen()  # before the viewer tries to connect
+            self.app_call[4] = str(self.port)
+        except OSError:
+            pass            # the viewer will not be connected
+
         try:
             subprocess.Popen(self.app_call)
             SocketCom.init(self, world, timeline)
@@ -208,7 +214,7 @@ class DaenimCom(SocketCom):
         """
         """
         if self.flat:
-            msg = b""
+            msg = ""
             for b in self.world.getbodies():
                 H = b.pose
                 msg += self.packing_transform(b.name, H)
@@ -222,14 +228,12 @@ class DaenimCom(SocketCom):
             H = f.pose if self.flat else f.bpose
             msg += self.packing_transform(f.name, H)
 
-        try:
-            self.conn.send(msg)
-        except:
+        if not self._send(msg):
             print("DaenimCom not connected")
 
 
     def packing_transform(self, _name, _H):
-        res = " ".join([_name] + map(str, _H[0:3, :].reshape(12)))+"\n"
+        res = " ".join([_name] + list(map(str, _H[0:3, :].reshape(12))))+"\n"
         return res
 
 
-- 
2.43.0


From f4eba0d8d69b7bf0cb3cbcce742c73e98521cb78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:03 +0000
Subject: [PATCH 22/35] fix: viewers and scenes with unnamed elements

---
 arboris/visu/__init__.py     | 10 ++++++++--
 arboris/visu/dae_writer.py   |  2 +-
 arboris/visu/visu_collada.py |  5 +++--
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/arboris/visu/__init__.py b/arboris/visu/__init__.py
index d1fbf64..eae54e0 100644
--- a/arboris/visu/__init__.py
+++ b/arboris/visu/__init__.py
@@ -14,7 +14,7 @@ except ImportError: # the viewer is optional
 from threading import Timer
 import json
 
-from arboris.core import World
+from arboris.core import World, name_all_elements
 from   arboris.visu.dae_writer import write_collada_scene
 import tempfile
 import os
@@ -40,6 +40,12 @@ class pydaenimCom(Observer):
         """
         """
         self.world = world
+        if self.flat:
+            name_all_elements(self.world.getbodies(), True)
+        else:
+            nonflatlist = [j.frames[1] for j in self.world.getjoints()]
+            name_all_elements(nonflatlist, True)
+        name_all_elements(self.world.itermovingsubframes(), True)
 
 
     def update(self, dt):
@@ -64,7 +70,7 @@ class pydaenimCom(Observer):
 
         try:
             self.websocket.send_message(msg)
-        except:
+        except Exception:
             print("pydaenimCom not connected")
 
 
diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index 27100ae..26d7530 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -475,7 +475,7 @@ class pydaenimColladaDriver(DrawerDriver):
                     ),
                     E.inertia(" ".join(map(str, m_o_inertia))),
                 ),
-            sid=name
+            sid=name or ""
             )
         )
 
diff --git a/arboris/visu/visu_collada.py b/arboris/visu/visu_collada.py
index 9e0e376..b327cb5 100644
--- a/arboris/visu/visu_collada.py
+++ b/arboris/visu/visu_collada.py
@@ -143,7 +143,7 @@ class DaenimColladaDriver(pydaenimColladaDriver):
         node = _get_void_node()
         node.transforms.append( collada.scene.MatrixTransform(H_body_com.flatten()) )
         
-        inertia_node = self.create_ellipsoid(m_o_inertia, color, name+".inertia")
+        inertia_node = self.create_ellipsoid(m_o_inertia, color, name+".inertia" if name else None)
         node.children.append(inertia_node)
         
         for c in inertia_node.children:
@@ -185,7 +185,8 @@ class DaenimCom(SocketCom):
         """
         """
         if self.daefile is None:
-            tmp_daefile = tempfile.mkstemp(suffix='scene.dae', text=True)[1]
+            fd, tmp_daefile = tempfile.mkstemp(suffix='scene.dae', text=True)
+            os.close(fd)
             write_collada_scene(world, tmp_daefile, flat=self.flat)
             self.app_call[1] = tmp_daefile
 
-- 
2.43.0


From f828a4e5cc7f3b5141dae6734c2e4a789b37c4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:28 +0000
Subject: [PATCH 23/35] fix: refused links, joint replacements and
 registrations change nothing

add_link attached the joint before refusing it and added the first links of a
refused chain, the ground or an ancestor was accepted as the child of a joint,
replace_joint left the old joint detached.
---
 arboris/core.py | 68 +++++++++++++++++++++++++++++++++++++------------
 1 file changed, 52 insertions(+), 16 deletions(-)

diff --git a/arboris/core.py b/arboris/core.py
index fac7b61..f31605c 100644
--- a/arboris/core.py
+++ b/arboris/core.py
@@ -125,7 +125,8 @@ class NamedObjectsList(list):
                 if obj.name not in result:
                     result[obj.name] = obj
                 else:
-                    raise DuplicateNameError()
+                    raise DuplicateNameError("Some names are duplicated:\n" +
+                                             str(obj.name))
         return result
 
 
@@ -522,25 +523,53 @@ class World(NamedObject):
             world.add_link(frame0_a,joint_a,frame1_a,frame0_b,joint_b,frame1_b)
 
         """
-        assert isinstance(frame0, Frame)
-        assert isinstance(frame1, Frame)
-        assert isinstance(joint, Joint)
-        assert joint.frame0 is None
-        assert joint.frame1 is None
-        assert len(args) % 3 == 0
+        self._check_links(frame0, joint, frame1, *args)
         joint.set_frames(frame0, frame1)
-        if frame1.body.parentjoint is None:
-            frame1.body.parentjoint = joint
-        else:
-            raise ValueError("frame1's body already has a parent joint, " + \
-            "which means you're probably trying to create a kinematic loop." + \
-            "Try using a constraint instead.")
+        frame1.body.parentjoint = joint
         frame0.body.childrenjoints.append(joint)
         self.register(frame0)
         self.register(frame1)
         if len(args) > 0:
             self.add_link(*args)
 
+    def _check_links(self, *args):
+        """ Check that the links can be added, before anything is changed. """
+        assert len(args) % 3 == 0
+        links = [args[i:i+3] for i in range(0, len(args), 3)]
+        joints  = []
+        parents = {} # parent body of the bodies of the new links
+        for frame0, joint, frame1 in links:
+            assert isinstance(frame0, Frame)
+            assert isinstance(frame1, Frame)
+            assert isinstance(joint, Joint)
+            assert joint.frame0 is None
+            assert joint.frame1 is None
+            assert not joint in joints
+            joints.append(joint)
+            body = frame1.body
+            if body is self.ground:
+                raise ValueError("the ground can not be the child of a joint.")
+            if body.parentjoint is not None or body in parents:
+                raise ValueError("frame1's body already has a parent joint, " + \
+                "which means you're probably trying to create a kinematic loop." + \
+                "Try using a constraint instead.")
+            parents[body] = frame0.body
+        for body in parents:
+            # none of the ancestors may be the body itself
+            ancestor = parents[body]
+            visited  = set()
+            while ancestor is not None and not ancestor in visited:
+                if ancestor is body:
+                    raise ValueError("the links form a kinematic loop." + \
+                    "Try using a constraint instead.")
+                visited.add(ancestor)
+                if ancestor in parents:
+                    ancestor = parents[ancestor]
+                elif ancestor.parentjoint is not None:
+                    ancestor = ancestor.parentjoint.frame0.body
+                else:
+                    ancestor = None
+
     def replace_joint(self, old_joint, *args):
         """ Replace a joint by another joint or by another kinematic chain.
 
@@ -575,9 +604,16 @@ class World(NamedObject):
             body1 = args[-1].body
             assert old_joint.frame0.body is body0
             assert old_joint.frame1.body is body1
+            old_frames = old_joint.frames
             body1.parentjoint = None
             old_joint.set_frames(None, None)
-            self.add_link(*args)
+            try:
+                self.add_link(*args)
+            except Exception:
+                # the links are refused: nothing is replaced
+                body1.parentjoint = old_joint
+                old_joint.set_frames(*old_frames)
+                raise
             # new_joint is now the last in body0.childrenjoint
             # and old_joint is still somewhere in body0.childrenjoint
             # let's fix that
@@ -617,14 +653,14 @@ class World(NamedObject):
             if not obj in self._subframes:
                 self._subframes.append(obj)
         elif isinstance(obj, Shape):
+            self.register(obj.frame)
             if not obj in self._shapes:
                 self._shapes.append(obj)
-            self.register(obj.frame)
         elif isinstance(obj, Constraint):
             if not obj in self._constraints:
-                self._constraints.append(obj)
                 for child_obj in obj._child_obj_to_reg:
                     self.register(child_obj)
+                self._constraints.append(obj)
         elif isinstance(obj, Controller):
             if not obj in self._controllers:
                 self._controllers.append(obj)
-- 
2.43.0


From 90ff16e2bb82bb5bdd936730ccd703d4b19010ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:44 +0000
Subject: [PATCH 24/35] fix: PerfMonitor measures elapsed time, of the current
 run only

It used the wall clock, which may jump, kept the steps of earlier runs, and failed
to summarize a run without steps.
---
 arboris/observers.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/arboris/observers.py b/arboris/observers.py
index f15b425..d326c03 100644
--- a/arboris/observers.py
+++ b/arboris/observers.py
@@ -19,7 +19,7 @@ import pickle as pkl
 import h5py
 
 
-from   time import time as _time
+from   time import perf_counter as _time # not the wall clock, which may jump
 import socket
 import logging
 logging.basicConfig(level=logging.DEBUG)
@@ -128,8 +128,9 @@ class PerfMonitor(Observer):
         self._computation_time = []
 
     def init(self, world, timeline):
-        self._world     = world
-        self._last_time = _time()
+        self._world            = world
+        self._computation_time = []
+        self._last_time        = _time()
 
     def update(self, dt):
         current_time = _time()
@@ -151,15 +152,16 @@ class PerfMonitor(Observer):
 
 
     def get_summary(self):
-        total = sum(self._computation_time)
+        times = self._computation_time or [0.] # no step was observed yet
+        total = sum(times)
         return """total computation time (s): {0}
 min computation time (s): {1}
 mean computation time (s): {2}
 max computation time (s): {3}""".format(
     total,
-    min(self._computation_time),
-    total/len(self._computation_time),
-    max(self._computation_time))
+    min(times),
+    total/len(times),
+    max(times))
 
 
 
-- 
2.43.0


From fcf5095d4b3995e349f2a3333e55e73becfd4828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:33 +0000
Subject: [PATCH 25/35] fix: merging of scaled shapes and of several whole
 files in a scene

A dict with a scale and no transform was refused, and the second whole file
merged showed the shapes of the first one.
---
 arboris/visu/dae_writer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index 26d7530..25a34a2 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -190,8 +190,8 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
         
             if isinstance(mesh_info, dict):
                 mesh_data = [mesh_info["frame"], mesh_info["mesh"]]
-                if "transform" in mesh_info:
-                    mesh_data.append(mesh_info["transform"])
+                if "transform" in mesh_info or "scale" in mesh_info:
+                    mesh_data.append(mesh_info.get("transform", np.eye(4)))
                 if "scale" in mesh_info:
                     mesh_data.append(mesh_info["scale"])
             else:
@@ -217,7 +217,7 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
 
                  #it means that user selects all the scene children
                 if shape_id == "":
-                    child_shape_node = collada.scene.Node(shape_id, children = shapes_dae.scene.nodes)
+                    child_shape_node = collada.scene.Node(_get_good_id_uri(shape_path), children = shapes_dae.scene.nodes)
 
                 #in this case, the shape_path is on the form: 'shape_file.dae#shape_id'
                 else:
-- 
2.43.0


From 2b84fb2abe0d16ab323839b81451532315aad23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:33 +0000
Subject: [PATCH 26/35] fix: a failed export no longer destroys the file it
 replaces

add_shapes_to_dae works in place by default: a full disk lost the scene.
---
 arboris/visu/dae_writer.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index 25a34a2..e0762c9 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -253,9 +253,18 @@ def add_shapes_to_dae(input_file, added_shapes, output_file=None):
 def _write_pycollada_in_file(dae, output_file):
     """
     """
-    with open(output_file, "wb") as f:
-        f.write(b'<?xml version="1.0" encoding="UTF-8"?>')
-        dae.write(f)
+    # output_file may be the one dae was read from: do not lose it on failure
+    output_file = os.path.realpath(output_file)
+    part_file   = output_file + ".part"
+    try:
+        with open(part_file, "wb") as f:
+            f.write(b'<?xml version="1.0" encoding="UTF-8"?>')
+            dae.write(f)
+        os.replace(part_file, output_file)
+    except BaseException:
+        if os.path.exists(part_file):
+            os.remove(part_file)
+        raise
 
 
 def _get_all_nodes(root):
-- 
2.43.0


From 732d0daa6a9bae5c602fafaa59de2aa2b7934a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:33 +0000
Subject: [PATCH 27/35] fix: exported scenes with any up vector, drawing
 options, names and moving frames

The up vector made the export fail when not an axis, the options were ignored,
spheres, points and daenim rigid bodies lost their names, and moving frames were
misplaced in flat scenes.
---
 arboris/visu/dae_writer.py   | 4 ++--
 arboris/visu/visu_collada.py | 2 +-
 arboris/visu/world_drawer.py | 6 +++---
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index e0762c9..7076ba2 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -328,7 +328,7 @@ class pydaenimColladaDriver(DrawerDriver):
     def __init__(self, filename, scale=1., options=None):
         """
         """
-        DrawerDriver.__init__(self, scale)
+        DrawerDriver.__init__(self, scale, options)
         self.filename   = filename
 
         self.dae        = collada.Collada()
@@ -369,7 +369,7 @@ class pydaenimColladaDriver(DrawerDriver):
         elif np_all(up == [0., 0., 1.]): up_elem = collada.asset.UP_AXIS.Z_UP
         else:
             up_elem = up_elem = collada.asset.UP_AXIS.Y_UP
-            warnings.warn('the up vector ('+up+') is not compatible with collada, set default.')
+            warnings.warn('the up vector ('+str(up)+') is not compatible with collada, set default.')
         self.dae.assetInfo.upaxis = up_elem
 
     def _add_new_material(self, color):
diff --git a/arboris/visu/visu_collada.py b/arboris/visu/visu_collada.py
index b327cb5..3ffde56 100644
--- a/arboris/visu/visu_collada.py
+++ b/arboris/visu/visu_collada.py
@@ -134,7 +134,7 @@ class DaenimColladaDriver(pydaenimColladaDriver):
 
     def create_inertia(self, inertia, color, name=""):
         """Generate a representation of inertia as an ellipsoid."""
-        pydaenimColladaDriver.create_inertia(self, inertia, color)
+        pydaenimColladaDriver.create_inertia(self, inertia, color, name)
         H_body_com  = principalframe(inertia)
         Mcom        = transport(inertia, H_body_com)
         mass        = Mcom[5,5]
diff --git a/arboris/visu/world_drawer.py b/arboris/visu/world_drawer.py
index d6871d9..8f3b326 100644
--- a/arboris/visu/world_drawer.py
+++ b/arboris/visu/world_drawer.py
@@ -128,10 +128,10 @@ class DrawerDriver():
         pass
 
     def create_sphere(self, radius, color, name=None):
-        return self.create_ellipsoid([radius] * 3, color)
+        return self.create_ellipsoid([radius] * 3, color, name)
 
     def create_point(self, color, name=None):
-        return self.create_sphere(self._options['point radius'], color)
+        return self.create_sphere(self._options['point radius'], color, name)
 
     @abstractmethod
     def create_box(self, half_extents, color, name=None):
@@ -370,7 +370,7 @@ class Drawer(object):
             color = self._color_generator.get_color(obj)
             if self._flat is True:
                 node = self._add_frame(self._ground_node,
-                    obj.bpose, False, obj.name, color)
+                    obj.pose, False, obj.name, color)
             else:
                 node = self._add_frame(self.frame_nodes[obj.body],
                     obj.bpose, False, obj.name, color)
-- 
2.43.0


From 800e5c95599b7797dc1da31fe05a5e1ddac56ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:33 +0000
Subject: [PATCH 28/35] fix: view of an animation, and its temporary file

The hdf5 group was passed as file type, and the temporary file (and its descriptor)
leaked, the former when the viewer failed.
---
 arboris/visu/visu_collada.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/arboris/visu/visu_collada.py b/arboris/visu/visu_collada.py
index 3ffde56..c7c4b26 100644
--- a/arboris/visu/visu_collada.py
+++ b/arboris/visu/visu_collada.py
@@ -275,18 +275,17 @@ def view(scene, hdf5_file=None, hdf5_group="/", daenim_path=None):
         daenim_path = get_daenim_path()
 
 
-    if isinstance(scene, World):
-        scene_file = tempfile.mkstemp(suffix='anim.dae', text=True)[1]
-        write_collada_scene(scene, scene_file)
-        subprocess.check_call((daenim_path, scene_file))
-        os.remove(scene_file)
+    if isinstance(scene, World) or hdf5_file is not None:
+        fd, tmp_file = tempfile.mkstemp(suffix='anim.dae', text=True)
+        os.close(fd)
+        try:
+            if isinstance(scene, World):
+                write_collada_scene(scene, tmp_file)
+            else:
+                write_collada_animation(tmp_file, scene, hdf5_file, hdf5_group=hdf5_group)
+            subprocess.check_call((daenim_path, tmp_file))
+        finally:
+            os.remove(tmp_file)
     else:
-        if hdf5_file is None:
-            subprocess.check_call((daenim_path, scene))
-        else:
-            anim_file = tempfile.mkstemp(suffix='anim.dae', text=True)[1]
-            write_collada_animation(anim_file, scene, hdf5_file, hdf5_group)
-            subprocess.check_call((daenim_path, anim_file))
-            os.remove(anim_file)
-
+        subprocess.check_call((daenim_path, scene))
 
-- 
2.43.0


From 69dd04ce80a3f72680122c0e9bc1a440dfcc5b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:18 +0000
Subject: [PATCH 29/35] fix: keep the orientation of free joints orthonormal in
 long runs

The series and rounding errors of each step add up in the rotation, which
stops being one: a free body turning at 0.99 rad/s ended in an AssertionError
(ishomogeneousmatrix) after 12500 steps of 1 ms.
---
 arboris/joints.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/arboris/joints.py b/arboris/joints.py
index 7e39625..7b1056d 100644
--- a/arboris/joints.py
+++ b/arboris/joints.py
@@ -63,7 +63,12 @@ class FreeJoint(Joint):
 
     def integrate(self, gvel, dt):
         self.gvel = gvel
-        self.gpos = dot(self.gpos, exp( dt*self.gvel))
+        gpos = dot(self.gpos, exp( dt*self.gvel))
+        # The rounding and series errors add up at each step: pull the
+        # rotation back to the orthonormal matrix it should be.
+        R = gpos[0:3, 0:3]
+        gpos[0:3, 0:3] = dot(R, 3*eye(3) - dot(R.T, R))/2
+        self.gpos = gpos
 
 
 class FixedJoint(Joint):
-- 
2.43.0


From 254602ec89ea18c7f62546c70b37862712233bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:41 +0000
Subject: [PATCH 30/35] fix: gains and targets of PD controllers, and the state
 of free joints, given as integers can be changed in place

---
 arboris/controllers.py | 8 ++++----
 arboris/joints.py      | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/arboris/controllers.py b/arboris/controllers.py
index aeb929c..b98b7d8 100644
--- a/arboris/controllers.py
+++ b/arboris/controllers.py
@@ -138,22 +138,22 @@ class ProportionalDerivativeController(Controller):
         if kp is None:
             self.kp = zeros((self._cndof, self._cndof))
         else :
-            self.kp = array(kp).reshape((self._cndof, self._cndof))
+            self.kp = array(kp, dtype=float).reshape((self._cndof, self._cndof))
 
         if kd is None:
             self.kd = zeros((self._cndof, self._cndof))
         else :
-            self.kd = array(kd).reshape((self._cndof, self._cndof))
+            self.kd = array(kd, dtype=float).reshape((self._cndof, self._cndof))
 
         if gpos_des is None:
             self.gpos_des = zeros(self._cndof)
         else:
-            self.gpos_des = array(gpos_des).reshape(self._cndof)
+            self.gpos_des = array(gpos_des, dtype=float).reshape(self._cndof)
 
         if gvel_des is None:
             self.gvel_des = zeros(self._cndof)
         else:
-            self.gvel_des = array(gvel_des).reshape(self._cndof)
+            self.gvel_des = array(gvel_des, dtype=float).reshape(self._cndof)
 
     def init(self, world):
         """ Initialize controller and configure for one :class:`~arboris.core.World` instance.
diff --git a/arboris/joints.py b/arboris/joints.py
index 7b1056d..fe0fd08 100644
--- a/arboris/joints.py
+++ b/arboris/joints.py
@@ -38,8 +38,8 @@ class FreeJoint(Joint):
             gpos = eye(4)
         if gvel is None:
             gvel = zeros((6))
-        self.gpos = array(gpos).reshape((4, 4))
-        self.gvel = array(gvel).reshape((6))
+        self.gpos = array(gpos, dtype=float).reshape((4, 4))
+        self.gvel = array(gvel, dtype=float).reshape((6))
 
     @property
     def ndof(self):
-- 
2.43.0


From 9c77ff9663b86a211058c72be187d354b7b22064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:30 +0000
Subject: [PATCH 31/35] fix: a shape called like the ground does not share its
 node id in collada documents

---
 arboris/visu/dae_writer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index 7076ba2..3b00ab4 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -396,7 +396,7 @@ class pydaenimColladaDriver(DrawerDriver):
 
     def add_ground(self, up):
         self._set_up_axis(up)
-        self.ground_node = collada.scene.Node("ground")
+        self.ground_node = self._get_collada_node("ground")
         
         tranform_matrix = collada.scene.MatrixTransform(np.eye(4).flatten())
         tranform_matrix.xmlnode.set("sid", "matrix")
-- 
2.43.0


From d869107ff065aa07462fea9cdb7840e6e6d18572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:07 +0000
Subject: [PATCH 32/35] fix: the normal of a box/sphere contact is right when
 the centre is on a face of the box

---
 arboris/collisions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/arboris/collisions.py b/arboris/collisions.py
index 9f1363e..1598abb 100644
--- a/arboris/collisions.py
+++ b/arboris/collisions.py
@@ -390,8 +390,9 @@ def _box_sphere_collision(H_g0, half_extents0, p_g1, radius1):
         for i in arange(3):
             f_0[i] = max(min(half_extents0[i], p_01[i]), -half_extents0[i])
         f_g = Hg.pdot(H_g0, f_0)
-        vec = p_g1 - f_g
-        normal = vec/norm(vec)
+        # not from f_g, which rounding may bring to the other side of a face
+        vec = p_01 - f_0
+        normal = dot(H_g0[0:3, 0:3], vec/norm(vec))
         sdist = norm(vec) - radius1
     H_gc0 = Hg.zaligned(normal)
     H_gc1 = H_gc0.copy()
-- 
2.43.0


From 07a946ee9bc78e1def197c8bad21b2bde918e688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:23 +0000
Subject: [PATCH 33/35] fix: a point and a box collide in whatever order they
 are given

---
 arboris/collisions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arboris/collisions.py b/arboris/collisions.py
index 1598abb..a33942f 100644
--- a/arboris/collisions.py
+++ b/arboris/collisions.py
@@ -31,6 +31,7 @@ def choose_solver(shape0, shape1):
     * Sphere / Plane
     * Sphere / Box
     * Point / Plane
+    * Point / Box
 
     """
     assert isinstance(shape0, Shape)
@@ -58,6 +59,9 @@ def choose_solver(shape0, shape1):
         elif isinstance(shape1, Plane):
             shapes = (shape1, shape0)
             solver = plane_point_collision
+        elif isinstance(shape1, Box):
+            shapes = (shape1, shape0)
+            solver = box_point_collision
         else:
             raise NotImplementedError()
     elif isinstance(shape0, Plane):
-- 
2.43.0


From 7f62a165b6629520b03bb79f5aa591767a7067b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:29 +0000
Subject: [PATCH 34/35] fix: a sliding contact in a mechanism with one degree
 of freedom does not end in a singular matrix error

---
 arboris/constraints.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/arboris/constraints.py b/arboris/constraints.py
index b4f7ea6..ff2847a 100644
--- a/arboris/constraints.py
+++ b/arboris/constraints.py
@@ -7,7 +7,7 @@
 __author__ = ("Sébastien BARTHÉLEMY <barthelemy@crans.org>")
 
 from numpy        import array, zeros, eye, dot, diag, outer, logical_and, arange
-from numpy.linalg import solve, eigvals, norm, pinv
+from numpy.linalg import solve, eigvals, norm, pinv, LinAlgError
 import arboris.homogeneousmatrix as Hg
 from   arboris.core       import MovingSubFrame, Constraint, Shape, World
 from   arboris.joints     import LinearConfigurationSpaceJoint
@@ -864,7 +864,10 @@ class SoftFingerContact(PointContact):
         def force(s):
             A = admittance.copy()
             A[0:3, 0:3] -= s*diag(self._eps**-2)
-            return solve(A, -alpha)
+            try:
+                return solve(A, -alpha)
+            except LinAlgError: # s is negligible and the admittance singular
+                return dot(-pinv(A), alpha)
 
         def inside(f, tol):
             return norm(f[0:3]/self._eps) <= self._mu*f[3]*(1. + tol)
-- 
2.43.0


From 926855ee679f00523ddaa8f4363d04b49b07ebea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:50:23 +0000
Subject: [PATCH 35/35] fix: shapes do not take the node ids of the frames of
 the world in collada documents

---
 arboris/visu/dae_writer.py   | 27 +++++++++++++++++++++------
 arboris/visu/visu_collada.py |  4 +++-
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/arboris/visu/dae_writer.py b/arboris/visu/dae_writer.py
index 3b00ab4..0d7cc7c 100644
--- a/arboris/visu/dae_writer.py
+++ b/arboris/visu/dae_writer.py
@@ -41,7 +41,9 @@ def write_collada_scene(world, dae_filename, scale=1, options=None, flat=False,
     
     world.update_geometric()
     
-    drawer = Drawer(pydaenimColladaDriver(dae_filename, scale, options), flat, color_generator)
+    driver = pydaenimColladaDriver(dae_filename, scale, options)
+    driver.reserve_frame_names(world.iterframes())
+    drawer = Drawer(driver, flat, color_generator)
     world.parse(drawer)
     drawer.finish()
 
@@ -342,20 +344,33 @@ class pydaenimColladaDriver(DrawerDriver):
         self.scene       = None
         self._materials  = {}
         self._names      = []
+        self._frame_names = set()
 
     def init(self):
         pass
 
-    def _get_collada_node(self, name):
+    def reserve_frame_names(self, frames):
+        """ Keep the names of the frames for their own nodes.
+
+        Animations and merged shapes refer to these nodes by name, also when
+        something else with the same name is drawn first.
+        """
+        self._frame_names.update(f.name for f in frames)
+
+    def _is_name_taken(self, name, is_frame):
+        return name in self._names or \
+               (not is_frame and name in self._frame_names)
+
+    def _get_collada_node(self, name, is_frame=False):
         if not name:
             node = _get_void_node()
             return node
 
         new_name = name
-        if new_name in self._names:
+        if self._is_name_taken(new_name, is_frame):
             for i in range(100):
                 new_name = name + "_{}".format(i)
-                if new_name not in self._names:
+                if not self._is_name_taken(new_name, False):
                     break
             print("warning: name collision: "+name+": modify name to "+new_name)
         self._names.append(new_name)
@@ -396,7 +411,7 @@ class pydaenimColladaDriver(DrawerDriver):
 
     def add_ground(self, up):
         self._set_up_axis(up)
-        self.ground_node = self._get_collada_node("ground")
+        self.ground_node = self._get_collada_node("ground", True)
         
         tranform_matrix = collada.scene.MatrixTransform(np.eye(4).flatten())
         tranform_matrix.xmlnode.set("sid", "matrix")
@@ -416,7 +431,7 @@ class pydaenimColladaDriver(DrawerDriver):
             parent.children.append(child)
 
     def create_transform(self, pose, is_constant, name=None):
-        node = self._get_collada_node(name)
+        node = self._get_collada_node(name, True)
         tranform_matrix = collada.scene.MatrixTransform(pose.flatten())
         tranform_matrix.xmlnode.set("sid", "matrix")
         node.transforms.append(tranform_matrix)
diff --git a/arboris/visu/visu_collada.py b/arboris/visu/visu_collada.py
index c7c4b26..c50a305 100644
--- a/arboris/visu/visu_collada.py
+++ b/arboris/visu/visu_collada.py
@@ -49,7 +49,9 @@ def write_collada_scene(world, dae_filename, scale=1, options=None, flat=False,
     
     world.update_geometric()
     
-    drawer = Drawer(DaenimColladaDriver(dae_filename, scale, options), flat, color_generator)
+    driver = DaenimColladaDriver(dae_filename, scale, options)
+    driver.reserve_frame_names(world.iterframes())
+    drawer = Drawer(driver, flat, color_generator)
     world.parse(drawer)
     drawer.finish()
 
-- 
2.43.0

