From d2641f474d55736c385f34bb4e01279b88b40a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:41 +0000
Subject: [PATCH 1/9] fix: restore the second rotation of joints when a step is
 retried

step_dt saved both rotations of every joint but only restored rot1, so after
a rejected attempt rot2 of a two-body joint kept the motion of the attempt.
---
 lcp_physics/physics/world.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lcp_physics/physics/world.py b/lcp_physics/physics/world.py
index 39da5ad..2b5d638 100644
--- a/lcp_physics/physics/world.py
+++ b/lcp_physics/physics/world.py
@@ -104,6 +104,8 @@ class World:
                 self.set_p(start_p.clone())
                 for j, c in zip(self.joints, start_rot_joints):
                     j[0].rot1 = c[0].clone()
+                    if c[1] is not None:
+                        j[0].rot2 = c[1].clone()
                     j[0].update_pos()
 
         if self.post_stab:
-- 
2.43.0


From 43f2ffd07e4df42eefd4fdbde370d824b6cd36b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:59 +0000
Subject: [PATCH 2/9] fix: start the closest point search from a fixed vertex

The search picked its first vertex with random.choice, so the contact of a
circle with a hull (chosen simplex, and rounding with it) varied between
otherwise identical runs.
---
 lcp_physics/physics/contacts.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lcp_physics/physics/contacts.py b/lcp_physics/physics/contacts.py
index 99f3c93..426757f 100644
--- a/lcp_physics/physics/contacts.py
+++ b/lcp_physics/physics/contacts.py
@@ -1,5 +1,3 @@
-import random
-
 import ode
 
 import torch
@@ -84,7 +82,7 @@ class DiffContactHandler(ContactHandler):
 
             # Shallow penetration with GJK
             test_point = b1.pos - b2.pos
-            simplex = [random.choice(b2.verts)]
+            simplex = [b2.verts[0]]
             while True:
                 closest, ids_used = self.get_closest(test_point, simplex)
                 if len(ids_used) == 3:
-- 
2.43.0


From 589f24a40c637c72636e63454a1182a5bb0d238a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:27 +0000
Subject: [PATCH 3/9] fix: do not extrapolate a segment that lies behind the
 clip line

With both end points behind the line, clip_segment_to_line returned a point of
the segment's extension on the other side of its ends, which became a contact
point outside both bodies. Return no points, as the caller expects.
---
 lcp_physics/physics/contacts.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcp_physics/physics/contacts.py b/lcp_physics/physics/contacts.py
index 426757f..d9837e6 100644
--- a/lcp_physics/physics/contacts.py
+++ b/lcp_physics/physics/contacts.py
@@ -279,7 +279,7 @@ class DiffContactHandler(ContactHandler):
             clipped_verts.append(verts[1])
 
         # If the points are on different sides of the plane
-        if distance0.item() * distance1.item() < 0.0 or len(clipped_verts) < 2:
+        if len(clipped_verts) == 1:
             # Find intersection point of edge and plane
             interp = distance0 / (distance0 - distance1)
 
-- 
2.43.0


From 4ab0b5a32495bac85938a48ecfa922c47a46d619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:45 +0000
Subject: [PATCH 4/9] fix: clip hull contacts to the reference edge itself

The clip region was centred on the body position and as long as the reference
edge, which is only right for edges that are symmetric about the centroid
(rectangles). For other hulls contact points were cut off inside the edge or
placed beyond its ends. Clip at the two vertices of the reference edge.
---
 lcp_physics/physics/contacts.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lcp_physics/physics/contacts.py b/lcp_physics/physics/contacts.py
index d9837e6..d192fe0 100644
--- a/lcp_physics/physics/contacts.py
+++ b/lcp_physics/physics/contacts.py
@@ -153,8 +153,9 @@ class DiffContactHandler(ContactHandler):
                 return
             if contact2[0].item() > contact1[0].item():
                 normal = -contact2[3]
-                half_edge_norm = contact2[5] / 2
                 ref_edge_idx = contact2[6]
+                ref_verts = [b2.verts[ref_edge_idx],
+                             b2.verts[(ref_edge_idx + 1) % len(b2.verts)]]
                 incident_vertex_idx = contact2[4]
                 incident_edge_idx = self.get_incident_edge(normal, b1, incident_vertex_idx)
                 incident_verts = [b1.verts[incident_edge_idx],
@@ -162,11 +163,11 @@ class DiffContactHandler(ContactHandler):
                 incident_verts = [v + b1.pos - b2.pos for v in incident_verts]
                 clip_plane = left_orthogonal(normal)
                 clipped_verts = self.clip_segment_to_line(incident_verts, clip_plane,
-                                                          half_edge_norm)
+                                                          -clip_plane.dot(ref_verts[1]))
                 if len(clipped_verts) < 2:
                     return
                 clipped_verts = self.clip_segment_to_line(clipped_verts, -clip_plane,
-                                                          half_edge_norm)
+                                                          clip_plane.dot(ref_verts[0]))
                 pts = []
                 for v in clipped_verts:
                     dist = normal.dot(v - b2.verts[ref_edge_idx])
@@ -176,8 +177,9 @@ class DiffContactHandler(ContactHandler):
                         pts.append((normal, pt2, pt1, -dist))
             else:
                 normal = -contact1[3]
-                half_edge_norm = contact1[5] / 2
                 ref_edge_idx = contact1[6]
+                ref_verts = [b1.verts[ref_edge_idx],
+                             b1.verts[(ref_edge_idx + 1) % len(b1.verts)]]
                 incident_vertex_idx = contact1[4]
                 incident_edge_idx = self.get_incident_edge(normal, b2, incident_vertex_idx)
                 incident_verts = [b2.verts[incident_edge_idx],
@@ -185,11 +187,11 @@ class DiffContactHandler(ContactHandler):
                 incident_verts = [v + b2.pos - b1.pos for v in incident_verts]
                 clip_plane = left_orthogonal(normal)
                 clipped_verts = self.clip_segment_to_line(incident_verts, clip_plane,
-                                                          half_edge_norm)
+                                                          -clip_plane.dot(ref_verts[1]))
                 if len(clipped_verts) < 2:
                     return
                 clipped_verts = self.clip_segment_to_line(clipped_verts, -clip_plane,
-                                                          half_edge_norm)
+                                                          clip_plane.dot(ref_verts[0]))
                 pts = []
                 for v in clipped_verts:
                     dist = normal.dot(v - b1.verts[ref_edge_idx])
-- 
2.43.0


From d69bfa777fc79bb7ef178b080773eae3f3e6b67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:39 +0000
Subject: [PATCH 5/9] fix: import Iterable from collections.abc

---
 lcp_physics/lcp/lcp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcp_physics/lcp/lcp.py b/lcp_physics/lcp/lcp.py
index 06c6dcb..88725a5 100644
--- a/lcp_physics/lcp/lcp.py
+++ b/lcp_physics/lcp/lcp.py
@@ -68,7 +68,7 @@ class LCPFunction(Function):
         # adapted from pytorch's grad check
         # from torch.autograd.gradcheck import get_numerical_jacobian
         from torch.autograd import Variable
-        from collections import Iterable
+        from collections.abc import Iterable
 
         def make_jacobian(x, num_out):
             if isinstance(x, Variable) and not x.requires_grad:
-- 
2.43.0


From 35d51d97c7cf45e071e46790421f2663d77d8d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:30 +0000
Subject: [PATCH 6/9] fix: make iterative refinement of the KKT system reduce
 the residual

---
 lcp_physics/lcp/solvers/pdipm.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lcp_physics/lcp/solvers/pdipm.py b/lcp_physics/lcp/solvers/pdipm.py
index c808378..3e5b75e 100644
--- a/lcp_physics/lcp/solvers/pdipm.py
+++ b/lcp_physics/lcp/solvers/pdipm.py
@@ -233,9 +233,7 @@ def solve_kkt_ir(Q, D, G, A, F, rx, rs, rz, ry, niter=1):
                         dx, ds, dz, dy, rx, rs, rz, ry)
     for k in range(niter):
         ddx, dds, ddz, ddy = factor_solve_kkt_reg(Q_tilde, D_tilde, G, A, C_tilde,
-                                                  -resx, -ress, -resz,
-                                                  -resy if resy is not None else None,
-                                                  eps)
+                                                  resx, ress, resz, resy, eps)
         dx, ds, dz, dy = [v + dv if v is not None else None
                           for v, dv in zip((dx, ds, dz, dy), (ddx, dds, ddz, ddy))]
         resx, ress, resz, resy = kkt_resid_reg(Q, D, G, A, F_tilde, eps,
-- 
2.43.0


From 87e4da8b97545b5d210170eaf53ce010b1fed3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:05 +0000
Subject: [PATCH 7/9] fix: use the transposed coupling matrix in the backward
 pass of the LCP

---
 lcp_physics/lcp/lcp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lcp_physics/lcp/lcp.py b/lcp_physics/lcp/lcp.py
index 88725a5..16273dd 100644
--- a/lcp_physics/lcp/lcp.py
+++ b/lcp_physics/lcp/lcp.py
@@ -43,8 +43,10 @@ class LCPFunction(Function):
         # D = torch.diag((self.lams / self.slacks).squeeze(0)).unsqueeze(0)
         d = self.lams / self.slacks
 
-        pdipm.factor_kkt(self.S_LU, self.R, d)
-        dx, _, dlam, dnu = pdipm.solve_kkt(self.Q_LU, d, G, A, self.S_LU,
+        # The adjoint system couples the inequalities through the transpose of F.
+        Q_LU, S_LU, R = pdipm.pre_factor_kkt(Q, G, F.transpose(1, 2), A)
+        pdipm.factor_kkt(S_LU, R, d)
+        dx, _, dlam, dnu = pdipm.solve_kkt(Q_LU, d, G, A, S_LU,
                                            dl_dzhat, G.new_zeros(batch_size, nineq),
                                            G.new_zeros(batch_size, nineq),
                                            G.new_zeros(batch_size, neq))
-- 
2.43.0


From 7d40f8f5d889e85fff7f23f27008716989b40099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:14 +0000
Subject: [PATCH 8/9] fix: external forces take the type and device of their
 body

The pre-stored forces have the default type, so a step of a float32 world
with an ExternalForce raised a RuntimeError.
---
 lcp_physics/physics/forces.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lcp_physics/physics/forces.py b/lcp_physics/physics/forces.py
index 3ea7097..e2ea9e0 100644
--- a/lcp_physics/physics/forces.py
+++ b/lcp_physics/physics/forces.py
@@ -39,7 +39,7 @@ class ExternalForce:
 
     def __init__(self, force_func=down_force, multiplier=100.):
         self.multiplier = multiplier
-        self.force = lambda t: force_func(t) * self.multiplier
+        self.force = lambda t: self._match_body(force_func(t)) * self.multiplier
         self.body = None
 
     def set_body(self, body):
@@ -47,6 +47,10 @@ class ExternalForce:
         # match body's tensor type and device
         self.multiplier = get_tensor(self.multiplier, base_tensor=body._base_tensor)
 
+    def _match_body(self, force):
+        # pre-stored forces have the default type, match body's type and device
+        return force if self.body is None else force.to(self.body._base_tensor)
+
 
 class Gravity(ExternalForce):
     """Gravity force object, constantly returns a downwards pointing force of
-- 
2.43.0


From a165e4cc5a67aebb769156d1b5598a844b073ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:28 +0000
Subject: [PATCH 9/9] fix: a hull takes its type from its vertices too

Float32 vertices with otherwise plain arguments gave a hull of mixed types,
whose first move raised a RuntimeError.
---
 lcp_physics/physics/bodies.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lcp_physics/physics/bodies.py b/lcp_physics/physics/bodies.py
index 411f2c9..376240d 100644
--- a/lcp_physics/physics/bodies.py
+++ b/lcp_physics/physics/bodies.py
@@ -162,7 +162,8 @@ class Hull(Body):
     def __init__(self, ref_point, vertices, vel=(0, 0, 0), mass=1, restitution=Defaults.RESTITUTION,
                  fric_coeff=Defaults.FRIC_COEFF, eps=Defaults.EPSILON,
                  col=(255, 0, 0), thickness=1):
-        self._set_base_tensor(locals().values())
+        vertices = list(vertices)
+        self._set_base_tensor([*locals().values(), *vertices])
         ref_point = get_tensor(ref_point, base_tensor=self._base_tensor)
         # center vertices around centroid
         verts = [get_tensor(v, base_tensor=self._base_tensor) for v in vertices]
-- 
2.43.0

