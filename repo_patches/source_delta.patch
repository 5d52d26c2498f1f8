From dd5993bae1bf89726ba5ff26b89e2ef80cb0b39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:45 +0000
Subject: [PATCH 1/8] fix: look up 3D neighbour ranks in the patch-rank map
 instead of by list position

---
 src/lambdapic/core/patch/patch.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lambdapic/core/patch/patch.py b/src/lambdapic/core/patch/patch.py
index 0b666d8..b5fcd44 100644
--- a/src/lambdapic/core/patch/patch.py
+++ b/src/lambdapic/core/patch/patch.py
@@ -633,7 +633,7 @@ class Patches:
             for bound in Boundary3D:
                 neighbor_index = p.neighbor_index[bound]
                 if neighbor_index >= 0:
-                    neighbor_rank = self.patches[neighbor_index].rank
+                    neighbor_rank = patch_rank_map[neighbor_index]
                     if neighbor_rank != p.rank:
                         p.set_neighbor_rank(**{bound.name.lower(): neighbor_rank})
 
-- 
2.43.0


From d0099327668b82453d6d9208e0a1dbb183c498c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:18 +0000
Subject: [PATCH 2/8] fix: do not free the NumPy-owned particle count buffers
 in the patch particle exchange

---
 src/lambdapic/core/patch/sync_particles_2d.c | 4 ++--
 src/lambdapic/core/patch/sync_particles_3d.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lambdapic/core/patch/sync_particles_2d.c b/src/lambdapic/core/patch/sync_particles_2d.c
index e661380..abda700 100644
--- a/src/lambdapic/core/patch/sync_particles_2d.c
+++ b/src/lambdapic/core/patch/sync_particles_2d.c
@@ -358,8 +358,8 @@ PyObject* fill_particles_from_boundary_2d(PyObject* self, PyObject* args) {
     AUTOFREE double *ymin_list = get_attr_double(patch_list, npatches, "ymin");
     AUTOFREE double *ymax_list = get_attr_double(patch_list, npatches, "ymax");
 
-    AUTOFREE npy_intp *npart_incoming = PyArray_DATA(npart_incoming_array);
-    AUTOFREE npy_intp *npart_outgoing = PyArray_DATA(npart_outgoing_array);
+    npy_intp *npart_incoming = PyArray_DATA(npart_incoming_array);
+    npy_intp *npart_outgoing = PyArray_DATA(npart_outgoing_array);
 
     npy_intp nattrs = PyList_Size(attrs);
 
diff --git a/src/lambdapic/core/patch/sync_particles_3d.c b/src/lambdapic/core/patch/sync_particles_3d.c
index bbe3d05..310ff51 100644
--- a/src/lambdapic/core/patch/sync_particles_3d.c
+++ b/src/lambdapic/core/patch/sync_particles_3d.c
@@ -534,8 +534,8 @@ PyObject* fill_particles_from_boundary_3d(PyObject* self, PyObject* args) {
         zmax_list[ipatch] += 0.5 * dz;
     }
 
-    AUTOFREE npy_intp *npart_incoming = PyArray_DATA(npart_incoming_array);
-    AUTOFREE npy_intp *npart_outgoing = PyArray_DATA(npart_outgoing_array);
+    npy_intp *npart_incoming = PyArray_DATA(npart_incoming_array);
+    npy_intp *npart_outgoing = PyArray_DATA(npart_outgoing_array);
 
     npy_intp nattrs = PyList_Size(attrs);
     Py_ssize_t iattr_x = -1, iattr_y = -1, iattr_z = -1;
-- 
2.43.0


From 19eae1bbffd646683ee90885e31d73fbab199960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 3/8] fix: give particles created by radiation and pair
 production in reused slots a fresh id

---
 src/lambdapic/core/particles.py           | 15 +++++++++++++++
 src/lambdapic/core/qed/pair_production.py |  4 ++++
 src/lambdapic/core/qed/radiation.py       |  4 ++++
 3 files changed, 23 insertions(+)

diff --git a/src/lambdapic/core/particles.py b/src/lambdapic/core/particles.py
index d94c74d..90bbff0 100644
--- a/src/lambdapic/core/particles.py
+++ b/src/lambdapic/core/particles.py
@@ -192,6 +192,21 @@ class ParticlesBase:
         self.extended = True
         return sorted_idx
 
+    def renew_ids(self, created: NDArray[bool_]):
+        """Give fresh IDs to particles created in reused dead slots.
+
+        The slot of a dead particle keeps its ID, which may belong to a particle
+        that is still alive in another patch.
+
+        Args:
+            created (NDArray[bool]): mask of the slots that were just filled
+        """
+        n = int(np.count_nonzero(created))
+        if n == 0:
+            return
+        self._id[created] = self._generate_ids(self._npart_created, n)
+        self._npart_created += n
+
     @property
     def id(self) -> NDArray[uint64]:
         """Get particle IDs as uint64 array.
diff --git a/src/lambdapic/core/qed/pair_production.py b/src/lambdapic/core/qed/pair_production.py
index 66a7726..8f93b24 100644
--- a/src/lambdapic/core/qed/pair_production.py
+++ b/src/lambdapic/core/qed/pair_production.py
@@ -255,6 +255,8 @@ class NonlinearPairProductionLCFA(PairProductionBase):
             if n1 > 0 or n2 > 0:
                 self.patches.update_particle_lists(ipatch)
                 self.update_particle_lists(ipatch)
+        pairs = [p.particles[ispec] for p in self.patches for ispec in (self.electron_ispec, self.positron_ispec)]
+        was_dead = [part.is_dead.copy() for part in pairs]
         # fillin pairs
         if self.dimension == 2:
             create_pair_patches_2d(
@@ -272,6 +274,8 @@ class NonlinearPairProductionLCFA(PairProductionBase):
                 self.delta_list, self.event_list,
                 self.npatches
             )
+        for part, dead in zip(pairs, was_dead):
+            part.renew_ids(dead & part.is_alive)
 
     @if_enabled
     def reaction(self) -> None:
diff --git a/src/lambdapic/core/qed/radiation.py b/src/lambdapic/core/qed/radiation.py
index f2899c1..fc7526d 100644
--- a/src/lambdapic/core/qed/radiation.py
+++ b/src/lambdapic/core/qed/radiation.py
@@ -213,6 +213,8 @@ class NonlinearComptonLCFA(RadiationBase):
                 self.patches[ipatch].particles[self.photon_ispec].extend(n)
                 self.patches.update_particle_lists(ipatch)
                 self.update_particle_lists(ipatch)
+        photons = [p.particles[self.photon_ispec] for p in self.patches]
+        was_dead = [pho.is_dead.copy() for pho in photons]
         # fillin photons
         if self.dimension == 2:
             create_photon_patches_2d(
@@ -228,6 +230,8 @@ class NonlinearComptonLCFA(RadiationBase):
                 self.delta_list, self.event_list,
                 self.npatches
             )
+        for pho, dead in zip(photons, was_dead):
+            pho.renew_ids(dead & pho.is_alive)
 
     @if_enabled
     def reaction(self) -> None:
-- 
2.43.0


From 5483ee03cd7fd3d59fab81080e68cfdd7fc06226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 4/8] fix: leave the event flags alone when QED particles are
 extended by nothing

---
 src/lambdapic/core/particles.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lambdapic/core/particles.py b/src/lambdapic/core/particles.py
index 90bbff0..aa53873 100644
--- a/src/lambdapic/core/particles.py
+++ b/src/lambdapic/core/particles.py
@@ -270,6 +270,8 @@ class QEDParticles(ParticlesBase):
         Args:
             n (int): Number of elements to add
         """
+        if n <= 0:
+            return
         self.event.resize(n + self.npart, refcheck=False)
         self.event[-n:] = False
         super().extend(n)
-- 
2.43.0


From 680f0c4747eec61dc8f728ecb19a9f1d25359d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:50 +0000
Subject: [PATCH 5/8] fix: accumulate the received current strips of one patch
 in one thread

The strips received from the face, edge and corner neighbours of a patch
overlap, and were added concurrently by different threads, losing updates.
---
 src/lambdapic/core/mpi/sync_fields2d.c | 3 ++-
 src/lambdapic/core/mpi/sync_fields3d.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/core/mpi/sync_fields2d.c b/src/lambdapic/core/mpi/sync_fields2d.c
index d011de3..5f059cb 100644
--- a/src/lambdapic/core/mpi/sync_fields2d.c
+++ b/src/lambdapic/core/mpi/sync_fields2d.c
@@ -472,7 +472,8 @@ static PyObject* sync_currents_2d_wait(PyObject* self, PyObject* args) {
     }
 
     Py_BEGIN_ALLOW_THREADS
-    #pragma omp parallel for collapse(2)
+    // the strips of one patch overlap: one thread per patch
+    #pragma omp parallel for
     for (npy_intp ipatch = 0; ipatch < h->npatches; ipatch++) {
         for (int ibound = 0; ibound < NUM_BOUNDARIES; ibound++) {
             npy_intp i = ipatch * NUM_BOUNDARIES + ibound;
diff --git a/src/lambdapic/core/mpi/sync_fields3d.c b/src/lambdapic/core/mpi/sync_fields3d.c
index d05d587..d946dd5 100644
--- a/src/lambdapic/core/mpi/sync_fields3d.c
+++ b/src/lambdapic/core/mpi/sync_fields3d.c
@@ -824,7 +824,8 @@ static PyObject* sync_currents_3d_wait(PyObject* self, PyObject* args) {
     }
 
     Py_BEGIN_ALLOW_THREADS
-    #pragma omp parallel for collapse(2)
+    // the strips of one patch overlap: one thread per patch
+    #pragma omp parallel for
     for (npy_intp ipatch = 0; ipatch < h->npatches; ipatch++) {
         for (int ibound = 0; ibound < NUM_BOUNDARIES; ibound++) {
             npy_intp i = ipatch * NUM_BOUNDARIES + ibound;
-- 
2.43.0


From 441e6c7cf21a3eff855dd7944770f0f45664af95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 6/8] fix: move staged particles in 3D

push_position did nothing in 3D, so photons never moved and any species that
cannot use the fused pusher (radiating species, stage callbacks) stayed put
during the staged position push.
---
 src/lambdapic/core/pusher/cpu.py    | 40 ++++++++++++++++++++++++++++-
 src/lambdapic/core/pusher/pusher.py |  9 ++++++-
 2 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/core/pusher/cpu.py b/src/lambdapic/core/pusher/cpu.py
index 35a5824..6299dea 100644
--- a/src/lambdapic/core/pusher/cpu.py
+++ b/src/lambdapic/core/pusher/cpu.py
@@ -88,4 +88,42 @@ def push_position_patches_2d(
 
         is_dead = is_dead_list[ipatch]
         npart = len(is_dead)
-        push_position_2d( x, y, ux, uy, inv_gamma, npart, is_dead, dt )
\ No newline at end of file
+        push_position_2d( x, y, ux, uy, inv_gamma, npart, is_dead, dt )
+
+@njit(cache=True)
+def push_position_3d( x, y, z, ux, uy, uz, inv_gamma, N, is_dead, dt):
+    """
+    Advance the particles' positions over `dt` using the momenta `ux`, `uy`, `uz`,
+    """
+    # Timestep, multiplied by c
+    cdt = c*dt
+
+    for ip in range(N) :
+        if is_dead[ip]:
+            continue
+        x[ip] += cdt * inv_gamma[ip] * ux[ip]
+        y[ip] += cdt * inv_gamma[ip] * uy[ip]
+        z[ip] += cdt * inv_gamma[ip] * uz[ip]
+
+@jit_spinner
+@njit(parallel=True, cache=True)
+def push_position_patches_3d(
+    x_list, y_list, z_list,
+    ux_list, uy_list, uz_list, inv_gamma_list,
+    is_dead_list, 
+    npatches, dt,
+) -> None:
+    for _ipatch in prange(npatches):
+        ipatch = np.int64(_ipatch)
+        x = x_list[ipatch]
+        y = y_list[ipatch]
+        z = z_list[ipatch]
+
+        ux = ux_list[ipatch]
+        uy = uy_list[ipatch]
+        uz = uz_list[ipatch]
+        inv_gamma = inv_gamma_list[ipatch]
+
+        is_dead = is_dead_list[ipatch]
+        npart = len(is_dead)
+        push_position_3d( x, y, z, ux, uy, uz, inv_gamma, npart, is_dead, dt )
diff --git a/src/lambdapic/core/pusher/pusher.py b/src/lambdapic/core/pusher/pusher.py
index 4fab2dd..f9135b5 100644
--- a/src/lambdapic/core/pusher/pusher.py
+++ b/src/lambdapic/core/pusher/pusher.py
@@ -9,7 +9,7 @@ from lambdapic.core.particles import SpinParticles
 from ..patch import Patches
 from ..utils.pickle_list import PickleableTypedList
 from ..utils.enable_mixin import EnableMixin, if_enabled
-from .cpu import boris_push_patches, photon_push_patches, push_position_patches_2d
+from .cpu import boris_push_patches, photon_push_patches, push_position_patches_2d, push_position_patches_3d
 
 
 class PusherBase(PickleableTypedList,EnableMixin):
@@ -108,6 +108,13 @@ class PusherBase(PickleableTypedList,EnableMixin):
                 self.is_dead_list, 
                 self.npatches, dt,
             )
+        if self.dimension == 3:
+            push_position_patches_3d(
+                self.x_list, self.y_list, self.z_list,
+                self.ux_list, self.uy_list, self.uz_list, self.inv_gamma_list,
+                self.is_dead_list, 
+                self.npatches, dt,
+            )
 
     def __call__(self, dt: float) -> None:
         raise NotImplementedError
-- 
2.43.0


From 874db9b640648cb76ad49b10538f173a10334a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:59 +0000
Subject: [PATCH 7/8] fix: reset the total density along with the Debye length

---
 src/lambdapic/core/collision/cpu.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lambdapic/core/collision/cpu.py b/src/lambdapic/core/collision/cpu.py
index 47e0738..9b9b00f 100644
--- a/src/lambdapic/core/collision/cpu.py
+++ b/src/lambdapic/core/collision/cpu.py
@@ -148,6 +148,7 @@ def debye_length_patches(
         ipatch = np.int64(_ipatch)
         if reset:
             debye_length_inv_square_list[ipatch].fill(0)
+            total_density_list[ipatch].fill(0)
         for icell in range(bucket_bound_min_list[ipatch].size):
             ip_start = bucket_bound_min_list[ipatch].flat[icell]
             ip_end   = bucket_bound_max_list[ipatch].flat[icell]
-- 
2.43.0


From 1cb004131f96f869c2bdacd49c18d4d32e92e6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:05 +0000
Subject: [PATCH 8/8] fix: leave uncharged species out of the Debye length

---
 src/lambdapic/core/collision/collision.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lambdapic/core/collision/collision.py b/src/lambdapic/core/collision/collision.py
index 6057e7c..c1e4e9d 100644
--- a/src/lambdapic/core/collision/collision.py
+++ b/src/lambdapic/core/collision/collision.py
@@ -151,7 +151,9 @@ class Collision(PickleableTypedList):
         self.generate_field_lists()
 
     def calculate_debye_length(self) -> None:
-        for s in self.all_species:
+        # uncharged species (e.g. photons) do not screen
+        charged = [s for s in self.all_species if s.q != 0]
+        for i, s in enumerate(charged):
             debye_length_patches(
                 self.part_lists[s.ispec],
                 self.bucket_bound_min_lists[s.ispec],
@@ -159,7 +161,7 @@ class Collision(PickleableTypedList):
                 self.cell_vol,
                 self.debye_length_inv_square_list,
                 self.total_density_list,
-                reset=s.ispec==0
+                reset=i==0
             )
         constrain_debye_length_patches(
             self.debye_length_inv_square_list,
-- 
2.43.0

