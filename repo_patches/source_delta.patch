From a129b76245c86336ad786b441743f53e5ca99e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:49 +0000
Subject: [PATCH 01/49] fix: make the plane-wave set symmetric on odd grids

update_maxwell_data_k assigned index (n-1)/2 of an odd n-point axis to the
negative frequency -(n+1)/2, so e.g. a 3-point axis used G = 0,-2,-1 and
mirror partners had different |k+G|.
---
 src/maxwell/maxwell.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/maxwell/maxwell.c b/src/maxwell/maxwell.c
index 6ef8f05..9ebd843 100644
--- a/src/maxwell/maxwell.c
+++ b/src/maxwell/maxwell.c
@@ -421,7 +421,9 @@ void update_maxwell_data_k(maxwell_data *d, real k[3],
 			   real G1[3], real G2[3], real G3[3])
 {
      int nx = d->nx, ny = d->ny, nz = d->nz;
-     int cx = MAX2(1,d->nx/2), cy = MAX2(1,d->ny/2), cz = MAX2(1,d->nz/2);
+     /* first index of the negative frequencies (rounding up, so that
+	the set of plane waves is symmetric for odd grids) */
+     int cx = MAX2(1,(nx+1)/2), cy = MAX2(1,(ny+1)/2), cz = MAX2(1,(nz+1)/2);
      k_data *kpG = d->k_plus_G;
      real *kpGn2 = d->k_plus_G_normsqr;
      int x, y, z;
-- 
2.43.0


From 321913d6356158959ce956651453175ba63dbf18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:55 +0000
Subject: [PATCH 02/49] fix: normalize mirror parity by the full norm of the
 state

The norm used in the parity expectation value counted the first member of
each mirror pair twice instead of both members, so the parity reported for
a state that is not a mirror eigenstate was wrong.
---
 src/maxwell/maxwell_constraints.c | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/maxwell/maxwell_constraints.c b/src/maxwell/maxwell_constraints.c
index d31eb0e..a2d9201 100644
--- a/src/maxwell/maxwell_constraints.c
+++ b/src/maxwell/maxwell_constraints.c
@@ -169,11 +169,9 @@ double *maxwell_zparity(evectmatrix X, maxwell_data *d)
 			  SCALAR_IM(u) * SCALAR_IM(u2) -
 			  SCALAR_RE(v) * SCALAR_RE(v2) -
 			  SCALAR_IM(v) * SCALAR_IM(v2));
-		    norm_scratch[b] += (ij == ij2 ? 1.0 : 2.0) *
-                         (SCALAR_RE(u) * SCALAR_RE(u) +
-                          SCALAR_IM(u) * SCALAR_IM(u) +
-                          SCALAR_RE(v) * SCALAR_RE(v) +
-                          SCALAR_IM(v) * SCALAR_IM(v));
+		    norm_scratch[b] += SCALAR_NORMSQR(u) + SCALAR_NORMSQR(v);
+		    if (ij != ij2)
+			 norm_scratch[b] += SCALAR_NORMSQR(u2) + SCALAR_NORMSQR(v2);
 	       }
 	  }
 
@@ -289,11 +287,9 @@ double *maxwell_yparity(evectmatrix X, maxwell_data *d)
 			       SCALAR_IM(v) * SCALAR_IM(v2) -
 			       SCALAR_RE(u) * SCALAR_RE(u2) -
 			       SCALAR_IM(u) * SCALAR_IM(u2));
-			 norm_scratch[b] += (ijk == ijk2 ? 1.0 : 2.0) *
-			      (SCALAR_RE(v) * SCALAR_RE(v) +
-			       SCALAR_IM(v) * SCALAR_IM(v) +
-			       SCALAR_RE(u) * SCALAR_RE(u) +
-			       SCALAR_IM(u) * SCALAR_IM(u));
+			 norm_scratch[b] += SCALAR_NORMSQR(u) + SCALAR_NORMSQR(v);
+			 if (ijk != ijk2)
+			      norm_scratch[b] += SCALAR_NORMSQR(u2) + SCALAR_NORMSQR(v2);
 		    }
 	       }
 	  }
-- 
2.43.0


From f7dc1d3bfd7131151dd591ef242f86461beb5166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:51 +0000
Subject: [PATCH 03/49] fix: XeYS with an identity S must not read the old X

---
 src/matrices/evectmatrix.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/matrices/evectmatrix.c b/src/matrices/evectmatrix.c
index b743432..3bc460e 100644
--- a/src/matrices/evectmatrix.c
+++ b/src/matrices/evectmatrix.c
@@ -125,7 +125,10 @@ void evectmatrix_aXpbYS_sub(real a, evectmatrix X, real b, evectmatrix Y,
 void evectmatrix_XeYS(evectmatrix X, evectmatrix Y, sqmatrix S, short sherm)
 {
      CHECK(S.p == 0 || S.p == Y.p, "arrays not conformant");
-     evectmatrix_aXpbYS_sub(0.0, X, 1.0, Y, S, 0, sherm);
+     if (S.p == 0)  /* S = identity: don't touch the old (garbage) X */
+	  evectmatrix_copy(X, Y);
+     else
+	  evectmatrix_aXpbYS_sub(0.0, X, 1.0, Y, S, 0, sherm);
 }
 
 /* compute X += a Y * S.  If sdagger != 0, then St is used instead of S. */
-- 
2.43.0


From 67dd26c8820161cee6ce22f0ae503e2b1c999ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:18 +0000
Subject: [PATCH 04/49] fix: keep the Davidson basis orthonormal to roundoff

---
 src/matrices/eigensolver_davidson.c | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/src/matrices/eigensolver_davidson.c b/src/matrices/eigensolver_davidson.c
index 60985e2..94de3f2 100644
--- a/src/matrices/eigensolver_davidson.c
+++ b/src/matrices/eigensolver_davidson.c
@@ -168,7 +168,7 @@ void eigensolver_davidson(evectmatrix Y, real *eigenvals,
 
 	  /* compute new directions from residual & update basis: */
 	  {
-	       int ibasis2 = (ibasis + 1) % nbasis;
+	       int ibasis2 = (ibasis + 1) % nbasis, pass;
 
 	       /* compute V[ibasis2] = AY */
 #if 1
@@ -206,18 +206,24 @@ void eigensolver_davidson(evectmatrix Y, real *eigenvals,
 	       if (constraint)
 		    constraint(AV[ibasis2], constraint_data);
 
-	       /* orthogonalize against previous V: */
-	       for (i = 0; i < ibasis2; ++i) {
-		    evectmatrix_XtY(U, V[i], AV[ibasis2], S3);
-		    evectmatrix_XpaYS(AV[ibasis2], -1.0, V[i], U, 0);
+	       /* Orthogonalize against previous V, and orthonormalize within
+		  itself.  This is done twice: when some of the residuals are
+		  already small, normalizing them amplifies the roundoff error
+		  of the first pass, and a V that is not orthonormal yields
+		  spurious eigenvalues. */
+	       for (pass = 0; pass < 2; ++pass) {
+		    for (i = 0; i < ibasis2; ++i) {
+			 evectmatrix_XtY(U, V[i], AV[ibasis2], S3);
+			 evectmatrix_XpaYS(AV[ibasis2], -1.0, V[i], U, 0);
+		    }
+		    evectmatrix_XtX(U, AV[ibasis2], S3);
+		    CHECK(sqmatrix_invert(U, 1, S3),
+			  "non-independent AV subspace");
+		    sqmatrix_sqrt(S2, U, S3);
+		    evectmatrix_XeYS(V[ibasis2], AV[ibasis2], S2, 1);
+		    evectmatrix_copy(AV[ibasis2], V[ibasis2]);
 	       }
 
-	       /* orthonormalize within itself: */
-	       evectmatrix_XtX(U, AV[ibasis2], S3);
-	       CHECK(sqmatrix_invert(U, 1, S3), "non-independent AV subspace");
-	       sqmatrix_sqrt(S2, U, S3);
-	       evectmatrix_XeYS(V[ibasis2], AV[ibasis2], S2, 1);
-
 	       ibasis = ibasis2;
 	  }
 
-- 
2.43.0


From 31c9fca4523ba5bfea14aac74d8bd8cf37a7141c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:03 +0000
Subject: [PATCH 05/49] fix: count mirrored grid points by the loop's own
 indices in mpbi

compute_energy_in_object_list, compute_field_integral and
material_grids_addgradient tested uninitialised j and k to decide which
points of the inversion-reduced grid stand for two points.
---
 mpb/fields.c        | 12 ++++++------
 mpb/material_grid.c |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index c154f11..61a9b0f 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -1346,11 +1346,11 @@ number compute_energy_in_object_list(geometric_object_list objects)
 			      int last_index;
 #  ifdef HAVE_MPI
 			      if (n3 == 1)
-				   last_index = j + local_y_start;
+				   last_index = i2;
 			      else
-				   last_index = k;
+				   last_index = i3;
 #  else
-			      last_index = j;
+			      last_index = i2_;
 #  endif
 			      if (last_index != 0 && 2*last_index != last_dim)
 				   energy_sum += energy[xyz_index];
@@ -1450,11 +1450,11 @@ cnumber compute_field_integral(function f)
 		    int last_index;
 #  ifdef HAVE_MPI
 		    if (n3 == 1)
-			 last_index = j + local_y_start;
+			 last_index = i2;
 		    else
-			 last_index = k;
+			 last_index = i3;
 #  else
-		    last_index = j;
+		    last_index = i2_;
 #  endif
 
 		    if (last_index != 0 && 2*last_index != last_dim) {
diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index 5ad25c2..c0e2de4 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -429,11 +429,11 @@ void material_grids_addgradient(double *v,
 		    int last_index;
 #  ifdef HAVE_MPI
 		    if (n3 == 1)
-			 last_index = j + local_y_start;
+			 last_index = i2;
 		    else
-			 last_index = k;
+			 last_index = i3;
 #  else
-		    last_index = j;
+		    last_index = i2_;
 #  endif
 
 		    if (last_index != 0 && 2*last_index != last_dim) {
-- 
2.43.0


From 3311ae8af6ae68dccbe7093a983592f631f21897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:35 +0000
Subject: [PATCH 06/49] fix: energy in objects that are not inversion symmetric
 in mpbi

A stored point of the inversion-reduced grid was counted twice when the
point itself is in the objects, whether or not its inversion image is.
---
 mpb/fields.c | 50 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index 61a9b0f..0e76d69 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -1297,6 +1297,18 @@ void output_field_to_file(integer which_component, string filename_prefix)
 
 /**************************************************************************/
 
+/* whether p is inside the given (fixed) objects; the last object that
+   contains p decides, and "nothing" objects count as outside */
+static int point_in_objectsp(vector3 p, geometric_object_list objects)
+{
+     int n;
+     for (n = objects.num_items - 1; n >= 0; --n)
+	  if (point_in_periodic_fixed_objectp(p, objects.items[n]))
+	       return (objects.items[n].material.which_subclass
+		       != MATERIAL_TYPE_SELF);
+     return 0;
+}
+
 /* For curfield an energy density, compute the fraction of the energy
    that resides inside the given list of geometric objects.   Later
    objects in the list have precedence, just like the ordinary
@@ -1333,31 +1345,31 @@ number compute_energy_in_object_list(geometric_object_list objects)
 
      LOOP_XYZ(mdata) {
 	       vector3 p;
-	       int n;
 	       p.x = i1 * s1 - c1; p.y = i2 * s2 - c2; p.z = i3 * s3 - c3;
-	       for (n = objects.num_items - 1; n >= 0; --n)
-		    if (point_in_periodic_fixed_objectp(p, objects.items[n])) {
-			 if (objects.items[n].material.which_subclass
-			     == MATERIAL_TYPE_SELF)
-			      break; /* treat as a "nothing" object */
-			 energy_sum += energy[xyz_index];
+	       if (point_in_objectsp(p, objects))
+		    energy_sum += energy[xyz_index];
 #ifndef SCALAR_COMPLEX
-			 {
-			      int last_index;
+	       {
+		    int last_index;
 #  ifdef HAVE_MPI
-			      if (n3 == 1)
-				   last_index = i2;
-			      else
-				   last_index = i3;
+		    if (n3 == 1)
+			 last_index = i2;
+		    else
+			 last_index = i3;
 #  else
-			      last_index = i2_;
+		    last_index = i2_;
 #  endif
-			      if (last_index != 0 && 2*last_index != last_dim)
-				   energy_sum += energy[xyz_index];
-			 }
-#endif
-			 break;
+		    /* the point stored also stands for its inversion image,
+		       but the objects need not be inversion symmetric: */
+		    if (last_index != 0 && 2*last_index != last_dim) {
+			 p.x = (i1 ? n1 - i1 : 0) * s1 - c1;
+			 p.y = (i2 ? n2 - i2 : 0) * s2 - c2;
+			 p.z = (i3 ? n3 - i3 : 0) * s3 - c3;
+			 if (point_in_objectsp(p, objects))
+			      energy_sum += energy[xyz_index];
 		    }
+	       }
+#endif
 	}}}
 
      mpi_allreduce_1(&energy_sum, real, SCALAR_MPI_TYPE,
-- 
2.43.0


From 64f7695323a64b45cee1050a725b4118342cb45e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:10 +0000
Subject: [PATCH 07/49] fix: field divergence used a wrong k+G and overwrote
 its own input

The z component of k+G was formed from the wrong components, the complex
multiplication by i read the real part after overwriting it, and mpbi
indexed k+G with the padded row length.
---
 mpb/fields.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index 0e76d69..e2436ac 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -388,11 +388,11 @@ void compute_field_divergence(void)
      for (i = 0; i < mdata->other_dims; ++i)
           for (j = 0; j < mdata->last_dim; ++j) {
                int ij = i * mdata->last_dim_size + j;
-	       k_data cur_k = mdata->k_plus_G[ij];
+	       k_data cur_k = mdata->k_plus_G[i * mdata->last_dim + j];
 	       /* k+G = |k+G| (m x n) */
 	       real kx = cur_k.kmag * (cur_k.my*cur_k.nz-cur_k.mz*cur_k.ny);
 	       real ky = cur_k.kmag * (cur_k.mz*cur_k.nx-cur_k.mx*cur_k.nz);
-	       real kz = cur_k.kmag * (cur_k.mx*cur_k.ny-cur_k.my*cur_k.nz);
+	       real kz = cur_k.kmag * (cur_k.mx*cur_k.ny-cur_k.my*cur_k.nx);
 	       ASSIGN_SCALAR(field2[ij],
 			     SCALAR_RE(field2[3*ij+0]) * kx +
 			     SCALAR_RE(field2[3*ij+1]) * ky +
@@ -410,9 +410,9 @@ void compute_field_divergence(void)
      scale = TWOPI / H.N;
      N = mdata->fft_output_size;
      for (i = 0; i < N; ++i) {
+	  scalar_complex div = curfield[i];
 	  CASSIGN_SCALAR(curfield[i],
-			 -CSCALAR_IM(curfield[i]) * scale,
-			 CSCALAR_RE(curfield[i]) * scale);
+			 -CSCALAR_IM(div) * scale, CSCALAR_RE(div) * scale);
      }
 
      curfield_type = 'C'; /* complex (Bloch) scalar field */
-- 
2.43.0


From 260cf97707fbb9b5c29dbacba4eb9b3d523bf773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:32 +0000
Subject: [PATCH 08/49] fix: reallocate the workspace when materials become
 (non)magnetic

init_params kept the eigenvectors and workspace of the previous run when
mu appeared or disappeared between runs, although both the number of work
matrices and muinvH depend on it.
---
 mpb/mpb.c | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/mpb/mpb.c b/mpb/mpb.c
index 6341bd1..b0e41a7 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -370,6 +370,20 @@ void set_parity(integer p)
 
 /**************************************************************************/
 
+/* free the eigenvectors and the workspace allocated by init_params */
+static void destroy_fields(void)
+{
+     int i;
+
+     destroy_evectmatrix(H);
+     for (i = 0; i < nwork_alloc; ++i)
+	  destroy_evectmatrix(W[i]);
+     if (Hblock.data != H.data)
+	  destroy_evectmatrix(Hblock);
+     if (muinvH.data != H.data)
+	  destroy_evectmatrix(muinvH);
+}
+
 /* Guile-callable function: init-params, which initializes any data
    that we need for the eigenvalue calculation.  When this function
    is called, the input variables (the geometry, etcetera) have already
@@ -386,7 +400,7 @@ void init_params(integer p, boolean reset_fields)
 {
      int i, local_N, N_start, alloc_N;
      int nx, ny, nz;
-     int have_old_fields = 0;
+     int have_old_fields = 0, had_mu = 0;
      int block_size;
      int max_kpoints_print = (mpb_verbosity >= 2 ?
                               k_points.num_items :
@@ -444,15 +458,9 @@ void init_params(integer p, boolean reset_fields)
 	      block_size == Hblock.alloc_p && num_bands == H.p &&
 	      eigensolver_nwork + (mdata->mu_inv!=NULL) == nwork_alloc)
 	       have_old_fields = 1; /* don't need to reallocate */
-	  else {
-	       destroy_evectmatrix(H);
-	       for (i = 0; i < nwork_alloc; ++i)
-		    destroy_evectmatrix(W[i]);
-	       if (Hblock.data != H.data)
-		    destroy_evectmatrix(Hblock);
-               if (muinvH.data != H.data)
-                   destroy_evectmatrix(muinvH);
-	  }
+	  else
+	       destroy_fields();
+	  had_mu = mdata->mu_inv != NULL;
 	  destroy_maxwell_target_data(mtdata); mtdata = NULL;
 	  destroy_maxwell_data(mdata); mdata = NULL;
 	  curfield_reset();
@@ -480,6 +488,12 @@ void init_params(integer p, boolean reset_fields)
 
      init_epsilon();
 
+     if (have_old_fields && had_mu != (mdata->mu_inv != NULL)) {
+	  /* the workspace depends on whether there are magnetic materials */
+	  destroy_fields();
+	  have_old_fields = 0;
+     }
+
      if (!have_old_fields) {
 	  mpi_one_printf("Allocating fields...\n");
 	  H = create_evectmatrix(nx * ny * nz, 2, num_bands,
-- 
2.43.0


From 9847fcb7856445522b98580c390b4d638b39c86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:32 +0000
Subject: [PATCH 09/49] fix: transform no more bands at a time than the FFT
 buffer holds

maxwell_compute_H_from_B is called with whole blocks of bands (group
velocities, eigenvector products), overrunning the buffer for magnetic
materials and more than NUM_FFT_BANDS bands.
---
 src/maxwell/maxwell_op.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/maxwell/maxwell_op.c b/src/maxwell/maxwell_op.c
index bd8bb76..f110726 100644
--- a/src/maxwell/maxwell_op.c
+++ b/src/maxwell/maxwell_op.c
@@ -559,6 +559,15 @@ void maxwell_compute_H_from_B(maxwell_data *d, evectmatrix Bin,
          return;
      }
      
+     /* hfield has no space for more than max_fft_bands at a time: */
+     while (cur_num_bands > d->max_fft_bands) {
+	  maxwell_compute_H_from_B(d, Bin, Hout, hfield, Bin_band_start,
+				   Hout_band_start, d->max_fft_bands);
+	  Bin_band_start += d->max_fft_bands;
+	  Hout_band_start += d->max_fft_bands;
+	  cur_num_bands -= d->max_fft_bands;
+     }
+
      maxwell_compute_h_from_H(d, Bin, hfield, Bin_band_start, cur_num_bands);
      maxwell_compute_e_from_d_(d, hfield, cur_num_bands, d->mu_inv);
      
-- 
2.43.0


From 78e681a85a4da2ac2985407fe2430604b360b43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:06 +0000
Subject: [PATCH 10/49] fix: group velocities must not overwrite magnetic
 eigenvectors

With mu, all bands in one block and Hblock an alias of H,
compute_group_velocity_component replaced the eigenvectors (B) by H in
place, so every later query and k-point used a wrong state.
---
 mpb/mpb.c | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/mpb/mpb.c b/mpb/mpb.c
index b0e41a7..525be1a 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -887,6 +887,7 @@ number_list compute_group_velocity_component(vector3 d)
      real *gv_scratch;
      real u[3];
      int i, ib;
+     evectmatrix *Hb = &Hblock;
 
      group_v.num_items = 0;  group_v.items = (number *) NULL;
 
@@ -901,6 +902,10 @@ number_list compute_group_velocity_component(vector3 d)
 	  return group_v;
      }
 
+     /* don't overwrite the eigenvectors (B) with H if Hblock is just H: */
+     if (mdata->mu_inv != NULL && Hblock.data == H.data)
+	  Hb = &W[1];
+
      /* convert d to unit vector in Cartesian coords: */
      d = unit_vector3(matrix3x3_vector3_mult(Gm, d));
      u[0] = d.x; u[1] = d.y; u[2] = d.z;
@@ -914,21 +919,21 @@ number_list compute_group_velocity_component(vector3 d)
      /* ...we have to do this in blocks of eigensolver_block_size since
 	the work matrix W[0] may not have enough space to do it all at once. */
 
-     for (ib = 0; ib < num_bands; ib += Hblock.alloc_p) {
+     for (ib = 0; ib < num_bands; ib += Hb->alloc_p) {
 	  if (ib + mdata->num_bands > num_bands) {
 	       maxwell_set_num_bands(mdata, num_bands - ib);
 	       evectmatrix_resize(&W[0], num_bands - ib, 0);
-	       evectmatrix_resize(&Hblock, num_bands - ib, 0);
+	       evectmatrix_resize(Hb, num_bands - ib, 0);
 	  }
-          maxwell_compute_H_from_B(mdata, H, Hblock,
+          maxwell_compute_H_from_B(mdata, H, *Hb,
                                    (scalar_complex *) mdata->fft_data,
-                                   ib, 0, Hblock.p);
-	  maxwell_ucross_op(Hblock, W[0], mdata, u);
-	  evectmatrix_XtY_diag_real(Hblock, W[0], gv_scratch,
+                                   ib, 0, Hb->p);
+	  maxwell_ucross_op(*Hb, W[0], mdata, u);
+	  evectmatrix_XtY_diag_real(*Hb, W[0], gv_scratch,
 				    gv_scratch + group_v.num_items);
 	  {
 	       int ip;
-	       for (ip = 0; ip < Hblock.p; ++ip)
+	       for (ip = 0; ip < Hb->p; ++ip)
 		    group_v.items[ib + ip] = gv_scratch[ip];
 	  }
      }
@@ -936,9 +941,9 @@ number_list compute_group_velocity_component(vector3 d)
      free(gv_scratch);
 
      /* Reset scratch matrix sizes: */
-     evectmatrix_resize(&Hblock, Hblock.alloc_p, 0);
+     evectmatrix_resize(Hb, Hb->alloc_p, 0);
      evectmatrix_resize(&W[0], W[0].alloc_p, 0);
-     maxwell_set_num_bands(mdata, Hblock.alloc_p);
+     maxwell_set_num_bands(mdata, Hb->alloc_p);
 
      /* The group velocity is given by:
 
-- 
2.43.0


From 328653c4968a742fe49a1bedc45daf1ed9f02990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:17 +0000
Subject: [PATCH 11/49] fix: dot-eigenvectors with mu invalidates the current
 field

It uses the storage of the current field as FFT scratch, so leave no
current field behind instead of garbage that still passes for one.
---
 mpb/matrix-smob.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpb/matrix-smob.c b/mpb/matrix-smob.c
index da83721..f30f246 100644
--- a/mpb/matrix-smob.c
+++ b/mpb/matrix-smob.c
@@ -306,6 +306,8 @@ SCM dot_eigenvectors(SCM mo, integer b_start)
          sqmatrix S1 = create_sqmatrix(m->p);
          sqmatrix S2 = create_sqmatrix(m->p);
 
+         curfield_reset(); /* curfield storage is used as FFT scratch */
+
          for (ib = b_start-1; ib < final_band; ib += W[0].alloc_p) {
              if (ib + W[0].alloc_p > final_band) {
                  maxwell_set_num_bands(mdata, final_band - ib);
-- 
2.43.0


From 336558f03636394ceea6a35dfa2fb7e682070b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:18 +0000
Subject: [PATCH 12/49] fix: conjugate complex scalar fields at mirrored points
 in mpbi integrals

---
 mpb/field-smob.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpb/field-smob.c b/mpb/field-smob.c
index 2e568f3..9ef2c2a 100644
--- a/mpb/field-smob.c
+++ b/mpb/field-smob.c
@@ -596,8 +596,9 @@ cnumber integrate_fieldL(function f, SCM_list fields)
 					    pf[ifield]->f.rs[index]);
 				       break;
 				  case CSCALAR_FIELD_SMOB:
-				       item = cnumber2scm(cscalar2cnumber(
-					    pf[ifield]->f.cs[index]));
+				       item = cnumber2scm(cnumber_conj(
+					    cscalar2cnumber(
+						 pf[ifield]->f.cs[index])));
 				       break;
 				  case CVECTOR_FIELD_SMOB:
 				       item = cvector32scm(
-- 
2.43.0


From 83b336dad678445b18fa685960d718f0c8f8a2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:18 +0000
Subject: [PATCH 13/49] fix: the current field object recognizes the mu
 function as a scalar field

---
 mpb/field-smob.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpb/field-smob.c b/mpb/field-smob.c
index 9ef2c2a..31e9359 100644
--- a/mpb/field-smob.c
+++ b/mpb/field-smob.c
@@ -143,7 +143,7 @@ field_smob *update_curfield_smob(void)
 	  curfield_smob.type = CVECTOR_FIELD_SMOB;
 	  curfield_smob.f.cv = curfield;
      }
-     else if (strchr("DHBnR", curfield_type)) { /* real scalar field */
+     else if (strchr("DHBnmR", curfield_type)) { /* real scalar field */
 	  curfield_smob.type = RSCALAR_FIELD_SMOB;
 	  curfield_smob.f.rs = (real *) curfield;
      }
-- 
2.43.0


From 08227d54a12f870bd367000df8cadc05f608e632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:25 +0000
Subject: [PATCH 14/49] fix: leave room for the extra work matrix of magnetic
 runs

init_params allocates eigensolver-nwork + 1 work matrices when there is
mu, one more than W holds when eigensolver-nwork is at its maximum.
---
 mpb/mpb.c | 2 +-
 mpb/mpb.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpb/mpb.c b/mpb/mpb.c
index 525be1a..d4b41c3 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -240,7 +240,7 @@ int nwork_alloc = 0;
 
 maxwell_data *mdata = NULL;
 maxwell_target_data *mtdata = NULL;
-evectmatrix H, W[MAX_NWORK], Hblock, muinvH;
+evectmatrix H, W[MAX_NWORK + 1], Hblock, muinvH;
 
 vector3 cur_kvector;
 scalar_complex *curfield = NULL;
diff --git a/mpb/mpb.h b/mpb/mpb.h
index 2e2187c..19956cd 100644
--- a/mpb/mpb.h
+++ b/mpb/mpb.h
@@ -53,7 +53,7 @@ extern int nwork_alloc;
 
 extern maxwell_data *mdata;
 extern maxwell_target_data *mtdata;
-extern evectmatrix H, W[MAX_NWORK], Hblock;
+extern evectmatrix H, W[MAX_NWORK + 1], Hblock; /* W: 1 extra for mu */
 
 extern vector3 cur_kvector;
 extern scalar_complex *curfield;
-- 
2.43.0


From d4be4ab7a250bf0b5417921ffad4e1e356514fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:10 +0000
Subject: [PATCH 15/49] fix: mirror the upper boundary of interpolated grids
 about r = 1

Coordinates just beyond 1 were mapped to just below zero, i.e. the other
end of the grid, both in the interpolation and in its adjoint.
---
 mpb/epsilon_file.c  | 6 +++---
 mpb/material_grid.c | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mpb/epsilon_file.c b/mpb/epsilon_file.c
index 5774780..8ab2889 100644
--- a/mpb/epsilon_file.c
+++ b/mpb/epsilon_file.c
@@ -55,9 +55,9 @@ real linear_interpolate(real rx, real ry, real rz,
      real dx, dy, dz;
 
      /* mirror boundary conditions for r just beyond the boundary */
-     if (rx < 0.0) rx = -rx; else if (rx > 1.0) rx = 1.0 - rx;
-     if (ry < 0.0) ry = -ry; else if (ry > 1.0) ry = 1.0 - ry;
-     if (rz < 0.0) rz = -rz; else if (rz > 1.0) rz = 1.0 - rz;
+     if (rx < 0.0) rx = -rx; else if (rx > 1.0) rx = 2.0 - rx;
+     if (ry < 0.0) ry = -ry; else if (ry > 1.0) ry = 2.0 - ry;
+     if (rz < 0.0) rz = -rz; else if (rz > 1.0) rz = 2.0 - rz;
 
      /* get the point corresponding to r in the epsilon array grid: */
      x = rx * nx; if (x == nx) --x;
diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index c0e2de4..7648ac7 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -257,9 +257,9 @@ static void add_interpolate_weights(real rx, real ry, real rz, real *data,
      real dx, dy, dz, u;
 
      /* mirror boundary conditions for r just beyond the boundary */
-     if (rx < 0.0) rx = -rx; else if (rx > 1.0) rx = 1.0 - rx;
-     if (ry < 0.0) ry = -ry; else if (ry > 1.0) ry = 1.0 - ry;
-     if (rz < 0.0) rz = -rz; else if (rz > 1.0) rz = 1.0 - rz;
+     if (rx < 0.0) rx = -rx; else if (rx > 1.0) rx = 2.0 - rx;
+     if (ry < 0.0) ry = -ry; else if (ry > 1.0) ry = 2.0 - ry;
+     if (rz < 0.0) rz = -rz; else if (rz > 1.0) rz = 2.0 - rz;
 
      /* get the point corresponding to r in the epsilon array grid: */
      x = rx * nx; if (x == nx) --x;
-- 
2.43.0


From 1b778002d8921fad62239a24891bd8c9ee5b4f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:10 +0000
Subject: [PATCH 16/49] fix: span the whole cell with a default material grid

Positions are measured from the center of the cell, so a grid used as the
default material had only half of its values mapped, mirrored about the
center.
---
 mpb/material_grid.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index 7648ac7..c58f506 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -115,9 +115,9 @@ double matgrid_val(vector3 p, geom_box_tree tp, int oi,
 		   compatible_matgrids(mg, &tp->objects[oi].o->material));
      }
      if (!tp && compatible_matgrids(mg, &default_material)) {
-	  p.x = no_size_x ? 0 : p.x / geometry_lattice.size.x;
-	  p.y = no_size_y ? 0 : p.y / geometry_lattice.size.y;
-	  p.z = no_size_z ? 0 : p.z / geometry_lattice.size.z;
+	  p.x = no_size_x ? 0 : 0.5 + p.x / geometry_lattice.size.x;
+	  p.y = no_size_y ? 0 : 0.5 + p.y / geometry_lattice.size.y;
+	  p.z = no_size_z ? 0 : 0.5 + p.z / geometry_lattice.size.z;
 	  u = material_grid_val(p,
 				default_material.subclass.material_grid_data);
 	  if (u < umin) umin = u;
@@ -372,9 +372,9 @@ static void material_grids_addgradient_point(double *v,
 				   * grids[i].size.z);
 	  }
 	  CHECK(i < ngrids, "bug in material_grid_gradient_point");
-	  pb.x = no_size_x ? 0 : p.x / geometry_lattice.size.x;
-	  pb.y = no_size_y ? 0 : p.y / geometry_lattice.size.y;
-	  pb.z = no_size_z ? 0 : p.z / geometry_lattice.size.z;
+	  pb.x = no_size_x ? 0 : 0.5 + p.x / geometry_lattice.size.x;
+	  pb.y = no_size_y ? 0 : 0.5 + p.y / geometry_lattice.size.y;
+	  pb.z = no_size_z ? 0 : 0.5 + p.z / geometry_lattice.size.z;
 	  ucur = material_grid_array(grids+i);
 	  add_interpolate_weights(pb.x, pb.y, pb.z,
 				  vcur, sz.x, sz.y, sz.z, 1, scalegrad,
@@ -597,9 +597,9 @@ void print_material_grids_deps_du(void)
 				   * grids[ig].size.z);
 	  }
 	  CHECK(ig < ngrids, "bug in material_grid_gradient_point");
-	  pb.x = no_size_x ? 0 : p.x / geometry_lattice.size.x;
-	  pb.y = no_size_y ? 0 : p.y / geometry_lattice.size.y;
-	  pb.z = no_size_z ? 0 : p.z / geometry_lattice.size.z;
+	  pb.x = no_size_x ? 0 : 0.5 + p.x / geometry_lattice.size.x;
+	  pb.y = no_size_y ? 0 : 0.5 + p.y / geometry_lattice.size.y;
+	  pb.z = no_size_z ? 0 : 0.5 + p.z / geometry_lattice.size.z;
 	  ucur = material_grid_array(grids+ig);
 	  add_interpolate_weights(pb.x, pb.y, pb.z,
 				  vcur, sz.x, sz.y, sz.z, 1, scalegrad,
-- 
2.43.0


From 8fd04d64c95cbd9787efcb599a0f6389bfdf77d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:25 +0000
Subject: [PATCH 17/49] fix: sum the printed material-grid gradients over
 processes

---
 mpb/material_grid.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index c58f506..bda5c74 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -462,12 +462,15 @@ void print_material_grids_gradient(integer band)
      int ngrids;
      material_grid *grids = get_material_grids(geometry, &ngrids);
      int i, ntot = material_grids_ntot(grids, ngrids);
+     double *work = (double *) malloc(sizeof(double) * ntot);
      double *grad = (double *) malloc(sizeof(double) * ntot);
-     for (i = 0; i < ntot; ++i) grad[i] = 0;
-     material_grids_addgradient(grad, 1.0, band, grids, ngrids);
+     for (i = 0; i < ntot; ++i) work[i] = 0;
+     material_grids_addgradient(work, 1.0, band, grids, ngrids);
+     mpi_allreduce(work, grad, ntot, double, MPI_DOUBLE, MPI_SUM, mpb_comm);
      for (i = 0; i < ntot; ++i)
 	  mpi_one_printf(", %g", grad[i]);
      free(grad);
+     free(work);
      free(grids);
 }
 
@@ -483,7 +486,7 @@ number material_grids_approx_gradient(vector3 kpoint, integer band,
      f0 = freqs.items[band-1];
      for (i = 0; i < ntot; ++i) u[i] = 0;
      material_grids_addgradient(u, 1.0, band, grids, ngrids);
-     dfdu = u[iu];
+     mpi_allreduce(&u[iu], &dfdu, 1, double, MPI_DOUBLE, MPI_SUM, mpb_comm);
      material_grids_get(u, grids, ngrids);
      u[iu] += du;
      material_grids_set(u, grids, ngrids);
-- 
2.43.0


From a3ac1ea05522c0f6f68858b5f81ad00f3c8f0894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:15 +0000
Subject: [PATCH 18/49] fix: get-hfield returns B/mu, including its
 longitudinal part

For magnetic materials only the divergence-free part of H was loaded.
---
 mpb/fields.c          | 11 +++--------
 src/maxwell/maxwell.h |  4 ++++
 2 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index e2436ac..47b8fd7 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -127,14 +127,9 @@ void get_hfield(integer which_band)
      curfield = (scalar_complex *) mdata->fft_data;
      curfield_band = which_band;
      curfield_type = 'h';
-     if (mdata->mu_inv == NULL)
-         maxwell_compute_h_from_H(mdata, H, curfield, which_band - 1, 1);
-     else {
-         evectmatrix_resize(&W[0], 1, 0);
-         maxwell_compute_H_from_B(mdata, H, W[0], curfield, which_band-1,0, 1);
-         maxwell_compute_h_from_H(mdata, W[0], curfield, 0, 1);
-         evectmatrix_resize(&W[0], W[0].alloc_p, 0);
-     }
+     maxwell_compute_h_from_H(mdata, H, curfield, which_band - 1, 1); /* B */
+     if (mdata->mu_inv != NULL)
+         maxwell_compute_e_from_d_(mdata, curfield, 1, mdata->mu_inv);
 
      /* Divide by the cell volume so that the integral of H*B
         or of D*E is unity.  (From the eigensolver + FFT, they are
diff --git a/src/maxwell/maxwell.h b/src/maxwell/maxwell.h
index 7e42f2b..c9f22a0 100644
--- a/src/maxwell/maxwell.h
+++ b/src/maxwell/maxwell.h
@@ -183,6 +183,10 @@ extern void maxwell_compute_H_from_B(maxwell_data *d, evectmatrix Bin,
                                      evectmatrix Hout, scalar_complex *hfield,
                                      int Bin_band_start, int Hout_band_start,
                                      int cur_num_bands);
+extern void maxwell_compute_e_from_d_(maxwell_data *d,
+				      scalar_complex *dfield,
+				      int cur_num_bands,
+				      symmetric_matrix *eps_inv_);
 extern void maxwell_compute_e_from_d(maxwell_data *d,
 				     scalar_complex *dfield,
 				     int cur_num_bands);
-- 
2.43.0


From d2a44ad3d1d2118cee09b321ee5b1bac450f7286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:15 +0000
Subject: [PATCH 19/49] fix: Bloch phase of point queries along dimensions of
 no size

---
 mpb/fields.c | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index 47b8fd7..2097f63 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -710,6 +710,16 @@ void get_bloch_field_point_(scalar_complex field[3], vector3 p)
      field[2] = f_interp_cval(p, mdata, &curfield[2].re, 6);
 }
 
+/* phase of the current Bloch wave at p; a no-size dimension has the
+   length of its basis vector, as in the reciprocal lattice */
+static double bloch_phase(vector3 p)
+{
+     return TWOPI *
+	  (cur_kvector.x * (no_size_x ? p.x : p.x/geometry_lattice.size.x) +
+	   cur_kvector.y * (no_size_y ? p.y : p.y/geometry_lattice.size.y) +
+	   cur_kvector.z * (no_size_z ? p.z : p.z/geometry_lattice.size.z));
+}
+
 cvector3 get_bloch_field_point(vector3 p)
 {
      scalar_complex field[3];
@@ -728,10 +738,7 @@ cvector3 get_field_point(vector3 p)
      get_bloch_field_point_(field, p);
 
      if (curfield_type != 'v') {
-	  double phase_phi = TWOPI *
-	       (cur_kvector.x * (p.x/geometry_lattice.size.x) +
-		cur_kvector.y * (p.y/geometry_lattice.size.y) +
-		cur_kvector.z * (p.z/geometry_lattice.size.z));
+	  double phase_phi = bloch_phase(p);
 	  CASSIGN_SCALAR(phase, cos(phase_phi), sin(phase_phi));
 	  CASSIGN_MULT(field[0], field[0], phase);
 	  CASSIGN_MULT(field[1], field[1], phase);
@@ -761,10 +768,7 @@ cnumber get_cscalar_point(vector3 p)
 
      if (curfield_type == 'C') {
 	  scalar_complex phase;
-	  double phase_phi = TWOPI *
-	       (cur_kvector.x * (p.x/geometry_lattice.size.x) +
-		cur_kvector.y * (p.y/geometry_lattice.size.y) +
-		cur_kvector.z * (p.z/geometry_lattice.size.z));
+	  double phase_phi = bloch_phase(p);
 	  CASSIGN_SCALAR(phase, cos(phase_phi), sin(phase_phi));
 	  CASSIGN_MULT(s, s, phase);
      }
@@ -810,10 +814,7 @@ cvector3 cvector_field_get_point(SCM fo, vector3 p)
 
      if (f->type_char != 'v') { /* v fields have no kvector */
 	  scalar_complex phase;
-	  double phase_phi = TWOPI *
-	       (cur_kvector.x * (p.x/geometry_lattice.size.x) +
-		cur_kvector.y * (p.y/geometry_lattice.size.y) +
-		cur_kvector.z * (p.z/geometry_lattice.size.z));
+	  double phase_phi = bloch_phase(p);
 	  CASSIGN_SCALAR(phase, cos(phase_phi), sin(phase_phi));
 	  CASSIGN_MULT(field[0], field[0], phase);
 	  CASSIGN_MULT(field[1], field[1], phase);
@@ -845,10 +846,7 @@ cnumber cscalar_field_get_point(SCM fo, vector3 p)
 
      if (f->type_char == 'C') { /* have kvector */
 	  scalar_complex phase;
-	  double phase_phi = TWOPI *
-	       (cur_kvector.x * (p.x/geometry_lattice.size.x) +
-		cur_kvector.y * (p.y/geometry_lattice.size.y) +
-		cur_kvector.z * (p.z/geometry_lattice.size.z));
+	  double phase_phi = bloch_phase(p);
 	  CASSIGN_SCALAR(phase, cos(phase_phi), sin(phase_phi));
 	  CASSIGN_MULT(s, s, phase);
      }
-- 
2.43.0


From e78e693732c95c329312a2295736575ec19eda36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:19 +0000
Subject: [PATCH 20/49] fix: phase fixing and output of a loaded field used
 band 0 or a band out of range

---
 mpb/fields.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index 2097f63..b0a1f83 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -533,6 +533,7 @@ void fix_field_phase(void)
 	  curfield[i].re = a*SCALAR_RE(phase) - b*SCALAR_IM(phase);
 	  curfield[i].im = a*SCALAR_IM(phase) + b*SCALAR_RE(phase);
      }
+     if (curfield_band >= 1 && curfield_band <= H.p) /* else: loaded field */
      for (i = 0; i < H.n; ++i) {
           ASSIGN_MULT(H.data[i*H.p + curfield_band - 1],
 		      H.data[i*H.p + curfield_band - 1], phase);
@@ -986,6 +987,14 @@ static void output_scalarfield(real *vals,
 	  matrixio_close_dataset(data_id);
 }
 
+/* frequency of the band of curfield, or 0 if it is not one of the bands
+   (e.g. for a field loaded by field-load) */
+static number curfield_freq(void)
+{
+     return curfield_band >= 1 && curfield_band <= freqs.num_items
+	  ? freqs.items[curfield_band - 1] : 0;
+}
+
 /* given the field in curfield, store it to HDF (or whatever) using
    the matrixio (fieldio) routines.  Allow the component to be specified
    (which_component 0/1/2 = x/y/z, -1 = all) for vector fields.
@@ -1103,7 +1112,7 @@ void output_field_to_file(integer which_component, string filename_prefix)
 	  }
 	  sprintf(description, "%c field, kpoint %d, band %d, freq=%g",
 		  curfield_type, kpoint_index, curfield_band,
-		  freqs.items[curfield_band - 1]);
+		  curfield_freq());
 	  fname2 = fix_fname(fname, filename_prefix, mdata, 1);
 	  mpi_one_printf("Outputting fields to %s...\n", fname2);
 	  file_id = matrixio_create(fname2);
@@ -1156,7 +1165,7 @@ void output_field_to_file(integer which_component, string filename_prefix)
 		  curfield_type, kpoint_index, curfield_band);
 	  sprintf(description, "%c field, kpoint %d, band %d, freq=%g",
 		  curfield_type, kpoint_index, curfield_band,
-		  freqs.items[curfield_band - 1]);
+		  curfield_freq());
 	  fname2 = fix_fname(fname, filename_prefix, mdata, 1);
 	  mpi_one_printf("Outputting complex scalar field to %s...\n", fname2);
 	  file_id = matrixio_create(fname2);
@@ -1216,7 +1225,7 @@ void output_field_to_file(integer which_component, string filename_prefix)
 	       sprintf(description,
 		       "%c field energy density, kpoint %d, band %d, freq=%g",
 		       curfield_type, kpoint_index, curfield_band,
-		       freqs.items[curfield_band - 1]);
+		       curfield_freq());
 	  }
 	  fname2 = fix_fname(fname, filename_prefix, mdata,
 			     /* no parity suffix for epsilon: */
-- 
2.43.0


From b036420500b56698fdb861dd1dd7668a26fd7e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:56 +0000
Subject: [PATCH 21/49] fix: compute-field-divergence before init-params
 crashed

---
 mpb/fields.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index b0a1f83..13ac188 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -367,14 +367,14 @@ void compute_field_squared(void)
 void compute_field_divergence(void)
 {
      int i, j, N;
-     scalar *field = (scalar *) curfield;
-     scalar *field2 = mdata->fft_data == mdata->fft_data2 ? field : (field == mdata->fft_data ? mdata->fft_data2 : mdata->fft_data);
+     scalar *field = (scalar *) curfield, *field2;
      real scale;
 
      if (!curfield || !strchr("dhbec", curfield_type)) {
           mpi_one_fprintf(stderr, "A Bloch-periodic field must be loaded.\n");
           return;
      }
+     field2 = mdata->fft_data == mdata->fft_data2 ? field : (field == mdata->fft_data ? mdata->fft_data2 : mdata->fft_data);
 
      /* convert back to Fourier space */
      maxwell_compute_fft(-1, mdata, field, field2, 3, 3, 1);
-- 
2.43.0


From cba25a9fb3d1aff5449974fa0ce48323c609a9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 22/49] fix: Bloch phase of symmetry overlaps along dimensions
 of no size

---
 mpb/transform.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpb/transform.c b/mpb/transform.c
index a84f605..98a770b 100644
--- a/mpb/transform.c
+++ b/mpb/transform.c
@@ -110,9 +110,9 @@ cnumber transformed_overlap(matrix3x3 W, vector3 w)
                         matrix3x3_inverse(geometry_lattice.basis));
 
     /* hoist rescalings outside the loop (maybe licm takes care of it, but do it anyway) */
-    kvector.x *= TWOPI/geometry_lattice.size.x;
-    kvector.y *= TWOPI/geometry_lattice.size.y;
-    kvector.z *= TWOPI/geometry_lattice.size.z;
+    kvector.x *= TWOPI/(no_size_x ? 1 : geometry_lattice.size.x);
+    kvector.y *= TWOPI/(no_size_y ? 1 : geometry_lattice.size.y);
+    kvector.z *= TWOPI/(no_size_z ? 1 : geometry_lattice.size.z);
 
     /* loop over coordinates (introduces int vars `i1`, `i2`, `i3`, `xyz_index`) */
     LOOP_XYZ(mdata) { /* implies two opening braces `{{` */
-- 
2.43.0


From bcfd423a55eb05f9d7d8a1a2ad221c341059469d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 23/49] fix: parity, group-velocity and symmetry queries before
 init-params or with a bad band read undefined memory

---
 mpb/mpb.c       | 5 ++++-
 mpb/transform.c | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/mpb/mpb.c b/mpb/mpb.c
index d4b41c3..103b840 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -862,6 +862,7 @@ void solve_kpoint(vector3 kvector)
 number_list compute_zparities(void)
 {
      number_list z_parity;
+     CHECK(mdata, "init-params must be called before compute-zparities");
      z_parity.num_items = num_bands;
      z_parity.items = maxwell_zparity(H, mdata);
      return z_parity;
@@ -870,6 +871,7 @@ number_list compute_zparities(void)
 number_list compute_yparities(void)
 {
      number_list y_parity;
+     CHECK(mdata, "init-params must be called before compute-yparities");
      y_parity.num_items = num_bands;
      y_parity.items = maxwell_yparity(H, mdata);
      return y_parity;
@@ -970,7 +972,7 @@ number compute_1_group_velocity_component(vector3 d, integer b)
 {
      real u[3];
      int ib = b - 1;
-     real group_v, scratch;
+     real group_v = 0, scratch;
 
      curfield_reset();
 
@@ -982,6 +984,7 @@ number compute_1_group_velocity_component(vector3 d, integer b)
 	  mpi_one_fprintf(stderr, "solve-kpoint must be called first!\n");
 	  return group_v;
      }
+     CHECK(b >= 1 && b <= H.p, "invalid band number for group velocity");
 
      /* convert d to unit vector in Cartesian coords: */
      d = unit_vector3(matrix3x3_vector3_mult(Gm, d));
diff --git a/mpb/transform.c b/mpb/transform.c
index 98a770b..cf4d608 100644
--- a/mpb/transform.c
+++ b/mpb/transform.c
@@ -190,6 +190,9 @@ cnumber transformed_overlap(matrix3x3 W, vector3 w)
 cnumber compute_symmetry(int which_band, matrix3x3 W, vector3 w)
 {
     cnumber symval;
+    CHECK(mdata, "init-params must be called before compute-symmetry");
+    CHECK(which_band >= 1 && which_band <= H.p,
+	  "invalid band number in compute-symmetry");
     get_bfield(which_band);
     symval = transformed_overlap(W, w);
 
-- 
2.43.0


From edee50cdbc8d9384905e5204daa92a283d9c74a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:44 +0000
Subject: [PATCH 24/49] fix: scale-eigenvector accepted imaginary scales in
 mpbi and zeroed the band

---
 mpb/matrix-smob.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpb/matrix-smob.c b/mpb/matrix-smob.c
index f30f246..c5dfd53 100644
--- a/mpb/matrix-smob.c
+++ b/mpb/matrix-smob.c
@@ -342,7 +342,7 @@ void scale_eigenvector(integer b, cnumber scale)
      CHECK(b > 0 && b <= H.p, "invalid band number in scale-eigenvector");
 
 #ifndef SCALAR_COMPLEX
-     CHECK(fabs(cnumber_im(scale) * cnumber_re(scale)) < 1e-14,
+     CHECK(fabs(cnumber_im(scale)) <= 1e-14 * fabs(cnumber_re(scale)),
 	   "scale-eigenvector must be called with real argument in mpbi");
 #endif
      ASSIGN_SCALAR(s, cnumber_re(scale), cnumber_im(scale));
-- 
2.43.0


From aa483242538e6c27959f59a4be46af36a4d190b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:10 +0000
Subject: [PATCH 25/49] fix: group velocities of magnetic structures ignored
 the longitudinal part of H

---
 mpb/mpb.c                | 10 ++++++++--
 src/maxwell/maxwell.h    |  3 +++
 src/maxwell/maxwell_op.c | 43 ++++++++++++++++++++++++++++++++++++++++
 3 files changed, 54 insertions(+), 2 deletions(-)

diff --git a/mpb/mpb.c b/mpb/mpb.c
index 103b840..d9a4124 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -930,7 +930,10 @@ number_list compute_group_velocity_component(vector3 d)
           maxwell_compute_H_from_B(mdata, H, *Hb,
                                    (scalar_complex *) mdata->fft_data,
                                    ib, 0, Hb->p);
-	  maxwell_ucross_op(*Hb, W[0], mdata, u);
+	  if (mdata->mu_inv)
+	       maxwell_ucross_op_B(H, ib, W[0], mdata, u);
+	  else
+	       maxwell_ucross_op(*Hb, W[0], mdata, u);
 	  evectmatrix_XtY_diag_real(*Hb, W[0], gv_scratch,
 				    gv_scratch + group_v.num_items);
 	  {
@@ -997,7 +1000,10 @@ number compute_1_group_velocity_component(vector3 d, integer b)
      maxwell_compute_H_from_B(mdata, H, W[1],
                               (scalar_complex *) mdata->fft_data,
                               ib, 0, 1);
-     maxwell_ucross_op(W[1], W[0], mdata, u);
+     if (mdata->mu_inv)
+	  maxwell_ucross_op_B(H, ib, W[0], mdata, u);
+     else
+	  maxwell_ucross_op(W[1], W[0], mdata, u);
      evectmatrix_XtY_diag_real(W[1], W[0], &group_v, &scratch);
 
      /* Reset scratch matrix sizes: */
diff --git a/src/maxwell/maxwell.h b/src/maxwell/maxwell.h
index c9f22a0..1762702 100644
--- a/src/maxwell/maxwell.h
+++ b/src/maxwell/maxwell.h
@@ -221,6 +221,9 @@ extern void maxwell_preconditioner2(evectmatrix Xin, evectmatrix Xout,
 
 extern void maxwell_ucross_op(evectmatrix Xin, evectmatrix Xout,
 			      maxwell_data *d, const real u[3]);
+extern void maxwell_ucross_op_B(evectmatrix Bin, int Bin_band_start,
+				evectmatrix Xout,
+				maxwell_data *d, const real u[3]);
 
 extern void maxwell_parity_constraint(evectmatrix X, void *data);
 extern void maxwell_zparity_constraint(evectmatrix X, void *data);
diff --git a/src/maxwell/maxwell_op.c b/src/maxwell/maxwell_op.c
index f110726..66f9518 100644
--- a/src/maxwell/maxwell_op.c
+++ b/src/maxwell/maxwell_op.c
@@ -1341,3 +1341,46 @@ void maxwell_ucross_op(evectmatrix Xin, evectmatrix Xout,
                                    cur_band_start, cur_num_bands, scale);
      }
 }
+
+/* As maxwell_ucross_op, but for magnetic materials: Xout =
+   curl 1/epsilon * i u x 1/mu * Bin, for the bands of Bin from
+   Bin_band_start on.  Here, u x H also needs the longitudinal part
+   of H = B/mu, which is missing from the transverse H matrices. */
+void maxwell_ucross_op_B(evectmatrix Bin, int Bin_band_start,
+			 evectmatrix Xout, maxwell_data *d, const real u[3])
+{
+     scalar_complex *cdata;
+     real scale;
+     int cur_band_start;
+     int i;
+
+     CHECK(d && d->mu_inv, "null maxwell data pointer!");
+
+     cdata = (scalar_complex *) d->fft_data;
+     scale = -1.0 / Xout.N; /* as in maxwell_ucross_op */
+
+     for (cur_band_start = 0; cur_band_start < Xout.p;
+          cur_band_start += d->num_fft_bands) {
+          int cur_num_bands = MIN2(d->num_fft_bands, Xout.p - cur_band_start);
+
+	  maxwell_compute_h_from_H(d, Bin, cdata,
+				   Bin_band_start + cur_band_start,
+				   cur_num_bands);
+	  maxwell_compute_e_from_d_(d, cdata, cur_num_bands, d->mu_inv);
+
+	  for (i = 0; i < d->fft_output_size * cur_num_bands; ++i) {
+	       scalar_complex *f = cdata + 3*i, h[3];
+	       h[0] = f[0]; h[1] = f[1]; h[2] = f[2];
+	       CASSIGN_SCALAR(f[0], u[1] * h[2].re - u[2] * h[1].re,
+			      u[1] * h[2].im - u[2] * h[1].im);
+	       CASSIGN_SCALAR(f[1], u[2] * h[0].re - u[0] * h[2].re,
+			      u[2] * h[0].im - u[0] * h[2].im);
+	       CASSIGN_SCALAR(f[2], u[0] * h[1].re - u[1] * h[0].re,
+			      u[0] * h[1].im - u[1] * h[0].im);
+	  }
+
+          maxwell_compute_e_from_d(d, cdata, cur_num_bands);
+          maxwell_compute_H_from_e(d, Xout, cdata,
+                                   cur_band_start, cur_num_bands, scale);
+     }
+}
-- 
2.43.0


From 1e54312268ecf2743d5335e9a0797e63bbd0d1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:01 +0000
Subject: [PATCH 26/49] fix: randomize-fields? destroyed the states before the
 band functions saw them

---
 mpb/mpb.scm.in | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpb/mpb.scm.in b/mpb/mpb.scm.in
index 9171c1c..39fde00 100644
--- a/mpb/mpb.scm.in
+++ b/mpb/mpb.scm.in
@@ -611,7 +611,7 @@
 (define (run-parity p reset-fields . band-functions)
  (if (and randomize-fields?
           (not (member randomize-fields band-functions)))
-     (set! band-functions (cons randomize-fields band-functions)))
+     (set! band-functions (append band-functions (list randomize-fields))))
  (set! total-run-time (+ total-run-time
   (begin-time "total elapsed time for run: "
    (set! all-freqs '())
-- 
2.43.0


From 3994494b4a2cb23a1afe312ceb95ba2867d93091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:16 +0000
Subject: [PATCH 27/49] fix: multiply an exported complex scalar field by the
 Bloch phase of its own grid points

fieldio_write_complex_field assumed three components per point, so that a
scalar (the charge density) was multiplied by the phases of other points
and memory beyond the field was modified.
---
 src/matrixio/fieldio.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/matrixio/fieldio.c b/src/matrixio/fieldio.c
index 580ff47..6175c11 100644
--- a/src/matrixio/fieldio.c
+++ b/src/matrixio/fieldio.c
@@ -85,14 +85,16 @@ void fieldio_write_complex_field(scalar_complex *field,
 		    py.im = px.re * im + px.im * re;
 		    
 		    for (k = 0; k < local_dims[2]; ++k) {
-			 int ijk = ((i*local_dims[1] + j)*local_dims[2] + k)*3;
+			 int ijk = ((i*local_dims[1] + j)*local_dims[2] + k)
+			      * num_components;
 			 real p_re, p_im;
 			 real re = phasez[k].re, im = phasez[k].im;
 			 
 			 p_re = py.re * re - py.im * im;
 			 p_im = py.re * im + py.im * re;
 			 
-			 for (component = 0; component < 3; ++component) {
+			 for (component = 0; component < num_components;
+			      ++component) {
 			      int ijkc = ijk + component;
 			      re = field[ijkc].re; im = field[ijkc].im;
 			      field[ijkc].re = re * p_re - im * p_im;
-- 
2.43.0


From 180035172a858c2135b4fd05777a9dbc9e9ad9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:16 +0000
Subject: [PATCH 28/49] fix: stop when an HDF5 data set or attribute cannot be
 written

The results of creating, writing and closing data sets and attributes were
ignored, so that a run on a full disk could leave incomplete files behind
and still exit successfully.
---
 src/matrixio/matrixio.c | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/matrixio/matrixio.c b/src/matrixio/matrixio.c
index fb3e298..99214f7 100644
--- a/src/matrixio/matrixio.c
+++ b/src/matrixio/matrixio.c
@@ -96,14 +96,16 @@ static void write_attr(matrixio_id id, matrixio_id_ type_id,
      if (H5I_FILE == H5Iget_type(id.id)) {
           attr_id = H5Dcreate(id.id, name, type_id, space_id, H5P_DEFAULT);
           CHECK(attr_id >= 0, "error creating HDF attr");
-          H5Dwrite(attr_id, type_id, H5S_ALL, H5S_ALL, H5P_DEFAULT, val);
-          H5Dclose(attr_id);
+          CHECK(H5Dwrite(attr_id, type_id, H5S_ALL, H5S_ALL, H5P_DEFAULT, val)
+		>= 0, "error writing HDF attr");
+          CHECK(H5Dclose(attr_id) >= 0, "error closing HDF attr");
      }
      else {
 	  attr_id = H5Acreate(id.id, name, type_id, space_id, H5P_DEFAULT);
 	  CHECK(attr_id >= 0, "error creating HDF attr");
-	  H5Awrite(attr_id, type_id, val);
-	  H5Aclose(attr_id);
+	  CHECK(H5Awrite(attr_id, type_id, val) >= 0,
+		"error writing HDF attr");
+	  CHECK(H5Aclose(attr_id) >= 0, "error closing HDF attr");
      }
 #endif
 }
@@ -580,6 +582,8 @@ matrixio_id matrixio_create_dataset(matrixio_id id,
 	       data_id.id = H5Dopen(id.id, name),
 	  data_id.id = H5Dcreate(id.id, name, type_id, space_id, H5P_DEFAULT));
 
+     CHECK(data_id.id >= 0, "error creating HDF dataset");
+
      H5Sclose(space_id);  /* the dataset should have its own copy now */
      
      matrixio_write_string_attr(data_id, "description", description);
@@ -728,8 +732,9 @@ void matrixio_write_real_data(matrixio_id data_id,
      /* Write the data, then free all the stuff we've allocated. */
 
      if (do_write)
-	  H5Dwrite(data_id.id, type_id, mem_space_id, space_id, H5P_DEFAULT, 
-		   data_copy);
+	  CHECK(H5Dwrite(data_id.id, type_id, mem_space_id, space_id,
+			 H5P_DEFAULT, data_copy) >= 0,
+		"error writing HDF dataset");
 
      if (free_data_copy)
 	  free(data_copy);
-- 
2.43.0


From 6e67a27dad103b948777d2f6bfa196e7349116c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:10 +0000
Subject: [PATCH 29/49] fix: export the documented cscalar-field-make

The function exists in the C code and the documentation but was never made
available to control files.
---
 mpb/mpb.scm.in | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpb/mpb.scm.in b/mpb/mpb.scm.in
index 39fde00..1bd4d55 100644
--- a/mpb/mpb.scm.in
+++ b/mpb/mpb.scm.in
@@ -265,6 +265,7 @@
 (define cur-field 'cur-field)
 (define-external-function cur-field? false false 'boolean 'SCM)
 (define-external-function rscalar-field-make false false 'SCM 'SCM)
+(define-external-function cscalar-field-make false false 'SCM 'SCM)
 (define-external-function cvector-field-make false false 'SCM 'SCM)
 (define-external-function cvector-field-nonbloch! false false
   no-return-value 'SCM)
-- 
2.43.0


From 784ac0f620103bba39646b5f3a0b4f12cb19ff2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:30 +0000
Subject: [PATCH 30/49] fix: refuse cvector-field-nonbloch! on scalar fields

---
 mpb/field-smob.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpb/field-smob.c b/mpb/field-smob.c
index 31e9359..7d11a28 100644
--- a/mpb/field-smob.c
+++ b/mpb/field-smob.c
@@ -243,6 +243,8 @@ SCM cvector_field_make(SCM f0)
 void cvector_field_nonblochB(SCM f)
 {
      field_smob *pf = assert_field_smob(f);
+     CHECK(pf->type == CVECTOR_FIELD_SMOB,
+	   "cvector-field-nonbloch! needs a complex vector field");
      pf->type_char = 'v';
      update_curfield(pf);
      scm_remember_upto_here_1(f);
-- 
2.43.0


From 7a1a71bdc4bcaa37fa3c1ece9fbca9907f40b197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:58 +0000
Subject: [PATCH 31/49] fix: mpb-split ran the first chunk twice, ignored
 failing chunks and split quoted arguments

---
 mpb/mpb-split-preinstall.in | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/mpb/mpb-split-preinstall.in b/mpb/mpb-split-preinstall.in
index 21b9717..19ae173 100755
--- a/mpb/mpb-split-preinstall.in
+++ b/mpb/mpb-split-preinstall.in
@@ -4,6 +4,9 @@ if test x"`echo $1 | egrep '^[0-9]*$'`" = x; then
     exit 1
 fi
 
+num=$1 # number of chunks; the remaining arguments are passed to mpb
+shift
+
 tmpname=/tmp/mpb-split.$$.tmp # unique temporary filename
 subprocesses="" # keep a list of the subprocess ids launched
 
@@ -13,20 +16,25 @@ trap 'echo "killing subprocesses: $subprocesses"; kill -9 $subprocesses; rm -f $
 # Run num-split instances of mpb, each with a chunk of k-points, with
 # the first chunk going to stdout and the rest going to temporary files
 # to be output later.
-./mpb interactive?=false k-split-index=0 k-split-num=$* &
+./mpb interactive?=false k-split-index=0 k-split-num=$num "$@" &
 subprocesses="$subprocesses $!"
-i=0
-while test `expr $i \< $1` = 1; do
-    ./mpb interactive?=false k-split-index=$i k-split-num=$* > $tmpname.$i &
+i=1
+while test `expr $i \< $num` = 1; do
+    ./mpb interactive?=false k-split-index=$i k-split-num=$num "$@" > $tmpname.$i &
     subprocesses="$subprocesses $!"
     i=`expr $i + 1`
 done
 
-# After all mpb processes have finished, concatenate their outputs in order.
-wait
-i=0
-while test `expr $i \< $1` = 1; do
+# After all mpb processes have finished, concatenate their outputs in order,
+# and fail if any of them did.
+status=0
+for p in $subprocesses; do
+    wait $p || status=1
+done
+i=1
+while test `expr $i \< $num` = 1; do
     cat $tmpname.$i
     rm -f $tmpname.$i
     i=`expr $i + 1`
 done
+exit $status
-- 
2.43.0


From 314dd7b5834b33232cb98eaf1eac6cc381c47714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:58 +0000
Subject: [PATCH 32/49] fix: a run that finds no gaps forgets those of the
 previous run

---
 mpb/mpb.scm.in | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpb/mpb.scm.in b/mpb/mpb.scm.in
index 1bd4d55..b9070bf 100644
--- a/mpb/mpb.scm.in
+++ b/mpb/mpb.scm.in
@@ -617,6 +617,7 @@
   (begin-time "total elapsed time for run: "
    (set! all-freqs '())
    (set! band-range-data '())
+   (set! gap-list '())
    (set! interactive? false)  ; don't be interactive if we call (run)
    (begin-time "elapsed time for initialization: "
 	       (init-params p (if reset-fields true false))
-- 
2.43.0


From ec652a0c293aec1859664ce1859dd56653a838d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:58 +0000
Subject: [PATCH 33/49] fix: num-bands zero divided by zero, overran the field
 array and left stale results

---
 mpb/mpb.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/mpb/mpb.c b/mpb/mpb.c
index d9a4124..d1f395b 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -440,7 +440,11 @@ void init_params(integer p, boolean reset_fields)
      mpi_one_printf("Working in %d dimensions.\n", dimensions);
      mpi_one_printf("Grid size is %d x %d x %d.\n", nx, ny, nz);
 
-     if (eigensolver_block_size != 0 && eigensolver_block_size < num_bands) {
+     CHECK(num_bands >= 0, "num-bands must not be negative");
+     if (num_bands == 0)
+	  block_size = 1; /* the field and epsilon arrays need some space */
+     else if (eigensolver_block_size != 0 &&
+	      eigensolver_block_size < num_bands) {
 	  block_size = eigensolver_block_size;
 	  if (block_size < 0) {
 	       /* Guess a block_size near -block_size, chosen so that
@@ -618,6 +622,15 @@ void solve_kpoint(vector3 kvector)
 
      if (num_bands == 0) {
 	  mpi_one_printf("  num-bands is zero, not solving for any bands\n");
+	  /* there are no results; in particular, those of the
+	     previous k point are not ours */
+	  if (num_write_output_vars > 0)
+	       destroy_output_vars();
+	  freqs.num_items = 0;
+	  freqs.items = (number *) NULL;
+	  CHK_MALLOC(parity, char, 1);
+	  parity[0] = 0;
+	  iterations = 0;
 	  return;
      }
 
-- 
2.43.0


From bcae83e797945656b9564800e664edfbf9913c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:53 +0000
Subject: [PATCH 34/49] fix: without MPI, divide_parallel_processes refused one
 group and accepted any other number

---
 src/util/mpi_utils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/mpi_utils.c b/src/util/mpi_utils.c
index 7a19cb5..56973f1 100644
--- a/src/util/mpi_utils.c
+++ b/src/util/mpi_utils.c
@@ -83,7 +83,8 @@ int divide_parallel_processes(int numgroups)
     MPI_Comm_split(MPI_COMM_WORLD, mygroup, rank, &mpb_comm);
     return mygroup;
 #else
-    CHECK(numgroups != 1, "tried to split into more groups than processes");
+    CHECK(numgroups > 0, "numgroups must be > 0");
+    CHECK(numgroups <= 1, "tried to split into more groups than processes");
     return 0;
 #endif
 }
-- 
2.43.0


From 346b09e2ecef505e30418b0920d8cc20aa231d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:04 +0000
Subject: [PATCH 35/49] fix: mpbi-mpi crashed when outputting fields with more
 processes than grid slabs

---
 mpb/fields.c             | 5 +++++
 src/maxwell/maxwell_op.c | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/mpb/fields.c b/mpb/fields.c
index 13ac188..5a128cb 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -1061,6 +1061,11 @@ void output_field_to_file(integer which_component, string filename_prefix)
 	  last_dim_start = local_dims[last_dim_index];
 	  last_dim_size = dims[last_dim_index] - local_dims[last_dim_index];
      }
+     if (mdata->local_ny == 0) { /* leftover process: nothing to output */
+	  first_dim_size = write_start0_special = 0;
+	  if (dims[2] == 1)
+	       last_dim_size = 0;
+     }
 #  endif /* ! SCALAR_COMPLEX */
      output_k[0] = R[1][0]*mdata->current_k[0] + R[1][1]*mdata->current_k[1]
 	  + R[1][2]*mdata->current_k[2];
diff --git a/src/maxwell/maxwell_op.c b/src/maxwell/maxwell_op.c
index 66f9518..4062fd8 100644
--- a/src/maxwell/maxwell_op.c
+++ b/src/maxwell/maxwell_op.c
@@ -664,6 +664,8 @@ void maxwell_vectorfield_otherhalf(maxwell_data *d, scalar_complex *field,
 #  ifdef HAVE_MPI
      local_x_start = d->local_y_start;
      CHECK(rank == 2 || rank == 3, "unsupported rfftwnd_mpi rank!");
+     if (d->local_ny == 0)
+	  return; /* leftover process without any part of the field */
      if (rank == 2) {
 	  n_other = nx;
 	  n_last_new = ny = d->local_ny;
@@ -868,6 +870,8 @@ void maxwell_cscalarfield_otherhalf(maxwell_data *d, scalar_complex *field,
 #  ifdef HAVE_MPI
      local_x_start = d->local_y_start;
      CHECK(rank == 2 || rank == 3, "unsupported rfftwnd_mpi rank!");
+     if (d->local_ny == 0)
+	  return; /* leftover process without any part of the field */
      if (rank == 2) {
 	  n_other = nx;
 	  n_last_new = ny = d->local_ny;
@@ -1067,6 +1071,8 @@ void maxwell_scalarfield_otherhalf(maxwell_data *d, real *field)
 #  ifdef HAVE_MPI
      local_x_start = d->local_y_start;
      CHECK(rank == 2 || rank == 3, "unsupported rfftwnd_mpi rank!");
+     if (d->local_ny == 0)
+	  return; /* leftover process without any part of the field */
      if (rank == 2) {
 	  n_other = nx;
 	  n_last_new = ny = d->local_ny;
-- 
2.43.0


From da5ab7186383db70cdb22a160e6f66ea822d9b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:42 +0000
Subject: [PATCH 36/49] fix: distributed grids with one point along x or y gave
 wrong bands silently (FFTW exchanges other dimensions); refuse them

---
 doc/docs/Scheme_User_Interface.md | 2 +-
 src/maxwell/maxwell.c             | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/doc/docs/Scheme_User_Interface.md b/doc/docs/Scheme_User_Interface.md
index 8623ec0..ddd039a 100644
--- a/doc/docs/Scheme_User_Interface.md
+++ b/doc/docs/Scheme_User_Interface.md
@@ -890,7 +890,7 @@ Using the parallel MPB is almost identical to using the serial version(s), with
 unix% mpirun -np 4 mpb-mpi foo.ctl
 ```
 
-to run on e.g. 4 processors. A second difference is that 1D systems are currently not supported in the MPI code, but the serial code should be fast enough for those anyway. A third difference is that the output HDF5 files (epsilon, fields, etcetera) from `mpb-mpi` have their first two dimensions (x and y) *transposed*; i.e. they are output as YxXxZ arrays. This doesn't prevent you from visualizing them, but the coordinate system is left-handed; to un-transpose the data, you can process it with `mpb-data` and the `-T` option in addition to any other options.
+to run on e.g. 4 processors. A second difference is that 1D systems are currently not supported in the MPI code, but the serial code should be fast enough for those anyway (nor are 2D systems in the xz or yz planes: both the x and y grid sizes must be greater than 1). A third difference is that the output HDF5 files (epsilon, fields, etcetera) from `mpb-mpi` have their first two dimensions (x and y) *transposed*; i.e. they are output as YxXxZ arrays. This doesn't prevent you from visualizing them, but the coordinate system is left-handed; to un-transpose the data, you can process it with `mpb-data` and the `-T` option in addition to any other options.
 
 In order to get optimal benefit (time and memory savings) from `mpb-mpi`, the first two dimensions (n<sub><small>x</small></sub> and n<sub><small>y</small></sub>) of your grid should *both* be divisible by the number of processes. If you violate this constraint, MPB will still work, but the load balance between processors will be uneven. At worst, e.g. if either n<sub><small>x</small></sub> or n<sub><small>y</small></sub> is smaller than the number of processes, then some of the processors will be idle for part or all of the computation. When using [inversion symmetry](Scheme_User_Interface.md#inversion-symmetry) (`mpbi-mpi`) for 2D grids only, the optimal case is somewhat more complicated: n<sub><small>x</small></sub> and (n<sub><small>y</small></sub>/2 + 1), not n<sub><small>y</small></sub>, should both be divisible by the number of processes.
 
diff --git a/src/maxwell/maxwell.c b/src/maxwell/maxwell.c
index 9ebd843..e607dfe 100644
--- a/src/maxwell/maxwell.c
+++ b/src/maxwell/maxwell.c
@@ -127,6 +127,11 @@ maxwell_data *create_maxwell_data(int nx, int ny, int nz,
 
      CHECK(rank > 1, "rank < 2 MPI computations are not supported");
 
+     /* FFTW drops dimensions of one point, and so would exchange others
+	than x and y in its transposed transforms */
+     CHECK(nx > 1 && ny > 1,
+	   "MPI computations require more than one grid point in x and y");
+
      d->nplans = 0; /* plans will be created as needed */
 
      for (i = 0; i < rank; ++i) np[i] = n[i];
-- 
2.43.0


From f2f53920c356e8a41806b6295ac96499e5b0b01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:22 +0000
Subject: [PATCH 37/49] fix: dominant plane wave of a process group used the
 global rank as root

---
 src/maxwell/maxwell.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maxwell/maxwell.c b/src/maxwell/maxwell.c
index e607dfe..2f65c04 100644
--- a/src/maxwell/maxwell.c
+++ b/src/maxwell/maxwell.c
@@ -349,7 +349,7 @@ void maxwell_dominant_planewave(maxwell_data *d, evectmatrix H, int band, double
 
     /* find kdom of biggest max_amp across all processes */
     local_res.amp = max_amp;
-    local_res.rank = my_global_rank();
+    MPI_Comm_rank(mpb_comm, &local_res.rank);
 
     global_res.amp = 0;
     global_res.rank = 0;
-- 
2.43.0


From 00d8a20f105a241609b10a74a67263569c2787b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:43 +0000
Subject: [PATCH 38/49] fix: faces of blocks and ellipsoids had the wrong
 normal in oblique lattices

---
 mpb/epsilon.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mpb/epsilon.c b/mpb/epsilon.c
index 98282e9..a6222c0 100644
--- a/mpb/epsilon.c
+++ b/mpb/epsilon.c
@@ -292,6 +292,12 @@ static int mean_epsilon_func(symmetric_matrix *meps,
 	  normal = normal_to_fixed_object(vector3_minus(p, shiftby1), *o1);
      else
 	  normal = normal_to_fixed_object(vector3_minus(p, shiftby2), *o2);
+     if ((id1 > id2 ? o1 : o2)->which_subclass == BLOCK)
+	  /* libctl returns the normals of blocks and ellipsoids as gradients
+	     with respect to the lattice coordinates, and all others as
+	     vectors in the lattice basis: convert the former to the latter */
+	  normal = matrix3x3_vector3_mult(
+	       matrix3x3_inverse(geometry_lattice.metric), normal);
 
      n[0] = no_size_x ? 0 : normal.x / geometry_lattice.size.x;
      n[1] = no_size_y ? 0 : normal.y / geometry_lattice.size.y;
-- 
2.43.0


From 6af72f7e7a96540dc43157d471604764187096b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:31 +0000
Subject: [PATCH 39/49] fix: find-k refused the documented list of an origin
 and a direction

---
 mpb/mpb.scm.in | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpb/mpb.scm.in b/mpb/mpb.scm.in
index b9070bf..f4268b8 100644
--- a/mpb/mpb.scm.in
+++ b/mpb/mpb.scm.in
@@ -853,7 +853,10 @@
 		tol kmag-guess kmag-min kmag-max . band-funcs)
   (define (ncdr n lst) (if (> n 0) (ncdr (- n 1) (cdr lst)) lst))
   (define korig (if (pair? korig-and-kdir) (car korig-and-kdir) (vector3 0)))
-  (define kdir (if (pair? korig-and-kdir) (cdr korig-and-kdir) korig-and-kdir))
+  (define kdir (if (pair? korig-and-kdir)
+		   (if (pair? (cdr korig-and-kdir)) ; a list or a pair
+		       (cadr korig-and-kdir) (cdr korig-and-kdir))
+		   korig-and-kdir))
   (let ((num-bands-save num-bands) (k-points-save k-points)
 	(nb (- band-max band-min -1)) 
 	(kdir1 (cartesian->reciprocal (unit-vector3 (reciprocal->cartesian kdir))))
-- 
2.43.0


From 2c744179ed37da78f75a223fe505846d2e779b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:18 +0000
Subject: [PATCH 40/49] fix: reading a data file without data sets freed an
 uninitialised pointer

---
 src/matrixio/matrixio.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/matrixio/matrixio.c b/src/matrixio/matrixio.c
index 99214f7..e10020a 100644
--- a/src/matrixio/matrixio.c
+++ b/src/matrixio/matrixio.c
@@ -806,7 +806,8 @@ real *matrixio_read_real_data(matrixio_id id,
 	  strcpy(dname, name);
      }
      else {
-	  if (H5Giterate(id.id, "/", NULL, find_dataset, &dname) < 0)
+	  /* (zero means that there was no dataset, and dname was not set) */
+	  if (H5Giterate(id.id, "/", NULL, find_dataset, &dname) <= 0)
 	       return NULL;
      }
      SUPPRESS_HDF5_ERRORS(data_id = H5Dopen(id.id, dname));
-- 
2.43.0


From bb4152085b3359914941ab64111f2b8d0d2125f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:18 +0000
Subject: [PATCH 41/49] fix: non positive-definite permeability tensors were
 accepted silently

---
 mpb/mpb.c                 | 3 +++
 src/maxwell/maxwell_eps.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/mpb/mpb.c b/mpb/mpb.c
index d1f395b..047528b 100644
--- a/mpb/mpb.c
+++ b/mpb/mpb.c
@@ -543,6 +543,9 @@ void init_params(integer p, boolean reset_fields)
 	       mpi_one_fprintf(stderr,
 		       "ERROR: dielectric tensor must not couple xy "
 		       "plane with z direction for 2D TE/TM calculations\n");
+	  else if (ierr == 3)
+	       mpi_one_fprintf(stderr,
+			   "ERROR: non positive-definite permeability tensor\n");
 	  CHECK(!ierr, "invalid dielectric function\n");
      }
 
diff --git a/src/maxwell/maxwell_eps.c b/src/maxwell/maxwell_eps.c
index e7ff93f..0cfb3a4 100644
--- a/src/maxwell/maxwell_eps.c
+++ b/src/maxwell/maxwell_eps.c
@@ -274,6 +274,9 @@ int check_maxwell_dielectric(maxwell_data *d,
 	  if (!negative_epsilon_okp &&
 	      !maxwell_sym_matrix_positive_definite(d->eps_inv + i))
 	       return 1;
+	  if (d->mu_inv &&
+	      !maxwell_sym_matrix_positive_definite(d->mu_inv + i))
+	       return 3;
 	  if (require_2d) {
 #if defined(WITH_HERMITIAN_EPSILON)
 	       if (d->eps_inv[i].m02.re != 0.0 ||
-- 
2.43.0


From 7c05557b00b63ad14651078f21c02b41b46be650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:18 +0000
Subject: [PATCH 42/49] fix: mpb-data overran a fixed buffer with long data set
 names

---
 utils/mpb-data.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/utils/mpb-data.c b/utils/mpb-data.c
index 9031de4..833b10e 100644
--- a/utils/mpb-data.c
+++ b/utils/mpb-data.c
@@ -258,7 +258,10 @@ void handle_dataset(matrixio_id in_file, matrixio_id out_file,
      int i, N;
      int start[3] = {0,0,0};
      matrixio_id data_id;
-     char out_name[1000];
+     char *out_name;
+
+     CHK_MALLOC(out_name, char, /* long enough for either name + "-new" */
+		strlen(name_re) + (name_im ? strlen(name_im) : 0) + 5);
 
      d_in_re = matrixio_read_real_data(in_file, name_re, &rank, in_dims,
 				       0, 0, 0, NULL);
@@ -367,6 +370,7 @@ void handle_dataset(matrixio_id in_file, matrixio_id out_file,
      free(d_in_im);
      free(d_out_re);
      free(d_out_im);
+     free(out_name);
 }
 
 void handle_cvector_dataset(matrixio_id in_file, matrixio_id out_file,
@@ -690,11 +694,13 @@ void handle_file(const char *fname, const char *out_fname,
 
      for (i = 0; i < NUM_DATANAMES; ++i) {
 	  const char *dname = datanames[i];
-	  char name_re[300], name_im[300];
+	  char *name_re, *name_im;
 
 	  if (data_name)
 	       dname = data_name;
 
+	  CHK_MALLOC(name_re, char, strlen(dname) + 3);
+	  CHK_MALLOC(name_im, char, strlen(dname) + 3);
 	  strcpy(name_re, dname);
 	  handle_dataset(in_file, out_file, name_re, NULL,
 			 Rout, coord_map, kvector, resolution,
@@ -706,6 +712,9 @@ void handle_file(const char *fname, const char *out_fname,
 			 Rout, coord_map, kvector, resolution,
 			 scaleby, multiply_size, pick_nearest, transpose);
 
+	  free(name_re);
+	  free(name_im);
+
 	  if (data_name)
 	       break;
      }
-- 
2.43.0


From 3cef93b63ddd0672a9af580d8ecf99677bff0497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:18 +0000
Subject: [PATCH 43/49] fix: mpb-data ignored the imaginary parts of hermitian
 epsilon and complex scalar data

---
 utils/mpb-data.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/utils/mpb-data.c b/utils/mpb-data.c
index 833b10e..9d4ec00 100644
--- a/utils/mpb-data.c
+++ b/utils/mpb-data.c
@@ -546,7 +546,7 @@ void handle_file(const char *fname, const char *out_fname,
      int dims[2], rank;
      matrix3x3 Rin = {{1,0,0},{0,1,0},{0,0,1}}, Rout, coord_map;
      matrix3x3 cart_map = {{1,0,0},{0,1,0},{0,0,1}};
-#define NUM_DATANAMES 13
+#define NUM_DATANAMES 20
      char datanames[NUM_DATANAMES][30] = {
 	  "data",
 	  "epsilon.xx",
@@ -560,7 +560,16 @@ void handle_file(const char *fname, const char *out_fname,
 	  "epsilon_inverse.xz",
 	  "epsilon_inverse.yy",
 	  "epsilon_inverse.yz",
-	  "epsilon_inverse.zz"
+	  "epsilon_inverse.zz",
+	  /* imaginary parts, for complex-Hermitian epsilon */
+	  "epsilon.xy.i",
+	  "epsilon.xz.i",
+	  "epsilon.yz.i",
+	  "epsilon_inverse.xy.i",
+	  "epsilon_inverse.xz.i",
+	  "epsilon_inverse.yz.i",
+	  /* complex scalar fields */
+	  "c"
      };
      int i;
 
-- 
2.43.0


From 1701be9c960581c13d2786ff660eeca48f233511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:18 +0000
Subject: [PATCH 44/49] fix: mpb-data -T lost the data of one-dimensional files

---
 utils/mpb-data.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/utils/mpb-data.c b/utils/mpb-data.c
index 9d4ec00..bac7cc2 100644
--- a/utils/mpb-data.c
+++ b/utils/mpb-data.c
@@ -305,6 +305,8 @@ void handle_dataset(matrixio_id in_file, matrixio_id out_file,
      }
      for (i = rank; i < 3; ++i)
 	  out_dims[i] = 1;
+     if (rank < 2)
+	  transpose = 0; /* there is no second dimension */
      for (N = 1, i = 0; i < 3; ++i)
 	  N *= (out_dims[i] = MAX2(out_dims[i], 1));
 
@@ -451,6 +453,8 @@ void handle_cvector_dataset(matrixio_id in_file, matrixio_id out_file,
      }
      for (i = rank; i < 3; ++i)
 	  out_dims[i] = 1;
+     if (rank < 2)
+	  transpose = 0; /* there is no second dimension */
      for (N = 1, i = 0; i < 3; ++i)
 	  N *= (out_dims[i] = MAX2(out_dims[i], 1));
 
-- 
2.43.0


From 978d309b68e8de8fdfc7e5e3513a101c355f9a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:18 +0000
Subject: [PATCH 45/49] fix: mpb-data -e reversed axes with negative components
 and crashed on impossible ones

---
 utils/mpb-data.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/utils/mpb-data.c b/utils/mpb-data.c
index bac7cc2..f5a8b66 100644
--- a/utils/mpb-data.c
+++ b/utils/mpb-data.c
@@ -631,7 +631,7 @@ void handle_file(const char *fname, const char *out_fname,
      Rout = Rin;
 
      if (rectify) {
-	  double V;
+	  double V, c0_len;
 
 	  /* Orthogonalize the output lattice vectors.  If have_ve
 	     is true, then the first new lattice vector should be in
@@ -652,10 +652,11 @@ void handle_file(const char *fname, const char *out_fname,
 	  V = vector3_dot(vector3_cross(Rout.c0, Rout.c1), Rout.c2);
 	  Rout.c1 = vector3_minus(Rout.c1,Rout.c0);
 	  Rout.c2 = vector3_minus(Rout.c2,Rout.c0);
-	  Rout.c0 = vector3_scale(V / vector3_dot(vector3_cross(Rout.c1,
-								Rout.c2),
-						  ve),
-				  ve);
+	  c0_len = vector3_dot(vector3_cross(Rout.c1, Rout.c2), ve);
+	  CHECK(fabs(c0_len) > 1e-10 * fabs(V),
+		"no rectangular cell with its first axis in the -e direction");
+	  c0_len = V / c0_len;
+	  Rout.c0 = vector3_scale(fabs(c0_len), ve);
 
 	  /* Now, orthogonalize c1 and c2: */
 	  Rout.c1 = vector3_minus(Rout.c1,
@@ -666,6 +667,8 @@ void handle_file(const char *fname, const char *out_fname,
 				vector3_scale(vector3_dot(Rout.c1, Rout.c2) /
 					      vector3_dot(Rout.c1, Rout.c1),
 					      Rout.c1));
+	  if (c0_len < 0) /* keep both ve and the handedness of the cell */
+	       Rout.c2 = vector3_scale(-1, Rout.c2);
 
 	  cart_map.c0 = unit_vector3(Rout.c0);
 	  cart_map.c1 = unit_vector3(Rout.c1);
-- 
2.43.0


From 96646bc553ac25b2441dfe57ed3b07e9d2355a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:44 +0000
Subject: [PATCH 46/49] fix: with allow-negative-epsilon the D and E fields
 were scaled by the squared frequency

---
 mpb/fields.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpb/fields.c b/mpb/fields.c
index 5a128cb..61c1332 100644
--- a/mpb/fields.c
+++ b/mpb/fields.c
@@ -92,7 +92,10 @@ void get_dfield(int which_band)
 	  N = mdata->fft_output_size;
 
 	  if (freqs.items[which_band - 1] != 0.0) {
-	       scale = -1.0 / freqs.items[which_band - 1];
+	       /* with negative epsilon, freqs are squared frequencies */
+	       scale = -1.0 / (negative_epsilon_okp
+			       ? sqrt(fabs(freqs.items[which_band - 1]))
+			       : freqs.items[which_band - 1]);
 	  }
 	  else
 	       scale = -1.0; /* arbitrary */
-- 
2.43.0


From d99b35fbd21b21ca108d25bccee6bb198bf366cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:51 +0000
Subject: [PATCH 47/49] fix: material-grid gradients ignored points of a
 default grid seen through nothing objects

---
 mpb/material_grid.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index bda5c74..b9b904a 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -322,6 +322,8 @@ static void material_grids_addgradient_point(double *v,
      int kind;
 
      tp = geom_tree_search(p, geometry_tree, &oi);
+     if (tp && tp->objects[oi].o->material.which_subclass == MATERIAL_TYPE_SELF)
+	  tp = 0; /* a "nothing" object: default material, as in epsilon.c */
      if (tp && tp->objects[oi].o->material.which_subclass == MATERIAL_GRID)
           mg = tp->objects[oi].o->material.subclass.material_grid_data;
      else if (!tp && default_material.which_subclass == MATERIAL_GRID)
@@ -550,6 +552,8 @@ void print_material_grids_deps_du(void)
 	       p.x = i * s1 - c1; p.y = j * s2 - c2; p.z = k * s3 - c3;
 
      tp = geom_tree_search(p, geometry_tree, &oi);
+     if (tp && tp->objects[oi].o->material.which_subclass == MATERIAL_TYPE_SELF)
+	  tp = 0; /* a "nothing" object: default material, as in epsilon.c */
      if (tp && tp->objects[oi].o->material.which_subclass == MATERIAL_GRID)
           mg = tp->objects[oi].o->material.subclass.material_grid_data;
      else if (!tp && default_material.which_subclass == MATERIAL_GRID)
-- 
2.43.0


From efe7a61c8ee8b07593ac29d11770624f42aebd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:28 +0000
Subject: [PATCH 48/49] fix: material-grid product gradients were NaN where a
 grid value is zero

---
 mpb/material_grid.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mpb/material_grid.c b/mpb/material_grid.c
index b9b904a..3f14bcd 100644
--- a/mpb/material_grid.c
+++ b/mpb/material_grid.c
@@ -95,11 +95,14 @@ static int compatible_matgrids(const material_grid *mg,
 }
 
 static int matgrid_val_count = 0; /* cache for gradient calculation */
+static double matgrid_val_prod0 = 0; /* product without the (only) zero u */
 double matgrid_val(vector3 p, geom_box_tree tp, int oi,
 		   const material_grid *mg)
 {
      double uprod = 1.0, umin = 1.0, usum = 0.0, u;
+     int nzero = 0;
      matgrid_val_count = 0;
+     matgrid_val_prod0 = 1.0;
      CHECK(sizeof(real) == sizeof(double), "material grids require double precision");
      if (tp) {
 	  do {
@@ -109,6 +112,7 @@ double matgrid_val(vector3 p, geom_box_tree tp, int oi,
 		    .subclass.material_grid_data);
 	       if (u < umin) umin = u;
 	       uprod *= u;
+	       if (u != 0) matgrid_val_prod0 *= u; else ++nzero;
 	       usum += u; ++matgrid_val_count;
 	       tp = geom_tree_search_next(p, tp, &oi);
 	  } while (tp &&
@@ -122,8 +126,10 @@ double matgrid_val(vector3 p, geom_box_tree tp, int oi,
 				default_material.subclass.material_grid_data);
 	  if (u < umin) umin = u;
 	  uprod *= u;
+	  if (u != 0) matgrid_val_prod0 *= u; else ++nzero;
 	  usum += u; ++matgrid_val_count;
      }
+     if (nzero > 1) matgrid_val_prod0 = 0;
      return (mg->material_grid_kind == U_MIN ? umin
 	     : (mg->material_grid_kind == U_PROD ? uprod
 		: usum / matgrid_val_count));
@@ -296,7 +302,7 @@ static void add_interpolate_weights(real rx, real ry, real rz, real *data,
 	   (U(x,y2,z2)*(1.0-dx) + U(x2,y2,z2)*dx) * dy) * dz);
 
      if (ukind == U_MIN && u != uval) return;
-     if (ukind == U_PROD) scaleby *= uval / u;
+     if (ukind == U_PROD) scaleby *= u != 0 ? uval / u : matgrid_val_prod0;
 
      D(x,y,z) += (1.0-dx) * (1.0-dy) * (1.0-dz) * scaleby;
      D(x2,y,z) += dx * (1.0-dy) * (1.0-dz) * scaleby;
-- 
2.43.0


From 05399b3f0fe66956aa7c0f9e24c65d14c93adb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:55 +0000
Subject: [PATCH 49/49] fix: a material function returning a material-grid
 crashed

---
 mpb/epsilon.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpb/epsilon.c b/mpb/epsilon.c
index a6222c0..1b0ec1d 100644
--- a/mpb/epsilon.c
+++ b/mpb/epsilon.c
@@ -165,6 +165,8 @@ static void epsilon_func(symmetric_matrix *eps, symmetric_matrix *eps_inv,
 	     the interpolated grid values. */
 	  if (material.which_subclass == MATERIAL_GRID) {
 	       material_type mat_eps;
+	       CHECK(!destroy_material,
+		     "material functions cannot return a material-grid");
 	       mat_eps = make_epsilon(
 		    matgrid_val(p, tp, oi, 
 				material.subclass.material_grid_data)
-- 
2.43.0

