From 32dcd4cbc7edb4d927508722af390c8e98c8b39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:09 +0000
Subject: [PATCH 01/30] fix: make the pure Neumann operator linear and its
 preconditioner non singular

---
 source/bem_fma.cc     |  6 +++++-
 source/bem_problem.cc | 18 +++++++++---------
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/source/bem_fma.cc b/source/bem_fma.cc
index a584ee9..5366ad9 100644
--- a/source/bem_fma.cc
+++ b/source/bem_fma.cc
@@ -3633,7 +3633,11 @@ BEMFMA<dim>::FMA_preconditioner(
   // preconditioner.print_formatted(pcout,4,true,0," 0 ",1.);
 
   // Finally we can initialize the ILU final preconditioner.
-  preconditioner.initialize(final_preconditioner);
+  // as in the direct method, the matrix is singular without dirichlet nodes
+  preconditioner.initialize(
+    final_preconditioner,
+    TrilinosWrappers::PreconditionILU::AdditionalData(
+      0, 0., dirichlet_nodes->linfty_norm() > 0 ? 1. : 1.1));
 
   return preconditioner;
 }
diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index 5c38cc1..8ef75db 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -1591,11 +1591,7 @@ void
 BEMProblem<dim>::vmult(TrilinosWrappers::MPI::Vector       &dst,
                        const TrilinosWrappers::MPI::Vector &src) const
 {
-  serv_phi = src;
-  if (!have_dirichlet_bc)
-    {
-      vector_shift(serv_phi, -serv_phi.l2_norm());
-    }
+  serv_phi     = src;
   serv_dphi_dn = src;
 
 
@@ -1638,10 +1634,10 @@ BEMProblem<dim>::vmult(TrilinosWrappers::MPI::Vector       &dst,
 
   // std::cout<<"*** "<<serv_phi(0)<<" or "<<serv_dphi_dn(0)<<"   src:
   // "<<src(0)<<"  dst: "<<dst(0)<<std::endl;
-  // in fully neumann bc case, we have to rescale the vector to have a zero mean
-  // one
+  // in fully neumann bc case, the operator vanishes on constant vectors: we add
+  // a (linear) rank one term acting on the mean value, which makes it invertible
   if (!have_dirichlet_bc)
-    vector_shift(dst, -dst.l2_norm());
+    vector_shift(dst, src.mean_value());
   dst.compress(VectorOperation::add);
 }
 
@@ -2243,7 +2239,11 @@ BEMProblem<dim>::assemble_preconditioner()
 
 
 
-  preconditioner.initialize(band_system);
+  // the unshifted matrix is singular in the fully neumann bc case: its diagonal
+  // is perturbed so that the factors stay bounded
+  preconditioner.initialize(band_system,
+                            TrilinosWrappers::PreconditionILU::AdditionalData(
+                              0, 0., have_dirichlet_bc ? 1. : 1.1));
 
   /*
   band_system.vmult(sol,alpha);
-- 
2.43.0


From caca08d5b93844647c70bd0b4cf3d67da9362d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:06 +0000
Subject: [PATCH 02/30] fix: recognise coincident Dirichlet nodes with equal
 normals

---
 source/bem_problem.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index 8ef75db..2928486 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -1973,10 +1973,11 @@ BEMProblem<dim>::compute_constraints(
                                          // + ((*it) -
                                          // start_per_process[this_mpi_process])
                                          // * dim + idim;//(*it)*dim+idim
-                            normal_distance += localized_normals[index1] *
-                                               localized_normals[index2];
+                            normal_distance += pow(localized_normals[index1] -
+                                                     localized_normals[index2],
+                                                   2);
                           }
-                        normal_distance /= normal_distance;
+                        normal_distance = sqrt(normal_distance);
                         if (normal_distance < 1e-4)
                           {
                             c.add_line(*it);
-- 
2.43.0


From 0e6600eb8447f9d4346ecc40df499efbfbef7300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:06 +0000
Subject: [PATCH 03/30] fix: classify nodes on process borders by all the cells
 they belong to

---
 source/bem_problem.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index 2928486..947b04a 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -593,7 +593,8 @@ BEMProblem<dim>::compute_dirichlet_and_neumann_dofs_vectors()
   unsigned int helper_dirichlet = 0;
   for (; cell != endc; ++cell)
     {
-      if (cell->subdomain_id() == this_mpi_process)
+      // all the cells are visited, since a locally owned node may lie on the
+      // border of a dirichlet cell which belongs to another process
         {
           bool dirichlet = false;
           for (auto dummy : comp_dom.dirichlet_boundary_ids)
-- 
2.43.0


From eb9b3cd94bfe991d320f7838a338f542f4ac9546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:06 +0000
Subject: [PATCH 04/30] fix: keep the imposed potential at nodes shared with
 Neumann cells

---
 source/boundary_conditions.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/boundary_conditions.cc b/source/boundary_conditions.cc
index 60ced12..9e2ecbd 100644
--- a/source/boundary_conditions.cc
+++ b/source/boundary_conditions.cc
@@ -260,7 +260,9 @@ BoundaryConditions<dim>::prepare_bem_vectors()
             // bem.pcout<<cell<<" "<<cell->material_id()<<"
             // ("<<node_normals[0]<<")
             // "<<-normals_sys_solution(local_dof_indices[j])<<std::endl;
-            bool dirichlet = false;
+            // a node shared with a dirichlet cell is a dirichlet node, no matter
+            // which cell we are visiting
+            bool dirichlet = (bem.dirichlet_nodes(local_dof_indices[j]) == 1);
             bool neumann   = false;
             for (auto dbound : comp_dom.dirichlet_boundary_ids)
               if (cell->material_id() == dbound)
-- 
2.43.0


From b130e9c8df759918cfc0c515ab7b9e399e741793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:48 +0000
Subject: [PATCH 05/30] fix: deep copy of LocalExpansionCoeff

---
 include/local_expansion_coeff.h |  2 ++
 source/local_expansion_coeff.cc | 19 ++++++++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/local_expansion_coeff.h b/include/local_expansion_coeff.h
index 4d5499c..8530440 100644
--- a/include/local_expansion_coeff.h
+++ b/include/local_expansion_coeff.h
@@ -21,6 +21,8 @@ public:
   LocalExpansionCoeff();
   LocalExpansionCoeff(const unsigned int &p);
   LocalExpansionCoeff(const LocalExpansionCoeff &orig);
+  LocalExpansionCoeff &
+  operator=(const LocalExpansionCoeff &orig);
   double
   get(const unsigned int &n,
       const unsigned int &m,
diff --git a/source/local_expansion_coeff.cc b/source/local_expansion_coeff.cc
index c1eea65..3175dd1 100644
--- a/source/local_expansion_coeff.cc
+++ b/source/local_expansion_coeff.cc
@@ -30,7 +30,24 @@ LocalExpansionCoeff::LocalExpansionCoeff(const LocalExpansionCoeff &orig)
 {
   _p     = orig._p;
   _coeff = new double[(_p + 1) * (_p + 1) * (_p + 1) * (_p + 2) / 2];
-  memcpy(_coeff, orig._coeff, this->getNumberOfElements());
+  memcpy(_coeff,
+         orig._coeff,
+         this->getNumberOfElements() * sizeof(double));
+}
+
+LocalExpansionCoeff &
+LocalExpansionCoeff::operator=(const LocalExpansionCoeff &orig)
+{
+  if (this != &orig)
+    {
+      delete[] _coeff;
+      _p     = orig._p;
+      _coeff = new double[(_p + 1) * (_p + 1) * (_p + 1) * (_p + 2) / 2];
+      memcpy(_coeff,
+             orig._coeff,
+             this->getNumberOfElements() * sizeof(double));
+    }
+  return *this;
 }
 
 LocalExpansionCoeff::~LocalExpansionCoeff()
-- 
2.43.0


From 11831801bc914e5da93e46c995f1737199fcc73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:48 +0000
Subject: [PATCH 06/30] fix: reject truncation orders beyond the tabulated
 coefficients

---
 source/bem_fma.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/bem_fma.cc b/source/bem_fma.cc
index 5366ad9..225e956 100644
--- a/source/bem_fma.cc
+++ b/source/bem_fma.cc
@@ -87,7 +87,8 @@ BEMFMA<dim>::declare_parameters(ParameterHandler &prm)
 
   prm.enter_subsection("FMA Params");
   {
-    prm.declare_entry("FMA Truncation Order", "6", Patterns::Integer());
+    // the tables of the translation coefficients stop at order 10
+    prm.declare_entry("FMA Truncation Order", "6", Patterns::Integer(0, 10));
   }
   prm.leave_subsection();
 
-- 
2.43.0


From b64d054d6c31f4a7cc0a39aaf52dc32275bccd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:48 +0000
Subject: [PATCH 07/30] fix: allocate enough octree blocks for coarse
 quadratures

---
 source/bem_fma.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/source/bem_fma.cc b/source/bem_fma.cc
index 225e956..8e7a315 100644
--- a/source/bem_fma.cc
+++ b/source/bem_fma.cc
@@ -3892,9 +3892,12 @@ BEMFMA<dim>::generate_octree_blocking()
         delete blocks[ii];
     }
 
+  // besides the root, each level has at most one block for each quadrature
+  // point or node
   types::global_dof_index maxNumBlocks =
-    num_octree_levels * fma_dh->get_triangulation().n_active_cells() *
-    fe_v.n_quadrature_points;
+    1 + num_octree_levels * (fma_dh->get_triangulation().n_active_cells() *
+                               fe_v.n_quadrature_points +
+                             fma_dh->n_dofs());
   // unsigned int maxNumBlocks = 0;
   // for (unsigned int ii = 0; ii < num_octree_levels + 1;  ii++)
   //  {
-- 
2.43.0


From d1bc5fa50ecce62a5bec70bf1de9229c7e2735c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:49 +0000
Subject: [PATCH 08/30] fix: forget the elements around a node when the octree
 is rebuilt

---
 source/bem_fma.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/bem_fma.cc b/source/bem_fma.cc
index 8e7a315..84c5f97 100644
--- a/source/bem_fma.cc
+++ b/source/bem_fma.cc
@@ -3941,6 +3941,9 @@ BEMFMA<dim>::generate_octree_blocking()
   // contenenti almeno un quad point
   quad_points_filled_blocks.clear();
 
+  // the cells stored by a previous call may not exist anymore
+  dof_to_elems.clear();
+
   quadPoints.clear();
   quadNormals.clear();
   quadShapeFunValues.clear();
-- 
2.43.0


From ceaf8a4d930eef0bb3bf8c610af068e66d8e086f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:39 +0000
Subject: [PATCH 09/30] fix: collect the ends of the edge at an unmatched
 vertex without overflow

An unmatched boundary vertex belonging to three or more elements wrote past
the end of a vector of two points, and elements without a boundary side there
left one of the points at the origin.
---
 source/computational_domain.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/source/computational_domain.cc b/source/computational_domain.cc
index 830fd2c..f105277 100644
--- a/source/computational_domain.cc
+++ b/source/computational_domain.cc
@@ -1031,8 +1031,7 @@ ComputationalDomain<dim>::make_edges_conformal(
               if (vertex_on_boundary[i] == true &&
                   double_vertex_vector[i].size() == 1)
                 {
-                  std::vector<Point<dim>> nodes(
-                    GeometryInfo<dim - 1>::vertices_per_face);
+                  std::vector<Point<dim>> nodes;
                   for (types::global_dof_index kk = 0;
                        kk < vert_to_elems[i].size();
                        ++kk) // ogni faccia ha due estremi
@@ -1052,10 +1051,10 @@ ComputationalDomain<dim>::make_edges_conformal(
                               // "<<cell->face(f)->vertex(0)<<std::endl;
                               if (all_vertices[i].distance(
                                     cell->face(f)->vertex(0)) < tol)
-                                nodes[kk] = cell->face(f)->vertex(1);
+                                nodes.push_back(cell->face(f)->vertex(1));
                               else if (all_vertices[i].distance(
                                          cell->face(f)->vertex(1)) < tol)
-                                nodes[kk] = cell->face(f)->vertex(0);
+                                nodes.push_back(cell->face(f)->vertex(0));
                             }
                         }
                       // std::cout<<std::endl;
@@ -1063,6 +1062,8 @@ ComputationalDomain<dim>::make_edges_conformal(
                   // std::cout<<nodes[0]<<"    "<<ref_points[i]<<"
                   // "<<nodes[1]<<std::endl;
                   // we can now compute the center of the parent cell face
+                  if (nodes.size() != 2)
+                    continue;
                   Point<3> parent_face_center = 0.5 * (nodes[0] + nodes[1]);
                   for (auto jt = edge_cells.begin(); jt != edge_cells.end();
                        ++jt)
-- 
2.43.0


From 18d3387f54e3924f68592ab64fa5f45ed8ee0591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:59 +0000
Subject: [PATCH 10/30] fix: restore edge conformity across more than one level

When one patch is coarsened while the opposite one is refined in the same
step the edge differs by two levels; no unmatched vertex then had the middle
of a coarse side between its neighbours and the mesh stayed non conforming.
---
 source/computational_domain.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/computational_domain.cc b/source/computational_domain.cc
index f105277..fe5fdf2 100644
--- a/source/computational_domain.cc
+++ b/source/computational_domain.cc
@@ -1077,7 +1077,11 @@ ComputationalDomain<dim>::make_edges_conformal(
                           if (parent_face_center.distance(
                                 ((*jt)->face(d)->vertex(0) +
                                  (*jt)->face(d)->vertex(1)) /
-                                2) < tol)
+                                2) < tol ||
+                              // the other side may be coarser by more than
+                              // one level, then its new vertex goes here
+                              all_vertices[i].distance(
+                                (*jt)->face(d)->center(true)) < tol)
                             {
                               if (isotropic_ref_on_opposite_side)
                                 {
-- 
2.43.0


From 42ca5351505bf6b9d5f0a280c77a585353c7976c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:45 +0000
Subject: [PATCH 11/30] fix: copy and assign expansions without coefficients,
 and to themselves

LocalExpansion::operator= leaked its coefficients; both classes read a
null array when copying a default constructed object and freed their own
coefficients when assigned to themselves.
---
 source/local_expansion.cc     | 32 ++++++++++++++++++++++++--------
 source/multipole_expansion.cc | 30 ++++++++++++++++++++++--------
 2 files changed, 46 insertions(+), 16 deletions(-)

diff --git a/source/local_expansion.cc b/source/local_expansion.cc
index 2f1e511..03633e4 100644
--- a/source/local_expansion.cc
+++ b/source/local_expansion.cc
@@ -48,10 +48,16 @@ LocalExpansion::LocalExpansion(const LocalExpansion &other)
   this->lExp_to_lExp_Coeff = other.lExp_to_lExp_Coeff;
   this->mExp_to_lExp_Coeff = other.mExp_to_lExp_Coeff;
   this->center             = other.center;
-  this->_L_n_m = new std::complex<double>[(this->p + 1) * (this->p + 2) / 2];
-  memcpy(this->_L_n_m,
-         other.GetCoeffs(),
-         sizeof(std::complex<double>) * (this->p + 1) * (this->p + 2) / 2);
+  // a default-constructed expansion has no coefficients
+  this->_L_n_m = NULL;
+  if (other.GetCoeffs() != NULL)
+    {
+      this->_L_n_m =
+        new std::complex<double>[(this->p + 1) * (this->p + 2) / 2];
+      memcpy(this->_L_n_m,
+             other.GetCoeffs(),
+             sizeof(std::complex<double>) * (this->p + 1) * (this->p + 2) / 2);
+    }
   this->is_zero = other.is_zero;
 }
 
@@ -64,15 +70,25 @@ LocalExpansion::~LocalExpansion()
 LocalExpansion &
 LocalExpansion::operator=(const LocalExpansion &other)
 {
+  if (this == &other)
+    return *this;
   this->p                  = other.p;
   this->assLegFunction     = other.assLegFunction;
   this->lExp_to_lExp_Coeff = other.lExp_to_lExp_Coeff;
   this->mExp_to_lExp_Coeff = other.mExp_to_lExp_Coeff;
   this->center             = other.center;
-  this->_L_n_m = new std::complex<double>[(this->p + 1) * (this->p + 2) / 2];
-  memcpy(this->_L_n_m,
-         other.GetCoeffs(),
-         sizeof(std::complex<double>) * (this->p + 1) * (this->p + 2) / 2);
+  // a default-constructed expansion has no coefficients
+  if (_L_n_m != NULL)
+    delete[] _L_n_m;
+  this->_L_n_m = NULL;
+  if (other.GetCoeffs() != NULL)
+    {
+      this->_L_n_m =
+        new std::complex<double>[(this->p + 1) * (this->p + 2) / 2];
+      memcpy(this->_L_n_m,
+             other.GetCoeffs(),
+             sizeof(std::complex<double>) * (this->p + 1) * (this->p + 2) / 2);
+    }
   this->is_zero = other.is_zero;
   return *this;
 }
diff --git a/source/multipole_expansion.cc b/source/multipole_expansion.cc
index 8dbe221..7c86618 100644
--- a/source/multipole_expansion.cc
+++ b/source/multipole_expansion.cc
@@ -39,10 +39,16 @@ MultipoleExpansion::MultipoleExpansion(const MultipoleExpansion &other)
   this->p              = other.p;
   this->assLegFunction = other.assLegFunction;
   this->center         = other.center;
-  this->_M_n_m = new std::complex<double>[(this->p + 1) * (this->p + 2) / 2];
-  memcpy(this->_M_n_m,
-         other.GetCoeffs(),
-         sizeof(std::complex<double>) * (this->p + 1) * (this->p + 2) / 2);
+  // a default-constructed expansion has no coefficients
+  this->_M_n_m = NULL;
+  if (other.GetCoeffs() != NULL)
+    {
+      this->_M_n_m =
+        new std::complex<double>[(this->p + 1) * (this->p + 2) / 2];
+      memcpy(this->_M_n_m,
+             other.GetCoeffs(),
+             sizeof(std::complex<double>) * (this->p + 1) * (this->p + 2) / 2);
+    }
   this->is_zero = other.is_zero;
 }
 
@@ -51,15 +57,23 @@ MultipoleExpansion::MultipoleExpansion(const MultipoleExpansion &other)
 MultipoleExpansion &
 MultipoleExpansion::operator=(const MultipoleExpansion &other)
 {
+  if (this == &other)
+    return *this;
   this->p              = other.p;
   this->assLegFunction = other.assLegFunction;
   this->center         = other.center;
   if (_M_n_m != NULL)
     delete[] _M_n_m;
-  this->_M_n_m = new std::complex<double>[(this->p + 1) * (this->p + 2) / 2];
-  memcpy(this->_M_n_m,
-         other.GetCoeffs(),
-         sizeof(std::complex<double>) * (this->p + 1) * (this->p + 2) / 2);
+  // a default-constructed expansion has no coefficients
+  this->_M_n_m = NULL;
+  if (other.GetCoeffs() != NULL)
+    {
+      this->_M_n_m =
+        new std::complex<double>[(this->p + 1) * (this->p + 2) / 2];
+      memcpy(this->_M_n_m,
+             other.GetCoeffs(),
+             sizeof(std::complex<double>) * (this->p + 1) * (this->p + 2) / 2);
+    }
   this->is_zero = other.is_zero;
   return *this;
 }
-- 
2.43.0


From 67e654c679e1b3119ad7595314eccda79b67bd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:45 +0000
Subject: [PATCH 12/30] fix: sources and evaluation points at the centre of an
 expansion

The polar angle of the centre was 0/0, which made every coefficient (or
value) NaN.
---
 source/local_expansion.cc     | 3 ++-
 source/multipole_expansion.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/local_expansion.cc b/source/local_expansion.cc
index 03633e4..ba2c8d9 100644
--- a/source/local_expansion.cc
+++ b/source/local_expansion.cc
@@ -276,7 +276,8 @@ LocalExpansion::Evaluate(const dealii::Point<3> &evalPoint)
       unsigned int     p           = this->p;
       dealii::Point<3> blockRelPos = evalPoint + (-1.0 * this->center);
       double           rho         = sqrt(blockRelPos.square());
-      double           cos_alpha_  = blockRelPos(2) / rho;
+      // the direction of the center itself is arbitrary
+      double           cos_alpha_  = (rho > 0) ? blockRelPos(2) / rho : 1.;
       double           beta        = atan2(blockRelPos(1), blockRelPos(0));
 
       double P_n_m;
diff --git a/source/multipole_expansion.cc b/source/multipole_expansion.cc
index 7c86618..598019a 100644
--- a/source/multipole_expansion.cc
+++ b/source/multipole_expansion.cc
@@ -117,7 +117,8 @@ MultipoleExpansion::Add(const double strength, const dealii::Point<3> &point)
 
       dealii::Point<3> pointRelPos = point + (-1.0 * this->center);
       double           rho         = sqrt(pointRelPos.square());
-      double           cos_alpha_  = pointRelPos(2) / rho;
+      // the direction of a source at the center is arbitrary
+      double           cos_alpha_  = (rho > 0) ? pointRelPos(2) / rho : 1.;
       double           beta        = atan2(pointRelPos(1), pointRelPos(0));
       double           P_n_m;
       for (int n = 0; n < int(this->p) + 1; n++)
-- 
2.43.0


From c5d185d6b1a098009366614773c73622dd72d279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:45 +0000
Subject: [PATCH 13/30] fix: dipole sources on the polar axis of a multipole
 expansion

The derivatives of the spherical coordinates are singular there and gave
NaN coefficients; use their limits.
---
 source/multipole_expansion.cc | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/source/multipole_expansion.cc b/source/multipole_expansion.cc
index 598019a..a13cc77 100644
--- a/source/multipole_expansion.cc
+++ b/source/multipole_expansion.cc
@@ -153,7 +153,26 @@ MultipoleExpansion::AddNormDer(const double                strength,
       dealii::Tensor<1, 3> normVersor =
         normal / sqrt(normal[0] * normal[0] + normal[1] * normal[1] +
                       normal[2] * normal[2]); // normal.square());
-      double rho     = sqrt(pointRelPos.square());
+      double rho = sqrt(pointRelPos.square());
+
+      // the spherical coordinates are singular on the polar axis, where only the
+      // coefficients with m = 0, 1 have a non vanishing derivative
+      if (pow(pointRelPos(0), 2.) + pow(pointRelPos(1), 2.) <=
+          1e-10 * rho * rho)
+        {
+          for (int n = 1; n < int(this->p) + 1; n++)
+            {
+              const double fact = strength * pow(rho, double(n) - 1.) *
+                                  ((pointRelPos(2) < 0 && n % 2 == 0) ? -1. : 1.);
+              std::complex<double> z(n * fact * normVersor[2], 0.);
+              this->AddToCoeff(n, 0, z);
+              z = std::complex<double>(normVersor[0], -normVersor[1]) *
+                  (-0.5 * sqrt(n * (n + 1.)) * fact);
+              this->AddToCoeff(n, 1, z);
+            }
+          return;
+        }
+
       double dRhodN  = (pointRelPos / rho) * normVersor;
       double beta    = atan2(pointRelPos(1), pointRelPos(0));
       double dBetadN = (dealii::Point<3>(-pointRelPos(1), pointRelPos(0), 0.) /
-- 
2.43.0


From 5da9c4ffb51c1ada608897e87486ccccbb54003f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:20 +0000
Subject: [PATCH 14/30] fix: timer started by concurrent worker threads aborted
 the run

The far contributions of larger blocks are computed by the worker threads;
starting the same timer in two of them throws. Time the local evaluation
loop from the calling thread instead.
---
 source/bem_fma.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/bem_fma.cc b/source/bem_fma.cc
index 84c5f97..64fccba 100644
--- a/source/bem_fma.cc
+++ b/source/bem_fma.cc
@@ -2870,7 +2870,6 @@ BEMFMA<dim>::multipole_matr_vect_products(
                 types::global_dof_index block2Id = *pos1;
                 // std::vector <cell_it> elemBlk2Ids =
                 // block2.GetBlockElementsList();
-                Teuchos::TimeMonitor LocalTimer(*LocEval);
 
                 for (types::global_dof_index ii = 0; ii < nodesBlk1Ids.size();
                      ii++) // loop over each node of (*block_it)
@@ -3193,6 +3192,8 @@ BEMFMA<dim>::multipole_matr_vect_products(
         }
     };
 
+  // the timers are not thread safe, they cannot be used by the workers
+  Teuchos::TimeMonitor LocalEvaluationTimer(*LocEval);
   parallel_for(blocked_range<types::global_dof_index>(0,
                                                       childlessList.size(),
                                                       tbb_granularity),
-- 
2.43.0


From 5b41e70eebadc173cebfb93d753c1789ef62cec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:07 +0000
Subject: [PATCH 15/30] fix: the mapping was kept from the first
 re-initialisation

Changes of the mapping type or degree were ignored by later reinit calls, and
the scaling of a spheroid was lost after the first refinement cycle because
the positions were computed again but not scaled.  The z axis of a spheroid
scaled the y coordinate; a spheroid with a polynomial mapping crashed.
---
 source/bem_problem.cc | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index 947b04a..3d825f8 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -196,30 +196,32 @@ BEMProblem<dim>::reinit()
       vector_constraints.distribute(map_vector);
     }
   // mapping_degree = fe->get_degree();
-  if (!mapping)
+  // the mapping follows the current mesh, element and parameters
+  if (comp_dom.spheroid_bool && comp_dom.used_spherical_manifold)
     {
-      if (comp_dom.spheroid_bool && comp_dom.used_spherical_manifold)
+      AssertThrow(mapping_type == "FE",
+                  ExcMessage("A spheroid needs the mapping type FE"));
+      for (types::global_dof_index ii = 0; ii < gradient_dh.n_dofs() / dim;
+           ++ii)
         {
-          for (types::global_dof_index ii = 0; ii < gradient_dh.n_dofs() / dim;
-               ++ii)
-            {
-              map_vector[vec_original_to_sub_wise[ii]] *=
-                comp_dom.spheroid_x_axis;
-              map_vector[vec_original_to_sub_wise[ii + gradient_dh.n_dofs() /
-                                                         dim]] *=
-                comp_dom.spheroid_y_axis;
-              if (dim == 3)
-                map_vector[vec_original_to_sub_wise[ii + gradient_dh.n_dofs() /
-                                                           dim]] *=
-                  comp_dom.spheroid_z_axis;
-            }
+          map_vector[vec_original_to_sub_wise[ii]] *=
+            comp_dom.spheroid_x_axis;
+          map_vector[vec_original_to_sub_wise[ii + gradient_dh.n_dofs() /
+                                                     dim]] *=
+            comp_dom.spheroid_y_axis;
+          if (dim == 3)
+            map_vector[vec_original_to_sub_wise[ii + 2 * gradient_dh.n_dofs() /
+                                                       dim]] *=
+              comp_dom.spheroid_z_axis;
         }
-      if (mapping_type == "FE")
-        mapping = std::make_shared<MappingFEField<dim - 1, dim>>(gradient_dh,
-                                                                 map_vector);
-      else
-        mapping = std::make_shared<MappingQ<dim - 1, dim>>(mapping_degree);
     }
+  // the multipole object points to the previous mapping until init_fma below
+  const std::shared_ptr<Mapping<dim - 1, dim>> previous_mapping = mapping;
+  if (mapping_type == "FE")
+    mapping = std::make_shared<MappingFEField<dim - 1, dim>>(gradient_dh,
+                                                             map_vector);
+  else
+    mapping = std::make_shared<MappingQ<dim - 1, dim>>(mapping_degree);
 
 
 
-- 
2.43.0


From 47c816a3120551d5772bb81cac7aa7c8afb196a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:01 +0000
Subject: [PATCH 16/30] fix: singular quadratures of the first element and
 order were used for all

The table was filled once per process: a different element order read past its
end, a different singular quadrature order was ignored.
---
 source/bem_problem.cc | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index 3d825f8..fdc70a9 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -6,6 +6,7 @@
 
 #include <iomanip>
 #include <iostream>
+#include <map>
 #include <memory>
 
 #include "../include/laplace_kernel.h"
@@ -428,15 +429,18 @@ BEMProblem<3>::get_singular_quadrature(const unsigned int index) const
 
 
 
-  static std::vector<Quadrature<2>> quadratures;
-  {
-    if (quadratures.size() == 0)
-      for (unsigned int i = 0; i < fe->dofs_per_cell; ++i)
-        {
-          quadratures.push_back(QSplit<2>(QDuffy(singular_quadrature_order, 1.),
-                                          fe->get_unit_support_points()[i]));
-        }
-  }
+  // one set of quadratures for each element and order
+  static std::map<std::pair<std::string, unsigned int>,
+                  std::vector<Quadrature<2>>>
+                             cache;
+  std::vector<Quadrature<2>> &quadratures =
+    cache[std::make_pair(fe->get_name(), singular_quadrature_order)];
+  if (quadratures.size() == 0)
+    for (unsigned int i = 0; i < fe->dofs_per_cell; ++i)
+      {
+        quadratures.push_back(QSplit<2>(QDuffy(singular_quadrature_order, 1.),
+                                        fe->get_unit_support_points()[i]));
+      }
 
   return quadratures[index];
 }
@@ -447,7 +451,11 @@ BEMProblem<2>::get_singular_quadrature(const unsigned int index) const
 {
   Assert(index < fe->dofs_per_cell, ExcIndexRange(0, fe->dofs_per_cell, index));
 
-  static std::vector<Quadrature<1>> quadratures;
+  static std::map<std::pair<std::string, unsigned int>,
+                  std::vector<Quadrature<1>>>
+                             cache;
+  std::vector<Quadrature<1>> &quadratures =
+    cache[std::make_pair(fe->get_name(), singular_quadrature_order)];
   if (quadratures.size() == 0)
     for (unsigned int i = 0; i < fe->dofs_per_cell; ++i)
       {
-- 
2.43.0


From 73285c518117c520c1016fa183c444c0b385f454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:22 +0000
Subject: [PATCH 17/30] fix: free-term coefficients used the parallel layout of
 an earlier mesh

The work vectors were laid out anew only when the number of unknowns changed;
with as many unknowns distributed differently the coefficients were wrong, or
the fast method read outside of its vectors.
---
 source/bem_problem.cc | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index fdc70a9..e46d4d5 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -1568,15 +1568,11 @@ template <int dim>
 void
 BEMProblem<dim>::compute_alpha()
 {
-  static TrilinosWrappers::MPI::Vector ones, zeros, dummy;
-  if (ones.size() != dh.n_dofs())
-    {
-      ones.reinit(this_cpu_set, mpi_communicator);
-      vector_shift(ones, -1.);
-      zeros.reinit(this_cpu_set, mpi_communicator);
-      dummy.reinit(this_cpu_set, mpi_communicator);
-    }
-
+  TrilinosWrappers::MPI::Vector ones, zeros, dummy;
+  ones.reinit(this_cpu_set, mpi_communicator);
+  vector_shift(ones, -1.);
+  zeros.reinit(this_cpu_set, mpi_communicator);
+  dummy.reinit(this_cpu_set, mpi_communicator);
 
   if (solution_method == "Direct")
     {
-- 
2.43.0


From f7719b8b84b73403174ffba1dc7b07864d8e7ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:17 +0000
Subject: [PATCH 18/30] fix: the maximal nodal error of the potential was that
 of a cell norm

The value printed as the L_inf norm over the nodes was the largest L2 norm of
the error over a cell.
---
 source/boundary_conditions.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/boundary_conditions.cc b/source/boundary_conditions.cc
index 9e2ecbd..cf2b9d7 100644
--- a/source/boundary_conditions.cc
+++ b/source/boundary_conditions.cc
@@ -413,8 +413,6 @@ BoundaryConditions<dim>::compute_errors()
                                           2 * (2 * bem.fe->degree + 1)),
                                         VectorTools::L2_norm);
 
-      phi_max_error = difference_per_cell.linfty_norm();
-
       //        }
       VectorTools::integrate_difference(*bem.mapping,
                                         bem.gradient_dh,
@@ -449,6 +447,7 @@ BoundaryConditions<dim>::compute_errors()
 
       phi_node_error *= -1.0;
       phi_node_error.add(1., localized_phi);
+      phi_max_error = phi_node_error.linfty_norm();
 
       Vector<double>              dphi_dn_node_error(bem.dh.n_dofs());
       std::vector<Vector<double>> dphi_dn_nodes_errs(bem.dh.n_dofs(),
-- 
2.43.0


From b1b583fba78101dbe2836ea47a11031f760a9dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:49 +0000
Subject: [PATCH 19/30] fix: reject parameter values outside their range

Negative counts were converted to huge unsigned numbers, zero octree levels
crashed the accelerator, thresholds outside [0,1] and negative lengths were
accepted without notice.
---
 source/bem_fma.cc              |  6 +++---
 source/bem_problem.cc          | 14 +++++++-------
 source/computational_domain.cc | 18 +++++++++---------
 3 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/source/bem_fma.cc b/source/bem_fma.cc
index 64fccba..1a9fb23 100644
--- a/source/bem_fma.cc
+++ b/source/bem_fma.cc
@@ -76,12 +76,12 @@ BEMFMA<dim>::declare_parameters(ParameterHandler &prm)
 {
   prm.enter_subsection("Octree Params");
   {
-    prm.declare_entry("Number of Octree Levels", "10", Patterns::Integer());
+    prm.declare_entry("Number of Octree Levels", "10", Patterns::Integer(1));
 
     prm.declare_entry(
       "Maximum Number of Collocation Points per Childless Block",
       "20",
-      Patterns::Integer());
+      Patterns::Integer(0));
   }
   prm.leave_subsection();
 
@@ -96,7 +96,7 @@ BEMFMA<dim>::declare_parameters(ParameterHandler &prm)
   {
     prm.declare_entry("Granularity for TBB simple for cycles",
                       "10",
-                      Patterns::Integer());
+                      Patterns::Integer(1));
   }
   prm.leave_subsection();
 }
diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index e46d4d5..6d18f00 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -491,14 +491,14 @@ BEMProblem<dim>::declare_parameters(ParameterHandler &prm)
                       "gauss",
                       Patterns::Selection(
                         QuadratureSelector<(dim - 1)>::get_quadrature_names()));
-    prm.declare_entry("Quadrature order", "4", Patterns::Integer());
-    prm.declare_entry("Singular quadrature order", "5", Patterns::Integer());
+    prm.declare_entry("Quadrature order", "4", Patterns::Integer(0));
+    prm.declare_entry("Singular quadrature order", "5", Patterns::Integer(1));
   }
   prm.leave_subsection();
 
   prm.declare_entry("Mapping Type", "FE", Patterns::Selection("FE|Q"));
 
-  prm.declare_entry("Mapping Q Degree", "1", Patterns::Integer());
+  prm.declare_entry("Mapping Q Degree", "1", Patterns::Integer(1));
 
   prm.declare_entry("Continuos gradient across edges",
                     "true",
@@ -508,7 +508,7 @@ BEMProblem<dim>::declare_parameters(ParameterHandler &prm)
     prm.declare_entry("Finite Element type",
                       "FEQ",
                       Patterns::Selection("FEQ|FEDGQ"));
-    prm.declare_entry("Finite element order", "1", Patterns::Integer());
+    prm.declare_entry("Finite element order", "1", Patterns::Integer(0));
   }
   prm.leave_subsection();
 
@@ -517,15 +517,15 @@ BEMProblem<dim>::declare_parameters(ParameterHandler &prm)
     prm.declare_entry("Finite Element type",
                       "FEQ",
                       Patterns::Selection("FEQ|FEDGQ"));
-    prm.declare_entry("Finite element order", "1", Patterns::Integer());
+    prm.declare_entry("Finite element order", "1", Patterns::Integer(0));
   }
   prm.leave_subsection();
 
 
   prm.enter_subsection("Grid Refinement");
   {
-    prm.declare_entry("Coarsening threshold", "0.03", Patterns::Double());
-    prm.declare_entry("Refinement threshold", "0.3", Patterns::Double());
+    prm.declare_entry("Coarsening threshold", "0.03", Patterns::Double(0, 1));
+    prm.declare_entry("Refinement threshold", "0.3", Patterns::Double(0, 1));
   }
   prm.leave_subsection();
 }
diff --git a/source/computational_domain.cc b/source/computational_domain.cc
index fe5fdf2..76c37d3 100644
--- a/source/computational_domain.cc
+++ b/source/computational_domain.cc
@@ -82,30 +82,30 @@ ComputationalDomain<dim>::declare_parameters(ParameterHandler &prm)
 
   prm.declare_entry("Input path to CAD files", "./", Patterns::Anything());
 
-  prm.declare_entry("Number of cycles", "2", Patterns::Integer());
+  prm.declare_entry("Number of cycles", "2", Patterns::Integer(0));
 
-  prm.declare_entry("Max aspect ratio", "3.5", Patterns::Double());
+  prm.declare_entry("Max aspect ratio", "3.5", Patterns::Double(0));
 
   prm.declare_entry("Use iges surfaces and curves", "false", Patterns::Bool());
 
   prm.declare_entry("Cad tolerance to projectors tolerance ratio",
                     "100",
-                    Patterns::Double());
+                    Patterns::Double(0));
 
   prm.declare_entry("Surface curvature adaptive refinement",
                     "false",
                     Patterns::Bool());
 
-  prm.declare_entry("Cells per circle", "12", Patterns::Double());
+  prm.declare_entry("Cells per circle", "12", Patterns::Double(0));
 
   prm.declare_entry("Maximum number of curvature adaptive refinement cycles",
                     "5",
-                    Patterns::Integer());
+                    Patterns::Integer(0));
 
   prm.declare_entry(
     "Number of global refinement to be executed before local refinement cycle",
     "0",
-    Patterns::Integer());
+    Patterns::Integer(0));
 
   prm.enter_subsection("Boundary Conditions ID Numbers");
   {
@@ -120,11 +120,11 @@ ComputationalDomain<dim>::declare_parameters(ParameterHandler &prm)
 
   prm.declare_entry("Use a spheroid", "false", Patterns::Bool());
 
-  prm.declare_entry("Axis x dimension", "2.", Patterns::Double());
+  prm.declare_entry("Axis x dimension", "2.", Patterns::Double(0));
 
-  prm.declare_entry("Axis y dimension", "3.", Patterns::Double());
+  prm.declare_entry("Axis y dimension", "3.", Patterns::Double(0));
 
-  prm.declare_entry("Axis z dimension", "4.", Patterns::Double());
+  prm.declare_entry("Axis z dimension", "4.", Patterns::Double(0));
 }
 
 template <int dim>
-- 
2.43.0


From 4064070aa221582b4cb5b16b28b4f38f2b1d9c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:49 +0000
Subject: [PATCH 20/30] fix: reject grid formats that cannot be read

Any other format left the triangulation empty and the run crashed later.
---
 source/computational_domain.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/computational_domain.cc b/source/computational_domain.cc
index 76c37d3..598195c 100644
--- a/source/computational_domain.cc
+++ b/source/computational_domain.cc
@@ -78,7 +78,9 @@ ComputationalDomain<dim>::declare_parameters(ParameterHandler &prm)
                       Patterns::Anything());
 
 
-  prm.declare_entry("Input grid format", "inp", Patterns::Anything());
+  prm.declare_entry("Input grid format",
+                    "inp",
+                    Patterns::Selection("inp|msh|vtk"));
 
   prm.declare_entry("Input path to CAD files", "./", Patterns::Anything());
 
-- 
2.43.0


From 952a1f94e1728f1fb23d3c915f77b61e4f885b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:11 +0000
Subject: [PATCH 21/30] fix: the fast multipole method uses the configured
 quadrature type

It always built a Gauss rule of the configured order.
---
 include/bem_fma.h     | 6 ++----
 source/bem_fma.cc     | 6 ++----
 source/bem_problem.cc | 2 +-
 3 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/include/bem_fma.h b/include/bem_fma.h
index db6bca5..2357f55 100644
--- a/include/bem_fma.h
+++ b/include/bem_fma.h
@@ -103,8 +103,8 @@ public:
            const TrilinosWrappers::MPI::Vector                  &input_sn,
            const Mapping<dim - 1, dim>                          &input_mapping =
              StaticMappingQ1<dim - 1, dim>::mapping,
-           unsigned int quad_order      = 4,
-           unsigned int sing_quad_order = 5);
+           const Quadrature<dim - 1> &input_quadrature = QGauss<dim - 1>(4),
+           unsigned int               sing_quad_order  = 5);
 
   /// Parameters declaration: we take the number of octree level and
   /// the level of approximation of the Kernels
@@ -313,8 +313,6 @@ protected:
   /// diretta in una vera matrice.
   TrilinosWrappers::PreconditionILU preconditioner;
 
-  unsigned int quadrature_order;
-
   unsigned int singular_quadrature_order;
 
   /// mpi related variables
diff --git a/source/bem_fma.cc b/source/bem_fma.cc
index 1a9fb23..1300c4a 100644
--- a/source/bem_fma.cc
+++ b/source/bem_fma.cc
@@ -51,10 +51,10 @@ BEMFMA<dim>::init_fma(
   const std::vector<std::set<types::global_dof_index>> &db_in,
   const TrilinosWrappers::MPI::Vector                  &input_sn,
   const Mapping<dim - 1, dim>                          &input_mapping,
-  unsigned int                                          quad_order,
+  const Quadrature<dim - 1>                            &input_quadrature,
   unsigned int                                          sing_quad_order)
 {
-  quadrature_order          = quad_order;
+  quadrature = std::make_shared<Quadrature<dim - 1>>(input_quadrature);
   singular_quadrature_order = sing_quad_order;
   fma_dh                    = &input_dh;
   dirichlet_nodes           = new const Vector<double>(
@@ -3866,8 +3866,6 @@ BEMFMA<dim>::generate_octree_blocking()
                                                      *fma_dh,
                                                      support_points);
 
-  // !!!TO BE CHANGED
-  quadrature = std::make_shared<QGauss<dim - 1>>(quadrature_order);
   FEValues<dim - 1, dim> fe_v(*fma_mapping,
                               fma_dh->get_fe(),
                               *quadrature,
diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index 6d18f00..72c8927 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -368,7 +368,7 @@ BEMProblem<dim>::reinit()
                double_nodes_set,
                dirichlet_nodes,
                *mapping,
-               quadrature_order,
+               *quadrature,
                singular_quadrature_order);
 
 
-- 
2.43.0


From a19a10e49444fb92547c4bfab849d94374e66af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:00 +0000
Subject: [PATCH 22/30] fix: reject quadrature rules without points

---
 source/bem_problem.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index 72c8927..b8c6516 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -548,6 +548,8 @@ BEMProblem<dim>::parse_parameters(ParameterHandler &prm)
     quadrature = std::shared_ptr<Quadrature<dim - 1>>(
       new QuadratureSelector<dim - 1>(prm.get("Quadrature type"),
                                       prm.get_integer("Quadrature order")));
+    AssertThrow(quadrature->size() > 0,
+                ExcMessage("The quadrature order gives a rule without points"));
     quadrature_order          = prm.get_integer("Quadrature order");
     singular_quadrature_order = prm.get_integer("Singular quadrature order");
   }
-- 
2.43.0


From 7d410bab0c64d19fff7e3e810a2f98557356b165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:36 +0000
Subject: [PATCH 23/30] fix: split 2D singular rules at internal support points

QTelles is accurate only for a singularity at an end point: with elements of
order two or more the rule over the whole interval for an internal support
point gave flux errors of several percent that refinement did not reduce.
---
 source/bem_problem.cc | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index b8c6516..c577bfe 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -459,8 +459,26 @@ BEMProblem<2>::get_singular_quadrature(const unsigned int index) const
   if (quadratures.size() == 0)
     for (unsigned int i = 0; i < fe->dofs_per_cell; ++i)
       {
-        quadratures.push_back(QTelles<1>(singular_quadrature_order,
-                                         fe->get_unit_support_points()[i]));
+        // the rule is accurate when the singularity is an end point: intervals
+        // with an internal support point are split there
+        const Point<1>           x0 = fe->get_unit_support_points()[i];
+        std::vector<Point<1>>    points;
+        std::vector<double>      weights;
+        for (unsigned int side = 0; side < 2; ++side)
+          {
+            const double length = (side == 0 ? x0[0] : 1. - x0[0]);
+            if (length < 1e-12)
+              continue;
+            const QTelles<1> telles(singular_quadrature_order,
+                                    Point<1>(side == 0 ? 1. : 0.));
+            for (unsigned int q = 0; q < telles.size(); ++q)
+              {
+                points.push_back(Point<1>((side == 0 ? 0. : x0[0]) +
+                                          length * telles.point(q)[0]));
+                weights.push_back(length * telles.weight(q));
+              }
+          }
+        quadratures.push_back(Quadrature<1>(points, weights));
       }
   return quadratures[index];
 }
-- 
2.43.0


From 8cf5d4b8bdf899808e95189e577a6789eaf7c48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:36 +0000
Subject: [PATCH 24/30] fix: no fluxes in surface gradients of imposed
 potentials

The double node constraints between two Dirichlet faces take the tangential
derivatives of the imposed potential: cells with Neumann nodes put the imposed
fluxes in that right hand side, as if they were potentials.
---
 include/bem_problem.h |  7 +++++--
 source/bem_problem.cc | 23 +++++++++++++++++++++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/include/bem_problem.h b/include/bem_problem.h
index d925ea7..e453651 100644
--- a/include/bem_problem.h
+++ b/include/bem_problem.h
@@ -235,9 +235,12 @@ public:
   /// solution vector that has also ghost cells. for this reason we made use of
   /// a ghosted IndexSet that we have computed in the reinit function. After
   /// this we simply make use of deal.ii and its TrilinosWrappers to built and
-  /// solve a mass matrix system.
+  /// solve a mass matrix system. If requested, only the cells where the
+  /// potential is imposed on all nodes contribute: the other ones of tmp_rhs
+  /// carry fluxes.
   void
-  compute_surface_gradients(const TrilinosWrappers::MPI::Vector &tmp_rhs);
+  compute_surface_gradients(const TrilinosWrappers::MPI::Vector &tmp_rhs,
+                            const bool only_imposed_potential = false);
 
   /// We have parallelised the computation of gradients. We need a
   /// solution vector that has also ghost cells. for this reason we made use of
diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index c577bfe..7945a67 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -1892,7 +1892,8 @@ BEMProblem<dim>::compute_constraints(
   Teuchos::TimeMonitor LocalTimer(*ConstraintsTime);
   // We need both the normal vector and surface gradients to apply correctly
   // dirichlet-dirichlet double node constraints. compute_normals();
-  compute_surface_gradients(tmp_rhs);
+  // Only the values of imposed potentials can be used for this.
+  compute_surface_gradients(tmp_rhs, true);
 
   // communication is needed here: there is one matrix per process: thus the
   // vector needed to set inhomogeneities has to be copied locally
@@ -2452,11 +2453,13 @@ BEMProblem<dim>::compute_gradients(
 template <int dim>
 void
 BEMProblem<dim>::compute_surface_gradients(
-  const TrilinosWrappers::MPI::Vector &tmp_rhs)
+  const TrilinosWrappers::MPI::Vector &tmp_rhs,
+  const bool                           only_imposed_potential)
 {
   Teuchos::TimeMonitor          LocalTimer(*SurfaceGradientTime);
   TrilinosWrappers::MPI::Vector phi(ghosted_set);
   phi.reinit(tmp_rhs, false, true);
+  const Vector<double> localized_dirichlet_nodes(dirichlet_nodes);
 
   vector_surface_gradients_solution.reinit(vector_this_cpu_set,
                                            mpi_communicator);
@@ -2537,6 +2540,16 @@ BEMProblem<dim>::compute_surface_gradients(
 
       if (cell->subdomain_id() == this_mpi_process)
         {
+          if (only_imposed_potential)
+            {
+              cell->get_dof_indices(local_dof_indices);
+              bool imposed = true;
+              for (const auto i : local_dof_indices)
+                imposed = imposed && (localized_dirichlet_nodes(i) == 1);
+              if (!imposed)
+                continue;
+            }
+
           fe_v.reinit(cell);
           vector_fe_v.reinit(vector_cell);
           local_gradients_matrix = 0;
@@ -2581,6 +2594,12 @@ BEMProblem<dim>::compute_surface_gradients(
   vector_surface_gradients_matrix.compress(VectorOperation::add);
   vector_surface_gradients_rhs.compress(VectorOperation::add);
 
+  // unknowns of skipped cells only
+  for (const auto i : vector_this_cpu_set)
+    if (vector_surface_gradients_matrix.diag_element(i) == 0)
+      vector_surface_gradients_matrix.set(i, i, 1.);
+  vector_surface_gradients_matrix.compress(VectorOperation::insert);
+
   SolverGMRES<TrilinosWrappers::MPI::Vector> solver(
     solver_control,
     SolverGMRES<TrilinosWrappers::MPI::Vector>::AdditionalData(1000));
-- 
2.43.0


From c7919b6b57b1f3d06ea3e1cdff31b4d4f7838f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:53 +0000
Subject: [PATCH 25/30] fix: singular rules for nodes that coincide with
 hanging nodes

With elements of order two or more a node inside an edge coincides with a
vertex, a hanging node, of two smaller neighbours. The integrals on these used
the regular rule although the singularity is one of their vertices.
---
 include/bem_problem.h |  4 ++++
 source/bem_problem.cc | 28 +++++++++++++++++++++++-----
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/include/bem_problem.h b/include/bem_problem.h
index e453651..a9c17b7 100644
--- a/include/bem_problem.h
+++ b/include/bem_problem.h
@@ -332,6 +332,10 @@ public:
   /// freedom of its gradient (a vector field)
 
   std::vector<std::set<types::global_dof_index>> double_nodes_set;
+
+  /// all the nodes at the same place of each node: its double nodes and, for
+  /// elements of order two or more, hanging nodes
+  std::vector<std::set<types::global_dof_index>> coincident_nodes_set;
   std::vector<std::set<types::global_dof_index>> gradient_double_nodes_set;
 
 
diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index 7945a67..236299a 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -365,7 +365,7 @@ BEMProblem<dim>::reinit()
   compute_double_nodes_set();
 
   fma.init_fma(dh,
-               double_nodes_set,
+               coincident_nodes_set,
                dirichlet_nodes,
                *mapping,
                *quadrature,
@@ -757,6 +757,24 @@ BEMProblem<dim>::compute_double_nodes_set()
             }
         }
     }
+
+  // elements of order two and more have nodes inside the edges: these coincide
+  // with vertices of smaller neighbours, which are hanging nodes
+  coincident_nodes_set = double_nodes_set;
+  AffineConstraints<double> hanging;
+  DoFTools::make_hanging_node_constraints(dh, hanging);
+  hanging.close();
+  for (const auto &line : hanging.get_lines())
+    if (line.entries.size() == 1 &&
+        std::fabs(line.entries[0].second - 1.) < tol)
+      {
+        std::set<types::global_dof_index> group =
+          coincident_nodes_set[line.index];
+        const auto &other = coincident_nodes_set[line.entries[0].first];
+        group.insert(other.begin(), other.end());
+        for (const auto i : group)
+          coincident_nodes_set[i] = group;
+      }
 }
 
 template <int dim>
@@ -897,7 +915,7 @@ BEMProblem<dim>::assemble_system()
 
               for (unsigned int j = 0; j < fe->dofs_per_cell; ++j)
                 // if(local_dof_indices[j] == i)
-                if (double_nodes_set[i].count(local_dof_indices[j]) > 0)
+                if (coincident_nodes_set[i].count(local_dof_indices[j]) > 0)
                   {
                     singular_index = j;
                     is_singular    = true;
@@ -1326,7 +1344,7 @@ BEMProblem<dim>::compute_hypersingular_free_coeffs()
               for (unsigned int i_loc = 0; i_loc < fe->dofs_per_cell; ++i_loc)
                 {
                   std::set<types::global_dof_index> doubles =
-                    double_nodes_set[local_dof_indices[i_loc]];
+                    coincident_nodes_set[local_dof_indices[i_loc]];
                   for (std::set<types::global_dof_index>::iterator it =
                          doubles.begin();
                        it != doubles.end();
@@ -1566,7 +1584,7 @@ BEMProblem<dim>::compute_hypersingular_free_coeffs()
               Tensor<1, dim>              b =
                 singular_kernel_integrator.evaluate_free_term_b();
               std::set<types::global_dof_index> doubles =
-                double_nodes_set[global_id];
+                coincident_nodes_set[global_id];
               for (std::set<types::global_dof_index>::iterator it =
                      doubles.begin();
                    it != doubles.end();
@@ -2731,7 +2749,7 @@ BEMProblem<dim>::compute_gradients_hypersingular(
 
               for (unsigned int j = 0; j < fe->dofs_per_cell; ++j)
                 // if(local_dof_indices[j] == i)
-                if (double_nodes_set[i].count(local_dof_indices[j]) > 0)
+                if (coincident_nodes_set[i].count(local_dof_indices[j]) > 0)
                   {
                     singular_index = j;
                     is_singular    = true;
-- 
2.43.0


From 00b0e5faf5017dc325b86a0317519f1e6ab943c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:53 +0000
Subject: [PATCH 26/30] fix: hanging flux nodes with imposed potential on their
 parents

The line of the hanging node mixed its unknown potential with the unknown
fluxes of the parents.
---
 source/bem_problem.cc | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index 236299a..9e798ab 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -1927,8 +1927,23 @@ BEMProblem<dim>::compute_constraints(
   // here we prepare the constraint matrix so as to account for the presence
   // hanging nodes
 
-  AffineConstraints<double> c_hn;
-  DoFTools::make_hanging_node_constraints(dh, c_hn);
+  AffineConstraints<double> c_hanging, c_hn;
+  DoFTools::make_hanging_node_constraints(dh, c_hanging);
+  c_hanging.close();
+  // the unknown of a hanging node may be the potential while it is imposed on
+  // some of its parents: these contribute known values
+  for (const auto &line : c_hanging.get_lines())
+    {
+      double known = 0;
+      c_hn.add_line(line.index);
+      for (const auto &entry : line.entries)
+        if (localized_dirichlet_nodes(line.index) == 0 &&
+            localized_dirichlet_nodes(entry.first) == 1)
+          known += entry.second * loc_tmp_rhs(entry.first);
+        else
+          c_hn.add_entry(line.index, entry.first, entry.second);
+      c_hn.set_inhomogeneity(line.index, known);
+    }
   c_hn.close();
 
   std::vector<types::subdomain_id> dofs_domain_association(dh.n_dofs());
-- 
2.43.0


From ea3da75d1bcf0868f15a2de6188a335ef67c7a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:53 +0000
Subject: [PATCH 27/30] fix: hypersingular gradients at hanging nodes

They were wrong by orders of magnitude: a hanging node lies on a cell that
does not own it, which is integrated as if the node were far away.
---
 source/bem_problem.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index 9e798ab..53a65c7 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -2986,6 +2986,9 @@ BEMProblem<dim>::compute_gradients_hypersingular(
     }
 
   vector_hyp_gradients_solution.compress(VectorOperation::insert);
+  // the equation of a hanging node is not accurate: the node may lie on a cell
+  // that does not own it
+  vector_constraints.distribute(vector_hyp_gradients_solution);
   vector_gradients_solution = vector_hyp_gradients_solution;
   pcout << "done computing gradients with hypersingular integrals" << std::endl;
 }
-- 
2.43.0


From aade8168331ea49a658c9a73c25ccfbb6a92ae5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:39 +0000
Subject: [PATCH 28/30] fix: hanging potential nodes with imposed flux on their
 parents

With elements of order two or more a parent may be a flux node that coincides
with the hanging potential node.
---
 source/bem_problem.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index 53a65c7..9855f52 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -1931,14 +1931,14 @@ BEMProblem<dim>::compute_constraints(
   DoFTools::make_hanging_node_constraints(dh, c_hanging);
   c_hanging.close();
   // the unknown of a hanging node may be the potential while it is imposed on
-  // some of its parents: these contribute known values
+  // some of its parents, or the flux: these contribute known values
   for (const auto &line : c_hanging.get_lines())
     {
       double known = 0;
       c_hn.add_line(line.index);
       for (const auto &entry : line.entries)
-        if (localized_dirichlet_nodes(line.index) == 0 &&
-            localized_dirichlet_nodes(entry.first) == 1)
+        if (localized_dirichlet_nodes(line.index) !=
+            localized_dirichlet_nodes(entry.first))
           known += entry.second * loc_tmp_rhs(entry.first);
         else
           c_hn.add_entry(line.index, entry.first, entry.second);
-- 
2.43.0


From 82ed00ddf33930607a399c1cd44c8ba4a8daf90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:10 +0000
Subject: [PATCH 29/30] fix: opposite normals at coincident potential nodes

At a saddle of the surface two faces with opposite normals may meet in a
vertex: their surface gradients do not determine the gradient and the formula
divided rounding errors.
---
 source/bem_problem.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index 9855f52..aacdcef 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -2097,6 +2097,13 @@ BEMProblem<dim>::compute_constraints(
                                   localized_surface_gradients[index1] *
                                   localized_normals[index2];
                               }
+                            // opposite normals: the gradient is not determined
+                            // by the two surface gradients
+                            if (norm_i_norm_it < -1.0 + 1e-8)
+                              {
+                                c.add_entry(*it, i, -1);
+                                continue;
+                              }
                             double this_normal_gradient =
                               (1.0 / (1.0 - pow(norm_i_norm_it, 2))) *
                               (surf_it_norm_i +
-- 
2.43.0


From e7a28d97e7773d7827513eb34483c524e8dac81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:58 +0000
Subject: [PATCH 30/30] fix: free term of the hypersingular equation
 accumulated over solves

---
 source/bem_problem.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/bem_problem.cc b/source/bem_problem.cc
index aacdcef..e1c476f 100644
--- a/source/bem_problem.cc
+++ b/source/bem_problem.cc
@@ -1542,7 +1542,10 @@ BEMProblem<dim>::compute_hypersingular_free_coeffs()
   // the SingularKernelIntegral class. Cell by cell, and DOF by DOF, we compute
   // the portion of integral that gives the contribution of each cell to the
   // free coefficient of its DOFS
+  // the contributions of a previous solve are dropped
   pcout << "Computing vector b_i" << std::endl;
+  for (unsigned int d = 0; d < dim; ++d)
+    b_i[d] = 0;
   std::vector<Tensor<1, dim>> free_term_b_all(dh.n_dofs());
 
   // we initialize an FEValues
-- 
2.43.0

