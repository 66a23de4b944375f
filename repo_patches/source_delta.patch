From f9fbf71234e9baa54199f28cfe41676b7374fddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:27 +0000
Subject: [PATCH 01/52] fix: do not read beyond the mesh arrays at stress
 boundary nodes

At nodes with a prescribed normal stress the momentum stencils indexed a cell
(and a vertical velocity node) beyond the boundary, i.e. outside of the arrays
at the corners. The density gradient of the free surface stabilisation used the
same indices, also at the periodic west boundary where it has to wrap around.
---
 MDLIB/StokesAssemblyDecoupled.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/MDLIB/StokesAssemblyDecoupled.c b/MDLIB/StokesAssemblyDecoupled.c
index 71913e2..ab24bd7 100755
--- a/MDLIB/StokesAssemblyDecoupled.c
+++ b/MDLIB/StokesAssemblyDecoupled.c
@@ -96,6 +96,10 @@ void Xmomentum_InnerNodesDecoupled( SparseMat *Stokes, SparseMat *StokesA, Spars
         iVzNW = c3+nxvz-2;
     }
 
+    // Stress BC: there is no cell beyond the boundary (its coefficients are zero), do not read outside of the arrays
+    if ( SxxBCW == 1.0 ) iPrW = iPrE;
+    if ( SxxBCE == 1.0 ) iPrE = iPrW;
+
     // Variable PDE coefficient
     const double D11E = mesh->D11_n[iPrE];
     const double D11W = mesh->D11_n[iPrW];
@@ -137,7 +141,7 @@ void Xmomentum_InnerNodesDecoupled( SparseMat *Stokes, SparseMat *StokesA, Spars
 
     // Stabilisation with density gradients
     if ( stab==1 ) {
-        double drhodx  = (mesh->rho_n[c2+1] - mesh->rho_n[c2])*one_dx;
+        double drhodx  = (mesh->rho_n[iPrE] - mesh->rho_n[iPrW])*one_dx;
         uC_corr = 1.00 * om * model.dt * mesh->gx[c1] * drhodx;
         // Importante trique, voire meme gigantesque!
         if (uC+uC_corr<0.0) uC_corr = 0.0;
@@ -590,6 +594,10 @@ void Zmomentum_InnerNodesDecoupled( SparseMat *Stokes, SparseMat *StokesA, Spars
     if ( BCv_t[iVzW] == -12 && ix==1      ) iVzW = c3+nxvz-3;
     if ( BCv_t[iVzE] == -12 && ix==nxvz-2 ) iVzE = c3-nxvz+3;
 
+    // Stress BC: there are no nodes beyond the boundary (their coefficients are zero), do not read outside of the arrays
+    if ( SzzBCS == 1.0 ) { iPrS = iPrN; iVzS = iVzC; }
+    if ( SzzBCN == 1.0 ) { iPrN = iPrS; iVzN = iVzC; }
+
     // Linear equation coefficient
     double vS=0.0, vN=0.0, vW=0.0, vE=0.0, vC=0.0, uSW=0.0, uSE=0.0, uNW=0.0, uNE=0.0, pN=0.0, pS=0.0;
 
@@ -642,7 +650,7 @@ void Zmomentum_InnerNodesDecoupled( SparseMat *Stokes, SparseMat *StokesA, Spars
 
     // Stabilisation with density gradients
     if ( stab==1 ) {
-        double drhodz  = (mesh->rho_n[c2+ncx] - mesh->rho_n[c2])*one_dz;
+        double drhodz  = (mesh->rho_n[iPrN] - mesh->rho_n[iPrS])*one_dz;
         vC_corr = 1.00 * om * model.dt * mesh->gz[c3] * drhodz;
         // Importante trique, voire meme gigantesque!
         if ((vC+vC_corr)<0.0 || (vC+vC_corr)<vW || (vC+vC_corr)<vE) vC_corr = 0.0;
-- 
2.43.0


From d39094ce8225ffaba78b159fad3fe22d3cbb0b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:00 +0000
Subject: [PATCH 02/52] fix: initialise the pressure index of the line search

When no later trial lowers the continuity residual of the first one, the
index was used uninitialised to read the residual array.
---
 MDLIB/StokesRoutines.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MDLIB/StokesRoutines.c b/MDLIB/StokesRoutines.c
index 32df1f2..9b6ecfd 100755
--- a/MDLIB/StokesRoutines.c
+++ b/MDLIB/StokesRoutines.c
@@ -672,6 +672,7 @@ double LineSearchDecoupled( SparseMat *Stokes, SparseMat *StokesA, SparseMat *St
         ixz    = 0;
         ix     = 0;
         iz     = 0;
+        ip     = 0;
         ixzp   = 0;
         for( k=1; k<ntry; k++ ) {
             fxzp = sqrt( pow( rx[k],2 ) + pow( rz[k],2 ) + pow( rp[k],2 ) );
-- 
2.43.0


From bedd2f224488647d96b0a5b67e0968333514b113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:15 +0000
Subject: [PATCH 03/52] fix: divide the basal heat flux by the vertical cell
 size

---
 MDLIB/ThermalRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/ThermalRoutines.c b/MDLIB/ThermalRoutines.c
index 71bf0fd..3f886b7 100755
--- a/MDLIB/ThermalRoutines.c
+++ b/MDLIB/ThermalRoutines.c
@@ -298,7 +298,7 @@ void EnergyDirectSolve( grid *mesh, params model, double *rhs_t, markers *partic
 
                         // Bottom flux
                         if (l==0 && mesh->BCT_exp.type[c0-(ncx+2)]==0) { // SOUTH
-                            bbc[eqn] += -1.0/mesh->dx * mesh->BCT_exp.val[c0-(ncx+2)];
+                            bbc[eqn] += -1.0/mesh->dz * mesh->BCT_exp.val[c0-(ncx+2)];
                         }
 
                         if (k==0 && mesh->BCT_exp.type[c0-1]==1) {  // WEST
-- 
2.43.0


From b5bb0f21aca0fb667cd3ccc23d86a44283648805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:30 +0000
Subject: [PATCH 04/52] fix: divide the basal chemical flux by the vertical
 cell size

---
 MDLIB/ChemicalRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/ChemicalRoutines.c b/MDLIB/ChemicalRoutines.c
index cdd0b04..a56a467 100755
--- a/MDLIB/ChemicalRoutines.c
+++ b/MDLIB/ChemicalRoutines.c
@@ -268,7 +268,7 @@ void ChemicalDirectSolve( grid *mesh, params model, markers *particles, mat_prop
                 }
                 
                 if (l==0 && mesh->BCC_exp.type[c0-(ncx+2)]==0) { // SOUTH
-                    bbc[eqn] += -1.0/mesh->dx * mesh->BCC_exp.val[c0-(ncx+2)];
+                    bbc[eqn] += -1.0/mesh->dz * mesh->BCC_exp.val[c0-(ncx+2)];
                 }
                 
                 if (k==0 && mesh->BCC_exp.type[c0-1]==1) {  // WEST
-- 
2.43.0


From c1b11b1d0e67e8641211bb1735cd03c612d16c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:30 +0000
Subject: [PATCH 05/52] fix: initialise the lower bound of the surface
 diffusivity

---
 MDLIB/ChemicalRoutines.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/MDLIB/ChemicalRoutines.c b/MDLIB/ChemicalRoutines.c
index a56a467..7fba665 100755
--- a/MDLIB/ChemicalRoutines.c
+++ b/MDLIB/ChemicalRoutines.c
@@ -89,7 +89,7 @@ void ChemicalDirectSolve( grid *mesh, params model, markers *particles, mat_prop
     double Pr,  Pr_phase;
     double dPr, dPr_phase;
     double ks;//   = k_chem;
-    double mink;// = k_chem;
+    double mink, maxk;// = k_chem;
     
     // Pre-calculate FD coefs
     double one_dx_dx = 1.0/mesh->dx/mesh->dx;
@@ -102,6 +102,9 @@ void ChemicalDirectSolve( grid *mesh, params model, markers *particles, mat_prop
     nxvz = nx+1;
     nzvx = nz+1;
     
+    // Get minimum value of k - safety: lower limit for interpolated surface values
+    MinMaxArrayVal( mesh->kc_x, nx*(nz+1), &mink, &maxk );
+
     // Solve system using CHOLMOD
     cholmod_common c;
     cholmod_start( &c );
-- 
2.43.0


From 44f835793f506261b1e7047beb68cd52b8570da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:47:46 +0000
Subject: [PATCH 06/52] fix: keep the temperature scan of the time-step
 evaluation inside the cells

---
 MDLIB/AdvectionRoutines.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/AdvectionRoutines.c b/MDLIB/AdvectionRoutines.c
index 9651b58..b600da2 100755
--- a/MDLIB/AdvectionRoutines.c
+++ b/MDLIB/AdvectionRoutines.c
@@ -588,8 +588,8 @@ void EvaluateCourantCriterion( double* Vx, double* Vz, params *model, scale scal
     }
 
     if (model->thermal==1) {
-        for (k=0; k<model->Nx+1; k++) {
-            for (l=0; l<model->Nz; l++) {
+        for (k=0; k<model->Nx-1; k++) {
+            for (l=0; l<model->Nz-1; l++) {
                 c  = k   + l*Ncx;
                 dT = mesh->T[c] - mesh->T0_n[c];
                 if (fabs(dT) > dTmax) dTmax = dT;
-- 
2.43.0


From 9e7bc71bbcdac5601e0c9bcceb62aefa3883bea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:39 +0000
Subject: [PATCH 07/52] fix: evaluate the visco-plastic yield stress at the
 corrected pressure in the return mapping

---
 MDLIB/RheologyDensity.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index 25405df..69cfb47 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -506,6 +506,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
     if (materials->Slim[phase] < Tyield) {
       C          = materials->Slim[phase];
       Tyield     = materials->Slim[phase];
+      sin_fric   = 0.0; // no pressure dependence at the cut-off
     }
   }
 
@@ -638,6 +639,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
       gdot     = F_trial / ( eta_ve + eta_vp + K*dt*sin_fric*sin_dil);
       dQdP     = -sin_dil; 
       F_trial0 = F_trial;
+      const double Tyield0 = Tyield; // yield stress at the trial pressure
 
       // Return mapping --> find plastic multiplier rate (gdot)
       for (it=0; it<nitmax; it++) {
@@ -646,7 +648,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
         divp    = -gdot*dQdP;
         Pc      = P + K*dt*divp; // P0 - k*dt*(div-divp) = P + k*dt*divp
         eta_vp  = eta_vp0 * pow(fabs(gdot), 1.0/n_vp - 1.0);
-        Tyield  = Tyield + gdot*eta_vp;
+        Tyield  = Tyield0 + (Pc - P)*sin_fric + gdot*eta_vp;
         Tiic    = Tii - eta_ve*gdot;
         F_trial = Tiic - Tyield;
 
-- 
2.43.0


From b36affc1362b90d10539b60248ccbb15e3adda1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:25 +0000
Subject: [PATCH 08/52] fix: let grain boundary sliding take part in the local
 rheology

---
 MDLIB/RheologyDensity.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index 69cfb47..1e6f8c8 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -112,6 +112,7 @@ void LocalIterationViscoElastic(LocalIterationMutables mutables, LocalIterationP
     if (params.peierls)     dfdeta += -(Eii_exp) * (params.ST + params.n_exp) / eta_ve;
     if (params.diffusion)   dfdeta += -(Eii_lin) *params.n_lin / eta_ve;
     if (params.dislocation) dfdeta += -(Eii_pwl) *params.n_pwl / eta_ve;
+    if (params.gbs)         dfdeta += -(Eii_gbs) *params.n_gbs / eta_ve;
     if (params.constant)    dfdeta += -params.Eii / params.eta_cst;
     // Update viscosity
     eta_ve -= r_eta_ve / dfdeta;
@@ -285,6 +286,7 @@ void LocalIterationViscoElasticGrainSize(LocalIterationMutables mutables, LocalI
     if (params.peierls)     dfdeta += -(Eii_exp) * (params.ST + params.n_exp) / eta_ve;
     if (params.diffusion)   dfdeta += -(Eii_lin) *params.n_lin / eta_ve;
     if (params.dislocation) dfdeta += -(Eii_pwl) *params.n_pwl / eta_ve;
+    if (params.gbs)         dfdeta += -(Eii_gbs) *params.n_gbs / eta_ve;
     // only activate Newton after a couple of steps
     if (it>1) dfdeta += params.m_lin*Eii_lin*dddeta/d_ve;
     // Update viscosity
@@ -384,7 +386,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
   double Ea_pwl = materials->Qpwl[phase], Va_pwl = materials->Vpwl[phase], n_pwl = materials->npwl[phase], m_pwl = materials->mpwl[phase], r_pwl = materials->rpwl[phase], A_pwl = materials->Apwl[phase], f_pwl = materials->fpwl[phase], a_pwl = materials->apwl[phase], F_pwl = materials->Fpwl[phase], pre_factor = materials->pref_pwl[phase], t_pwl = materials->tpwl[phase];
   double Ea_lin = materials->Qlin[phase], Va_lin = materials->Vlin[phase], n_lin = materials->nlin[phase], m_lin = materials->mlin[phase], r_lin = materials->rlin[phase], A_lin = materials->Alin[phase], f_lin = materials->flin[phase], a_lin = materials->alin[phase], F_lin = materials->Flin[phase];
   double Ea_gbs = materials->Qgbs[phase], Va_gbs = materials->Vgbs[phase], n_gbs = materials->ngbs[phase], m_gbs = materials->mgbs[phase], r_gbs = materials->rgbs[phase], A_gbs = materials->Agbs[phase], f_gbs = materials->fgbs[phase], a_gbs = materials->agbs[phase], F_gbs = materials->Fgbs[phase];
-  double B_pwl = 0.0, B_lin = 0.0, B_exp = 0.0, B_gbs = 0.0, C_pwl = 0.0, C_lin = 0.0, C_exp = 0.0;
+  double B_pwl = 0.0, B_lin = 0.0, B_exp = 0.0, B_gbs = 0.0, C_pwl = 0.0, C_lin = 0.0, C_exp = 0.0, C_gbs = 0.0;
   double Ea_exp = materials->Qexp[phase], S_exp = materials->Sexp[phase], E_exp = materials->Eexp[phase], F_exp = 0.0;
   double gamma = materials->Gexp[phase], ST=0.0, n_exp = materials->nexp[phase];
   double Exx_lin = 0.0, Ezz_lin = 0.0, Exz_lin = 0.0, Exx_exp = 0.0, Ezz_exp = 0.0, Exz_exp = 0.0, Exx_gbs = 0.0, Ezz_gbs = 0.0, Exz_gbs = 0.0, Exx_cst = 0.0, Ezz_cst = 0.0, Exz_cst = 0.0;
@@ -484,6 +486,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
   }
   if ( gbs == 1 ) {
     B_gbs = F_gbs * pow(A_gbs,-1.0/n_gbs) * exp( (Ea_gbs + P*Va_gbs)/R/n_gbs/T ) * pow(d, m_gbs/n_gbs) * pow(f_gbs, -r_gbs/n_gbs) * exp(-a_gbs*phi/n_gbs);
+    C_gbs = pow(2.0*B_gbs, -n_gbs);
   }
   if ( peierls   == 1 ) {
     ST                           = Ea_exp/R/T * 2.0*gamma*(1-gamma);
@@ -607,6 +610,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
           .constant    = constant,
           .eta_cst     = eta_cst,
           .gbs         = gbs,
+          .C_gbs       = C_gbs,
           .d           = d,
           .n_gbs       = n_gbs,
           .eta_up      = eta_up,
@@ -756,6 +760,7 @@ double ViscosityConcise( int phase, double G, double T, double P, double d, doub
     if (peierls    == 1)  inv_eta_diss += (1.0/eta_exp);
     if (dislocation== 1)  inv_eta_diss += (1.0/eta_pwl);
     if (diffusion  == 1)  inv_eta_diss += (1.0/eta_lin);
+    if (gbs        == 1)  inv_eta_diss += (1.0/eta_gbs);
     if (constant   == 1)  inv_eta_diss += (1.0/eta_cst);
     if (is_pl      == 1)  inv_eta_diss += (1.0/eta_pl ); 
     eta  = 1.0/(inv_eta_diss);
-- 
2.43.0


From 8226e466b64d04d80c8fb341bb944fcbb61dbacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:36 +0000
Subject: [PATCH 09/52] fix: keep the density and phase diagram lookups inside
 their tables at the lower end

---
 MDLIB/RheologyDensity.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index 1e6f8c8..a4bd8ee 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -1610,6 +1610,7 @@ double ItpRho1D( double Pgrid, params* model, int k ) {
   // Find index of minimum/west pressure node
   double dstP = Pgrid - model->PD1Dmin[k];
   int    iP   = ceil( dstP/dP ) - 1;
+  if (iP<0) iP = 0; // pressure on the first entry
   // Calculate weighting coefficients for linear interpolant
   double PW   = model->PD1Dmin[k] + iP*dP;
   double wW   = 1.0 - (Pgrid - PW)/dP;
@@ -1638,9 +1639,11 @@ double Interpolate2Ddata( double Tgrid, double Pgrid, double Tmin, double Tmax,
   // Find index of minimum/west temperature node
   dstT  = Tgrid - Tmin ;
   iT    = ceil( dstT/dT ) - 1;
+  if (iT<0) iT = 0; // temperature on the first entry
   // Find index of minimum/west pressure node
   dstP  = Pgrid - Pmin;
   iP    = ceil( dstP/dP ) - 1;
+  if (iP<0) iP = 0; // pressure on the first entry
   // Calculate weights for bilinear interpolant
   TW    = Tmin + iT*dT;
   PW    = Pmin + iP*dP;
-- 
2.43.0


From fbea4dbbbcc6ab7d32eb3aa12bbd9c29ff49da37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:36 +0000
Subject: [PATCH 10/52] fix: make the crust and mantle solidi continuous in
 pressure

---
 MDLIB/MeltingRoutines.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MDLIB/MeltingRoutines.c b/MDLIB/MeltingRoutines.c
index 65aff91..f068ed9 100644
--- a/MDLIB/MeltingRoutines.c
+++ b/MDLIB/MeltingRoutines.c
@@ -79,7 +79,7 @@ void PartialMelting( double *phi, double* hlat, double P, double T, double phi0,
                 Ts = 831. + 0.06*P_MPa;
             }
             else {
-                Ts = 889. - 17900/(P_MPa + 54) + 20,200/pow((P_MPa + 54),2);
+                Ts = 889. + 17900/(P_MPa + 54) + 20200/pow((P_MPa + 54),2);
             }
             Tl = 1262 + 0.09*P_MPa;
             Ql = 300000.;
@@ -91,7 +91,7 @@ void PartialMelting( double *phi, double* hlat, double P, double T, double phi0,
                 Ts = 2212 + 0.030819*(P_MPa - 10000); //en K
             }
             else {
-                Ts = 1394 + 0.132899*P_MPa - 0.000005014*pow(P_MPa,2.0); // en K
+                Ts = 1394 + 0.132899*P_MPa - 0.000005104*pow(P_MPa,2.0); // en K
             }
             Tl = 2073 + 0.114*P_MPa; // en K
             Ql = 400000.;
@@ -103,7 +103,7 @@ void PartialMelting( double *phi, double* hlat, double P, double T, double phi0,
                 Ts = 2212. + 0.030819*(P_MPa-10000.);
             }
             else {
-                Ts = 1394 + 0.132899*P_MPa - 0.000005014/pow(P_MPa,2);
+                Ts = 1394 + 0.132899*P_MPa - 0.000005104*pow(P_MPa,2);
             }
             Tl = 2073 + 0.114*P_MPa;
             Ql = 300000.;
-- 
2.43.0


From 1064eee1c1e535a5dbb539d2e2ae379d4b77b787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:36 +0000
Subject: [PATCH 11/52] fix: make the melt fraction independent of the
 temperature scale

---
 MDLIB/MeltingRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/MeltingRoutines.c b/MDLIB/MeltingRoutines.c
index f068ed9..96c5154 100644
--- a/MDLIB/MeltingRoutines.c
+++ b/MDLIB/MeltingRoutines.c
@@ -49,7 +49,7 @@ void PartialMelting( double *phi, double* hlat, double P, double T, double phi0,
     const double P_MPa = P/1e6*scaling->S; // convert P to MPa
     const double T_K   = T*scaling->T;     // convert T to K
     double Ts = T_K, Tl = T_K, Ql;
-    double alpha = 1e-7/(1/scaling->T); // very small number -> linear melting
+    double alpha = 1e-7; // very small number -> linear melting
 
     if (melt_model>0 && T>1e-13 && P>1e-13) {
 
-- 
2.43.0


From 75a9597abfe0dd32e28860ba18742f50384ebaf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:36 +0000
Subject: [PATCH 12/52] fix: test the type of the cell itself in the melting
 and mass source terms

---
 MDLIB/MeltingRoutines.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/MeltingRoutines.c b/MDLIB/MeltingRoutines.c
index 96c5154..5daf6da 100644
--- a/MDLIB/MeltingRoutines.c
+++ b/MDLIB/MeltingRoutines.c
@@ -184,7 +184,7 @@ void UpdateAlphaCp( grid* mesh, markers* particles, mat_prop *materials, params
             if ( fabs(mesh->phase_perc_n[p][c0])>1.0e-13 ) {
                 
                 // Compute only if below free surface
-                if ( mesh->BCp.type[0] != 30 && mesh->BCp.type[0] != 31) {
+                if ( mesh->BCp.type[c0] != 30 && mesh->BCp.type[c0] != 31) {
                     const int melt_model = materials->melt[p];
                     const double tk = materials->tau_kin[p];
                     PartialMelting( &phi, &Ql, mesh->p_in[c0], mesh->T[c0], mesh->phi0_n[c0], tk, model->dt, melt_model, scaling );  
@@ -240,7 +240,7 @@ void MassSourceTerm( grid* mesh, markers* particles, mat_prop *materials, params
             if ( fabs(mesh->phase_perc_n[p][c0])>1.0e-13 ) {
                 
                 // Compute only if below free surface
-                if ( mesh->BCp.type[0] != 30 && mesh->BCp.type[0] != 31) {
+                if ( mesh->BCp.type[c0] != 30 && mesh->BCp.type[c0] != 31) {
 
                     const double divth = materials->alp[p]*materials->rho[p]/mesh->rho_n[c0]*(mesh->T[c0] - mesh->T0_n[c0])/model->dt;
                     
-- 
2.43.0


From feefcbdaef022d5f5e3e3e8be59eb5b0ccd2c346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:36 +0000
Subject: [PATCH 13/52] fix: start the linear strain softening at the lower
 strain limit

---
 MDLIB/RheologyDensity.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MDLIB/RheologyDensity.c b/MDLIB/RheologyDensity.c
index a4bd8ee..850c920 100644
--- a/MDLIB/RheologyDensity.c
+++ b/MDLIB/RheologyDensity.c
@@ -1169,9 +1169,9 @@ void Softening(int c0, double** phase_perc, double* dil_arr, double* fric_arr, d
       }
       // If we are in the softening strain range
       if (strain_acc >= materials.pls_start[p] && strain_acc < materials.pls_end[p] ) {
-        if (materials.phi_soft[p] == 1) fric = materials.phi[p] + (materials.phi_end[p] - materials.phi[p]) / (materials.pls_end[p] - materials.pls_start[p]) *  strain_acc;
-        if (materials.psi_soft[p] == 1) dil  = materials.psi[p] + (materials.psi_end[p] - materials.psi[p]) / (materials.pls_end[p] - materials.pls_start[p]) *  strain_acc;
-        if (materials.coh_soft[p] == 1) C    = materials.C[p]   + (materials.C_end[p]   - materials.C[p]  ) / (materials.pls_end[p] - materials.pls_start[p]) *  strain_acc;
+        if (materials.phi_soft[p] == 1) fric = materials.phi[p] + (materials.phi_end[p] - materials.phi[p]) / (materials.pls_end[p] - materials.pls_start[p]) *  (strain_acc - materials.pls_start[p]);
+        if (materials.psi_soft[p] == 1) dil  = materials.psi[p] + (materials.psi_end[p] - materials.psi[p]) / (materials.pls_end[p] - materials.pls_start[p]) *  (strain_acc - materials.pls_start[p]);
+        if (materials.coh_soft[p] == 1) C    = materials.C[p]   + (materials.C_end[p]   - materials.C[p]  ) / (materials.pls_end[p] - materials.pls_start[p]) *  (strain_acc - materials.pls_start[p]);
       }
 
     }
-- 
2.43.0


From 3bc3b4b4a7366bb719240a0db15ca3ac8bae0937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:03 +0000
Subject: [PATCH 14/52] fix: do not fclose a NULL stream when a breakpoint or
 particle file is missing

---
 MDLIB/InputOutput.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 80d518f..34f200b 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -70,7 +70,6 @@ void LoadIniParticles( char* name, markers* particles, grid* mesh, markers *topo
     file = fopen(name, "rb");
     if ( file == NULL ) {
         printf("Error opening %s, this file is probably corrupted or non-existant\nExiting...\n", name);
-        fclose(file);
         free(name);
         exit(1);
     }
@@ -159,7 +158,6 @@ void LoadBreakpointParticles( markers *particles, grid* mesh, markers *topo_chai
     file = fopen(name, "rb");
     if ( file == NULL ) {
        printf("Error opening %s, this file is probably corrupted or non-existant\nExiting...\n", name);
-       fclose(file);
        free(name);
        exit(1);
     }
@@ -671,7 +669,6 @@ void MakeBreakpointParticles( markers *particles,  grid* mesh, markers *topo_cha
     if ( file == NULL ) {
         printf("Error opening %s, this file is probably corrupted or non-existant\nExiting...\n", name);
         free(name);
-        fclose(file);
         exit(1);
     }
     fwrite( &s1, 1, 1, file);
-- 
2.43.0


From 1d83968965a10db2a859f2d05cdc78fd2598d47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:21 +0000
Subject: [PATCH 15/52] fix: read setup files with blank lines, lines without
 blanks and no final newline

---
 MDLIB/InputOutput.c | 41 +++++++++++++++++------------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index 34f200b..fcb8cd9 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1018,7 +1018,6 @@ Input ReadInputFile( char *fileName ) {
     fin = fopen(fileName,"rt");
     if (fin == NULL) {
         printf("Setup file '%s' does not exist\nExiting...\n", fileName);
-        fclose(fin);
         exit(1);
     }
 
@@ -1912,8 +1911,7 @@ int ReadInt2( FILE *fin, char FieldName[], int Default )
     while(value == 0)
     {
         // Read new line
-        fgets ( line, sizeof(line), fin );
-        if (feof(fin)) {
+        if (fgets ( line, sizeof(line), fin ) == NULL) {
             printf("Warning : Parameter '%s' not found in the setup file, running with default value %d\n", FieldName, Default);
             rewind (fin);
             free(param1);
@@ -1923,7 +1921,7 @@ int ReadInt2( FILE *fin, char FieldName[], int Default )
         // Determine the length of the parameter string in the current line.
         int InPar_length = 0;
 
-        while(line[InPar_length] != ' ')
+        while(line[InPar_length] != ' ' && line[InPar_length] != '\0')
         {
             InPar_length = InPar_length + 1;
         }
@@ -1985,8 +1983,7 @@ double ReadDou2( FILE *fin, char FieldName[], double Default )
     while(value == 0.0)
     {
         // Read new line
-        fgets ( line, sizeof(line), fin );
-        if (feof(fin)) {
+        if (fgets ( line, sizeof(line), fin ) == NULL) {
             // printf("Warning : Parameter '%s' not found in the setup file, running with default value %2.2e\n", FieldName, Default);
             rewind (fin);
             free(param1);
@@ -1995,7 +1992,7 @@ double ReadDou2( FILE *fin, char FieldName[], double Default )
 
         // Determine the length of the parameter string in the current line.
         int InPar_length = 0;
-        while(line[InPar_length] != ' ')
+        while(line[InPar_length] != ' ' && line[InPar_length] != '\0')
         {
             InPar_length = InPar_length + 1;
         }
@@ -2057,8 +2054,7 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
     while(find == 0)
     {
         // Read new line and check for existence of phases. If not exit.
-        fgets ( line, sizeof(line), fin );
-        if (feof(fin))
+        if (fgets ( line, sizeof(line), fin ) == NULL)
         {
             printf("Warning : No phase ID found! I will exit here.");
             free(param1);
@@ -2069,7 +2065,7 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
         // Determine the length of the parameter string in the current line.
         int InPar_length = 0;
 
-        while(line[InPar_length] != ' ')
+        while(line[InPar_length] != ' ' && line[InPar_length] != '\0')
         {
             InPar_length = InPar_length + 1;
         }
@@ -2105,10 +2101,19 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
                 while(subfind == 0)
                 {
                     // Read new line
-                    fgets ( phase_line, sizeof(phase_line), fin );
+                    if (fgets ( phase_line, sizeof(phase_line), fin ) == NULL)
+                    {
+                        // Break in case the parameter has not been defined until the end of the file.
+                        if ( fabs(Default) <  100.0 ) printf("Warning : Parameter '%s' not found in the setup file, running with default value %.2lf\n", FieldName, Default);
+                        if ( fabs(Default) >= 100.0 ) printf("Warning : Parameter '%s' not found in the setup file, running with default value %2.2e\n", FieldName, Default);
+                        rewind (fin);
+                        free(param1);
+                        free(param2);
+                        return Default;
+                    }
                     // Determine the length of the parameter string in the current line.
                     InPar_length = 0;
-                    while(phase_line[InPar_length] != ' ')
+                    while(phase_line[InPar_length] != ' ' && phase_line[InPar_length] != '\0')
                     {
                         InPar_length = InPar_length + 1;
                     }
@@ -2154,18 +2159,6 @@ double ReadMatProps( FILE *fin, char FieldName[], int PhaseID, double Default )
                         subfind = 1;
                     }
 
-                    // Break in case the parameter has not been defined until the end of the file.
-                    if (feof(fin))
-                    {
-                        if ( fabs(Default) <  100.0 ) printf("Warning : Parameter '%s' not found in the setup file, running with default value %.2lf\n", FieldName, Default);
-                        if ( fabs(Default) >= 100.0 ) printf("Warning : Parameter '%s' not found in the setup file, running with default value %2.2e\n", FieldName, Default);
-                        rewind (fin);
-                        free(param1);
-                        free(param2);
-                        free(param3);
-                        return Default;
-                    }
-                    
                     free(param3);
                 }
                 free(param1);
-- 
2.43.0


From 97ae46f26f94f428321614f41f1122c66d7e7bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:33 +0000
Subject: [PATCH 16/52] fix: text parameters are searched from the start of the
 file, by whole name and in full length

---
 MDLIB/InputOutput.c | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index fcb8cd9..d54f6d9 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1713,7 +1713,7 @@ double* ReadBin(char importDir[], char A_name[], int nx, int ny, double scale ){
 /*--------------------------------------------------------------------------------------------------------------------*/
 
 char* ReadChar( FILE *fin, char FieldName[], char Default[] ) {
-    int h, find=0, bufmax=50, length;
+    int h, find=0, bufmax=1000, length;
     char *string1, *string2;
     char line[bufmax];
 
@@ -1732,13 +1732,14 @@ char* ReadChar( FILE *fin, char FieldName[], char Default[] ) {
         line[h]='\0';
     }
 
+    // Start from beginning of the file.
+    rewind(fin);
+
     // Seach for sign 'equal' in the lines
     while ( find == 0 ) {
 
         // Read new line
-        fgets ( line, sizeof(line), fin );
-
-        if (feof(fin)) {
+        if (fgets ( line, sizeof(line), fin ) == NULL) {
             printf("Warning : Parameter '%s' not found in the setup file, running with default value %s\n", FieldName, Default);
             rewind(fin);
             free(string1);
@@ -1764,8 +1765,8 @@ char* ReadChar( FILE *fin, char FieldName[], char Default[] ) {
         }
         param2[length] = '\0';
 
-        // Check if we found the right parameter name
-        if ( strcmp(param1, param2) == 0 ) {
+        // Check if we found the right parameter name (the name must end here)
+        if ( strcmp(param1, param2) == 0 && line[length] == ' ' ) {
             find = 1;
             int str_size = 0;
             int h1;
@@ -1773,8 +1774,8 @@ char* ReadChar( FILE *fin, char FieldName[], char Default[] ) {
             for (h=0;h<bufmax;h++) {
                 if(strlen(line)> 0 && line[h]=='=') {
 
-                    for (h1=0; h1<30; h1++) {
-                        if ( isspace(line[h+2+h1]) ) {
+                    for (h1=0; h+2+h1<bufmax; h1++) {
+                        if ( isspace(line[h+2+h1]) || line[h+2+h1] == '\0' ) {
                             string1[h1] = '\0';
                             str_size++;
                             break;
-- 
2.43.0


From 9e56f7182c3a2991e5dd68ae0ada576806a35a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:29 +0000
Subject: [PATCH 17/52] fix: read the second phase of a mixture from its own
 parameter (phase_two)

---
 MDLIB/InputOutput.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/InputOutput.c b/MDLIB/InputOutput.c
index d54f6d9..bd34746 100755
--- a/MDLIB/InputOutput.c
+++ b/MDLIB/InputOutput.c
@@ -1335,7 +1335,7 @@ Input ReadInputFile( char *fileName ) {
         materials.phase_diagram[k]     = (int)ReadMatProps( fin, "phase_diagram",     k,   -1  );
         // Diffused rheological contrasts
         materials.phase_mix[k]  = (int)ReadMatProps( fin, "phase_mix",k,          0.0  );
-        materials.phase_two[k]  = (int)ReadMatProps( fin, "phase_mix",k,    (double)k  );
+        materials.phase_two[k]  = (int)ReadMatProps( fin, "phase_two",k,    (double)k  );
         // Anisotropy
         materials.aniso_angle[k]    =  ReadMatProps( fin, "aniso_angle",     k,   90.0  )  * M_PI/ 180.0;
         materials.aniso_factor[k]   =  ReadMatProps( fin, "aniso_factor",    k,    1.0  ); 
-- 
2.43.0


From 6c35f64ca9b05c98fdae824be5a0cf3df63fb35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:25 +0000
Subject: [PATCH 18/52] fix: user power law A follows from its reference stress
 and strain rate in scaled units

---
 MDLIB/FlowLaws.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/FlowLaws.c b/MDLIB/FlowLaws.c
index 34090c3..6983044 100755
--- a/MDLIB/FlowLaws.c
+++ b/MDLIB/FlowLaws.c
@@ -75,7 +75,7 @@ void ReadDataPowerLaw( mat_prop* mat, params* model, int k, int number, scale* s
             mat->rpwl[k] = 0.0;
             mat->Qpwl[k] = mat->Qpwl[k];
             mat->Vpwl[k] = 0.0;
-            mat->Apwl[k] = pow( pow(2.0, mat->npwl[k]) * mat->eps0[k]/pow(mat->tau0[k], mat->npwl[k]), -mat->npwl[k]);//pow(mat->eta0[k], -mat->npwl[k]);
+            mat->Apwl[k] = pow(2.0, mat->npwl[k]) * mat->eps0[k]*scaling->E / pow(mat->tau0[k]*scaling->S, mat->npwl[k]); // stress is tau0 at strain rate eps0; rescale here, as A will be scaled later on
             printf("pre exp = %2.2e\n", mat->Apwl[k]);
             mat->fpwl[k] = 0.0;
             mat->apwl[k] = 0.0;
-- 
2.43.0


From ca07125aa8d84f3a274ca63d0c4efa3409bcecab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:25 +0000
Subject: [PATCH 19/52] fix: accumulated strain is not extrapolated beyond the
 outermost cell centres

---
 MDLIB/RheologyParticles.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/MDLIB/RheologyParticles.c b/MDLIB/RheologyParticles.c
index 34790b1..7dc5436 100644
--- a/MDLIB/RheologyParticles.c
+++ b/MDLIB/RheologyParticles.c
@@ -266,6 +266,12 @@ void AccumulatedStrainII( grid* mesh, scale scaling, params model, markers* part
             dxm = (particles->x[k] - X_vect[j_part]);
             dzm = (particles->z[k] - Z_vect[i_part]);
             
+            // Do not extrapolate between the outermost nodes and the box sides
+            if (dxm<0.0) dxm = 0.0;
+            if (dxm>dx ) dxm = dx;
+            if (dzm<0.0) dzm = 0.0;
+            if (dzm>dz ) dzm = dz;
+            
             iSW = j_part+i_part*Nx;
             iSE = j_part+i_part*Nx+1;
             iNW = j_part+(i_part+1)*Nx;
-- 
2.43.0


From bb7cf5f92fcdea2562301f417dfb1fbe47986f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:25 +0000
Subject: [PATCH 20/52] fix: marker stress rotation uses the vorticity of the
 grid

---
 MDLIB/RheologyParticles.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/RheologyParticles.c b/MDLIB/RheologyParticles.c
index 7dc5436..e17d170 100644
--- a/MDLIB/RheologyParticles.c
+++ b/MDLIB/RheologyParticles.c
@@ -1629,7 +1629,7 @@ firstprivate( model )
         if (model->elastic==1) { 
 
             double *wxzm   = DoodzCalloc(particles->Nb_part, sizeof(DoodzFP));
-            P2Mastah( model, *particles, wxzm,     mesh, mesh->wxz,   mesh->BCg.type,  1, 0, interp, vert, model->interp_stencil);
+            Interp_Grid2P( *particles, wxzm,  mesh, mesh->wxz,  mesh->xg_coord,  mesh->zg_coord,  mesh->Nx,   mesh->Nz,   mesh->BCg.type  );
 
 #pragma omp parallel for shared( particles, wxzm ) firstprivate( dt, model ) private( k, angle, txx, tzz, txz )
             for ( k=0; k<particles->Nb_part; k++ ) {
-- 
2.43.0


From 33c7f95cd33cb8cdb7720c428d8f5e3aa898b8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:25 +0000
Subject: [PATCH 21/52] fix: analytic stress rotation turns the stress with the
 material

---
 MDLIB/RheologyParticles.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/RheologyParticles.c b/MDLIB/RheologyParticles.c
index e17d170..6359015 100644
--- a/MDLIB/RheologyParticles.c
+++ b/MDLIB/RheologyParticles.c
@@ -1643,7 +1643,7 @@ firstprivate( model )
                         particles->sxz[k]  -=  dt*(tzz-txx)*wxzm[k];
                     }
                     if (model->stress_rotation==2) { // Analytical rotation
-                        double angle = dt*wxzm[k];
+                        double angle = -dt*wxzm[k]; // wxz is positive counterclockwise, formula rotates clockwise
                         particles->sxxd[k] =  ( txx*cos(angle) + txz*sin(angle))*cos(angle) + ( txz*cos(angle) + tzz*sin(angle))*sin(angle);
                         particles->szzd[k] = -(-txx*sin(angle) + txz*cos(angle))*sin(angle) + (-txz*sin(angle) + tzz*cos(angle))*cos(angle);
                         particles->sxz[k]  = -( txx*cos(angle) + txz*sin(angle))*sin(angle) + ( txz*cos(angle) + tzz*sin(angle))*cos(angle);
-- 
2.43.0


From 3532f50d12778219947c323c0c2aae98c17aa2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:25 +0000
Subject: [PATCH 22/52] fix: transmutation treats the last marker and skips
 inactive ones

---
 MDLIB/ParticleRoutines.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 1aabd8c..9fc4b3c 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -3570,8 +3570,9 @@ void CountPartCell_OLD( markers* particles, grid *mesh, params model, surface to
 void TransmutateMarkers(markers *particles, mat_prop *materials, double scaling_T) {
   int transmutated_particles = 0;
 #pragma omp parallel for reduction(+:transmutated_particles) shared(particles)
-  for (int k=0; k<particles->Nb_part-1; k++) {
+  for (int k=0; k<particles->Nb_part; k++) {
     const int phase = particles->phase[k];
+    if (phase == -1) continue;
     const double temperature = particles->T[k];
     const double transmutation = materials->transmutation[phase];
 
-- 
2.43.0


From 4f9c337917e4e13b01c0506e9e1998d0ccf8a0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:49 +0000
Subject: [PATCH 23/52] fix: flag air cells for the composition too

---
 MDLIB/FreeSurface.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index d5593da..97b2dd9 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -628,6 +628,9 @@ void CellFlagging( grid *mesh, params model, surface topo, scale scaling ) {
                 mesh->BCp_exp.type[c2] = -1;
                 
             }
+            
+            // Composition is solved in the same cells as temperature
+            mesh->BCc.type[c1] = mesh->BCt.type[c1];
         }
     }
     
-- 
2.43.0


From 907e1ecdc2ba355a74db884757a8cbd229bfe56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:49 +0000
Subject: [PATCH 24/52] fix: no background pressure in the air

---
 MDLIB/GridRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/GridRoutines.c b/MDLIB/GridRoutines.c
index 70996b9..5639e9b 100755
--- a/MDLIB/GridRoutines.c
+++ b/MDLIB/GridRoutines.c
@@ -394,7 +394,7 @@ void InitialiseSolutionFields( grid *mesh, params *model ) {
         for( k=0; k<ncx; k++) {
             c = k + l*ncx;               
             if ( mesh->BCp.type[c] == 30 ||  mesh->BCp.type[c] == 31 ) mesh->p_in[c]  = 0.0;
-            if ( mesh->BCp.type[c] != 30 ||  mesh->BCp.type[c] != 31 ) {
+            if ( mesh->BCp.type[c] != 30 &&  mesh->BCp.type[c] != 31 ) {
                 if (model->step==0) {
                     mesh->p_in[c]  = 0.0 + model->bkg_pressure;
                 }
-- 
2.43.0


From ed566bcfd015bbfeeae5b86277f5244a8728c2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:49 +0000
Subject: [PATCH 25/52] fix: composition boundary conditions look at the
 composition

---
 MDLIB/Setup.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/MDLIB/Setup.c b/MDLIB/Setup.c
index 70f1bf2..a9b94b9 100644
--- a/MDLIB/Setup.c
+++ b/MDLIB/Setup.c
@@ -720,7 +720,7 @@ void SetBCs(SetBCs_ff setBCs, MdoodzInput *instance, grid *mesh, surface *topo)
         if (k == 0) {
           position = W;
           if (setBCs.SetBCC) {
-            SetBC bc          = setBCs.SetBCC(instance, position, coordinates, mesh->T[c]);
+            SetBC bc          = setBCs.SetBCC(instance, position, coordinates, mesh->X_n[c]);
             mesh->BCC_exp.type[c1-1] = bc.type;
             mesh->BCC_exp.val[c1-1]  = bc.value;
           }
@@ -730,7 +730,7 @@ void SetBCs(SetBCs_ff setBCs, MdoodzInput *instance, grid *mesh, surface *topo)
         if (k == NCX-1) {
           position = E;
           if (setBCs.SetBCC) {
-            SetBC bc          = setBCs.SetBCC(instance, position, coordinates, mesh->T[c]);
+            SetBC bc          = setBCs.SetBCC(instance, position, coordinates, mesh->X_n[c]);
             mesh->BCC_exp.type[c1+1] = bc.type;
             mesh->BCC_exp.val[c1+1]  = bc.value;
           }
@@ -740,7 +740,7 @@ void SetBCs(SetBCs_ff setBCs, MdoodzInput *instance, grid *mesh, surface *topo)
         if (l == 0) {
           position = S;
           if (setBCs.SetBCC) {
-            SetBC bc          = setBCs.SetBCC(instance, position, coordinates, mesh->T[c]);
+            SetBC bc          = setBCs.SetBCC(instance, position, coordinates, mesh->X_n[c]);
             mesh->BCC_exp.type[c1-(NCX+2)] = bc.type;
             mesh->BCC_exp.val[c1-(NCX+2)]  = bc.value;
           }
@@ -750,7 +750,7 @@ void SetBCs(SetBCs_ff setBCs, MdoodzInput *instance, grid *mesh, surface *topo)
         if (l == NCZ-1) {
           position = N;
           if (setBCs.SetBCC) {
-            SetBC bc          = setBCs.SetBCC(instance, position, coordinates, mesh->T[c]);
+            SetBC bc          = setBCs.SetBCC(instance, position, coordinates, mesh->X_n[c]);
             mesh->BCC_exp.type[c1+(NCX+2)] = bc.type;
             mesh->BCC_exp.val[c1+(NCX+2)]  = bc.value;
           }
@@ -758,10 +758,10 @@ void SetBCs(SetBCs_ff setBCs, MdoodzInput *instance, grid *mesh, surface *topo)
 
         // FREE SURFACE
         if (l<NCZ-1) {
-          if ((mesh->BCc.type[c] == -1 || mesh->BCc.type[c] == 1 || mesh->BCt.type[c] == 0) && mesh->BCt.type[c + NCX] == 30) {
+          if ((mesh->BCc.type[c] == -1 || mesh->BCc.type[c] == 1 || mesh->BCc.type[c] == 0) && mesh->BCc.type[c + NCX] == 30) {
             position = free_surface;
             if (setBCs.SetBCC) {
-              SetBC bc          = setBCs.SetBCC(instance, position, coordinates, mesh->T[c]);
+              SetBC bc          = setBCs.SetBCC(instance, position, coordinates, mesh->X_n[c]);
               mesh->BCC_exp.type[c1] = bc.type;
               mesh->BCC_exp.val[c1]  = bc.value;
             }
-- 
2.43.0


From cc4317417a02641cf153b7aa5ab9110a2a4b20b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:49 +0000
Subject: [PATCH 26/52] fix: refuse a phase equal to the number of phases

---
 MDLIB/Setup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/Setup.c b/MDLIB/Setup.c
index a9b94b9..1edb506 100644
--- a/MDLIB/Setup.c
+++ b/MDLIB/Setup.c
@@ -32,7 +32,7 @@ void BuildInitialTopography(BuildInitialTopography_ff buildInitialTopography, Md
 /*--------------------------------------------------------------------------------------------------------------------*/
 
 void ValidatePhase(int phaseId, int phasesCount) {
-  if (phaseId > phasesCount) {
+  if (phaseId >= phasesCount) {
     printf("Lazy bastard! Fix your particle phase ID! \n");
     exit(144);
   }
-- 
2.43.0


From 3db6b580458ef24c51842afa4b3be670f36c2271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:49 +0000
Subject: [PATCH 27/52] fix: turned ellipses keep their centre

---
 MDLIB/Setup.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/Setup.c b/MDLIB/Setup.c
index 1edb506..c382976 100644
--- a/MDLIB/Setup.c
+++ b/MDLIB/Setup.c
@@ -1014,8 +1014,8 @@ bool IsEllipseCoordinates(Coordinates coordinates, Ellipse ellipse, double scali
   const double theta   = ellipse.angle * M_PI / 180.0;
   const double radiusX = (ellipse.radiusX / 2) / scalingL;
   const double radiusZ = (ellipse.radiusZ / 2) / scalingL;
-  const double Xn      = (coordinates.x - ellipse.centreX / scalingL) * cos(theta) - (coordinates.z + ellipse.centreZ / scalingL) * sin(theta);
-  const double Zn      = (coordinates.x + ellipse.centreX / scalingL) * sin(theta) + (coordinates.z - ellipse.centreZ / scalingL) * cos(theta);
+  const double Xn      = (coordinates.x - ellipse.centreX / scalingL) * cos(theta) - (coordinates.z - ellipse.centreZ / scalingL) * sin(theta);
+  const double Zn      = (coordinates.x - ellipse.centreX / scalingL) * sin(theta) + (coordinates.z - ellipse.centreZ / scalingL) * cos(theta);
   if (pow(Xn / radiusX, 2) + pow(Zn / radiusZ, 2) - 1 < 0) {
     return true;
   } else {
-- 
2.43.0


From 1a0d52414bded929950ea5d5d4abadffdeb97ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:49 +0000
Subject: [PATCH 28/52] fix: room for the extension in DefaultTextFilename

---
 MDLIB/Setup.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/Setup.c b/MDLIB/Setup.c
index c382976..40827de 100644
--- a/MDLIB/Setup.c
+++ b/MDLIB/Setup.c
@@ -1060,7 +1060,7 @@ char* DefaultTextFilename( char filename[] ) {
   
   int len_basename = n_basename;
   // char basename[len_basename];
-  char *basename = calloc(len_basename, sizeof(char));
+  char *basename = calloc(len_basename + strlen(".txt") + 1, sizeof(char));
   start=false, end=false;
   n_basename = 0;
 
-- 
2.43.0


From c264bfb2a648a57529c74a4edd34c601312c63ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:49 +0000
Subject: [PATCH 29/52] fix: lithostatic pressure counts the top row of cells

---
 MDLIB/GridRoutines.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/GridRoutines.c b/MDLIB/GridRoutines.c
index 5639e9b..fb07114 100755
--- a/MDLIB/GridRoutines.c
+++ b/MDLIB/GridRoutines.c
@@ -430,7 +430,7 @@ void ComputeLithostaticPressure( grid *mesh, params *model, double RHO_REF, scal
     Initialise1DArrayDouble( mesh->p_lith,  (mesh->Nx-1)*(mesh->Nz-1), 0.0 );
     
     // Cell center arrays
-    for( l=ncz-2; l>=0; l--) {
+    for( l=ncz-1; l>=0; l--) {
         for( k=0; k<ncx; k++) {
 
             // Initialise vertices variables
@@ -444,7 +444,7 @@ void ComputeLithostaticPressure( grid *mesh, params *model, double RHO_REF, scal
 
             // Initialise pressure variables : Compute lithostatic pressure
             if ( mesh->BCp.type[c] != 30 && mesh->BCp.type[c] != 31 ) { // First row (surface)
-                mesh->p_lith[c]  = mesh->p_lith[c+ncx] -  model->gz * mesh->dz * rho_eff;
+                mesh->p_lith[c]  = (l<ncz-1 ? mesh->p_lith[c+ncx] : 0.0) -  model->gz * mesh->dz * rho_eff;
 
             }
         }
-- 
2.43.0


From 4219af6cfb604d9fb541acf4f71feee8e2cd2d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:49 +0000
Subject: [PATCH 30/52] fix: sediment markers do not exceed the marker arrays

---
 MDLIB/FreeSurface.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index 97b2dd9..766a768 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -131,6 +131,11 @@ void AddPartSed( markers *particles, mat_prop materials, markers *topo_chain, su
             
             if ( hm > hm0 ) { //;# && (hm-hm0)>1e-6
                 
+                if ( new_ind >= particles->Nb_part_max ) {
+                    printf("Cannot add sediment markers: maximum number of particles reached (%d)\n", particles->Nb_part_max);
+                    exit(1);
+                }
+                
                 // Compute new altitude of the marker right in between the new and old position of the free surface
                 znew                      = 0.5*(hm+hm0);
                 particles->x[new_ind]     = xnew;
-- 
2.43.0


From f1a8278e3367aaf3bc6b277e002fca9255f4b954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:49 +0000
Subject: [PATCH 31/52] fix: sediment markers start undeformed

---
 MDLIB/FreeSurface.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index 766a768..a0b4a6f 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -165,8 +165,8 @@ void AddPartSed( markers *particles, mat_prop materials, markers *topo_chain, su
                 if (finite_strain==1) {
                     particles->Fxx[new_ind]           = 1.0;
                     particles->Fxz[new_ind]           = 0.0;
-                    particles->Fzx[new_ind]           = 1.0;
-                    particles->Fzz[new_ind]           = 0.0;
+                    particles->Fzx[new_ind]           = 0.0;
+                    particles->Fzz[new_ind]           = 1.0;
                 }
                 
                 if (track_T_P_x_z==1) {
-- 
2.43.0


From 5274608ad74aae2a2debff451a1a811653f6fcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:49 +0000
Subject: [PATCH 32/52] fix: recycled surface markers are active

---
 MDLIB/FreeSurface.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index a0b4a6f..c647a69 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -252,6 +252,7 @@ void RemeshMarkerChain( markers *topo_chain, surface *topo, params model, scale
                     if (  ii>=nout) recycle=0;
                     // Local x coordinate:  1.0*dx/4.0/res
                     topo_chain->x[NewInd] = model.xmin + k*dx/res + dx/4.0/res;
+                    topo_chain->phase[NewInd] = 0;
                     // Index of the coarse grid column
                     distance        = (topo_chain->x[NewInd]-model.xmin-dx/2.0);
                     in              = ceil((distance/dx)+0.5) - 1;
@@ -271,6 +272,7 @@ void RemeshMarkerChain( markers *topo_chain, surface *topo, params model, scale
                     if (  ii>=nout) recycle=0;
                     // Local x coordinate:  3.0*dx/4.0/res
                     topo_chain->x[NewInd] = model.xmin + k*dx/res + 3.0*dx/4.0/res;
+                    topo_chain->phase[NewInd] = 0;
                     // Index of the coarse grid column
                     distance        = (topo_chain->x[NewInd]-model.xmin-dx/2.0);
                     in              = ceil((distance/dx)+0.5) - 1;
-- 
2.43.0


From 48fd42df61fc820ac68cdc69b498d5b89c4a9576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:49 +0000
Subject: [PATCH 33/52] fix: surface markers on the box side stay in the arrays

---
 MDLIB/FreeSurface.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index c647a69..1adc89f 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -335,6 +335,8 @@ void InterpTopoPart2Grid( surface *topo, markers *topo_chain, params model, grid
         if ( topo_chain->phase[k] != -1 ) {
             distance  = ( topo_chain->x[k] - mesh.xc_coord[0] );
             in        = ceil( (distance/dx) + 0.5) - 1;
+            if (in<0)    in = 0;
+            if (in>Nx-2) in = Nx-2;
             dxm       = 2.0*fabs( mesh.xc_coord[in] - topo_chain->x[k]);
             if (model.topo_update==0) mark_val  = topo_chain->z[k];
             if (model.topo_update==1) mark_val  = topo_chain->z[k] - topo_chain->z0[k];
-- 
2.43.0


From bfc805902fe4af217ce9ef444f272b64110ba521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:49 +0000
Subject: [PATCH 34/52] fix: surface density correction stays in the grid

---
 MDLIB/FreeSurface.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index 1adc89f..a8f6ab6 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -866,7 +866,7 @@ void SurfaceDensityCorrection( grid *mesh, params model, surface topo, scale sca
             c1 = i + j*(ncx);
             mesh->FreeSurfW_n[c1] = 1.0;
             
-            if (mesh->BCp.type[c1] == -1 && mesh->BCp.type[c1+ncx] == 31 ) {
+            if ( j<ncz-1 && mesh->BCp.type[c1] == -1 && mesh->BCp.type[c1+ncx] == 31 ) {
                 h  = topo.b[i] + topo.a[i]*mesh->xc_coord[i];
                 h0               = fabs(h - mesh->zc_coord[j]);
                 // double rho_ini = mesh->rho_n[c1];
@@ -889,7 +889,7 @@ void SurfaceDensityCorrection( grid *mesh, params model, surface topo, scale sca
             c1 = i + j*(nx);
             mesh->FreeSurfW_s[c1] = 1.0;
 
-            if (mesh->BCg.type[c1] == -1 && mesh->BCg.type[c1+nx] == 30) {
+            if ( j<nz-1 && mesh->BCg.type[c1] == -1 && mesh->BCg.type[c1+nx] == 30) {
                 if (i==0)    h  = topo.b[i] + topo.a[i]*mesh->xc_coord[i];
                 if (i==nx-1) h  = topo.b[nx-2] + topo.a[nx-2]*mesh->xc_coord[nx-2];
                 if (i>0 && i<nx-1) {
-- 
2.43.0


From 351737f3e3c6681de8142c2a361eb0c2f2d8cd5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:49 +0000
Subject: [PATCH 35/52] fix: topography diffuses with the diffusivity given

---
 MDLIB/FreeSurface.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index a8f6ab6..b70ed5f 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -964,7 +964,7 @@ void DiffuseAlongTopography( grid *mesh, params model, scale scaling, double *ar
             for (i=1; i<size-1; i++) {
                 correct[i]  = 0.5*dtr/dx/dx*diff*(array[i-1]+array[i+1]-2.0*array[i]);
             }
-            for (i=size-2; i==1; i--) {
+            for (i=size-2; i>=1; i--) {
                 correct[i] += 0.5*dtr/dx/dx*diff*(array[i-1]+array[i+1]-2.0*array[i]);
             }
             for (i=1; i<size-1; i++) {
-- 
2.43.0


From c14665b7abe2242c77ab88da7f64a934ffbbcaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:49 +0000
Subject: [PATCH 36/52] fix: zero mean topography uses the markers in use

---
 MDLIB/FreeSurface.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index b70ed5f..19d5aff 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -1090,14 +1090,14 @@ void KeepZeroMeanTopo(params *model, surface *topo, markers *topo_chain ) {
     }
     mean_z = 0.0;
     int nmark = 0;
-    for (int i=0; i<topo_chain->Nb_part_max; i++){
+    for (int i=0; i<topo_chain->Nb_part; i++){
         if (topo_chain->phase[i] > -1) {
         mean_z += topo_chain->z[i];
         nmark  ++;
         }
     }
     mean_z /= nmark;
-    for (int i=0; i<topo_chain->Nb_part_max; i++){
+    for (int i=0; i<topo_chain->Nb_part; i++){
         topo_chain->z[i] -= mean_z;
     }
 }
\ No newline at end of file
-- 
2.43.0


From fa97f4ae8043408451158ceaab0ad4acd6863a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:57 +0000
Subject: [PATCH 37/52] fix: new sediment markers get a dual phase and a
 density

---
 MDLIB/FreeSurface.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index 19d5aff..f44ffe8 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -141,6 +141,8 @@ void AddPartSed( markers *particles, mat_prop materials, markers *topo_chain, su
                 particles->x[new_ind]     = xnew;
                 particles->z[new_ind]     = znew;
                 particles->phase[new_ind] = sed_phase;
+                particles->dual[new_ind]  = sed_phase;
+                particles->rho[new_ind]   = materials.rho[sed_phase];
                 
                 particles->sxxd[new_ind]          =  0.0;
                 particles->sxz[new_ind]           =  0.0;
-- 
2.43.0


From 08caf8db4ae4bdd149ff657bbb9a915fb7cb03d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:57 +0000
Subject: [PATCH 38/52] fix: new sediment markers get a director when
 anisotropy is on

---
 MDLIB/FreeSurface.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/MDLIB/FreeSurface.c b/MDLIB/FreeSurface.c
index f44ffe8..61f29d2 100755
--- a/MDLIB/FreeSurface.c
+++ b/MDLIB/FreeSurface.c
@@ -171,6 +171,11 @@ void AddPartSed( markers *particles, mat_prop materials, markers *topo_chain, su
                     particles->Fzz[new_ind]           = 1.0;
                 }
                 
+                if (model.anisotropy==1) {
+                    particles->nx[new_ind]            = cos(materials.aniso_angle[sed_phase]);
+                    particles->nz[new_ind]            = sin(materials.aniso_angle[sed_phase]);
+                }
+                
                 if (track_T_P_x_z==1) {
                     particles->T0[new_ind]           = zeroC/scaling.T;
                     particles->P0[new_ind]           = 0.0;
-- 
2.43.0


From af04c335f7b3340f4fe7aa06cfa5ca99d3feb383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:57 +0000
Subject: [PATCH 39/52] fix: stop when the inflow of markers exceeds the marker
 arrays

---
 MDLIB/ParticleRoutines.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 9fc4b3c..a9449a9 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -633,6 +633,7 @@ reduction(+:npW,npE )
                     }
                     else {
                         printf("Too many particles in my mind %d, maximum %d\n", Nb_part, particles->Nb_part_max);
+                        exit(1);
                     }
 
                     // Add particles
@@ -660,6 +661,7 @@ reduction(+:npW,npE )
                     }
                     else {
                         printf("Too many particles in my mind %d, maximum %d\n", Nb_part, particles->Nb_part_max);
+                        exit(1);
                     }
                     
                     // Add particles
-- 
2.43.0


From b461828ff93695280d06c2f7a34a9daa17e9ec8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:57 +0000
Subject: [PATCH 40/52] fix: copy the density to new markers

---
 MDLIB/ParticleRoutines.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index a9449a9..6241f83 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -702,6 +702,7 @@ void AssignMarkerProperties (markers* particles, int new_ind, int min_index, par
     particles->strain_lin[new_ind]    = particles->strain_lin[min_index];
     particles->strain_gbs[new_ind]    = particles->strain_gbs[min_index];
     particles->divth[new_ind]         = particles->divth[min_index]; // to be changed
+    particles->rho[new_ind]           = particles->rho[min_index];
     if ( direct_neighbour == 1 ) {
         particles->d[new_ind]             = particles->d[min_index];
         particles->T[new_ind]             = particles->T[min_index];
@@ -773,6 +774,7 @@ void AssignMarkerPropertiesInflow (markers* particles, int new_ind, int min_inde
     particles->strain_lin[new_ind]    = particles->strain_lin[min_index];
     particles->strain_gbs[new_ind]    = particles->strain_gbs[min_index];
     particles->divth[new_ind]         = particles->divth[min_index]; // to be changed
+    particles->rho[new_ind]           = particles->rho[min_index];
     if ( direct_neighbour == 1 ) {
         particles->d[new_ind]             = particles->d[min_index];
         particles->T[new_ind]             = particles->T[min_index];
-- 
2.43.0


From 92186efd7ae79a3f3400a38d38c4f0bcdebdd554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:57 +0000
Subject: [PATCH 41/52] fix: CountPartCell: do not free part_count before its
 last use

---
 MDLIB/ParticleRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 6241f83..75c4bf8 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -2456,7 +2456,6 @@ void CountPartCell( markers* particles, grid *mesh, params model, surface topo,
                 part_count[kc] += 1;
             }
         }
-        DoodzFree(part_count);
 
         // Identify cells that need a new particle
         int nb_new_parts = 0, new_ind;
@@ -2577,6 +2576,7 @@ void CountPartCell( markers* particles, grid *mesh, params model, surface topo,
             DoodzFree(part_cell[kc]);
         }
         DoodzFree(part_cell);
+        DoodzFree(part_count);
     }
     // Infos
     MinMaxArrayI(particles->phase,          1, particles->Nb_part, "phase       ");
-- 
2.43.0


From 04777f3086fc2e3a16a7d55ac2e3708d81194246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:57 +0000
Subject: [PATCH 42/52] fix: CountPartCell_OLD: size the lists of new markers
 by the seeding cells

---
 MDLIB/ParticleRoutines.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 75c4bf8..12cebbe 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -3021,9 +3021,9 @@ void CountPartCell_OLD( markers* particles, grid *mesh, params model, surface to
         // Re-seeding on a double resolution grid
         if (reseed_markers==1) {
 
-            newi[ith]   = DoodzCalloc( npart[ith]  , sizeof(int));
-            newx[ith]   = DoodzCalloc( npart[ith]  , sizeof(double));
-            newz[ith]   = DoodzCalloc( npart[ith]  , sizeof(double));
+            newi[ith]   = DoodzCalloc( 4*ncx[ith]*Ncz, sizeof(int));
+            newx[ith]   = DoodzCalloc( 4*ncx[ith]*Ncz, sizeof(double));
+            newz[ith]   = DoodzCalloc( 4*ncx[ith]*Ncz, sizeof(double));
 
             // Count number of particle per re-seeding volume
             for (ip=0; ip<npart[ith]; ip++) {
-- 
2.43.0


From b6d102e519a0b2d18b89e513ae637b40054f0e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:57 +0000
Subject: [PATCH 43/52] fix: CountPartCell_OLD: stop before writing past the
 marker arrays

---
 MDLIB/ParticleRoutines.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MDLIB/ParticleRoutines.c b/MDLIB/ParticleRoutines.c
index 12cebbe..879f4de 100755
--- a/MDLIB/ParticleRoutines.c
+++ b/MDLIB/ParticleRoutines.c
@@ -3415,7 +3415,7 @@ void CountPartCell_OLD( markers* particles, grid *mesh, params model, surface to
                     nb_new[ith]++;
                 }
                 // Security check
-                if (k>particles->Nb_part_max) {
+                if (k>=particles->Nb_part_max) {
                     printf ("Maximum number of particles exceeded!\n Exiting!\n");
                     exit(1);
                 }
-- 
2.43.0


From fa4ba945f165b9bef0c7a884fea0fe06a3ce8dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:57 +0000
Subject: [PATCH 44/52] fix: anisotropic rheology keeps the composition

---
 MDLIB/AnisotropyRoutines.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/MDLIB/AnisotropyRoutines.c b/MDLIB/AnisotropyRoutines.c
index 1611e01..022a656 100644
--- a/MDLIB/AnisotropyRoutines.c
+++ b/MDLIB/AnisotropyRoutines.c
@@ -109,6 +109,8 @@ double ViscosityConciseAniso( int phase, double lxlz, double lx2, double angle,
     *Pcorr = P;
     // Constant grain size
     *d = d0;
+    // Constant composition
+    *X1 = X0;
     // Activate deformation mechanisms
     if ( materials->cstv[phase] !=0                  ) constant    = 1;
     if ( materials->pwlv[phase] !=0                  ) dislocation = 1;
-- 
2.43.0


From 2faf7d63920d03afaeb7342a679852b898118497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:57 +0000
Subject: [PATCH 45/52] fix: no pressure dependence at the anisotropic yield
 stress cut-off

---
 MDLIB/AnisotropyRoutines.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/MDLIB/AnisotropyRoutines.c b/MDLIB/AnisotropyRoutines.c
index 022a656..49e0a96 100644
--- a/MDLIB/AnisotropyRoutines.c
+++ b/MDLIB/AnisotropyRoutines.c
@@ -154,8 +154,7 @@ double ViscosityConciseAniso( int phase, double lxlz, double lx2, double angle,
       C_exp = pow(2.0*B_exp, -(ST+n_exp));
     }
 
-    // double cos_fric = cos(fric);
-    // double sin_fric = sin(fric);
+    double sin_fric = sin(fric);
     double Tyield = 0.0;
     double  K = 1.0 / beta;
     // double soon = 0.0;
@@ -168,6 +167,7 @@ double ViscosityConciseAniso( int phase, double lxlz, double lx2, double angle,
       if (materials->Slim[phase] < Tyield) {
         Coh        = materials->Slim[phase];
         Tyield     = materials->Slim[phase];
+        sin_fric   = 0.0; // no pressure dependence at the cut-off
       }
     }
 
@@ -274,7 +274,7 @@ double ViscosityConciseAniso( int phase, double lxlz, double lx2, double angle,
       is_pl = 1;
       if (noisy) printf("Start local VP iterations (cst: %d --- el: %d --- pwl: %d)\n", constant, elastic, dislocation);
       if (noisy) printf("Start local VP iterations (cst: %d --- el: %d --- pwl: %d)\n", constant, elastic, dislocation);
-      gdot = Ft / (eta_ve + eta_vp0 + K*dt*sin(dil)*sin(fric)); // soon*2.0*eta_ve*pow(sin(fric),2)/9.0 * (a1*a1 - a1*a3 + a2*a2 - a2*a3));
+      gdot = Ft / (eta_ve + eta_vp0 + K*dt*sin(dil)*sin_fric); // soon*2.0*eta_ve*pow(sin(fric),2)/9.0 * (a1*a1 - a1*a3 + a2*a2 - a2*a3));
       Tiic = Tii - gdot*eta_ve;
       Pc   = P   + K*dt*sin(dil)*gdot; 
       // txx  = 2*eta_ve*(Exx-gdot*(txx/2/Tii + a1*sin(fric)/3.0) );
-- 
2.43.0


From 8dfbbeea7f50f715e9194e031f26b58c91c5b6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:57 +0000
Subject: [PATCH 46/52] fix: anisotropic rheology evaluates the density

---
 MDLIB/AnisotropyRoutines.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MDLIB/AnisotropyRoutines.c b/MDLIB/AnisotropyRoutines.c
index 49e0a96..dd344bb 100644
--- a/MDLIB/AnisotropyRoutines.c
+++ b/MDLIB/AnisotropyRoutines.c
@@ -305,6 +305,9 @@ double ViscosityConciseAniso( int phase, double lxlz, double lx2, double angle,
     eta_pl   = Tii/gdot;
     divp     = gdot*sin(dil);
 
+    // Density, computed only on centroid nodes
+    if (centroid > 0) *rho = EvaluateDensity( phase, T, final_update==1 ? Pc : P, X0, phi, model, materials );
+
       //-------- Post-Processing
   if ( post_process == 1) {
 
-- 
2.43.0


From 23aa75cb6b71f08a45df84f4073471b5c52d22fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:57 +0000
Subject: [PATCH 47/52] fix: anisotropic elastic strain rate is the rate of
 stress over the shear modulus

---
 MDLIB/AnisotropyRoutines.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/MDLIB/AnisotropyRoutines.c b/MDLIB/AnisotropyRoutines.c
index dd344bb..01a31a5 100644
--- a/MDLIB/AnisotropyRoutines.c
+++ b/MDLIB/AnisotropyRoutines.c
@@ -257,7 +257,7 @@ double ViscosityConciseAniso( int phase, double lxlz, double lx2, double angle,
     T_rot.xx = 2.0 * eta_ve * E_rot.xx;
     T_rot.zz = 2.0 * eta_ve * E_rot.zz;
     T_rot.xz = 2.0 * eta_ve * E_rot.xz/ani_fac;
-    T_rot.yy = -T_rot.xx - T_rot.xx; 
+    T_rot.yy = -T_rot.xx - T_rot.zz; 
     *eta_vep = eta_ve;
 
     // Iterations for visco-elasto-viscoplastic correction
@@ -317,7 +317,17 @@ double ViscosityConciseAniso( int phase, double lxlz, double lx2, double angle,
     if ( peierls     == 1 )              eta_exp  = B_exp * pow( *Eii_exp, 1.0 / (ST + n_exp) - 1.0);
 
     // Compute dissipative strain rate components
-    if (elastic) *Eii_el   = Tii*Tii/(4*eta_el*eta_el);
+    if (elastic) {
+      // Elastic strain rate in the frame of the layering: the shear component is ani_fac times more compliant
+      T0_rot.xx =   lx2*Txx0 +  nz2*Tzz0 +   2.*lxlz*Txz0;
+      T0_rot.zz =   nz2*Txx0 +  lx2*Tzz0 -   2.*lxlz*Txz0;
+      T0_rot.xz = -lxlz*Txx0 + lxlz*Tzz0 + (lx2-nz2)*Txz0;
+      E_rot.xx  = (T_rot.xx - T0_rot.xx)/2.0/eta_el;
+      E_rot.zz  = (T_rot.zz - T0_rot.zz)/2.0/eta_el;
+      E_rot.xz  = (T_rot.xz - T0_rot.xz)/2.0/eta_el*ani_fac;
+      E_rot.yy  = -E_rot.xx - E_rot.zz;
+      *Eii_el   = sqrt(I2( &E_rot ));
+    }
     if (is_pl)   *Eii_pl   = gdot/2.0;
 
     // Partitioning of volumetric strain
-- 
2.43.0


From 9b8dc49fc16dde3999b4e3089a3c209b6060a977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:57 +0000
Subject: [PATCH 48/52] fix: anisotropic dissipation is stress times strain
 rate

---
 MDLIB/AnisotropyRoutines.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/MDLIB/AnisotropyRoutines.c b/MDLIB/AnisotropyRoutines.c
index 01a31a5..377fbe0 100644
--- a/MDLIB/AnisotropyRoutines.c
+++ b/MDLIB/AnisotropyRoutines.c
@@ -348,9 +348,11 @@ double ViscosityConciseAniso( int phase, double lxlz, double lx2, double angle,
 
     // Work(s)
     if (centroid==1) {
-      *Wtot  = Tii*Tii/eta_ve;
-      *Wel   = Tii*Tii/eta_el;
-      *Wdiss = Tii*Tii/eta;
+      // Stress times strain rate: the shear component is ani_fac times more compliant
+      const double TT = 0.5*( pow(T_rot.xx,2) + pow(T_rot.zz,2) + pow(T_rot.yy,2) ) + ani_fac*pow(T_rot.xz,2);
+      *Wtot  = TT/eta_ve;
+      *Wel   = TT/eta_el;
+      *Wdiss = TT/eta;
       // printf("Wtot = %2.6e Wdiss = %2.6e Wel = %2.6e\n", *Wtot, *Wdiss, *Wel);
       // printf("Wtot - (Wdiss + Wel) = %2.6e\n", *Wtot - (*Wdiss + *Wel));
       // printf("eta = %2.6e --- eta_ve = %2.6e --- eta_ve1 = %2.6e\n", eta, eta_ve, 1.0/(1./eta+1./eta_el));
-- 
2.43.0


From dd2b1e476e55268883557d222c9067d8012a1bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:57 +0000
Subject: [PATCH 49/52] fix: viscosity limits hold for anisotropic materials

---
 MDLIB/AnisotropyRoutines.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/MDLIB/AnisotropyRoutines.c b/MDLIB/AnisotropyRoutines.c
index 377fbe0..88eb0d8 100644
--- a/MDLIB/AnisotropyRoutines.c
+++ b/MDLIB/AnisotropyRoutines.c
@@ -358,6 +358,13 @@ double ViscosityConciseAniso( int phase, double lxlz, double lx2, double angle,
       // printf("eta = %2.6e --- eta_ve = %2.6e --- eta_ve1 = %2.6e\n", eta, eta_ve, 1.0/(1./eta+1./eta_el));
     }
   }
+
+  // Viscosity limiter
+  if( *eta_vep > max_eta ) *eta_vep = max_eta;
+  if( *eta_vep < min_eta ) *eta_vep = min_eta;
+  if( eta      > max_eta ) eta      = max_eta;
+  if( eta      < min_eta ) eta      = min_eta;
+
   return eta;
 }
 
-- 
2.43.0


From 52fd87dab3297bda3379d6deebba8875b0c115a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:23 +0000
Subject: [PATCH 50/52] fix: a geometric mean of isotropic phases is no reason
 to stop

---
 MDLIB/AnisotropyRoutines.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/MDLIB/AnisotropyRoutines.c b/MDLIB/AnisotropyRoutines.c
index 88eb0d8..f6bfc1d 100644
--- a/MDLIB/AnisotropyRoutines.c
+++ b/MDLIB/AnisotropyRoutines.c
@@ -417,7 +417,9 @@ void UpdateAnisoFactor( grid *mesh, mat_prop *materials, params *model, scale *s
         }
 
 
-        if ( isinf(1.0/mesh->aniso_factor_n[c0]) ) {
+        double sum_perc = 0.0; // the factor itself cannot tell: log(1) = 0 in a geometric mean
+        for ( p=0; p<model->Nb_phases; p++) sum_perc += mesh->phase_perc_n[p][c0];
+        if ( isinf(1.0/sum_perc) ) {
           printf("Cell %d has no neighbouring particles: average=%d, value = %2.2e, 1/value=%2.2e \n", c0, average, mesh->aniso_factor_n[c0], 1.0/mesh->aniso_factor_n[c0]);
           for ( p=0; p<model->Nb_phases; p++) {
             printf("Phase %d, proportion %2.2e ----> UpdateAnisoFactor()\n", p, mesh->phase_perc_n[p][c0]);
@@ -467,7 +469,9 @@ void UpdateAnisoFactor( grid *mesh, mat_prop *materials, params *model, scale *s
 
         }
 
-        if ( isinf(1.0/mesh->aniso_factor_s[c1]) ) {
+        double sum_perc = 0.0; // the factor itself cannot tell: log(1) = 0 in a geometric mean
+        for ( p=0; p<model->Nb_phases; p++) sum_perc += mesh->phase_perc_s[p][c1];
+        if ( isinf(1.0/sum_perc) ) {
           printf("Node %d has no neighbouring particles\n", c1);
           for ( p=0; p<model->Nb_phases; p++) {
             printf("Phase %d, proportion %2.2e ----> UpdateAnisoFactor()\n", p, mesh->phase_perc_s[p][c1]);
-- 
2.43.0


From 0d0332e1eb9e296d5afe9f1d142b5e88ba3f01b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:25 +0000
Subject: [PATCH 51/52] fix: per-thread assembly buffers hold the remainder of
 the division

---
 MDLIB/StokesAssemblyDecoupled.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/MDLIB/StokesAssemblyDecoupled.c b/MDLIB/StokesAssemblyDecoupled.c
index ab24bd7..32aee49 100755
--- a/MDLIB/StokesAssemblyDecoupled.c
+++ b/MDLIB/StokesAssemblyDecoupled.c
@@ -1258,7 +1258,11 @@ void DomainDecompositionDecoupled( int N, int n_th, int *estart, int *eend, int
 
 void AllocateTempMatArraysDecoupled(double ***Atemp, int ***Itemp, int ***Jtemp, int n_th, int nnz, int neq, int* DD, int **nnzc2 ) {
     
-    int ith;
+    int ith, N = 0, nnz_node, nnz_th;
+    
+    // The last block holds the remainder of the division: size each block by its own number of nodes
+    for (ith=0; ith<n_th; ith++) N += DD[ith];
+    nnz_node = (nnz + N - 1) / N;
     
     // Temporary parallel Matrix arrays
     *Atemp = DoodzMalloc( sizeof(double*) * n_th );
@@ -1267,9 +1271,10 @@ void AllocateTempMatArraysDecoupled(double ***Atemp, int ***Itemp, int ***Jtemp,
     *nnzc2 = DoodzCalloc( n_th, sizeof(int) );
     
     for (ith=0; ith<n_th; ith++) {
-        (*Atemp)[ith] = DoodzMalloc( sizeof(double) * (int)(nnz/n_th) );
+        nnz_th = nnz_node * DD[ith];
+        (*Atemp)[ith] = DoodzMalloc( sizeof(double) * nnz_th );
         (*Itemp)[ith] = DoodzCalloc( (neq+1), sizeof(int) );
-        (*Jtemp)[ith] = DoodzMalloc( sizeof(int) * (int)(nnz/n_th) );
+        (*Jtemp)[ith] = DoodzMalloc( sizeof(int) * nnz_th );
     }
 }
 
-- 
2.43.0


From cf45920db437927d071a1aea2d3124b389fbba5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:44 +0000
Subject: [PATCH 52/52] fix: diffusion creep law 1 sets the parameters of
 diffusion creep

---
 MDLIB/FlowLaws.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/MDLIB/FlowLaws.c b/MDLIB/FlowLaws.c
index 6983044..7730c5a 100755
--- a/MDLIB/FlowLaws.c
+++ b/MDLIB/FlowLaws.c
@@ -587,15 +587,15 @@ void ReadDataLinear( mat_prop* mat, params* model, int k, int number, scale* sca
             
         case 1:
             printf("Siltstone flow law calibrated from file data  at 350 C ():\n" );
-            mat->tpwl[k] = 1;
-            mat->npwl[k] = 3.3;
-            mat->mpwl[k] = 0.0;
-            mat->rpwl[k] = 0.0;
-            mat->Qpwl[k] = 186.5e3;
-            mat->Vpwl[k] = 0.0e-6;
-            mat->Apwl[k] = 3.1623e-26;
-            mat->fpwl[k] = 0.0;
-            mat->apwl[k] = 0.0;
+            mat->tlin[k] = 1;
+            mat->nlin[k] = 3.3;
+            mat->mlin[k] = 0.0;
+            mat->rlin[k] = 0.0;
+            mat->Qlin[k] = 186.5e3;
+            mat->Vlin[k] = 0.0e-6;
+            mat->Alin[k] = 3.1623e-26;
+            mat->flin[k] = 0.0;
+            mat->alin[k] = 0.0;
             success      = 1;
             break;
         
-- 
2.43.0

