From 211a1d124b2b1e21d7befaf38ae66a2f825432ad Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:22:15 +0000
Subject: [PATCH 01/17] fix: erf and erfc for arguments below -26.7

erfcx saturates at f64::MAX there, so dividing by exp(x^2) = inf gave
erfc = 0 and erf = +1 instead of 2 and -1, which breaks the exact
isotensional EFJC model for nondimensional link stiffnesses above ~1430.
---
 src/math/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index 0b66ce9..e38f41f 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -250,7 +250,14 @@ pub fn erf(x: &f64) -> f64
 
 pub fn erfc(x: &f64) -> f64
 {
-    erfcx(x)/(x.powi(2)).exp()
+    if x < &-6.1
+    {
+        2.0
+    }
+    else
+    {
+        erfcx(x)/(x.powi(2)).exp()
+    }
 }
 
 pub fn erfcx(x: &f64) -> f64
-- 
2.43.0


From f6c6b9115df49c3a37640c62e0125736f6428b95 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:22:41 +0000
Subject: [PATCH 02/17] fix: modified Bessel functions for arguments below
 -7.75

The small-argument series was used for every negative argument; the
worm-like chain calls both functions with negative arguments, so its
isometric functions were wrong for long persistence lengths. I_0 is even
and I_1 is odd.
---
 src/math/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index e38f41f..d202124 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -96,11 +96,11 @@ pub fn bessel_i(nu: &u8, x: &f64) -> f64
 {
     if nu == &0
     {
-        bessel_i0(x)
+        bessel_i0(&x.abs())
     }
     else if nu == &1
     {
-        bessel_i1(x)
+        bessel_i1(&x.abs())*x.signum()
     }
     else
     {
-- 
2.43.0


From 4f9a485feaab6ff0871d5f04b6f4bdd40064cabb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 03/17] fix: exact isotensional EFJC extension

It was not the derivative of the Gibbs free energy: the error function was
missing from one term, and the logarithm's argument 1/2 + fraction had been
written as 1 + fraction. Visible for soft links (nondimensional stiffness
below ~50).
---
 .../efjc/thermodynamics/isotensional/legendre/mod.rs            | 2 +-
 .../single_chain/efjc/thermodynamics/isotensional/mod.rs        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/physics/single_chain/efjc/thermodynamics/isotensional/legendre/mod.rs b/src/physics/single_chain/efjc/thermodynamics/isotensional/legendre/mod.rs
index dbf87c5..f0e0262 100644
--- a/src/physics/single_chain/efjc/thermodynamics/isotensional/legendre/mod.rs
+++ b/src/physics/single_chain/efjc/thermodynamics/isotensional/legendre/mod.rs
@@ -66,7 +66,7 @@ pub fn nondimensional_helmholtz_free_energy_per_link(link_length: &f64, hinge_ma
 {
     let denominator = 4.0*nondimensional_force.sinh()*(1.0 + nondimensional_force/nondimensional_force.tanh()/nondimensional_link_stiffness);
     let fraction = ((nondimensional_force/nondimensional_link_stiffness + 1.0)*nondimensional_force.exp()*erf(&((nondimensional_force + nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())) - (nondimensional_force/nondimensional_link_stiffness - 1.0)/nondimensional_force.exp()*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())))/denominator;
-    -(nondimensional_force.sinh()/nondimensional_force).ln() - 0.5*nondimensional_force.powi(2)/nondimensional_link_stiffness - (1.0 + nondimensional_force/nondimensional_force.tanh()/nondimensional_link_stiffness).ln() - (0.5 + ((nondimensional_force/nondimensional_link_stiffness + 1.0)*nondimensional_force.exp()*erf(&((nondimensional_force + nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())) - (nondimensional_force/nondimensional_link_stiffness - 1.0)/nondimensional_force.exp()*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())))/(4.0*nondimensional_force.sinh()*(1.0 + nondimensional_force/nondimensional_force.tanh()/nondimensional_link_stiffness))).ln() - 0.5*(2.0*PI*link_length.powi(2)/nondimensional_link_stiffness).ln() - (8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln() + nondimensional_force*(1.0/nondimensional_force.tanh() - 1.0/nondimensional_force + nondimensional_force/nondimensional_link_stiffness*(1.0 + (nondimensional_force.tanh() - 1.0/nondimensional_force.tanh() + 1.0/nondimensional_force)/(nondimensional_force.tanh() + nondimensional_force/nondimensional_link_stiffness)) + (nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness + 1.0)*(-(nondimensional_force + nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 + nondimensional_force)/nondimensional_link_stiffness)) - 1.0/nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness - 1.0)*(-(nondimensional_force - nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 - nondimensional_force)/nondimensional_link_stiffness)*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt()))) - fraction*(4.0*(nondimensional_force.cosh()*(1.0 + (1.0 + nondimensional_force/nondimensional_force.tanh())/nondimensional_link_stiffness) - nondimensional_force/nondimensional_link_stiffness/nondimensional_force.sinh())))/denominator/(1.0 + fraction))
+    -(nondimensional_force.sinh()/nondimensional_force).ln() - 0.5*nondimensional_force.powi(2)/nondimensional_link_stiffness - (1.0 + nondimensional_force/nondimensional_force.tanh()/nondimensional_link_stiffness).ln() - (0.5 + ((nondimensional_force/nondimensional_link_stiffness + 1.0)*nondimensional_force.exp()*erf(&((nondimensional_force + nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())) - (nondimensional_force/nondimensional_link_stiffness - 1.0)/nondimensional_force.exp()*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())))/(4.0*nondimensional_force.sinh()*(1.0 + nondimensional_force/nondimensional_force.tanh()/nondimensional_link_stiffness))).ln() - 0.5*(2.0*PI*link_length.powi(2)/nondimensional_link_stiffness).ln() - (8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln() + nondimensional_force*(1.0/nondimensional_force.tanh() - 1.0/nondimensional_force + nondimensional_force/nondimensional_link_stiffness*(1.0 + (nondimensional_force.tanh() - 1.0/nondimensional_force.tanh() + 1.0/nondimensional_force)/(nondimensional_force.tanh() + nondimensional_force/nondimensional_link_stiffness)) + (nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness + 1.0)*(-(nondimensional_force + nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 + nondimensional_force)/nondimensional_link_stiffness)*erf(&((nondimensional_force + nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt()))) - 1.0/nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness - 1.0)*(-(nondimensional_force - nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 - nondimensional_force)/nondimensional_link_stiffness)*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt()))) - fraction*(4.0*(nondimensional_force.cosh()*(1.0 + (1.0 + nondimensional_force/nondimensional_force.tanh())/nondimensional_link_stiffness) - nondimensional_force/nondimensional_link_stiffness/nondimensional_force.sinh())))/denominator/(0.5 + fraction))
 }
 
 /// The nondimensional relative Helmholtz free energy as a function of the applied nondimensional force, parameterized by the number of links and nondimensional link stiffness.
diff --git a/src/physics/single_chain/efjc/thermodynamics/isotensional/mod.rs b/src/physics/single_chain/efjc/thermodynamics/isotensional/mod.rs
index 80cbc73..96c1a13 100644
--- a/src/physics/single_chain/efjc/thermodynamics/isotensional/mod.rs
+++ b/src/physics/single_chain/efjc/thermodynamics/isotensional/mod.rs
@@ -66,7 +66,7 @@ pub fn nondimensional_end_to_end_length_per_link(nondimensional_link_stiffness:
 {
     let denominator = 4.0*nondimensional_force.sinh()*(1.0 + nondimensional_force/nondimensional_force.tanh()/nondimensional_link_stiffness);
     let fraction = ((nondimensional_force/nondimensional_link_stiffness + 1.0)*nondimensional_force.exp()*erf(&((nondimensional_force + nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())) - (nondimensional_force/nondimensional_link_stiffness - 1.0)/nondimensional_force.exp()*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt())))/denominator;
-    1.0/nondimensional_force.tanh() - 1.0/nondimensional_force + nondimensional_force/(nondimensional_link_stiffness)*(1.0 + (nondimensional_force.tanh() - 1.0/nondimensional_force.tanh() + 1.0/nondimensional_force)/(nondimensional_force.tanh() + nondimensional_force/(nondimensional_link_stiffness))) + (nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness + 1.0)*(-(nondimensional_force + nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 + nondimensional_force)/nondimensional_link_stiffness)) - 1.0/nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness - 1.0)*(-(nondimensional_force - nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 - nondimensional_force)/nondimensional_link_stiffness)*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt()))) - fraction*(4.0*(nondimensional_force.cosh()*(1.0 + (1.0 + nondimensional_force/nondimensional_force.tanh())/nondimensional_link_stiffness) - nondimensional_force/nondimensional_link_stiffness/nondimensional_force.sinh())))/denominator/(1.0 + fraction)
+    1.0/nondimensional_force.tanh() - 1.0/nondimensional_force + nondimensional_force/(nondimensional_link_stiffness)*(1.0 + (nondimensional_force.tanh() - 1.0/nondimensional_force.tanh() + 1.0/nondimensional_force)/(nondimensional_force.tanh() + nondimensional_force/(nondimensional_link_stiffness))) + (nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness + 1.0)*(-(nondimensional_force + nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 + nondimensional_force)/nondimensional_link_stiffness)*erf(&((nondimensional_force + nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt()))) - 1.0/nondimensional_force.exp()*((2.0/PI/nondimensional_link_stiffness).sqrt()*(nondimensional_force/nondimensional_link_stiffness - 1.0)*(-(nondimensional_force - nondimensional_link_stiffness).powi(2)/2.0/nondimensional_link_stiffness).exp() + (1.0 + (1.0 - nondimensional_force)/nondimensional_link_stiffness)*erf(&((nondimensional_force - nondimensional_link_stiffness)/(2.0*nondimensional_link_stiffness).sqrt()))) - fraction*(4.0*(nondimensional_force.cosh()*(1.0 + (1.0 + nondimensional_force/nondimensional_force.tanh())/nondimensional_link_stiffness) - nondimensional_force/nondimensional_link_stiffness/nondimensional_force.sinh())))/denominator/(0.5 + fraction)
 }
 
 /// The Gibbs free energy as a function of the applied force and temperature, parameterized by the number of links, link length, hinge mass, and link stiffness.
-- 
2.43.0


From 0ef2ddc2ae1f5b0ceac6e0c59a6aa67ab8f344ee Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:24:49 +0000
Subject: [PATCH 04/17] fix: overflow in the FJC equilibrium distribution for
 27 to 34 links

n^n was computed in u128 and overflowed for n > 26 although the result is
only used as a floating-point prefactor.
---
 src/physics/single_chain/fjc/thermodynamics/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/physics/single_chain/fjc/thermodynamics/mod.rs b/src/physics/single_chain/fjc/thermodynamics/mod.rs
index 6b1cb99..78a4d28 100644
--- a/src/physics/single_chain/fjc/thermodynamics/mod.rs
+++ b/src/physics/single_chain/fjc/thermodynamics/mod.rs
@@ -71,5 +71,5 @@ fn treloar_sum_0_with_prefactor(number_of_links: &u8, nondimensional_end_to_end_
     let p: i32 = (number_of_links - 2).into();
     let m = -*nondimensional_end_to_end_length_per_link*0.5 + 0.5;
     let k = (number_of_links_f64*m).ceil() as u128;
-    0.125/PI/nondimensional_end_to_end_length_per_link*(n.pow(n as u32) as f64)/((1..=n-2).product::<u128>() as f64)*(0..=k-1).collect::<Vec::<u128>>().iter().map(|s| (-1.0_f64).powf(*s as f64)*(((1..=n).product::<u128>()/(1..=*s).product::<u128>()/(1..=n-s).product::<u128>()) as f64)*(m - (*s as f64)/number_of_links_f64).powi(p)).sum::<f64>()
+    0.125/PI/nondimensional_end_to_end_length_per_link*number_of_links_f64.powi(n as i32)/((1..=n-2).product::<u128>() as f64)*(0..=k-1).collect::<Vec::<u128>>().iter().map(|s| (-1.0_f64).powf(*s as f64)*(((1..=n).product::<u128>()/(1..=*s).product::<u128>()/(1..=n-s).product::<u128>()) as f64)*(m - (*s as f64)/number_of_links_f64).powi(p)).sum::<f64>()
 }
\ No newline at end of file
-- 
2.43.0


From d7cf4e569286c7805742101abab78da1bce747b5 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:30:23 +0000
Subject: [PATCH 05/17] fix: worm-like chain Gibbs free energy at
 nondimensional forces above 100

The saddle-point branch used the second derivative of the force (and a finite
difference of it, which is noise) where the width of the integrand is set by
the number of links times the first derivative, with prefactors to match.
---
 .../single_chain/wlc/thermodynamics/isotensional/mod.rs        | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/physics/single_chain/wlc/thermodynamics/isotensional/mod.rs b/src/physics/single_chain/wlc/thermodynamics/isotensional/mod.rs
index 023ca74..364ba54 100644
--- a/src/physics/single_chain/wlc/thermodynamics/isotensional/mod.rs
+++ b/src/physics/single_chain/wlc/thermodynamics/isotensional/mod.rs
@@ -126,7 +126,6 @@ pub fn nondimensional_gibbs_free_energy(number_of_links: &u8, link_length: &f64,
 {
     let f = &|nondimensional_end_to_end_length_per_link: &f64| isometric_nondimensional_force(number_of_links, nondimensional_persistance_length, nondimensional_end_to_end_length_per_link);
     let fp = &|nondimensional_end_to_end_length_per_link: &f64| (isometric_nondimensional_force(number_of_links, nondimensional_persistance_length, &(nondimensional_end_to_end_length_per_link + 1e-8)) - isometric_nondimensional_force(number_of_links, nondimensional_persistance_length, &(nondimensional_end_to_end_length_per_link - 1e-8)))/2e-8;
-    let fpp = &|x: &f64| (fp(&(x + 1e-8)) - fp(&(x - 1e-8)))/2e-8;
     let gamma_hat = inverse_newton_raphson_powered(nondimensional_force, f, fp, &0.9999, &1e-5, &100, 2);
     if !(0.0..=1.0).contains(&gamma_hat)
     {
@@ -135,7 +134,7 @@ pub fn nondimensional_gibbs_free_energy(number_of_links: &u8, link_length: &f64,
     let scale = (*number_of_links as f64)*nondimensional_force*gamma_hat - isometric_nondimensional_helmholtz_free_energy(number_of_links, link_length, hinge_mass, nondimensional_persistance_length, &gamma_hat, temperature);
     let log_integral = if nondimensional_force > &100.0
     {
-        -((8.0*PI.powi(2)/fpp(&gamma_hat)).sqrt()).ln() - (0.5*(*number_of_links as f64)*gamma_hat/nondimensional_force).ln()
+        -((8.0*PI.powi(3)/(*number_of_links as f64)/fp(&gamma_hat)).sqrt()).ln() - ((*number_of_links as f64)*gamma_hat/nondimensional_force).ln()
     }
     else
     {
-- 
2.43.0


From 4ffcfbb847ac1b9f14da7fa30a1c7b5def5d21cd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:32:07 +0000
Subject: [PATCH 06/17] fix: swelling in the hyperelastic damage model with the
 Gibbs-Legendre distribution

Method 2 normalizes the distribution for a swollen network but evaluated it at
the unswollen end-to-end length, so the total probability was one over the
swelling ratio; method 3 already divides by its cube root.
---
 src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs b/src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs
index 89682db..1a21557 100644
--- a/src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs
+++ b/src/constitutive/hyperelastic_damage/buche_silberstein/mod.rs
@@ -91,7 +91,7 @@ pub fn uniaxial_tension(element: &[[f64; NUMGRID]], factor: &f64, grid: &[f64],
             cauchy_stress = element.iter().zip(grid.iter()).flat_map(|(element_i, z_i)|
                 element_i.iter().zip(grid.iter()).map(|(element_ij, r_j)|
                     element_ij / nondimensional_relative_helmholtz_free_energy(
-                        number_of_links, nondimensional_link_stiffness, &((*z_i / stretch).powi(2) + stretch * r_j.powi(2)).sqrt()
+                        number_of_links, nondimensional_link_stiffness, &(((*z_i / stretch).powi(2) + stretch * r_j.powi(2)).sqrt() / j_1_3)
                     ).exp() * ((
                         ((*z_i * maximum_previous_stretch / stretch).powi(2) + stretch / maximum_previous_stretch * r_j.powi(2)).sqrt()
                         <= *nondimensional_critical_extension
@@ -101,7 +101,7 @@ pub fn uniaxial_tension(element: &[[f64; NUMGRID]], factor: &f64, grid: &[f64],
             total_probability = grid.iter().flat_map(|z_i|
                 grid.iter().map(|r_j|
                     r_j / nondimensional_relative_helmholtz_free_energy(
-                        number_of_links, nondimensional_link_stiffness, &((*z_i / stretch).powi(2) + stretch * r_j.powi(2)).sqrt()
+                        number_of_links, nondimensional_link_stiffness, &(((*z_i / stretch).powi(2) + stretch * r_j.powi(2)).sqrt() / j_1_3)
                     ).exp() * ((
                         ((*z_i * maximum_previous_stretch / stretch).powi(2) + stretch / maximum_previous_stretch * r_j.powi(2)).sqrt()
                         <= *nondimensional_critical_extension
-- 
2.43.0


From dc3858af6b814b8e7c741729be111973d2d9d40e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 07/17] fix: greatest extension of freely rotating chains with
 odd numbers of links

The histogram assumed the planar zigzag of an even number of links; with an odd
number the chain reaches further, and sampling such a configuration panicked.
---
 .../frc/thermodynamics/isometric/monte_carlo/mod.rs          | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs b/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs
index edf1dad..4b2859c 100644
--- a/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs
+++ b/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs
@@ -2,7 +2,6 @@ mod test;
 
 use rand::prelude::*;
 
-use std::f64::consts::PI;
 use std::f64::consts::TAU as TWO_PI;
 
 pub fn cross(u: &[f64; 3], v: &[f64; 3]) -> [f64; 3]
@@ -57,7 +56,9 @@ pub fn nondimensional_equilibrium_radial_distribution<const NUMBER_OF_BINS: usiz
 {
     let mut rng = rand::thread_rng();
     let number_of_links_f64 = NUMBER_OF_LINKS as f64;
-    let gamma_max = (2.0 - 2.0*(PI - theta).cos()).sqrt()/2.0;
+    let odd_links = (NUMBER_OF_LINKS/2) as f64;
+    let even_links = number_of_links_f64 - odd_links;
+    let gamma_max = (even_links.powi(2) + odd_links.powi(2) + 2.0*even_links*odd_links*theta.cos()).sqrt()/number_of_links_f64;
     let mut bin_edges = [0.0_f64; NUMBER_OF_BINS];
     bin_edges.iter_mut().enumerate().for_each(|(bin_index, bin_edge)|
         *bin_edge = gamma_max * (bin_index as f64 + 1.0)/(NUMBER_OF_BINS as f64)
-- 
2.43.0


From ef3873a0da67536c46f9d17b02412535185fd128 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:37:48 +0000
Subject: [PATCH 08/17] fix: Monte Carlo samples at the full extension of a
 chain

Rounding put the samples of one-link freely jointed chains, and of one- and two-link
freely rotating chains, on or past the last bin edge, where they were dropped from
the histogram or panicked.
---
 .../fjc/thermodynamics/isometric/monte_carlo/mod.rs            | 1 +
 .../frc/thermodynamics/isometric/monte_carlo/mod.rs            | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/physics/single_chain/fjc/thermodynamics/isometric/monte_carlo/mod.rs b/src/physics/single_chain/fjc/thermodynamics/isometric/monte_carlo/mod.rs
index 2baba63..ffea988 100644
--- a/src/physics/single_chain/fjc/thermodynamics/isometric/monte_carlo/mod.rs
+++ b/src/physics/single_chain/fjc/thermodynamics/isometric/monte_carlo/mod.rs
@@ -36,6 +36,7 @@ pub fn nondimensional_equilibrium_radial_distribution<const NUMBER_OF_BINS: usiz
     bin_edges.iter_mut().enumerate().for_each(|(bin_index, bin_edge)|
         *bin_edge = (bin_index as f64 + 1.0)/(NUMBER_OF_BINS as f64)
     );
+    bin_edges[NUMBER_OF_BINS - 1] = f64::INFINITY; // rounding may take full extension past the last edge
     let mut gamma: f64 = 0.0;
     let mut bin_counts = [0_u128; NUMBER_OF_BINS];
     (0..number_of_samples).for_each(|_sample_num|{
diff --git a/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs b/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs
index 4b2859c..f2fe3c9 100644
--- a/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs
+++ b/src/physics/single_chain/frc/thermodynamics/isometric/monte_carlo/mod.rs
@@ -63,13 +63,14 @@ pub fn nondimensional_equilibrium_radial_distribution<const NUMBER_OF_BINS: usiz
     bin_edges.iter_mut().enumerate().for_each(|(bin_index, bin_edge)|
         *bin_edge = gamma_max * (bin_index as f64 + 1.0)/(NUMBER_OF_BINS as f64)
     );
+    bin_edges[NUMBER_OF_BINS - 1] = f64::INFINITY; // rounding may take full extension past the last edge
     let mut bin_counts = [0_u128; NUMBER_OF_BINS];
     let mut gamma: f64 = 0.0;
     (0..number_of_samples).for_each(|_|{
         gamma = random_nondimensional_end_to_end_length::<NUMBER_OF_LINKS>(theta, &mut rng)/number_of_links_f64;
         for (bin_edge, bin_count) in bin_edges.iter().zip(bin_counts.iter_mut())
         {
-            if gamma > gamma_max
+            if gamma > gamma_max + 1e-9
             {
                 panic!()
             }
-- 
2.43.0


From c5d46a78d7384a7fe7cec0a0b33bf870f79f8c7d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:14:47 +0000
Subject: [PATCH 09/17] fix: end-to-end distributions of long square-well
 chains with narrow wells

The unnormalized density is the well's volume to the power of the number of links
at zero extension; it underflowed (255 links, 5% wells), so the normalization was
zero and every density of the instance NaN. It is now one at zero extension.
---
 .../swfjc/thermodynamics/isometric/legendre/mod.rs             | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/physics/single_chain/swfjc/thermodynamics/isometric/legendre/mod.rs b/src/physics/single_chain/swfjc/thermodynamics/isometric/legendre/mod.rs
index e7ac8b6..50777a0 100644
--- a/src/physics/single_chain/swfjc/thermodynamics/isometric/legendre/mod.rs
+++ b/src/physics/single_chain/swfjc/thermodynamics/isometric/legendre/mod.rs
@@ -132,8 +132,9 @@ pub fn equilibrium_distribution(number_of_links: &u8, link_length: &f64, well_wi
 pub fn nondimensional_equilibrium_distribution(number_of_links: &u8, link_length: &f64, well_width: &f64, normalization_nondimensional_equilibrium_distribution: &f64, nondimensional_end_to_end_length_per_link: &f64) -> f64
 {
     let nondimensional_well_parameter = 1.0 + well_width/link_length;
+    let nondimensional_well_volume = (nondimensional_well_parameter.powi(3) - 1.0)/3.0;
     let nondimensional_force = nondimensional_force(link_length, well_width, nondimensional_end_to_end_length_per_link);
-    ((nondimensional_well_parameter*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - (nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_force*nondimensional_force.cosh() + nondimensional_force.sinh())/nondimensional_force.powi(3)*(-nondimensional_force**nondimensional_end_to_end_length_per_link).exp()).powi(*number_of_links as i32)/normalization_nondimensional_equilibrium_distribution
+    ((nondimensional_well_parameter*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - (nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_force*nondimensional_force.cosh() + nondimensional_force.sinh())/nondimensional_force.powi(3)/nondimensional_well_volume*(-nondimensional_force**nondimensional_end_to_end_length_per_link).exp()).powi(*number_of_links as i32)/normalization_nondimensional_equilibrium_distribution
 }
 
 /// The equilibrium probability density of end-to-end lengths as a function of the end-to-end length, parameterized by the number of links and link length.
-- 
2.43.0


From b5b520671de9ceae837955ec06bf1f8b4a57cd52 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:26:17 +0000
Subject: [PATCH 10/17] fix: Lambert W near its branch point

---
 src/math/mod.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index d202124..bfc6fb6 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -84,10 +84,24 @@ pub fn integrate_2d_symmetric_grid(f: &dyn Fn(&f64, &f64) -> f64, grid: &[f64],
 pub fn lambert_w(x: &f64) -> f64
 {
     let amount_of_iterations = ((x.log10()/3.0).ceil() as u8).max(4_u8);
-    let mut w = 0.75*(x + 1.0).ln();
+    let mut w = if x < &-0.25
+    {
+        let p = (2.0*(std::f64::consts::E*x + 1.0).max(0.0)).sqrt();
+        -1.0 + p - p.powi(2)/3.0 + 11.0*p.powi(3)/72.0
+    }
+    else
+    {
+        0.75*(x + 1.0).ln()
+    };
+    let mut residual: f64;
     for _ in 0..amount_of_iterations
     {
-        w -= (w*w.exp() - x)/(w.exp()*(w + 1.0) - (w + 2.0)*(w*w.exp() - x)/(2.0 * w + 2.0));
+        residual = w*w.exp() - x;
+        if residual == 0.0
+        {
+            break
+        }
+        w -= residual/(w.exp()*(w + 1.0) - (w + 2.0)*residual/(2.0 * w + 2.0));
     }
     w
 }
-- 
2.43.0


From e3f35da734dedb856494c693e849e14b08d7a005 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:26:36 +0000
Subject: [PATCH 11/17] fix: powered Newton-Raphson started at the solution

---
 src/math/mod.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/math/mod.rs b/src/math/mod.rs
index bfc6fb6..66a0e06 100644
--- a/src/math/mod.rs
+++ b/src/math/mod.rs
@@ -2,14 +2,12 @@ pub fn inverse_newton_raphson_powered(y: &f64, f: &dyn Fn(&f64) -> f64, fp: &dyn
 {
     let mut x = *guess;
     let mut f_adj: f64;
-    let mut y_minus_f: f64;
     let mut iters = 0;
     let mut residual_rel = 1.0;
     while residual_rel > rel_tol && &iters < max_iters
     {
         f_adj = f(&x) - y;
-        y_minus_f = -f_adj.powi(power);
-        x += y_minus_f/f_adj.powi(power - 1)/fp(&x)/(power as f64);
+        x -= f_adj/fp(&x)/(power as f64);
         iters += 1;
         residual_rel = (f_adj/y).abs();
     }
-- 
2.43.0


From 7ddf30cc9d05013c0545e0918850cfa51a3b1ea7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:33:53 +0000
Subject: [PATCH 12/17] fix: reduced asymptotic EFJC Helmholtz energy at
 nondimensional forces above 700

---
 .../isometric/asymptotic/reduced/legendre/mod.rs       | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/reduced/legendre/mod.rs b/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/reduced/legendre/mod.rs
index a10fb29..77e931b 100644
--- a/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/reduced/legendre/mod.rs
+++ b/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/reduced/legendre/mod.rs
@@ -89,7 +89,15 @@ pub fn nondimensional_helmholtz_free_energy(number_of_links: &u8, link_length: &
 pub fn nondimensional_helmholtz_free_energy_per_link(number_of_links: &u8, link_length: &f64, hinge_mass: &f64, nondimensional_link_stiffness: &f64, nondimensional_end_to_end_length_per_link: &f64, temperature: &f64) -> f64
 {
     let nondimensional_force = nondimensional_force(nondimensional_link_stiffness, nondimensional_end_to_end_length_per_link);
-    -(nondimensional_force.sinh()/nondimensional_force).ln() - 0.5*nondimensional_force.powi(2)/nondimensional_link_stiffness + nondimensional_force*nondimensional_end_to_end_length_per_link - (1.0 - 1.0/(*number_of_links as f64))*(0.5*(2.0*PI*link_length.powi(2)/nondimensional_link_stiffness).ln() + (8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln())
+    let ln_sinhc = if nondimensional_force > 700.0
+    {
+        nondimensional_force - (2.0*nondimensional_force).ln()
+    }
+    else
+    {
+        (nondimensional_force.sinh()/nondimensional_force).ln()
+    };
+    -ln_sinhc - 0.5*nondimensional_force.powi(2)/nondimensional_link_stiffness + nondimensional_force*nondimensional_end_to_end_length_per_link - (1.0 - 1.0/(*number_of_links as f64))*(0.5*(2.0*PI*link_length.powi(2)/nondimensional_link_stiffness).ln() + (8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln())
 }
 
 /// The nondimensional relative Helmholtz free energy as a function of the nondimensional end-to-end length per link, parameterized by the number of links and nondimensional link stiffness.
-- 
2.43.0


From f553467891096bd8c178481399838801676be856 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:38:48 +0000
Subject: [PATCH 13/17] fix: isometric EFJC force at and just below unit
 extension

---
 .../isometric/asymptotic/alternative/legendre/mod.rs          | 4 ++--
 .../efjc/thermodynamics/isometric/asymptotic/legendre/mod.rs  | 4 ++--
 .../isometric/asymptotic/reduced/legendre/mod.rs              | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/alternative/legendre/mod.rs b/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/alternative/legendre/mod.rs
index d9a3cb8..853bfb1 100644
--- a/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/alternative/legendre/mod.rs
+++ b/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/alternative/legendre/mod.rs
@@ -46,11 +46,11 @@ pub fn nondimensional_force(nondimensional_link_stiffness: &f64, nondimensional_
 {
     let guess: f64 = if nondimensional_end_to_end_length_per_link < &1.0
     {
-        inverse_langevin(nondimensional_end_to_end_length_per_link)
+        inverse_langevin(nondimensional_end_to_end_length_per_link).min(nondimensional_link_stiffness.sqrt())
     }
     else
     {
-        nondimensional_link_stiffness*(nondimensional_end_to_end_length_per_link - 1.0)
+        (nondimensional_link_stiffness*(nondimensional_end_to_end_length_per_link - 1.0)).max(nondimensional_link_stiffness.sqrt().min(1.0))
     };
     inverse_newton_raphson(nondimensional_end_to_end_length_per_link, &|nondimensional_force: &f64| 1.0/nondimensional_force.tanh() - 1.0/nondimensional_force + (nondimensional_force + 1.0/nondimensional_force.tanh() - nondimensional_force/nondimensional_force.sinh().powi(2))/nondimensional_link_stiffness, &|nondimensional_force: &f64| 1.0/nondimensional_force.powi(2) - 1.0/nondimensional_force.sinh().powi(2) + (1.0 + 2.0*(nondimensional_force/nondimensional_force.tanh() - 1.0)/nondimensional_force.sinh().powi(2))/nondimensional_link_stiffness, &guess, &1e-6, &100)
 }
diff --git a/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/legendre/mod.rs b/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/legendre/mod.rs
index 364f853..43b30f6 100644
--- a/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/legendre/mod.rs
+++ b/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/legendre/mod.rs
@@ -46,11 +46,11 @@ pub fn nondimensional_force(nondimensional_link_stiffness: &f64, nondimensional_
 {
     let guess: f64 = if nondimensional_end_to_end_length_per_link < &1.0
     {
-        inverse_langevin(nondimensional_end_to_end_length_per_link)
+        inverse_langevin(nondimensional_end_to_end_length_per_link).min(nondimensional_link_stiffness.sqrt())
     }
     else
     {
-        nondimensional_link_stiffness*(nondimensional_end_to_end_length_per_link - 1.0)
+        (nondimensional_link_stiffness*(nondimensional_end_to_end_length_per_link - 1.0)).max(nondimensional_link_stiffness.sqrt().min(1.0))
     };
     inverse_newton_raphson(nondimensional_end_to_end_length_per_link, &|nondimensional_force: &f64| 1.0/nondimensional_force.tanh() - 1.0/nondimensional_force + nondimensional_force/nondimensional_link_stiffness*(1.0 + (nondimensional_force.tanh() - 1.0/nondimensional_force.tanh() + 1.0/nondimensional_force)/(nondimensional_force.tanh() + nondimensional_force/nondimensional_link_stiffness)), &|nondimensional_force: &f64| 1.0/nondimensional_force.powi(2) - 1.0/nondimensional_force.sinh().powi(2) + (nondimensional_link_stiffness*nondimensional_force.powi(2)/nondimensional_force.sinh().powi(4) - (2.0*nondimensional_link_stiffness + 1.0)*(nondimensional_link_stiffness - nondimensional_force.powi(2))/nondimensional_force.sinh().powi(2) + 2.0*nondimensional_link_stiffness*nondimensional_force/nondimensional_force.tanh()*(nondimensional_link_stiffness/nondimensional_force.sinh().powi(2) + 1.0) + (nondimensional_link_stiffness - 1.0)*nondimensional_link_stiffness + nondimensional_force.powi(2))/(nondimensional_link_stiffness + nondimensional_force/nondimensional_force.tanh()).powi(2)/nondimensional_link_stiffness, &guess, &1e-6, &100)
 }
diff --git a/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/reduced/legendre/mod.rs b/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/reduced/legendre/mod.rs
index 77e931b..164c622 100644
--- a/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/reduced/legendre/mod.rs
+++ b/src/physics/single_chain/efjc/thermodynamics/isometric/asymptotic/reduced/legendre/mod.rs
@@ -46,11 +46,11 @@ pub fn nondimensional_force(nondimensional_link_stiffness: &f64, nondimensional_
 {
     let guess: f64 = if nondimensional_end_to_end_length_per_link < &1.0
     {
-        inverse_langevin(nondimensional_end_to_end_length_per_link)
+        inverse_langevin(nondimensional_end_to_end_length_per_link).min(nondimensional_link_stiffness.sqrt())
     }
     else
     {
-        nondimensional_link_stiffness*(nondimensional_end_to_end_length_per_link - 1.0)
+        (nondimensional_link_stiffness*(nondimensional_end_to_end_length_per_link - 1.0)).max(nondimensional_link_stiffness.sqrt().min(1.0))
     };
     inverse_newton_raphson(nondimensional_end_to_end_length_per_link, &|nondimensional_force: &f64| 1.0/nondimensional_force.tanh() - 1.0/nondimensional_force + nondimensional_force/nondimensional_link_stiffness, &|nondimensional_force: &f64| 1.0/nondimensional_force.powi(2) - 1.0/nondimensional_force.sinh().powi(2) + 1.0/nondimensional_link_stiffness, &guess, &1e-6, &100)
 }
-- 
2.43.0


From 885274ce9b2fe753a903870da970b586655db6b9 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 14/17] fix: Julia worm-like chain densities pass the C
 functions the arguments they take

---
 .../single_chain/wlc/thermodynamics/isometric/mod.jl        | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/physics/single_chain/wlc/thermodynamics/isometric/mod.jl b/src/physics/single_chain/wlc/thermodynamics/isometric/mod.jl
index fbdeef0..575e394 100644
--- a/src/physics/single_chain/wlc/thermodynamics/isometric/mod.jl
+++ b/src/physics/single_chain/wlc/thermodynamics/isometric/mod.jl
@@ -584,8 +584,7 @@ function nondimensional_equilibrium_distribution(
                 Polymers_jll.libpolymers,
             ),
             Float64,
-            (UInt8, Float64, Float64, Float64),
-            number_of_links_i,
+            (Float64, Float64, Float64),
             nondimensional_persistance_length_i,
             normalization_nondimensional_equilibrium_distribution,
             nondimensional_end_to_end_length_per_link_i,
@@ -664,8 +663,7 @@ function nondimensional_equilibrium_radial_distribution(
                 Polymers_jll.libpolymers,
             ),
             Float64,
-            (UInt8, Float64, Float64, Float64),
-            number_of_links_i,
+            (Float64, Float64, Float64),
             nondimensional_persistance_length_i,
             normalization_nondimensional_equilibrium_distribution,
             nondimensional_end_to_end_length_per_link_i,
-- 
2.43.0


From 678416503f86f27c41453a9fb4e0cd0cde04b586 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:30:15 +0000
Subject: [PATCH 15/17] fix: relative free energies of square-well chains lost
 to cancellation at zero load

---
 .../thermodynamics/isometric/legendre/mod.rs  |  7 ++++---
 .../isotensional/legendre/mod.rs              |  3 ++-
 .../swfjc/thermodynamics/isotensional/mod.rs  | 17 +++++++++--------
 .../single_chain/swfjc/thermodynamics/mod.rs  | 19 +++++++++++++++++++
 4 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/physics/single_chain/swfjc/thermodynamics/isometric/legendre/mod.rs b/src/physics/single_chain/swfjc/thermodynamics/isometric/legendre/mod.rs
index 50777a0..c68bb32 100644
--- a/src/physics/single_chain/swfjc/thermodynamics/isometric/legendre/mod.rs
+++ b/src/physics/single_chain/swfjc/thermodynamics/isometric/legendre/mod.rs
@@ -18,6 +18,7 @@ use crate::physics::
     PLANCK_CONSTANT,
     BOLTZMANN_CONSTANT
 };
+use crate::physics::single_chain::swfjc::thermodynamics::rescaled_partition_function;
 use crate::physics::single_chain::
 {
     ONE,
@@ -67,7 +68,7 @@ pub fn nondimensional_force(link_length: &f64, well_width: &f64, nondimensional_
         {
             10.0
         };
-        inverse_newton_raphson(nondimensional_end_to_end_length_per_link, &|nondimensional_force: &f64| (nondimensional_well_parameter.powi(2)*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_force*nondimensional_force.sinh())/(nondimensional_well_parameter*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - (nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_force*nondimensional_force.cosh() + nondimensional_force.sinh()) - 3.0/nondimensional_force, &|nondimensional_force: &f64| (nondimensional_force.sinh() + nondimensional_force*nondimensional_force.cosh() - nondimensional_well_parameter.powi(3)*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - nondimensional_well_parameter.powi(2)*(nondimensional_well_parameter*nondimensional_force).sinh())/((nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_well_parameter*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - nondimensional_force.sinh() + nondimensional_force*nondimensional_force.cosh()) - (nondimensional_force.powi(2)*(nondimensional_force.sinh() - nondimensional_well_parameter.powi(2)*(nondimensional_well_parameter*nondimensional_force).sinh()).powi(2))/((nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_well_parameter*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - nondimensional_force.sinh() + nondimensional_force*nondimensional_force.cosh()).powi(2) + 3.0/nondimensional_force.powi(2), &guess, &1e-6, &100)
+        inverse_newton_raphson(nondimensional_end_to_end_length_per_link, &|nondimensional_force: &f64| (nondimensional_well_parameter.powi(2)*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_force*nondimensional_force.sinh())/rescaled_partition_function(&nondimensional_well_parameter, nondimensional_force) - 3.0/nondimensional_force, &|nondimensional_force: &f64| (nondimensional_force.sinh() + nondimensional_force*nondimensional_force.cosh() - nondimensional_well_parameter.powi(3)*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - nondimensional_well_parameter.powi(2)*(nondimensional_well_parameter*nondimensional_force).sinh())/((nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_well_parameter*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - nondimensional_force.sinh() + nondimensional_force*nondimensional_force.cosh()) - (nondimensional_force.powi(2)*(nondimensional_force.sinh() - nondimensional_well_parameter.powi(2)*(nondimensional_well_parameter*nondimensional_force).sinh()).powi(2))/((nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_well_parameter*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - nondimensional_force.sinh() + nondimensional_force*nondimensional_force.cosh()).powi(2) + 3.0/nondimensional_force.powi(2), &guess, &1e-6, &100)
     }
 }
 
@@ -106,7 +107,7 @@ pub fn nondimensional_helmholtz_free_energy_per_link(number_of_links: &u8, link_
 {
     let nondimensional_well_parameter = 1.0 + well_width/link_length;
     let nondimensional_force = nondimensional_force(link_length, well_width, nondimensional_end_to_end_length_per_link);
-    nondimensional_force**nondimensional_end_to_end_length_per_link + 3.0*nondimensional_force.ln() - (nondimensional_well_parameter*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - (nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_force*nondimensional_force.cosh() + nondimensional_force.sinh()).ln() - (1.0 - 1.0/(*number_of_links as f64))*(8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln()
+    nondimensional_force**nondimensional_end_to_end_length_per_link + 3.0*nondimensional_force.ln() - rescaled_partition_function(&nondimensional_well_parameter, &nondimensional_force).ln() - (1.0 - 1.0/(*number_of_links as f64))*(8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln()
 }
 
 /// The nondimensional relative Helmholtz free energy as a function of the nondimensional end-to-end length per link, parameterized by the number of links, link length, and well width.
@@ -134,7 +135,7 @@ pub fn nondimensional_equilibrium_distribution(number_of_links: &u8, link_length
     let nondimensional_well_parameter = 1.0 + well_width/link_length;
     let nondimensional_well_volume = (nondimensional_well_parameter.powi(3) - 1.0)/3.0;
     let nondimensional_force = nondimensional_force(link_length, well_width, nondimensional_end_to_end_length_per_link);
-    ((nondimensional_well_parameter*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - (nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_force*nondimensional_force.cosh() + nondimensional_force.sinh())/nondimensional_force.powi(3)/nondimensional_well_volume*(-nondimensional_force**nondimensional_end_to_end_length_per_link).exp()).powi(*number_of_links as i32)/normalization_nondimensional_equilibrium_distribution
+    (rescaled_partition_function(&nondimensional_well_parameter, &nondimensional_force)/nondimensional_force.powi(3)/nondimensional_well_volume*(-nondimensional_force**nondimensional_end_to_end_length_per_link).exp()).powi(*number_of_links as i32)/normalization_nondimensional_equilibrium_distribution
 }
 
 /// The equilibrium probability density of end-to-end lengths as a function of the end-to-end length, parameterized by the number of links and link length.
diff --git a/src/physics/single_chain/swfjc/thermodynamics/isotensional/legendre/mod.rs b/src/physics/single_chain/swfjc/thermodynamics/isotensional/legendre/mod.rs
index ef7fc50..948e61a 100644
--- a/src/physics/single_chain/swfjc/thermodynamics/isotensional/legendre/mod.rs
+++ b/src/physics/single_chain/swfjc/thermodynamics/isotensional/legendre/mod.rs
@@ -12,6 +12,7 @@ use crate::physics::
     PLANCK_CONSTANT,
     BOLTZMANN_CONSTANT
 };
+use crate::physics::single_chain::swfjc::thermodynamics::rescaled_partition_function;
 use crate::physics::single_chain::ZERO;
 
 /// The structure of the thermodynamics of the SWFJC model in the isotensional ensemble approximated using a Legendre transformation.
@@ -64,7 +65,7 @@ pub fn nondimensional_helmholtz_free_energy(number_of_links: &u8, link_length: &
 pub fn nondimensional_helmholtz_free_energy_per_link(link_length: &f64, hinge_mass: &f64, well_width: &f64, nondimensional_force: &f64, temperature: &f64) -> f64
 {
     let nondimensional_well_parameter = 1.0 + well_width/link_length;
-    (nondimensional_well_parameter.powi(2)*nondimensional_force.powi(2)*(nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_force.powi(2)*nondimensional_force.sinh())/(nondimensional_well_parameter*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - (nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_force*nondimensional_force.cosh() + nondimensional_force.sinh()) - 3.0 + 3.0*nondimensional_force.ln() - (nondimensional_well_parameter*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - (nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_force*nondimensional_force.cosh() + nondimensional_force.sinh()).ln() - (8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln()
+    (nondimensional_well_parameter.powi(2)*nondimensional_force.powi(2)*(nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_force.powi(2)*nondimensional_force.sinh())/rescaled_partition_function(&nondimensional_well_parameter, nondimensional_force) - 3.0 + 3.0*nondimensional_force.ln() - rescaled_partition_function(&nondimensional_well_parameter, nondimensional_force).ln() - (8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln()
 }
 
 /// The nondimensional relative Helmholtz free energy as a function of the applied nondimensional force, parameterized by the number of links, link length, and well width.
diff --git a/src/physics/single_chain/swfjc/thermodynamics/isotensional/mod.rs b/src/physics/single_chain/swfjc/thermodynamics/isotensional/mod.rs
index 100004d..7fb9132 100644
--- a/src/physics/single_chain/swfjc/thermodynamics/isotensional/mod.rs
+++ b/src/physics/single_chain/swfjc/thermodynamics/isotensional/mod.rs
@@ -15,6 +15,7 @@ use crate::physics::
     PLANCK_CONSTANT,
     BOLTZMANN_CONSTANT
 };
+use crate::physics::single_chain::swfjc::thermodynamics::rescaled_partition_function;
 use crate::physics::single_chain::ZERO;
 
 /// The structure of the thermodynamics of the SWFJC model in the isotensional ensemble.
@@ -41,7 +42,7 @@ pub fn end_to_end_length(number_of_links: &u8, link_length: &f64, well_width: &f
 {
     let nondimensional_well_parameter = 1.0 + well_width/link_length;
     let nondimensional_force = force*link_length/BOLTZMANN_CONSTANT/temperature;
-    (*number_of_links as f64)*link_length*((nondimensional_well_parameter.powi(2)*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_force*nondimensional_force.sinh())/(nondimensional_well_parameter*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - (nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_force*nondimensional_force.cosh() + nondimensional_force.sinh()) - 3.0/nondimensional_force)
+    (*number_of_links as f64)*link_length*((nondimensional_well_parameter.powi(2)*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_force*nondimensional_force.sinh())/rescaled_partition_function(&nondimensional_well_parameter, &nondimensional_force) - 3.0/nondimensional_force)
 }
 
 /// The expected end-to-end length per link as a function of the applied force and temperature, parameterized by the link length and well width.
@@ -49,21 +50,21 @@ pub fn end_to_end_length_per_link(link_length: &f64, well_width: &f64, force: &f
 {
     let nondimensional_well_parameter = 1.0 + well_width/link_length;
     let nondimensional_force = force*link_length/BOLTZMANN_CONSTANT/temperature;
-    link_length*((nondimensional_well_parameter.powi(2)*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_force*nondimensional_force.sinh())/(nondimensional_well_parameter*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - (nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_force*nondimensional_force.cosh() + nondimensional_force.sinh()) - 3.0/nondimensional_force)
+    link_length*((nondimensional_well_parameter.powi(2)*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_force*nondimensional_force.sinh())/rescaled_partition_function(&nondimensional_well_parameter, &nondimensional_force) - 3.0/nondimensional_force)
 }
 
 /// The expected nondimensional end-to-end length as a function of the applied nondimensional force, parameterized by the number of links, link length, and well width.
 pub fn nondimensional_end_to_end_length(number_of_links: &u8, link_length: &f64, well_width: &f64, nondimensional_force: &f64) -> f64
 {
     let nondimensional_well_parameter = 1.0 + well_width/link_length;
-    (*number_of_links as f64)*((nondimensional_well_parameter.powi(2)*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_force*nondimensional_force.sinh())/(nondimensional_well_parameter*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - (nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_force*nondimensional_force.cosh() + nondimensional_force.sinh()) - 3.0/nondimensional_force)
+    (*number_of_links as f64)*((nondimensional_well_parameter.powi(2)*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_force*nondimensional_force.sinh())/rescaled_partition_function(&nondimensional_well_parameter, nondimensional_force) - 3.0/nondimensional_force)
 }
 
 /// The expected nondimensional end-to-end length per link as a function of the applied nondimensional force, parameterized by the link length and well width.
 pub fn nondimensional_end_to_end_length_per_link(link_length: &f64, well_width: &f64, nondimensional_force: &f64) -> f64
 {
     let nondimensional_well_parameter = 1.0 + well_width/link_length;
-    (nondimensional_well_parameter.powi(2)*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_force*nondimensional_force.sinh())/(nondimensional_well_parameter*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - (nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_force*nondimensional_force.cosh() + nondimensional_force.sinh()) - 3.0/nondimensional_force
+    (nondimensional_well_parameter.powi(2)*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_force*nondimensional_force.sinh())/rescaled_partition_function(&nondimensional_well_parameter, nondimensional_force) - 3.0/nondimensional_force
 }
 
 /// The Gibbs free energy as a function of the applied force and temperature, parameterized by the number of links, link length, hinge mass, and well width.
@@ -71,7 +72,7 @@ pub fn gibbs_free_energy(number_of_links: &u8, link_length: &f64, hinge_mass: &f
 {
     let nondimensional_well_parameter = 1.0 + well_width/link_length;
     let nondimensional_force = force*link_length/BOLTZMANN_CONSTANT/temperature;
-    (*number_of_links as f64)*BOLTZMANN_CONSTANT*temperature*((3.0*nondimensional_force.ln() - (nondimensional_well_parameter*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - (nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_force*nondimensional_force.cosh() + nondimensional_force.sinh()).ln()) - (8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln())
+    (*number_of_links as f64)*BOLTZMANN_CONSTANT*temperature*((3.0*nondimensional_force.ln() - rescaled_partition_function(&nondimensional_well_parameter, &nondimensional_force).ln()) - (8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln())
 }
 
 /// The Gibbs free energy per link as a function of the applied force and temperature, parameterized by the link length, hinge mass, and well width.
@@ -79,7 +80,7 @@ pub fn gibbs_free_energy_per_link(link_length: &f64, hinge_mass: &f64, well_widt
 {
     let nondimensional_well_parameter = 1.0 + well_width/link_length;
     let nondimensional_force = force*link_length/BOLTZMANN_CONSTANT/temperature;
-    BOLTZMANN_CONSTANT*temperature*((3.0*nondimensional_force.ln() - (nondimensional_well_parameter*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - (nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_force*nondimensional_force.cosh() + nondimensional_force.sinh()).ln()) - (8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln())
+    BOLTZMANN_CONSTANT*temperature*((3.0*nondimensional_force.ln() - rescaled_partition_function(&nondimensional_well_parameter, &nondimensional_force).ln()) - (8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln())
 }
 
 /// The relative Gibbs free energy as a function of the applied force and temperature, parameterized by the number of links, link length, and well width.
@@ -98,14 +99,14 @@ pub fn relative_gibbs_free_energy_per_link(link_length: &f64, well_width: &f64,f
 pub fn nondimensional_gibbs_free_energy(number_of_links: &u8, link_length: &f64, hinge_mass: &f64, well_width: &f64, nondimensional_force: &f64, temperature: &f64) -> f64
 {
     let nondimensional_well_parameter = 1.0 + well_width/link_length;
-    (*number_of_links as f64)*((3.0*nondimensional_force.ln() - (nondimensional_well_parameter*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - (nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_force*nondimensional_force.cosh() + nondimensional_force.sinh()).ln()) - (8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln())
+    (*number_of_links as f64)*((3.0*nondimensional_force.ln() - rescaled_partition_function(&nondimensional_well_parameter, nondimensional_force).ln()) - (8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln())
 }
 
 /// The nondimensional Gibbs free energy per link as a function of the applied nondimensional force and temperature, parameterized by the link length, hinge mass, and well width.
 pub fn nondimensional_gibbs_free_energy_per_link(link_length: &f64, hinge_mass: &f64, well_width: &f64, nondimensional_force: &f64, temperature: &f64) -> f64
 {
     let nondimensional_well_parameter = 1.0 + well_width/link_length;
-    3.0*nondimensional_force.ln() - (nondimensional_well_parameter*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - (nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_force*nondimensional_force.cosh() + nondimensional_force.sinh()).ln() - (8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln()
+    3.0*nondimensional_force.ln() - rescaled_partition_function(&nondimensional_well_parameter, nondimensional_force).ln() - (8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln()
 }
 
 /// The nondimensional relative Gibbs free energy as a function of the applied nondimensional force, parameterized by the number of links, link length, and well width.
diff --git a/src/physics/single_chain/swfjc/thermodynamics/mod.rs b/src/physics/single_chain/swfjc/thermodynamics/mod.rs
index 3a21e90..ece4eb5 100644
--- a/src/physics/single_chain/swfjc/thermodynamics/mod.rs
+++ b/src/physics/single_chain/swfjc/thermodynamics/mod.rs
@@ -9,6 +9,25 @@ pub mod isometric;
 /// The square-well freely-jointed chain (SWFJC) model thermodynamics in the isotensional ensemble.
 pub mod isotensional;
 
+// The isotensional partition function of a link, multiplied by the third power of the nondimensional force.
+// For small forces it is expanded in powers of the force, since its terms would otherwise cancel almost entirely.
+fn rescaled_partition_function(nondimensional_well_parameter: &f64, nondimensional_force: &f64) -> f64
+{
+    let nondimensional_force_outer = nondimensional_well_parameter*nondimensional_force;
+    if nondimensional_force_outer.abs() < 1.0
+    {
+        (1..10).rev().map(|order: i32|
+        {
+            let power = 2*order + 1;
+            (2*order) as f64/(2..(power + 1)).map(|factor| factor as f64).product::<f64>()*(nondimensional_well_parameter.powi(power) - 1.0)*nondimensional_force.powi(power)
+        }).sum::<f64>()
+    }
+    else
+    {
+        nondimensional_force_outer*nondimensional_force_outer.cosh() - nondimensional_force_outer.sinh() - nondimensional_force*nondimensional_force.cosh() + nondimensional_force.sinh()
+    }
+}
+
 /// The structure of the thermodynamics of the SWFJC model.
 pub struct SWFJC
 {
-- 
2.43.0


From c3d8c0c2fc261d964fffe879e028e1dd0ff15b07 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:42:14 +0000
Subject: [PATCH 16/17] fix: strong-potential FJC relative Helmholtz free
 energy lost to cancellation at zero distance

---
 .../asymptotic/strong_potential/mod.rs              | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/physics/single_chain/fjc/thermodynamics/modified_canonical/asymptotic/strong_potential/mod.rs b/src/physics/single_chain/fjc/thermodynamics/modified_canonical/asymptotic/strong_potential/mod.rs
index dc575a3..f987d56 100644
--- a/src/physics/single_chain/fjc/thermodynamics/modified_canonical/asymptotic/strong_potential/mod.rs
+++ b/src/physics/single_chain/fjc/thermodynamics/modified_canonical/asymptotic/strong_potential/mod.rs
@@ -73,11 +73,20 @@ pub fn relative_helmholtz_free_energy_per_link(number_of_links: &u8, link_length
 /// The nondimensional Helmholtz free energy as a function of the applied nondimensional potential distance, nondimensional potential stiffness, and temperature, parameterized by the number of links, link length, and hinge mass.
 pub fn nondimensional_helmholtz_free_energy(number_of_links: &u8, link_length: &f64, hinge_mass: &f64, nondimensional_potential_distance: &f64, nondimensional_potential_stiffness: &f64, temperature: &f64) -> f64
 {
-    let sums = treloar_sums(number_of_links, nondimensional_potential_distance, &[0, 1, 2]);
+    let sums = treloar_sums(number_of_links, nondimensional_potential_distance, &[0, 1, 2, 3]);
     let number_of_links_f64 = *number_of_links as f64;
+    let correction = if number_of_links > &2 && (0.0..2.0*ZERO).contains(nondimensional_potential_distance)
+    {
+        // the limit for short distances, where the terms below would cancel
+        -(number_of_links_f64 - 3.0)*(number_of_links_f64 - 4.0)/12.0*sums[3]/sums[1]
+    }
+    else
+    {
+        (0.5*number_of_links_f64 - 1.0)*((0.5*number_of_links_f64 - 1.0)*(sums[1]/sums[0]).powi(2) - (0.5*number_of_links_f64 - 1.5)*sums[2]/sums[0]) - nondimensional_potential_distance.powi(-2) - ((0.5*number_of_links_f64 - 1.0)*sums[1]/sums[0] + nondimensional_potential_distance.powi(-1)).powi(2)
+    };
     let number_of_links_squared = number_of_links_f64.powi(2);
     let contour_length = number_of_links_f64*link_length;
-    -(treloar_sum_0_with_prefactor(number_of_links, nondimensional_potential_distance)/contour_length.powi(3)).ln() - (number_of_links_f64 - 1.0)*(8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln() - 1.5*(2.0*PI/nondimensional_potential_stiffness/number_of_links_squared).ln() - 3.0*(contour_length).ln() + 0.5/nondimensional_potential_stiffness/number_of_links_squared*((0.5*number_of_links_f64 - 1.0)*((0.5*number_of_links_f64 - 1.0)*(sums[1]/sums[0]).powi(2) - (0.5*number_of_links_f64 - 1.5)*sums[2]/sums[0]) - nondimensional_potential_distance.powi(-2) - ((0.5*number_of_links_f64 - 1.0)*sums[1]/sums[0] + nondimensional_potential_distance.powi(-1)).powi(2))
+    -(treloar_sum_0_with_prefactor(number_of_links, nondimensional_potential_distance)/contour_length.powi(3)).ln() - (number_of_links_f64 - 1.0)*(8.0*PI.powi(2)*hinge_mass*link_length.powi(2)*BOLTZMANN_CONSTANT*temperature/PLANCK_CONSTANT.powi(2)).ln() - 1.5*(2.0*PI/nondimensional_potential_stiffness/number_of_links_squared).ln() - 3.0*(contour_length).ln() + 0.5/nondimensional_potential_stiffness/number_of_links_squared*correction
 }
 
 /// The nondimensional Helmholtz free energy per link as a function of the applied nondimensional potential distance, nondimensional potential stiffness, and temperature, parameterized by the number of links, link length, and hinge mass.
-- 
2.43.0


From 31ed10e3f210c201a704bad8cddd3c24fedcc6ec Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:25:30 +0000
Subject: [PATCH 17/17] fix: isometric square-well chains with wells wider than
 three links diverged to NaN

---
 .../swfjc/thermodynamics/isometric/legendre/mod.rs            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/physics/single_chain/swfjc/thermodynamics/isometric/legendre/mod.rs b/src/physics/single_chain/swfjc/thermodynamics/isometric/legendre/mod.rs
index c68bb32..8e05441 100644
--- a/src/physics/single_chain/swfjc/thermodynamics/isometric/legendre/mod.rs
+++ b/src/physics/single_chain/swfjc/thermodynamics/isometric/legendre/mod.rs
@@ -62,11 +62,11 @@ pub fn nondimensional_force(link_length: &f64, well_width: &f64, nondimensional_
     {
         let guess: f64 = if nondimensional_end_to_end_length_per_link/nondimensional_well_parameter < 0.9
         {
-            inverse_langevin(&(nondimensional_end_to_end_length_per_link/nondimensional_well_parameter))
+            inverse_langevin(&(nondimensional_end_to_end_length_per_link/nondimensional_well_parameter))/nondimensional_well_parameter
         }
         else
         {
-            10.0
+            10.0/nondimensional_well_parameter
         };
         inverse_newton_raphson(nondimensional_end_to_end_length_per_link, &|nondimensional_force: &f64| (nondimensional_well_parameter.powi(2)*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_force*nondimensional_force.sinh())/rescaled_partition_function(&nondimensional_well_parameter, nondimensional_force) - 3.0/nondimensional_force, &|nondimensional_force: &f64| (nondimensional_force.sinh() + nondimensional_force*nondimensional_force.cosh() - nondimensional_well_parameter.powi(3)*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - nondimensional_well_parameter.powi(2)*(nondimensional_well_parameter*nondimensional_force).sinh())/((nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_well_parameter*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - nondimensional_force.sinh() + nondimensional_force*nondimensional_force.cosh()) - (nondimensional_force.powi(2)*(nondimensional_force.sinh() - nondimensional_well_parameter.powi(2)*(nondimensional_well_parameter*nondimensional_force).sinh()).powi(2))/((nondimensional_well_parameter*nondimensional_force).sinh() - nondimensional_well_parameter*nondimensional_force*(nondimensional_well_parameter*nondimensional_force).cosh() - nondimensional_force.sinh() + nondimensional_force*nondimensional_force.cosh()).powi(2) + 3.0/nondimensional_force.powi(2), &guess, &1e-6, &100)
     }
-- 
2.43.0

