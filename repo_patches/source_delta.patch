From 9b996636947eec912a685aec81309a5a3dd82bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:38 +0000
Subject: [PATCH 01/21] fix: Particles::is_empty ignores the holes of removed
 particles

---
 src/include/smash/particles.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/smash/particles.h b/src/include/smash/particles.h
index 9271058..fc1fdb0 100644
--- a/src/include/smash/particles.h
+++ b/src/include/smash/particles.h
@@ -87,7 +87,7 @@ class Particles {
   size_t size() const { return data_size_ - dirty_.size(); }
 
   /// \return whether the list of particles is empty.
-  bool is_empty() const { return data_size_ == 0; }
+  bool is_empty() const { return size() == 0; }
 
   /**
    *  Returns the time of the computational frame.
-- 
2.43.0


From a867a75bede379cc216b199479d42512d256b9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:38 +0000
Subject: [PATCH 02/21] fix: do not read past the end of keys shorter than a
 map key

---
 src/configuration.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/configuration.cc b/src/configuration.cc
index 0325c1f..f118e40 100644
--- a/src/configuration.cc
+++ b/src/configuration.cc
@@ -524,7 +524,8 @@ void adjust_list_of_labels_dealing_with_keys_taken_as_maps(
     std::for_each(list_of_input_key_labels.begin(),
                   list_of_input_key_labels.end(),
                   [&labels](KeyLabels &labels_of_input_key) {
-                    if (std::equal(labels.begin(), labels.end(),
+                    if (labels_of_input_key.size() >= labels.size() &&
+                        std::equal(labels.begin(), labels.end(),
                                    labels_of_input_key.begin(),
                                    labels_of_input_key.begin() + labels.size()))
                       labels_of_input_key = labels;
-- 
2.43.0


From ccf324693392b9f5fb9f6321705b85d339b2394b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:38 +0000
Subject: [PATCH 03/21] fix: use the third daughter's spin in the
 angular-momentum check

---
 src/decaymodes.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decaymodes.cc b/src/decaymodes.cc
index 61df77e..1499b01 100644
--- a/src/decaymodes.cc
+++ b/src/decaymodes.cc
@@ -340,7 +340,7 @@ void DecayModes::load_decaymodes(const std::string &input) {
                      isotype_daughter_3.parity();
             const int s1 = isotype_daughter_1.spin();
             const int s2 = isotype_daughter_2.spin();
-            const int s3 = isotype_daughter_2.spin();
+            const int s3 = isotype_daughter_3.spin();
             min_L = min_angular_momentum(s0, s1, s2, s3);
             max_L = (s0 + s1 + s2 + s3) / 2;
             // loop through multiplets
-- 
2.43.0


From dfb7db6971367507a7a1cdfac39a3b3c7b251942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:47 +0000
Subject: [PATCH 04/21] fix: name the --dump-iSS option in the usage as it is
 accepted

---
 src/smash.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smash.cc b/src/smash.cc
index ef10fd7..6dba963 100644
--- a/src/smash.cc
+++ b/src/smash.cc
@@ -173,7 +173,7 @@ void usage(const int rc, const std::string &progname) {
       "  -f, --force             force overwriting files in the output "
       "directory"
       "\n"
-      "  -x, --dump_iSS          Dump particle table in iSS format\n"
+      "  -x, --dump-iSS          Dump particle table in iSS format\n"
       "                          This format is used in MUSIC and CLVisc\n"
       "                          relativistic hydro codes\n"
       "  -q, --quiet             Supress disclaimer print-out\n"
-- 
2.43.0


From f174718b53ccef3dd3b5a9ed69713a6afe3144d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:19 +0000
Subject: [PATCH 05/21] fix: resize the lattice storage when reset_and_resize
 changes the number of cells

With new_cells only the cell counts were changed, so that a lattice with more cells was accessed
beyond the end of its storage.
---
 src/include/smash/lattice.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/include/smash/lattice.h b/src/include/smash/lattice.h
index 9445f63..42984e7 100644
--- a/src/include/smash/lattice.h
+++ b/src/include/smash/lattice.h
@@ -822,8 +822,10 @@ class RectangularLattice {
       lattice_sizes_ = *new_length;
     if (new_origin)
       origin_ = *new_origin;
-    if (new_cells)
+    if (new_cells) {
       n_cells_ = *new_cells;
+      lattice_.assign(n_cells_[0] * n_cells_[1] * n_cells_[2], T());
+    }
     cell_sizes_ = {lattice_sizes_[0] / n_cells_[0],
                    lattice_sizes_[1] / n_cells_[1],
                    lattice_sizes_[2] / n_cells_[2]};
-- 
2.43.0


From 2410440b2db6938aa47d62e53935a4948afd74d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:45 +0000
Subject: [PATCH 06/21] fix: smallest angular momentum of a decay is zero when
 the spins form a triangle

---
 src/decaymodes.cc | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/decaymodes.cc b/src/decaymodes.cc
index 1499b01..7a0dccf 100644
--- a/src/decaymodes.cc
+++ b/src/decaymodes.cc
@@ -9,6 +9,7 @@
 
 #include "smash/decaymodes.h"
 
+#include <algorithm>
 #include <vector>
 
 #include "smash/clebschgordan.h"
@@ -136,28 +137,22 @@ inline std::size_t find_offset(PdgCode pdg) {
 }  // unnamed namespace
 
 static int min_angular_momentum(int s0, int s1, int s2) {
-  int min_L = std::min(std::abs(s0 - s1 - s2), std::abs(s0 - s1 + s2));
-  min_L = std::min(min_L, std::abs(s0 + s1 - s2));
-  if (min_L % 2 != 0) {
+  const int sum = s0 + s1 + s2;
+  if (sum % 2 != 0) {
     throw std::runtime_error(
         "min_angular_momentum: sum of spins should be integer");
   }
-  return min_L / 2;
+  // zero unless one of the spins is larger than the other ones together
+  return std::max(0, 2 * std::max({s0, s1, s2}) - sum) / 2;
 }
 
 static int min_angular_momentum(int s0, int s1, int s2, int s3) {
-  int min_L =
-      std::min(std::abs(s0 - s1 + s2 + s3), std::abs(s0 + s1 - s2 + s3));
-  min_L = std::min(min_L, std::abs(s0 + s1 + s2 - s3));
-  min_L = std::min(min_L, std::abs(s0 - s1 - s2 + s3));
-  min_L = std::min(min_L, std::abs(s0 - s1 + s2 - s3));
-  min_L = std::min(min_L, std::abs(s0 + s1 - s2 - s3));
-  min_L = std::min(min_L, std::abs(s0 - s1 - s2 - s3));
-  if (min_L % 2 != 0) {
+  const int sum = s0 + s1 + s2 + s3;
+  if (sum % 2 != 0) {
     throw std::runtime_error(
         "min_angular_momentum: sum of spins should be integer");
   }
-  return min_L / 2;
+  return std::max(0, 2 * std::max({s0, s1, s2, s3}) - sum) / 2;
 }
 
 void DecayModes::load_decaymodes(const std::string &input) {
-- 
2.43.0


From 2556ad22b322c29cf2f8085e287181e353c5d2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:47 +0000
Subject: [PATCH 07/21] fix: use the projectile's own mass for its kinetic
 energy in a collider

---
 src/include/smash/kinematics.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/smash/kinematics.h b/src/include/smash/kinematics.h
index 363caf9..0c36cd6 100644
--- a/src/include/smash/kinematics.h
+++ b/src/include/smash/kinematics.h
@@ -251,7 +251,7 @@ inline double s_from_Ekin(double e_kin, double m_P, double m_T) {
  */
 inline double s_from_Ekin(double e_kin_p, double e_kin_t, double m_p,
                           double m_t) {
-  return s_from_Etot(e_kin_p + m_t, e_kin_t + m_t, m_p, m_t);
+  return s_from_Etot(e_kin_p + m_p, e_kin_t + m_t, m_p, m_t);
 }
 /**
  * Convert p_lab to Mandelstam-s for a fixed-target setup,
-- 
2.43.0


From 6c1b9678eea2d5e0b8e7b75a92bbcce31c600863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:47 +0000
Subject: [PATCH 08/21] fix: Mandelstam-s of two beams from their momenta

---
 src/include/smash/kinematics.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/include/smash/kinematics.h b/src/include/smash/kinematics.h
index 0c36cd6..1f4d98e 100644
--- a/src/include/smash/kinematics.h
+++ b/src/include/smash/kinematics.h
@@ -277,8 +277,9 @@ inline double s_from_plab(double plab, double m_P, double m_T) {
  */
 inline double s_from_plab(double plab_p, double plab_t, double m_p,
                           double m_t) {
-  return s_from_Etot(std::sqrt(m_p * m_p + plab_p * plab_p),
-                     std::sqrt(m_t * m_t + plab_t * plab_t), plab_p, plab_t);
+  const double e_tot = std::sqrt(m_p * m_p + plab_p * plab_p) +
+                       std::sqrt(m_t * m_t + plab_t * plab_t);
+  return e_tot * e_tot - (plab_p - plab_t) * (plab_p - plab_t);
 }
 
 }  // namespace smash
-- 
2.43.0


From 67be5eb119f788f73d9d71399d92e39e579fb573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:47 +0000
Subject: [PATCH 09/21] fix: take the energies of two beams given as E_Tot as
 total energies

---
 src/collidermodus.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/collidermodus.cc b/src/collidermodus.cc
index d54d0b4..6e11e33 100644
--- a/src/collidermodus.cc
+++ b/src/collidermodus.cc
@@ -181,7 +181,7 @@ ColliderModus::ColliderModus(Configuration modus_config,
     total_s_ = s_from_Etot(e_tot_p * projectile_->number_of_particles(),
                            e_tot_t * target_->number_of_particles(),
                            mass_projec, mass_target);
-    sqrt_s_NN_ = std::sqrt(s_from_Ekin(e_tot_p, e_tot_t, mass_a, mass_b));
+    sqrt_s_NN_ = std::sqrt(s_from_Etot(e_tot_p, e_tot_t, mass_a, mass_b));
     energy_input++;
   }
   // Option 6: Kinetic energy per nucleon of _each_ beam
-- 
2.43.0


From fcf7392d6ab36a81eedf07568539a9bc04bc5e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:42 +0000
Subject: [PATCH 10/21] fix: normalisation of the Gaussian smearing kernel at
 its centre

---
 src/collidermodus.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/collidermodus.cc b/src/collidermodus.cc
index 6e11e33..1dbc771 100644
--- a/src/collidermodus.cc
+++ b/src/collidermodus.cc
@@ -357,7 +357,8 @@ ColliderModus::ColliderModus(Configuration modus_config,
           << max_time << " fm.";
       IC_parameters_->formation_time_fraction = form_time_fraction;
       IC_parameters_->smearing_kernel_at_0 =
-          std::pow(2 * M_PI * params.gaussian_sigma, -1.5);
+          std::pow(2 * M_PI * params.gaussian_sigma * params.gaussian_sigma,
+                   -1.5);
       IC_parameters_->delay_initial_elastic = modus_cfg.take(
           InputKeys::modi_collider_initialConditions_delayInitialElastic);
     }
-- 
2.43.0


From b2c46550b8f32b2fa3c4dd939b9ce7dac3d6b2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:48 +0000
Subject: [PATCH 11/21] fix: Lambda spin is carried over to a formed Sigma*

The formation branch of spin_interaction() was never reached.
---
 src/scatteraction.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scatteraction.cc b/src/scatteraction.cc
index 8533962..8f327df 100644
--- a/src/scatteraction.cc
+++ b/src/scatteraction.cc
@@ -80,6 +80,7 @@ void ScatterAction::generate_final_state() {
     case ProcessType::TwoToOne:
       /* resonance formation */
       resonance_formation();
+      spin_interaction();
       break;
     case ProcessType::TwoToTwo:
       /* 2->2 inelastic scattering */
-- 
2.43.0


From e312c01da83bed5011205f990a7bb9d460a0b0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:48 +0000
Subject: [PATCH 12/21] fix: Mandelstam s of elastic non-NN scatterings from
 the CM momentum

---
 src/scatteraction.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scatteraction.cc b/src/scatteraction.cc
index 8f327df..f281d2e 100644
--- a/src/scatteraction.cc
+++ b/src/scatteraction.cc
@@ -532,7 +532,7 @@ void ScatterAction::sample_angles(std::pair<double, double> masses,
        * when nucleon mass is assumed. */
       const double pcm_now = pCM_from_s(mandelstam_s(), mass_in_a, mass_in_b);
       mandelstam_s_new =
-          4. * std::sqrt(pcm_now * pcm_now + nucleon_mass * nucleon_mass);
+          4. * (pcm_now * pcm_now + nucleon_mass * nucleon_mass);
     }
     double bb, a, plab = plab_from_s(mandelstam_s_new);
     if (nn_scattering &&
-- 
2.43.0


From d63f2c141f2d011845fe27329a72c01127a7ef40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:29 +0000
Subject: [PATCH 13/21] fix: custom nucleus lists without a final newline lost
 their last line

---
 src/customnucleus.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/customnucleus.cc b/src/customnucleus.cc
index cfff3bb..41b1ab6 100644
--- a/src/customnucleus.cc
+++ b/src/customnucleus.cc
@@ -180,9 +180,8 @@ std::vector<Nucleoncustom> CustomNucleus::readfile(
   std::vector<Nucleoncustom> custom_nucleus;
   // read in only A particles for one nucleus
   for (int i = 0; i < number_of_nucleons_; ++i) {
-    std::getline(infile, line);
     // make sure the stream goes back to the beginning when it hits end of file
-    if (infile.eof()) {
+    if (!std::getline(infile, line)) {
       infile.clear();
       infile.seekg(0, infile.beg);
       std::getline(infile, line);
-- 
2.43.0


From ab4c72730c1dd9e7af37501f1cc3be1380c7bbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:49 +0000
Subject: [PATCH 14/21] fix: zero total momentum of the sphere with radial flow

The total momentum subtracted after the radial boost still contained the
momenta from before the boost, so the sphere was left with minus their sum.
---
 src/spheremodus.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/spheremodus.cc b/src/spheremodus.cc
index 6778a72..6cae8cd 100644
--- a/src/spheremodus.cc
+++ b/src/spheremodus.cc
@@ -254,6 +254,7 @@ double SphereModus::initial_conditions(Particles *particles,
    * u_r = u_0 * (r / R)^n
    */
   if (radial_velocity_ > 0.0) {
+    momentum_total = FourVector(0, 0, 0, 0);
     for (ParticleData &data : *particles) {
       double particle_radius = std::sqrt(data.position().sqr3());
       auto e_r = data.position().threevec() / particle_radius;
-- 
2.43.0


From 7b5bad72987ec9709b7a761d00f9f3999fd7c7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:29 +0000
Subject: [PATCH 15/21] fix: unpolarized spin of both back-to-back jets in the
 sphere

The antiparticle was left without a spin vector, and the reference to the
first jet could dangle after creating the second one.
---
 src/spheremodus.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/spheremodus.cc b/src/spheremodus.cc
index 6cae8cd..35e762b 100644
--- a/src/spheremodus.cc
+++ b/src/spheremodus.cc
@@ -287,6 +287,9 @@ double SphereModus::initial_conditions(Particles *particles,
         FourVector(start_time_, jet_pos_ + displacement));
     jet_particle.set_4momentum(ParticleType::find(pdg).mass(),
                                ThreeVector(jet_mom_, 0., 0.));
+    if (spin_interaction_type_ != SpinInteractionType::Off) {
+      jet_particle.set_unpolarized_spin_vector();
+    }
     if (jet_back_) {
       auto &anti_pdg = pdg.has_antiparticle() ? pdg.get_antiparticle() : pdg;
       auto &jet_antiparticle = particles->create(anti_pdg);
@@ -295,9 +298,9 @@ double SphereModus::initial_conditions(Particles *particles,
           FourVector(start_time_, jet_pos_ - displacement));
       jet_antiparticle.set_4momentum(ParticleType::find(anti_pdg).mass(),
                                      ThreeVector(-jet_mom_, 0., 0.));
-    }
-    if (spin_interaction_type_ != SpinInteractionType::Off) {
-      jet_particle.set_unpolarized_spin_vector();
+      if (spin_interaction_type_ != SpinInteractionType::Off) {
+        jet_antiparticle.set_unpolarized_spin_vector();
+      }
     }
   }
 
-- 
2.43.0


From c213435ba4e63fb20bd34aedad76aa5fe2aeecb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:28 +0000
Subject: [PATCH 16/21] fix: filling a string that is already longer than the
 width

The missing width was computed in unsigned arithmetic and wrapped around, so
that the fill functions threw a length_error.
---
 src/stringfunctions.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/stringfunctions.cc b/src/stringfunctions.cc
index 22782dc..813f0ba 100644
--- a/src/stringfunctions.cc
+++ b/src/stringfunctions.cc
@@ -17,13 +17,13 @@ namespace smash {
 namespace utf8 {
 
 /**
- * Adjust filling width by taking the size of unicode characters into account.
- * This is necessary, because UTF-8 characters can be represented by more than
- * byte.
+ * Determine how many characters are missing to fill a string up to a width by
+ * taking the size of unicode characters into account. This is necessary,
+ * because UTF-8 characters can be represented by more than byte.
  *
  * \param[in] s String to be filled.
- * \param[in] width Width (in bytes) to be adjusted.
- * \return Adjusted width.
+ * \param[in] width Width (in characters) to be reached.
+ * \return Number of missing characters, zero if the string is long enough.
  */
 inline static size_t adjust(const std::string &s, size_t width) {
   for (unsigned char c : s) {
@@ -42,11 +42,11 @@ inline static size_t adjust(const std::string &s, size_t width) {
       width += 1;
     }
   }
-  return width;
+  return width > s.size() ? width - s.size() : 0;
 }
 
 std::string fill_left(const std::string &s, size_t width, char fill) {
-  width = adjust(s, width - s.size());
+  width = adjust(s, width);
   if (width > 0) {
     return std::string(width, fill) + s;
   }
@@ -54,7 +54,7 @@ std::string fill_left(const std::string &s, size_t width, char fill) {
 }
 
 std::string fill_right(const std::string &s, size_t width, char fill) {
-  width = adjust(s, width - s.size());
+  width = adjust(s, width);
   if (width > 0) {
     return s + std::string(width, fill);
   }
@@ -62,7 +62,7 @@ std::string fill_right(const std::string &s, size_t width, char fill) {
 }
 
 std::string fill_both(const std::string &s, size_t width, char fill) {
-  width = adjust(s, width - s.size());
+  width = adjust(s, width);
   if (width > 0) {
     const int l = width / 2;
     const int r = width - l;
-- 
2.43.0


From a8a64d34b01f373e41fd6bbddf56b191a65c8c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:39 +0000
Subject: [PATCH 17/21] fix: particle lists without comments and few particles

Up to four non-comment lines were skipped when looking for further events, so
a list of up to four particles without comment lines was taken as having no
event at all. Only blank lines are skipped now.
---
 src/listmodus.cc | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/listmodus.cc b/src/listmodus.cc
index 25a30f9..9a3f7ec 100644
--- a/src/listmodus.cc
+++ b/src/listmodus.cc
@@ -31,6 +31,7 @@
 #include "smash/logging.h"
 #include "smash/particledata.h"
 #include "smash/propagation.h"
+#include "smash/stringfunctions.h"
 #include "smash/threevector.h"
 #include "smash/wallcrossingaction.h"
 
@@ -398,12 +399,14 @@ bool ListModus::file_has_events_(std::filesystem::path filepath,
     return false;
   }
   ifs.seekg(last_position);
-  // skip over comment lines, assume that a max. of four consecutive comment
-  // lines can occur
-  int skipped_lines = 0;
-  const int max_comment_lines = 4;
-  while (std::getline(ifs, line) && line[0] != '#' &&
-         skipped_lines++ < max_comment_lines) {
+  // skip over blank lines
+  bool found_content = false;
+  while (!found_content && std::getline(ifs, line)) {
+    found_content = !trim(line).empty();
+  }
+
+  if (found_content) {
+    return true;
   }
 
   if (ifs.eof()) {
@@ -418,8 +421,7 @@ bool ListModus::file_has_events_(std::filesystem::path filepath,
     throw std::runtime_error("Error while reading external particle list");
   }
 
-  ifs.close();
-  return true;
+  return false;
 }
 
 /* In this method, which is called from the constructor only, we "abuse" of the
-- 
2.43.0


From 88fb8aa3b475147a511302c37387f25f92f2d3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:25 +0000
Subject: [PATCH 18/21] fix: leave room for three-digit exponents when
 formatting doubles

-1.23456e-100 needs 13 characters and the terminating NUL, with nine digits 16
and the NUL. The buffers were one short, so the text ended in a NUL, which cut
off the rest of the line when it was written.
---
 src/include/smash/outputformatter.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/smash/outputformatter.h b/src/include/smash/outputformatter.h
index b70339b..05b8bf1 100644
--- a/src/include/smash/outputformatter.h
+++ b/src/include/smash/outputformatter.h
@@ -62,7 +62,7 @@ struct ToASCII {
    * \param[in] value number to convert
    */
   type as_double(double value) {
-    constexpr size_t kBufferSize = 13;
+    constexpr size_t kBufferSize = 14;
     char buffer[kBufferSize];
     const auto length = std::snprintf(buffer, kBufferSize, "%g", value);
     assert(static_cast<size_t>(length) < kBufferSize);
@@ -85,7 +85,7 @@ struct ToASCII {
    * \param[in] value number to convert
    */
   type as_precise_double(double value) {
-    constexpr size_t kBufferSize = 16;
+    constexpr size_t kBufferSize = 17;
     char buffer[kBufferSize];
     const auto length = std::snprintf(buffer, kBufferSize, "%.9g", value);
     assert(static_cast<size_t>(length) < kBufferSize);
-- 
2.43.0


From 536dc2277fb88647f6ef15a73c4642cdc54f5f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:35 +0000
Subject: [PATCH 19/21] fix: refuse initial conditions of smaller proper time
 as well

The check that all particles leave at the same proper time compared the signed
difference, so particles with a smaller proper time than the first passed it.
---
 src/icoutput.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/icoutput.cc b/src/icoutput.cc
index cfe9410..c79de5e 100644
--- a/src/icoutput.cc
+++ b/src/icoutput.cc
@@ -9,6 +9,7 @@
 
 #include "smash/icoutput.h"
 
+#include <cmath>
 #include <filesystem>
 #include <fstream>
 
@@ -166,7 +167,7 @@ void ICOutput::at_interaction(const Action &action, const double) {
   } else {
     // Verify that all other particles have the same proper time
     const double next_proper_time = particle.hyperbolic_time();
-    if (!((next_proper_time - IC_proper_time_) < really_small))
+    if (!(std::abs(next_proper_time - IC_proper_time_) < really_small))
       throw std::runtime_error(
           "Hypersurface proper time changed during evolution.");
   }
-- 
2.43.0


From b41e0824d691edbe072c0deebe7f3b14287c1838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:21 +0000
Subject: [PATCH 20/21] fix: number the VTK files of the fields anew in every
 event

All other counters of VTK files are reset at the start of an event.
---
 src/vtkoutput.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vtkoutput.cc b/src/vtkoutput.cc
index affe14e..82858a9 100644
--- a/src/vtkoutput.cc
+++ b/src/vtkoutput.cc
@@ -70,6 +70,7 @@ void VtkOutput::at_eventstart(const Particles &particles,
   vtk_tmn_landau_output_counter_ = 0;
   vtk_v_landau_output_counter_ = 0;
   vtk_fluidization_counter_ = 0;
+  vtk_fields_output_counter_ = 0;
 
   current_event_ = event_label.event_number;
   current_ensemble_ = event_label.ensemble_number;
-- 
2.43.0


From c78b08f472985edcb8377afdb5d9b8b90e522667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:21 +0000
Subject: [PATCH 21/21] fix: write thermodynamic lattices in ASCII and binary
 to their own files

With both formats chosen one pointer served both, so that all numbers of the
ASCII output went to the binary file and only the times to the ASCII file.
---
 src/thermodynamiclatticeoutput.cc | 35 ++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/thermodynamiclatticeoutput.cc b/src/thermodynamiclatticeoutput.cc
index 32882fe..67b975b 100644
--- a/src/thermodynamiclatticeoutput.cc
+++ b/src/thermodynamiclatticeoutput.cc
@@ -511,6 +511,7 @@ void ThermodynamicLatticeOutput::thermodynamics_lattice_output(
   double result;
   const auto dim = lattice.n_cells();
   std::shared_ptr<std::ofstream> fp(nullptr);
+  std::shared_ptr<std::ofstream> fp_bin(nullptr);
   if (enable_ascii_) {
     fp = output_ascii_files_[ThermodynamicQuantity::EckartDensity];
     *fp << std::setprecision(14);
@@ -518,9 +519,9 @@ void ThermodynamicLatticeOutput::thermodynamics_lattice_output(
     *fp << ctime << std::endl;
   }
   if (enable_binary_) {
-    fp = output_binary_files_[ThermodynamicQuantity::EckartDensity];
+    fp_bin = output_binary_files_[ThermodynamicQuantity::EckartDensity];
     assert(sizeof(ctime) == sizeof(double));
-    fp->write(reinterpret_cast<char *>(&ctime), sizeof(ctime));
+    fp_bin->write(reinterpret_cast<char *>(&ctime), sizeof(ctime));
   }
   lattice.iterate_sublattice(
       {0, 0, 0}, dim, [&](DensityOnLattice &node, int ix, int, int) {
@@ -532,7 +533,7 @@ void ThermodynamicLatticeOutput::thermodynamics_lattice_output(
         }
         if (enable_binary_) {
           result = node.rho();
-          fp->write(reinterpret_cast<char *>(&result), sizeof(double));
+          fp_bin->write(reinterpret_cast<char *>(&result), sizeof(double));
         }
       });
 }
@@ -547,6 +548,7 @@ void ThermodynamicLatticeOutput::thermodynamics_lattice_output(
   double result;
   const auto dim = lattice.n_cells();
   std::shared_ptr<std::ofstream> fp(nullptr);
+  std::shared_ptr<std::ofstream> fp_bin(nullptr);
   FourVector jQ = FourVector(), jB = FourVector(), jS = FourVector();
   constexpr bool compute_gradient = false;
   if (enable_ascii_) {
@@ -556,9 +558,9 @@ void ThermodynamicLatticeOutput::thermodynamics_lattice_output(
     *fp << ctime << std::endl;
   }
   if (enable_binary_) {
-    fp = output_binary_files_[ThermodynamicQuantity::j_QBS];
+    fp_bin = output_binary_files_[ThermodynamicQuantity::j_QBS];
     assert(sizeof(ctime) == sizeof(double));
-    fp->write(reinterpret_cast<char *>(&ctime), sizeof(ctime));
+    fp_bin->write(reinterpret_cast<char *>(&ctime), sizeof(ctime));
   }
   lattice.iterate_sublattice(
       {0, 0, 0}, dim, [&](DensityOnLattice &, int ix, int iy, int iz) {
@@ -593,15 +595,15 @@ void ThermodynamicLatticeOutput::thermodynamics_lattice_output(
         if (enable_binary_) {
           for (int l = 0; l < 4; l++) {
             result = jQ[l];
-            fp->write(reinterpret_cast<char *>(&result), sizeof(double));
+            fp_bin->write(reinterpret_cast<char *>(&result), sizeof(double));
           }
           for (int l = 0; l < 4; l++) {
             result = jB[l];
-            fp->write(reinterpret_cast<char *>(&result), sizeof(double));
+            fp_bin->write(reinterpret_cast<char *>(&result), sizeof(double));
           }
           for (int l = 0; l < 4; l++) {
             result = jS[l];
-            fp->write(reinterpret_cast<char *>(&result), sizeof(double));
+            fp_bin->write(reinterpret_cast<char *>(&result), sizeof(double));
           }
         }
       });
@@ -616,6 +618,7 @@ void ThermodynamicLatticeOutput::thermodynamics_lattice_output(
   double result;
   const auto dim = lattice.n_cells();
   std::shared_ptr<std::ofstream> fp(nullptr);
+  std::shared_ptr<std::ofstream> fp_bin(nullptr);
   if (enable_ascii_) {
     switch (tq) {
       case ThermodynamicQuantity::Tmn:
@@ -637,19 +640,19 @@ void ThermodynamicLatticeOutput::thermodynamics_lattice_output(
   if (enable_binary_) {
     switch (tq) {
       case ThermodynamicQuantity::Tmn:
-        fp = output_binary_files_[ThermodynamicQuantity::Tmn];
+        fp_bin = output_binary_files_[ThermodynamicQuantity::Tmn];
         break;
       case ThermodynamicQuantity::TmnLandau:
-        fp = output_binary_files_[ThermodynamicQuantity::TmnLandau];
+        fp_bin = output_binary_files_[ThermodynamicQuantity::TmnLandau];
         break;
       case ThermodynamicQuantity::LandauVelocity:
-        fp = output_binary_files_[ThermodynamicQuantity::LandauVelocity];
+        fp_bin = output_binary_files_[ThermodynamicQuantity::LandauVelocity];
         break;
       default:
         return;
     }
     assert(sizeof(ctime) == sizeof(double));
-    fp->write(reinterpret_cast<char *>(&ctime), sizeof(double));
+    fp_bin->write(reinterpret_cast<char *>(&ctime), sizeof(double));
   }
   switch (tq) {
     case ThermodynamicQuantity::Tmn:
@@ -666,7 +669,8 @@ void ThermodynamicLatticeOutput::thermodynamics_lattice_output(
                 }
                 if (enable_binary_) {
                   result = node[EnergyMomentumTensor::tmn_index(i, j)];
-                  fp->write(reinterpret_cast<char *>(&result), sizeof(double));
+                  fp_bin->write(reinterpret_cast<char *>(&result),
+                                sizeof(double));
                 }
               });
         }
@@ -690,7 +694,8 @@ void ThermodynamicLatticeOutput::thermodynamics_lattice_output(
                   const FourVector u = node.landau_frame_4velocity();
                   const EnergyMomentumTensor Tmn_L = node.boosted(u);
                   result = Tmn_L[EnergyMomentumTensor::tmn_index(i, j)];
-                  fp->write(reinterpret_cast<char *>(&result), sizeof(double));
+                  fp_bin->write(reinterpret_cast<char *>(&result),
+                                sizeof(double));
                 }
               });
         }
@@ -707,7 +712,7 @@ void ThermodynamicLatticeOutput::thermodynamics_lattice_output(
             if (enable_binary_) {
               const FourVector u = node.landau_frame_4velocity();
               ThreeVector v = -u.velocity();
-              fp->write(reinterpret_cast<char *>(&v), 3 * sizeof(double));
+              fp_bin->write(reinterpret_cast<char *>(&v), 3 * sizeof(double));
             }
           });
       break;
-- 
2.43.0

