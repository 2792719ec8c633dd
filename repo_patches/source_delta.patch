From d13f0b19cb83b5b8dbf3513daf52a3bc1b883af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:54 +0000
Subject: [PATCH 01/38] fix: EpairForElectronPositron evaluates the integrand
 at the asymmetry rho

DifferentialCrossSection integrates over r = 1 - rho from 1 - rho_max to 1,
as the other pair production parametrizations expect. FunctionToIntegral of
EpairForElectronPositron used r itself as the asymmetry.
---
 .../PROPOSAL/crosssection/parametrization/EpairProduction.cxx   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/EpairProduction.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/EpairProduction.cxx
index a8fb16c..922b272 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/EpairProduction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/EpairProduction.cxx
@@ -490,6 +490,8 @@ double crosssection::EpairForElectronPositron::FunctionToIntegral(
     // double medium_log_constant = 183; // According to the paper, B is set to
     // 183
 
+    rho = 1 - rho; // only for integral optimization - do not forget to swap
+                   // integration limits!
     r2 = rho * rho;
     rMax = 1 - 2 * ME / (v * energy);
     Z3 = std::pow(medium_charge, -1. / 3);
-- 
2.43.0


From e4c0c0be7a817ae71a0ff5d462211b964cffc6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:09 +0000
Subject: [PATCH 02/38] fix: paraffin consists of carbon and hydrogen, not
 carbon and oxygen

---
 src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx b/src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx
index f2f2589..fddff05 100644
--- a/src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/medium/Medium.cxx
@@ -421,7 +421,7 @@ Paraffin::Paraffin()
           0,        // d0
           0.93,     // massDensity
           {Components::Carbon(25.0),
-           Components::Oxygen(52.0)}) {}
+           Components::Hydrogen(52.0)}) {}
 
 AntaresWater::AntaresWater()
     : Medium("antareswater",
-- 
2.43.0


From 791cfb2a96487ea83de6c225086a1231ad5977e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:11 +0000
Subject: [PATCH 03/38] fix: K0 carries the mass of the neutral kaon

---
 src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx b/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
index c567841..955316d 100644
--- a/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
@@ -570,7 +570,7 @@ PARTICLE_IMP(Pi0, MPI0, LPI0, 0.0, static_cast<int>(ParticleType::Pi0))
 PARTICLE_IMP(PiMinus, MPI, LPI, -1.0, static_cast<int>(ParticleType::PiMinus))
 PARTICLE_IMP(PiPlus, MPI, LPI, 1.0, static_cast<int>(ParticleType::PiPlus))
 
-PARTICLE_IMP(K0, MKAON, -1.0, 0.0, static_cast<int>(ParticleType::K0))
+PARTICLE_IMP(K0, MKAON0, -1.0, 0.0, static_cast<int>(ParticleType::K0))
 PARTICLE_IMP(KMinus, MKAON, LKAON, -1.0, static_cast<int>(ParticleType::KMinus))
 PARTICLE_IMP(KPlus, MKAON, LKAON, 1.0, static_cast<int>(ParticleType::KPlus))
 
-- 
2.43.0


From e5dc07d7405f515a29ea972127bca1c1eed876a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:11 +0000
Subject: [PATCH 04/38] fix: predefined staus can be looked up by their type

---
 src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx b/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
index 955316d..144a1a0 100644
--- a/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
@@ -269,6 +269,8 @@ std::unordered_map<int, ParticleDef> ParticleDef::create_particle_map() {
         { static_cast<int>(ParticleType::NuTau), NuTauDef() },
         { static_cast<int>(ParticleType::NuTauBar), NuTauBarDef() },
         { static_cast<int>(ParticleType::Gamma), GammaDef() },
+        { static_cast<int>(ParticleType::STauMinus), StauMinusDef() },
+        { static_cast<int>(ParticleType::STauPlus), StauPlusDef() },
         { static_cast<int>(ParticleType::Pi0), Pi0Def() },
         { static_cast<int>(ParticleType::PiPlus), PiPlusDef() },
         { static_cast<int>(ParticleType::PiMinus), PiMinusDef() },
-- 
2.43.0


From fb4f986cffa3e060d93663948fd22f3643218195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:20 +0000
Subject: [PATCH 05/38] fix: weak interaction limits are empty instead of
 inverted at low energies

---
 .../PROPOSAL/crosssection/parametrization/WeakInteraction.cxx   | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/WeakInteraction.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/WeakInteraction.cxx
index aa41e08..5511566 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/WeakInteraction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/WeakInteraction.cxx
@@ -27,6 +27,8 @@ crosssection::KinematicLimits crosssection::WeakInteraction::GetKinematicLimits(
     auto kin_lim = KinematicLimits();
     kin_lim.v_min = 1e6 / (aux); // q^2_min = 1e6 MeV for experimental reasons
     kin_lim.v_max = 1.f;
+    if (kin_lim.v_min > kin_lim.v_max)
+        kin_lim.v_min = kin_lim.v_max; // no phase space at low energies
     return kin_lim;
 }
 
-- 
2.43.0


From fd31c9e8582e627080d0e9894bbcd11f81e1c65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:20 +0000
Subject: [PATCH 06/38] fix: muon pair production uses the atomic mass, not the
 number of atoms in the molecule

---
 .../PROPOSAL/crosssection/parametrization/MupairProduction.cxx  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/MupairProduction.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/MupairProduction.cxx
index 57cacec..664a637 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/MupairProduction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/MupairProduction.cxx
@@ -92,7 +92,7 @@ double crosssection::MupairKelnerKokoulinPetrukhin::FunctionToIntegral(
     double aux, aux1, aux2, r2, rMax, Z3, xi, beta, A_pow, r_mu;
     double phi, U, U_max, X, Y;
     double medium_charge = comp.GetNucCharge();
-    double atomic_weight = comp.GetAtomInMolecule();
+    double atomic_weight = comp.GetAtomicNum();
     // double medium_log_constant =
     // components_[component_index_]->GetLogConstant();
     double medium_log_constant = 183; // According to the paper, B is set to 183
-- 
2.43.0


From 89ea09a587d953f721a669c164ed6f0e37d8cd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:20 +0000
Subject: [PATCH 07/38] fix: inelastic form factors of lithium and beryllium
 use their own screening variable

---
 .../crosssection/parametrization/PhotoPairProduction.cxx      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx
index 20a4073..553518a 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoPairProduction.cxx
@@ -282,14 +282,14 @@ double crosssection::PhotoPairTsai::DifferentialCrossSection(
                     + std::log(std::pow(ap, 2.) * std::pow(Z, 4. / 3.)
                         * std::pow(ME, 2.)))
             - 2. * std::log(1 + std::pow(bp, 2.))
-            - 4. * bp * std::atan(1. / b); // (3.48)
+            - 4. * bp * std::atan(1. / bp); // (3.48)
         Psi2 = 2.
                 * (2. / 3.
                     + std::log(std::pow(ap, 2.) * std::pow(Z, 4. / 3.)
                         * std::pow(ME, 2.)))
             - 2. * std::log(1. + std::pow(bp, 2.))
             + 8. * std::pow(bp, 2.)
-                * (1. - b * std::atan(1. / bp)
+                * (1. - bp * std::atan(1. / bp)
                     - 0.75 * std::log(1 + std::pow(bp, -2.))); // (3.49)
     } else {
         // Heavier elements
-- 
2.43.0


From 6694a0b633268fa99545c20b03cbcda787aa05b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:12 +0000
Subject: [PATCH 08/38] fix: lepton spectrum vanishes below the rest mass
 instead of being NaN

---
 src/PROPOSAL/detail/PROPOSAL/decay/LeptonicDecayChannel.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/decay/LeptonicDecayChannel.cxx b/src/PROPOSAL/detail/PROPOSAL/decay/LeptonicDecayChannel.cxx
index f148dc7..571ea2a 100644
--- a/src/PROPOSAL/detail/PROPOSAL/decay/LeptonicDecayChannel.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/decay/LeptonicDecayChannel.cxx
@@ -225,5 +225,5 @@ double LeptonicDecayChannel::DifferentialDecayRate(double x, double M, double E_
     double m   = massive_lepton_.mass;
     double E_l = E_max * x;
 
-    return E_max * std::sqrt(E_l * E_l - m * m) * (M * E_l * (3.0 * M - 4.0 * E_l) + m * m * (3.0 * E_l - 2 * M));
+    return E_max * std::sqrt(std::max(0.0, E_l * E_l - m * m)) * (M * E_l * (3.0 * M - 4.0 * E_l) + m * m * (3.0 * E_l - 2 * M));
 }
-- 
2.43.0


From b3f6c67ad55c4759cdcc49656d86283ccd5b4d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:22 +0000
Subject: [PATCH 09/38] fix: decay table keeps channels with equal branching
 ratios

---
 src/PROPOSAL/PROPOSAL/decay/DecayTable.h          | 2 +-
 src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/decay/DecayTable.h b/src/PROPOSAL/PROPOSAL/decay/DecayTable.h
index a4d9640..bbb05cf 100644
--- a/src/PROPOSAL/PROPOSAL/decay/DecayTable.h
+++ b/src/PROPOSAL/PROPOSAL/decay/DecayTable.h
@@ -42,7 +42,7 @@ void swap(DecayTable&, DecayTable&);
 
 class DecayTable
 {
-    typedef std::map<double, DecayChannel*> DecayMap;
+    typedef std::multimap<double, DecayChannel*> DecayMap;
 
 public:
     DecayTable();
diff --git a/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx b/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx
index 5c1bf5e..16333f1 100644
--- a/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/decay/DecayTable.cxx
@@ -28,7 +28,7 @@ DecayTable::DecayTable(const DecayTable& table)
 
     for (DecayMap::const_iterator iter = table.channels_.begin(); iter != table.channels_.end(); ++iter)
     {
-        channels_[iter->first] = iter->second->clone();
+        channels_.emplace(iter->first, iter->second->clone());
     }
 }
 
@@ -136,13 +136,13 @@ void DecayTable::SetStable()
 
     // TODO(mario): Find better way Wed 2017/08/23
     // A stable channel which alwas will be selected
-    channels_[1.1] = new StableChannel();
+    channels_.emplace(1.1, new StableChannel());
 }
 
 // ------------------------------------------------------------------------- //
 DecayTable& DecayTable::addChannel(double Br, const DecayChannel& dc)
 {
-    channels_[Br] = dc.clone();
+    channels_.emplace(Br, dc.clone());
     return *this;
 }
 
-- 
2.43.0


From 8c32f61ba226922ea647811888b50692aae4b7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:19 +0000
Subject: [PATCH 10/38] fix: many-body channels with different products are not
 equal

---
 .../detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx       | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx b/src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx
index 23403ab..4245e2e 100644
--- a/src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/decay/ManyBodyPhaseSpace.cxx
@@ -96,10 +96,16 @@ bool ManyBodyPhaseSpace::compare(const DecayChannel& channel) const
     } else if (use_default_matrix_element_ != many_body->use_default_matrix_element_)
     {
         return false;
-    } else
+    }
+
+    for (std::size_t i = 0; i < daughters_.size(); ++i)
     {
-        return true;
+        if (*daughters_[i] != *many_body->daughters_[i])
+        {
+            return false;
+        }
     }
+    return true;
 }
 
 // ------------------------------------------------------------------------- //
-- 
2.43.0


From cc4ccb22ff112cf75f6e36a4dea40d910bfcb124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:37 +0000
Subject: [PATCH 11/38] fix: photoeffect rate of a single component vanishes
 below its K shell energy

---
 .../PROPOSAL/crosssection/parametrization/Photoeffect.cxx       | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Photoeffect.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Photoeffect.cxx
index 8151cf8..abf57fd 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Photoeffect.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/Photoeffect.cxx
@@ -45,6 +45,8 @@ double crosssection::Photoeffect::PhotonAtomCrossSection(double energy, const Co
 double crosssection::Photoeffect::CalculatedNdx(
         double energy, size_t comp_hash, const ParticleDef&, const Medium& m, cut_ptr) {
         auto comp = Component::GetComponentForHash(comp_hash);
+        if (energy <= GetCutOff(comp))
+            return 0.;
         auto weight = detail::weight_component(m, comp);
         return NA / comp.GetAtomicNum() * PhotonAtomCrossSection(energy, comp) / weight;
 }
-- 
2.43.0


From fbd15e32b29792b34c3164e354aecb06f5f4f2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:53 +0000
Subject: [PATCH 12/38] fix: copies of a polynomial own their coefficients

---
 src/PROPOSAL/PROPOSAL/math/Function.h          |  4 ++--
 src/PROPOSAL/detail/PROPOSAL/math/Function.cxx | 15 ++++++++++++++-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/math/Function.h b/src/PROPOSAL/PROPOSAL/math/Function.h
index b2aefe5..dc15ba2 100644
--- a/src/PROPOSAL/PROPOSAL/math/Function.h
+++ b/src/PROPOSAL/PROPOSAL/math/Function.h
@@ -45,8 +45,8 @@ class Polynom {
     Polynom(const nlohmann::json&);
     Polynom(const Polynom&);
 
-    ~Polynom() {};
-    Polynom& operator=(const Polynom& poly) = default;
+    ~Polynom() { delete[] coeff_; };
+    Polynom& operator=(const Polynom& poly);
 
     Polynom* clone() const { return new Polynom(*this); };
 
diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
index 0138e80..58cc166 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
@@ -27,7 +27,20 @@ Polynom::Polynom(const nlohmann::json& config) {
     std::copy(config["coefficients"].get<std::vector<double>>().begin(), config["coefficients"].get<std::vector<double>>().end(), coeff_);
 }
 
-Polynom::Polynom(const Polynom& poly) : N_(poly.N_), coeff_(poly.coeff_) {}
+Polynom::Polynom(const Polynom& poly) : N_(poly.N_), coeff_(new double[poly.N_]) {
+    std::copy(poly.coeff_, poly.coeff_ + N_, coeff_);
+}
+
+Polynom& Polynom::operator=(const Polynom& poly) {
+    if (this != &poly) {
+        auto coeff = new double[poly.N_];
+        std::copy(poly.coeff_, poly.coeff_ + poly.N_, coeff);
+        delete[] coeff_;
+        coeff_ = coeff;
+        N_ = poly.N_;
+    }
+    return *this;
+}
 
 bool Polynom::operator==(const Polynom& polynom) const {
     if (N_ != polynom.N_)
-- 
2.43.0


From 5fc4a0b51832cd53d471cca5f814a68e0e30de52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:53 +0000
Subject: [PATCH 13/38] fix: polynomial can be built from a configuration
 document

---
 src/PROPOSAL/detail/PROPOSAL/math/Function.cxx | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
index 58cc166..39baaad 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
@@ -19,12 +19,14 @@ Polynom::Polynom(std::vector<double> coefficients) : N_(coefficients.size()) {
 }
 
 Polynom::Polynom(const nlohmann::json& config) {
-    if(!config.is_array()) throw std::invalid_argument("Polynom is not an array.");
+    if(!config.contains("coefficients")) throw std::invalid_argument("Polynom: coefficients must be defined.");
+    if(!config["coefficients"].is_array()) throw std::invalid_argument("Polynom: coefficients is not an array.");
 
-    N_ = config["coefficients"].get<std::vector<double>>().size();
+    auto coefficients = config["coefficients"].get<std::vector<double>>();
+    N_ = coefficients.size();
     coeff_ = new double[N_];
 
-    std::copy(config["coefficients"].get<std::vector<double>>().begin(), config["coefficients"].get<std::vector<double>>().end(), coeff_);
+    std::copy(coefficients.begin(), coefficients.end(), coeff_);
 }
 
 Polynom::Polynom(const Polynom& poly) : N_(poly.N_), coeff_(new double[poly.N_]) {
-- 
2.43.0


From ab2ffad13207653f3ba74969004cab88d1711ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:53 +0000
Subject: [PATCH 14/38] fix: Spline::Derivative differentiates the stored
 polynomials

---
 src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
index 938e313..f883a8a 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
@@ -78,7 +78,7 @@ double Spline::evaluate(double x) {
 }
 
 void Spline::Derivative() {
-    for (auto spline : splines_)
+    for (auto& spline : splines_)
         spline = spline.GetDerivative();
 }
 
-- 
2.43.0


From 2ac05ab43e78e945664ce45f17dfb4119dd6e807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:54 +0000
Subject: [PATCH 15/38] fix: spline built from polynomials has one interval per
 polynomial

---
 src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
index f883a8a..7ad61fd 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
@@ -24,7 +24,7 @@ Spline::Spline(std::vector<double> x, std::vector<double> y) : x_(x), y_(y) {
 Spline::Spline(std::vector<Polynom> splines, std::vector<double> subintervall)
     : splines_(splines),
       subintervall_(subintervall),
-      n_subintervalls_(subintervall_.size()) {}
+      n_subintervalls_(splines_.size()) {}
 
 Spline::Spline(const Spline& spline)
     : splines_(spline.splines_),
-- 
2.43.0


From 4550ab214bb7adce2fcc4ca1110c3a21cf6e3592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:30 +0000
Subject: [PATCH 16/38] fix: derivative of a constant polynomial evaluates to
 zero

---
 src/PROPOSAL/detail/PROPOSAL/math/Function.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
index 39baaad..a1722d0 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
@@ -59,6 +59,9 @@ bool Polynom::operator!=(const Polynom& polynom) const {
 }
 
 double Polynom::evaluate(double x) {
+    if (N_ == 0) // derivative of a constant
+        return 0;
+
     double aux = coeff_[N_ - 1];
 
     for (int i = N_ - 2; i >= 0; --i)
-- 
2.43.0


From edcb0fd774d8dba64cb28eca533776f5af7758ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:30 +0000
Subject: [PATCH 17/38] fix: density distributions along different axes are not
 equal

---
 .../PROPOSAL/density_distr/density_distr.h      | 11 ++++++++---
 .../PROPOSAL/density_distr/density_distr.cxx    | 17 ++++++++---------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h b/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h
index 8300c05..c18571c 100644
--- a/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h
+++ b/src/PROPOSAL/PROPOSAL/density_distr/density_distr.h
@@ -54,6 +54,8 @@ class Axis {
     auto GetFp0() const { return fp0_; };
 
    protected:
+    virtual bool compare(const Axis& axis) const = 0;
+
     Cartesian3D fp0_;
 };
 }  // namespace PROPOSAL
@@ -70,6 +72,9 @@ class RadialAxis : public Axis {
 
     double GetDepth(const Vector3D& xi) const override;
     double GetEffectiveDistance(const Vector3D& xi, const Vector3D& direction) const override;
+
+   protected:
+    bool compare(const Axis& axis) const override;
 };
 }  // namespace PROPOSAL
 
@@ -83,13 +88,13 @@ class CartesianAxis : public Axis {
 
     Axis* clone() const override { return new CartesianAxis(*this); };
 
-    bool operator==(const CartesianAxis& axis) const;
-    bool operator!=(const CartesianAxis& axis) const;
-
     auto GetAxis() const { return fAxis_; };
     double GetDepth(const Vector3D& xi) const override;
     double GetEffectiveDistance(const Vector3D& xi, const Vector3D& direction) const override;
 
+   protected:
+    bool compare(const Axis& axis) const override;
+
    private:
     Cartesian3D fAxis_;
 
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
index ec0636a..1c6044c 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
@@ -75,7 +75,7 @@ Axis::Axis(const Axis& axis) : fp0_(axis.fp0_) {}
 bool Axis::operator==(const Axis& axis) const {
     if(fp0_ != axis.fp0_)
         return false;
-    return true;
+    return compare(axis);
 }
 
 bool Axis::operator!=(const Axis& axis) const {
@@ -94,6 +94,10 @@ RadialAxis::RadialAxis(const Vector3D& fp0) : Axis(fp0) {}
 
 RadialAxis::RadialAxis(const nlohmann::json& config) : Axis(config) {}
 
+bool RadialAxis::compare(const Axis& axis) const {
+    return dynamic_cast<const RadialAxis*>(&axis) != nullptr;
+}
+
 double RadialAxis::GetDepth(const Vector3D& xi) const {
     return (xi - fp0_).magnitude();
 }
@@ -121,14 +125,9 @@ CartesianAxis::CartesianAxis(const nlohmann::json& config) : Axis(config) {
     fAxis_ = Cartesian3D(config.at("fAxis"));
 }
 
-bool CartesianAxis::operator==(const CartesianAxis& axis) const {
-    if(fAxis_ != axis.fAxis_)
-        return false;
-    return Axis::operator==(axis);
-}
-
-bool CartesianAxis::operator!=(const CartesianAxis& axis) const {
-    return !(*this == axis);
+bool CartesianAxis::compare(const Axis& axis) const {
+    auto cartesian = dynamic_cast<const CartesianAxis*>(&axis);
+    return cartesian && fAxis_ == cartesian->fAxis_;
 }
 
 double CartesianAxis::GetDepth(const Vector3D& xi) const {
-- 
2.43.0


From 40624389d52a0627f5f283fee35f35feacc2f05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:30 +0000
Subject: [PATCH 18/38] fix: effective distance of the radial axis is the
 change of its depth

---
 src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
index 1c6044c..7daa22a 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
@@ -106,7 +106,7 @@ double RadialAxis::GetEffectiveDistance(const Vector3D& xi, const Vector3D& dire
     Cartesian3D aux{Cartesian3D(xi) - fp0_};
     aux.normalize();
 
-    return -aux * direction;
+    return aux * direction;
 }
 
 // %%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%%
-- 
2.43.0


From a6a7472262d7d773565d3bfbc119cc03a5c123ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:30 +0000
Subject: [PATCH 19/38] fix: grammage of polynomial and spline densities is the
 integral along the ray

---
 .../detail/PROPOSAL/density_distr/density_polynomial.cxx        | 2 +-
 src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
index b61cc00..9310741 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
@@ -88,7 +88,7 @@ double Density_polynomial::Integrate(const Vector3D& xi,
     double delta = axis_->GetEffectiveDistance(xi, direction);
 
     return massDensity_ * antiderived_density_distribution(axis_->GetDepth(xi) + l * delta) /
-           (delta * delta);
+           delta;
 }
 
 double Density_polynomial::Calculate(const Vector3D& xi,
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
index 6933db5..22376ab 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
@@ -88,7 +88,7 @@ double Density_splines::Integrate(const Vector3D& xi,
                                   double l) const {
     double delta = axis_->GetEffectiveDistance(xi, direction);
 
-    return massDensity_ / (delta * delta) *
+    return massDensity_ / delta *
            integrated_spline_->evaluate(axis_->GetDepth(xi) + l * delta);
 }
 
-- 
2.43.0


From e09a50cd2774c59d53e79e136d8aacc9306e8b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:30 +0000
Subject: [PATCH 20/38] fix: derivative used by the correction of polynomial
 and spline densities

---
 .../detail/PROPOSAL/density_distr/density_polynomial.cxx        | 2 +-
 src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
index 9310741..87216b5 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
@@ -59,7 +59,7 @@ double Density_polynomial::helper_function(const Vector3D& xi,
                                            double l) const {
     (void)res;
     Cartesian3D dir_cartesian(direction);
-    return Evaluate(xi) - Evaluate(xi + l * dir_cartesian);
+    return -Evaluate(xi + l * dir_cartesian);
 }
 
 double Density_polynomial::Correct(const Vector3D& xi,
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
index 22376ab..50edb5a 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
@@ -63,7 +63,7 @@ double Density_splines::helper_function(const Vector3D& xi,
                                         double l) const {
     (void)res;
     auto dir_cartesian = Cartesian3D(direction);
-    return Evaluate(xi) - Evaluate(xi + l * dir_cartesian);
+    return -Evaluate(xi + l * dir_cartesian);
 }
 
 double Density_splines::Correct(const Vector3D& xi,
-- 
2.43.0


From 3750886d01cd74803c9c3dd37df87a73802ac698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:30 +0000
Subject: [PATCH 21/38] fix: spline densities own their splines and compare
 them by value

---
 .../detail/PROPOSAL/density_distr/density_splines.cxx     | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
index 50edb5a..913cf40 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
@@ -19,8 +19,8 @@ Density_splines::Density_splines(const PROPOSAL::Axis& axis, const PROPOSAL::Spl
 
 Density_splines::Density_splines(const Density_splines& dens_splines)
     : Density_distr(dens_splines),
-      spline_(dens_splines.spline_),
-      integrated_spline_(dens_splines.integrated_spline_) {}
+      spline_(dens_splines.spline_->clone()),
+      integrated_spline_(dens_splines.integrated_spline_->clone()) {}
 
 Density_splines::Density_splines(const nlohmann::json& config) : Density_distr(config) {
     if(!config.contains("spline_type"))
@@ -43,9 +43,9 @@ bool Density_splines::compare(const Density_distr& dens_distr) const {
     const Density_splines* dens_splines= dynamic_cast<const Density_splines*>(&dens_distr);
     if(!dens_splines)
         return false;
-    if( spline_!= dens_splines->spline_)
+    if( *spline_ != *dens_splines->spline_)
         return false;
-    if( integrated_spline_!= dens_splines->integrated_spline_)
+    if( *integrated_spline_ != *dens_splines->integrated_spline_)
         return false;
     return true;
 }
-- 
2.43.0


From 346afec7c5861dbc697cd1106c20d80145dbe16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:47 +0000
Subject: [PATCH 22/38] fix: grammage along rays perpendicular to the density
 axis is not NaN

---
 .../detail/PROPOSAL/density_distr/density_exponential.cxx   | 6 ++++++
 .../detail/PROPOSAL/density_distr/density_polynomial.cxx    | 3 +++
 .../detail/PROPOSAL/density_distr/density_splines.cxx       | 3 +++
 3 files changed, 12 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_exponential.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_exponential.cxx
index 02f75e7..734eada 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_exponential.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_exponential.cxx
@@ -48,6 +48,9 @@ double Density_exponential::Correct(const Vector3D& xi,
     double phi = GetDepth(xi);
     double delta = GetEffectiveDistance(xi, direction);
 
+    if (delta == 0) // density is constant along the ray
+        return res / Evaluate(xi);
+
     double aux = 1. / delta * std::log(1 + std::exp(-phi) * res * delta / massDensity_);
 
     if (std::isnan(aux))
@@ -61,6 +64,9 @@ double Density_exponential::Integrate(const Vector3D& xi,
                                       double l) const {
     double delta = GetEffectiveDistance(xi, direction);
 
+    if (delta == 0) // density is constant along the ray
+        return Evaluate(xi) * l;
+
     return massDensity_ * std::exp(GetDepth(xi) + l * delta) / delta;
 }
 
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
index 87216b5..fbc9c2e 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_polynomial.cxx
@@ -87,6 +87,9 @@ double Density_polynomial::Integrate(const Vector3D& xi,
                                      double l) const {
     double delta = axis_->GetEffectiveDistance(xi, direction);
 
+    if (delta == 0) // density is constant along the ray
+        return Evaluate(xi) * l;
+
     return massDensity_ * antiderived_density_distribution(axis_->GetDepth(xi) + l * delta) /
            delta;
 }
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
index 913cf40..19bd92a 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_splines.cxx
@@ -88,6 +88,9 @@ double Density_splines::Integrate(const Vector3D& xi,
                                   double l) const {
     double delta = axis_->GetEffectiveDistance(xi, direction);
 
+    if (delta == 0) // density is constant along the ray
+        return Evaluate(xi) * l;
+
     return massDensity_ / delta *
            integrated_spline_->evaluate(axis_->GetDepth(xi) + l * delta);
 }
-- 
2.43.0


From 2b6515c5745ecd3fc853b3982c5f50e2cd5f35f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:02 +0000
Subject: [PATCH 23/38] fix: rays through an edge or corner of a box intersect
 it once per distance

---
 src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx | 24 +++++++------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx
index 6000455..ec834ba 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx
@@ -1,4 +1,5 @@
 
+#include <algorithm>
 #include <cmath>
 #include <vector>
 
@@ -226,6 +227,13 @@ std::pair<double, double> Box::DistanceToBorder(const Vector3D& position, const
         }
     }
 
+    // A trajectory through an edge or a corner of the box meets several planes
+    // at the same distance, which is one intersection with the box
+    std::sort(dist.begin(), dist.end());
+    dist.erase(std::unique(dist.begin(), dist.end(),
+                   [](double a, double b) { return b - a < GEOMETRY_PRECISION; }),
+        dist.end());
+
     if (dist.size() < 1) // No intersection with the box
     {
         distance.first  = -1;
@@ -240,24 +248,8 @@ std::pair<double, double> Box::DistanceToBorder(const Vector3D& position, const
                                  // of the particle trajectory ( two
                                  // intersections).
     {
-        if (dist.at(0) == dist.at(1)) {
-            // Both distances are equal, this means he have hit an edge of the box
-            distance.first = dist.at(0);
-            distance.second = -1;
-        }
         distance.first  = dist.at(0);
         distance.second = dist.at(1);
-        if (distance.second < distance.first)
-        {
-            std::swap(distance.first, distance.second);
-        }
-
-    } else if (dist.size() == 3 && dist.at(0) == dist.at(1) && dist.at(1) == dist.at(2))
-    {
-        // We have three intersections, all of them are equal, this means we
-        // hit an corner of the box
-        distance.first = dist.at(0);
-        distance.second = -1;
     } else
     {
         Logging::Get("proposal.geometry")->error("This point should never be reached... (-1/-1) is returned");
-- 
2.43.0


From adb1827514ba78cc8a38a0cef5b9caec912a8768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:08 +0000
Subject: [PATCH 24/38] fix: rays entering a hollow cylinder through its hole
 return the crossings in order

---
 .../detail/PROPOSAL/geometry/Cylinder.cxx     | 112 +++++++-----------
 1 file changed, 43 insertions(+), 69 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
index 6a5a27c..5e7a2d9 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
@@ -343,88 +343,62 @@ std::pair<double, double> Cylinder::DistanceToBorder(const Vector3D& position, c
                 else
                 {
                     // The inner cylinder is infront of the particle trajectory
-                    // distance.first has to be updated
                     if (t1 > 0 && t2 > 0)
                     {
-                        //  _____        _____
-                        // |     |      |     |
-                        // |     |      |     |
-                        // |     |      |     |
-                        // |     |      |     |
-                        // |     |      |     |
-                        // | x---*----->|     |
-                        // |     |      |     |
-                        // |     |      |     |
-                        // |_____|      |_____|
-                        //
-                        if (pos_vec.GetZ() >= z_calc_neg && pos_vec.GetZ() <= z_calc_pos &&
-                            std::sqrt(std::pow((pos_vec.GetX() - position_.GetX()), 2) +
-                            std::pow((pos_vec.GetY() - position_.GetY()), 2)) <=
-                                radius_ + GEOMETRY_PRECISION &&
-                            std::sqrt(std::pow((pos_vec.GetX() - position_.GetX()), 2) +
-                            std::pow((pos_vec.GetY() - position_.GetY()), 2)) >=
-                                inner_radius_ - GEOMETRY_PRECISION)
+                        intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
+                        if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
                         {
-                            if (t1 < distance.first)
+                            //  _____        _____
+                            // |     |      |     |
+                            // |     |      |     |
+                            // |     |      |     |
+                            // | x---*----->|     |
+                            // |     |      |     |
+                            // |     |      |     |
+                            // |_____|      |_____|
+                            //
+                            // The particle is inside and hits the inner
+                            // cylinder first
+                            if (t2 < distance.first)
                             {
-                                intersection_z = pos_vec.GetZ() + t1 * dir_vec.GetZ();
-                                // is inside the borders
-                                if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                                {
-                                    // This case means particle is inside in
-                                    // hits
-                                    // inner cylinder first
-                                    distance.first = t1;
-                                }
+                                distance.first = t2;
                             }
-                            if (t2 < distance.first)
+                            //               ^
+                            //  _____       / _____
+                            // |     |     / |     |
+                            // |     |    /  |     |
+                            // |     |   /   |     |
+                            // |     |  /    |     |
+                            // |     | /     |     |
+                            // |     |/      |     |
+                            // |     *       |     |
+                            // |    /|       |     |
+                            // |___/_|       |_____|
+                            //    *
+                            //   x
+                            else
                             {
-                                intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
-                                // is inside the borders
-                                if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                                {
-                                    // This case means particle is inside in
-                                    // hits
-                                    // inner cylinder first
-                                    distance.first = t2;
-                                }
+                                distance.second = t2;
                             }
                         }
-                        //               ^
-                        //  _____       / _____
-                        // |     |     / |     |
-                        // |     |    /  |     |
-                        // |     |   /   |     |
-                        // |     |  /    |     |
-                        // |     | /     |     |
-                        // |     |/      |     |
-                        // |     *       |     |
-                        // |    /|       |     |
-                        // |___/_|       |_____|
-                        //    *
-                        //   x
+                        // The particle flies through the hole before it hits
+                        // the inner cylinder
+                        //  _____        _____
+                        // |     |      |     |
+                        // |     |      |     *
+                        // |     |      |   / |
+                        // |     |      | /   |
+                        // |     |      *     |
+                        // |     |    / |     |
+                        // |_____|  /   |_____|
+                        //        x
                         else
                         {
                             intersection_z = pos_vec.GetZ() + t1 * dir_vec.GetZ();
-                            // is inside the borders
                             if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
                             {
-                                // This case means particle is inside in hits
-                                // inner cylinder first
-                                distance.second = t1;
-                            }
-
-                            if (distance.second < 0)
-                            {
-                                intersection_z = pos_vec.GetZ() + t2 * dir_vec.GetZ();
-                                // is inside the borders
-                                if (intersection_z > z_calc_neg && intersection_z < z_calc_pos)
-                                {
-                                    // This case means particle is inside in
-                                    // hits
-                                    // inner cylinder first
-                                    distance.second = t2;
-                                }
+                                distance.second = distance.first;
+                                distance.first  = t1;
                             }
                         }
                     }
-- 
2.43.0


From cfaef724b7969448478d05de2091bc0c76a3bc6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:08 +0000
Subject: [PATCH 25/38] fix: NewtonRaphson returns a root with vanishing
 derivative instead of NaN

---
 src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx b/src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx
index 46208bb..df747cb 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/MathMethods.cxx
@@ -199,6 +199,10 @@ double NewtonRaphson(std::function<double(double)> func,
     df = dfunc(rts);
 
     for (int j = 1; j < MAX_STEPS; j++) {
+        if (f == 0.0) {
+            // root found (the Newton step is undefined if df vanishes as well)
+            return rts;
+        }
         if ((((rts - xh) * df - f) * ((rts - xl) * df - f) > 0.0) ||
             (std::abs(2.0 * f) > std::abs(dxold * df))) {
             // use bisection if Newton method produces an x that is out of range
-- 
2.43.0


From 7680fcdf6405ef407eb0f2f6a7aae8c70fd1a88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:02 +0000
Subject: [PATCH 26/38] fix: copied and assigned integrators keep their
 integrand alive

---
 src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
index ab5af53..810c4c4 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Integral.cxx
@@ -396,7 +396,7 @@ Integral::Integral(const Integral& integral)
     , q_rlist2_(integral.q_rlist2_)
     , q_iord_(integral.q_iord_)
 {
-    integrand_ = std::ref(integral.integrand_);
+    integrand_ = integral.integrand_;
 }
 
 //----------------------------------------------------------------------------//
@@ -571,7 +571,7 @@ void Integral::swap(Integral& integral)
     c_.swap(integral.c_);
     d_.swap(integral.d_);
 
-    integrand_ = std::ref(integral.integrand_);
+    integrand_.swap(integral.integrand_);
 
     swap(romberg4refine_, integral.romberg4refine_);
     swap(powerOfSubstitution_, integral.powerOfSubstitution_);
-- 
2.43.0


From 8386384ce6728b7afa18373571b28d2cf5152b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:05 +0000
Subject: [PATCH 27/38] fix: copied and assigned interpolation tables keep
 their functions

---
 src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
index d0f3300..997a2ac 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Interpolant.cxx
@@ -965,8 +965,8 @@ Interpolant::Interpolant(const Interpolant& interpolant)
         Interpolant_.at(i) = new Interpolant(*interpolant.Interpolant_.at(i));
     }
 
-    function1d_ = std::ref(interpolant.function1d_);
-    function2d_ = std::ref(interpolant.function2d_);
+    function1d_ = interpolant.function1d_;
+    function2d_ = interpolant.function2d_;
 }
 
 //----------------------------------------------------------------------------//
@@ -1586,6 +1586,9 @@ void Interpolant::swap(Interpolant& interpolant)
     d_.swap(interpolant.d_);
 
     Interpolant_.swap(interpolant.Interpolant_);
+
+    function1d_.swap(interpolant.function1d_);
+    function2d_.swap(interpolant.function2d_);
 }
 
 //----------------------------------------------------------------------------//
-- 
2.43.0


From f6ea388ae7c36a06be0a968d7114c4bb3f872ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:55 +0000
Subject: [PATCH 28/38] fix: state for an energy searches along the segment,
 not behind it

---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index 9f4de31..c06df43 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -93,7 +93,7 @@ ParticleState Secondaries::GetStateForEnergy(double energy) const
                 displacement.normalize();
                 return RePropagateEnergy(
                         track_[i-1], displacement, track_[i-1].energy - energy,
-                        track_[i-1].propagated_distance - track_[i].propagated_distance);
+                        track_[i].propagated_distance - track_[i-1].propagated_distance);
             } else {
                 return track_[i-1];
             }
-- 
2.43.0


From 2f5408519d34906c243631ffdb2492434c683f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:55 +0000
Subject: [PATCH 29/38] fix: times of interpolated states are calculated from
 the grammage

---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index c06df43..77387f1 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -310,7 +310,7 @@ ParticleState Secondaries::RePropagateEnergy(const ParticleState& init,
 
     auto E_f = init.energy - energy_lost;
     auto new_time = init.time + utility.TimeElapsed(
-            init.energy, E_f, displacement, density->Evaluate(init.position));
+            init.energy, E_f, advance_grammage, density->Evaluate(init.position));
     auto new_position = init.position + direction * displacement;
     auto new_propagated_distance = init.propagated_distance + displacement;
 
@@ -335,7 +335,7 @@ ParticleState Secondaries::RePropagateDistance(const ParticleState& init,
                                                displacement);
     auto E_f = utility.EnergyDistance(init.energy, advance_grammage);
     auto new_time = init.time + utility.TimeElapsed(
-            init.energy, E_f, displacement, density->Evaluate(init.position));
+            init.energy, E_f, advance_grammage, density->Evaluate(init.position));
     auto new_position = init.position + direction * displacement;
     auto new_propagated_distance = init.propagated_distance + displacement;
     return ParticleState((ParticleType)primary_def_->particle_type, new_position,
-- 
2.43.0


From eaf5170fd9c54942b8a30ab36d0ee9c9d81f3ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:55 +0000
Subject: [PATCH 30/38] fix: energy lost in a geometry in which the track
 starts or ends, or which it never reaches

---
 src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
index 77387f1..cc2b720 100644
--- a/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/Secondaries.cxx
@@ -165,7 +165,16 @@ double Secondaries::GetELost(const Geometry& geometry) const
 {
     auto entry_point = GetEntryPoint(geometry);
     auto exit_point = GetExitPoint(geometry);
-    return entry_point->energy - exit_point->energy;
+
+    // geometry has never been reached
+    if (!entry_point && !exit_point
+        && !geometry.IsInside(track_.front().position, track_.front().direction))
+        return 0;
+
+    // tracks may start or end inside the geometry
+    auto energy_in = entry_point ? entry_point->energy : track_.front().energy;
+    auto energy_out = exit_point ? exit_point->energy : track_.back().energy;
+    return energy_in - energy_out;
 }
 
 std::shared_ptr<ParticleState> Secondaries::GetEntryPoint(
-- 
2.43.0


From 4611791ae7b18921db527ab3dc55e75b1667cfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:04 +0000
Subject: [PATCH 31/38] fix: inner radius of a geometry from a document may be
 a fraction

---
 src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx | 2 +-
 src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
index 5e7a2d9..7d3c77a 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
@@ -36,7 +36,7 @@ Cylinder::Cylinder(const nlohmann::json& config)
 
 
     radius_ = config["outer_radius"].get<double>();
-    inner_radius_ = config.value("inner_radius", 0);
+    inner_radius_ = config.value("inner_radius", 0.);
     z_ = config["height"].get<double>();
 
     assert(inner_radius_>=0);
diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx
index 37a9d50..8210cff 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx
@@ -33,7 +33,7 @@ Sphere::Sphere(const nlohmann::json& config)
 
     config["outer_radius"].get_to(radius_);
 
-    inner_radius_ = config.value("inner_radius", 0);
+    inner_radius_ = config.value("inner_radius", 0.);
     if(inner_radius_ < 0) throw std::logic_error("inner radius must be >= 0");
     if(radius_ < inner_radius_)
        throw std::logic_error("radius must be larger than inner radius");
-- 
2.43.0


From 23b8453beae9a92ba0ed9092ccfd5eb5b1626e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:04 +0000
Subject: [PATCH 32/38] fix: a geometry from a document has the name of its
 shape

---
 src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx      | 2 ++
 src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx | 2 ++
 src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx   | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx
index ec834ba..0ead2b8 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Box.cxx
@@ -22,6 +22,8 @@ Box::Box(const Vector3D& position, double x, double y, double z)
 Box::Box(const nlohmann::json& config)
     : Geometry(config)
 {
+    name_ = "Box";
+
     if(!config.at("length").is_number())
         throw std::invalid_argument("Length is not a number.");
     if(!config.at("width").is_number())
diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
index 7d3c77a..19f4c9d 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
@@ -31,6 +31,8 @@ Cylinder::Cylinder(const Vector3D& position, double z, double radius, double inn
 Cylinder::Cylinder(const nlohmann::json& config)
     : Geometry(config)
 {
+    name_ = "Cylinder";
+
     assert(config["outer_radius"].is_number());
     assert(config["height"].is_number());
 
diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx
index 8210cff..97abb16 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Sphere.cxx
@@ -27,6 +27,8 @@ Sphere::Sphere(const Vector3D& position, double radius, double inner_radius)
 Sphere::Sphere(const nlohmann::json& config)
     : Geometry(config)
 {
+    name_ = "Sphere";
+
     if(!config.is_object()) throw std::invalid_argument("No json object found.");
     if(!config.at("outer_radius").is_number())
         throw std::invalid_argument("Outer radius is not a number.");
-- 
2.43.0


From 0c7dac4017fa9ba9b04815eae702018ba7804a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:04 +0000
Subject: [PATCH 33/38] fix: an invalid cylinder document is rejected by an
 exception

---
 src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
index 19f4c9d..50a5229 100644
--- a/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/geometry/Cylinder.cxx
@@ -33,17 +33,19 @@ Cylinder::Cylinder(const nlohmann::json& config)
 {
     name_ = "Cylinder";
 
-    assert(config["outer_radius"].is_number());
-    assert(config["height"].is_number());
-
+    if(!config.at("outer_radius").is_number())
+        throw std::invalid_argument("Outer radius is not a number.");
+    if(!config.at("height").is_number())
+        throw std::invalid_argument("Height is not a number.");
 
     radius_ = config["outer_radius"].get<double>();
     inner_radius_ = config.value("inner_radius", 0.);
     z_ = config["height"].get<double>();
 
-    assert(inner_radius_>=0);
-    assert(radius_>inner_radius_);
-    assert(z_>0);
+    if(inner_radius_ < 0) throw std::logic_error("inner radius must be >= 0");
+    if(radius_ <= inner_radius_)
+        throw std::logic_error("radius must be larger than inner radius");
+    if(z_ <= 0) throw std::logic_error("height must be > 0");
 }
 
 bool Cylinder::compare(const Geometry& geometry) const
-- 
2.43.0


From 02b36a5f481fb93aa8e8d202121ad280eadf934a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:04 +0000
Subject: [PATCH 34/38] fix: a mass density which is not a number is rejected
 by an exception

---
 src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx   | 3 ++-
 .../detail/PROPOSAL/density_distr/density_homogeneous.cxx      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
index 7daa22a..8dabf4d 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_distr.cxx
@@ -29,7 +29,8 @@ Density_distr::Density_distr(const nlohmann::json& config) {
         throw std::invalid_argument("Axis: Type of axis must be radial or cartesian");
     }
     if (config.contains("mass_density")) {
-        assert(config["mass_density"].is_number());
+        if(!config["mass_density"].is_number())
+            throw std::invalid_argument("Density_distr: mass_density is not a number");
         massDensity_ = config["mass_density"].get<double>();
     } else {
         throw std::invalid_argument("Density_distr: mass_density must be defined in json");
diff --git a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_homogeneous.cxx b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_homogeneous.cxx
index 33fa3cd..47f0de2 100644
--- a/src/PROPOSAL/detail/PROPOSAL/density_distr/density_homogeneous.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/density_distr/density_homogeneous.cxx
@@ -18,7 +18,8 @@ Density_homogeneous::Density_homogeneous(const Density_homogeneous& dens_distr)
 
 Density_homogeneous::Density_homogeneous(const nlohmann::json& config) : Density_distr() {
     if (config.contains("mass_density")) {
-        assert(config["mass_density"].is_number());
+        if(!config["mass_density"].is_number())
+            throw std::invalid_argument("Density_distr: mass_density is not a number");
         massDensity_ = config["mass_density"].get<double>();
     } else {
         throw std::invalid_argument("Density_distr: mass_density must be defined in json");
-- 
2.43.0


From 77c22c6d1b9d4e6966b711971537a171d93d49e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:04 +0000
Subject: [PATCH 35/38] fix: profile documents without points or coefficients
 are rejected

---
 src/PROPOSAL/detail/PROPOSAL/math/Function.cxx | 1 +
 src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
index a1722d0..a5de5ff 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Function.cxx
@@ -23,6 +23,7 @@ Polynom::Polynom(const nlohmann::json& config) {
     if(!config["coefficients"].is_array()) throw std::invalid_argument("Polynom: coefficients is not an array.");
 
     auto coefficients = config["coefficients"].get<std::vector<double>>();
+    if(coefficients.empty()) throw std::invalid_argument("Polynom: at least one coefficient must be given.");
     N_ = coefficients.size();
     coeff_ = new double[N_];
 
diff --git a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
index 7ad61fd..b25a036 100644
--- a/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/math/Spline.cxx
@@ -48,6 +48,7 @@ Spline::Spline(const nlohmann::json& config) {
     y_ = config["y"].get<std::vector<double>>();
 
     if (x_.size() != y_.size()) throw std::invalid_argument("Spline: x and y must have same dimension");
+    if (x_.size() < 2) throw std::invalid_argument("Spline: at least two points must be given");
 }
 
 bool Spline::operator==(const Spline& spline) const {
-- 
2.43.0


From 74ca9b41f6320080cbda71f3c15bb9adccc95d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:29 +0000
Subject: [PATCH 36/38] fix: continuous randomization is part of the identity
 of a cut

---
 src/PROPOSAL/detail/PROPOSAL/EnergyCutSettings.cxx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PROPOSAL/detail/PROPOSAL/EnergyCutSettings.cxx b/src/PROPOSAL/detail/PROPOSAL/EnergyCutSettings.cxx
index c9747e4..76e47bc 100644
--- a/src/PROPOSAL/detail/PROPOSAL/EnergyCutSettings.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/EnergyCutSettings.cxx
@@ -99,7 +99,7 @@ double EnergyCutSettings::GetCut(
 size_t EnergyCutSettings::GetHash() const noexcept
 {
     size_t hash_digest = 0;
-    hash_combine(hash_digest, ecut_, vcut_);
+    hash_combine(hash_digest, ecut_, vcut_, continuous_randomization_);
     return hash_digest;
 }
 
-- 
2.43.0


From bc2bef7b44edf32bb5af16f5261809654dcfa13b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:29 +0000
Subject: [PATCH 37/38] fix: photonuclear table is part of the identity of a
 particle

---
 src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx b/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
index 144a1a0..e0628ea 100644
--- a/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/particle/ParticleDef.cxx
@@ -250,6 +250,9 @@ bool ParticleDef::operator!=(const ParticleDef& def) const
 size_t ParticleDef::GetHash() const{
     size_t hash_digest = 0;
     hash_combine(hash_digest, mass, low, lifetime, charge, weak_partner);
+    for (auto& row : hard_component_table)
+        for (auto& value : row)
+            hash_combine(hash_digest, value);
     return hash_digest;
 }
 
-- 
2.43.0


From 99bb3cf347b5741af759b11cc9c9f49f05880b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:04:29 +0000
Subject: [PATCH 38/38] fix: nuclear parametrizations with Q2 integration have
 different identities

---
 .../PROPOSAL/crosssection/parametrization/PhotoQ2Integration.cxx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoQ2Integration.cxx b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoQ2Integration.cxx
index ae103b8..ea85723 100644
--- a/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoQ2Integration.cxx
+++ b/src/PROPOSAL/detail/PROPOSAL/crosssection/parametrization/PhotoQ2Integration.cxx
@@ -16,6 +16,7 @@ using namespace PROPOSAL;
         std::shared_ptr<ShadowEffect> shadow_effect)                           \
         : crosssection::PhotoQ2Integral(shadow_effect)                         \
     {                                                                          \
+        hash_combine(hash, std::string(#param));                               \
     }                                                                          \
                                                                                \
     std::unique_ptr<crosssection::Parametrization<Component>>                  \
-- 
2.43.0

