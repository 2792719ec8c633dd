#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (the text of the properties lives here)."""
import json,os
D='src/PROPOSAL/detail/PROPOSAL/'; H='src/PROPOSAL/PROPOSAL/'
P=[]
def p(id,title,statement,qtext,why,files,mech,over=("inputs",),state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":list(over),"text":qtext},"why_tests_cant":why,"anchors":a})

p("P01","Distance to a geometry border is the exact ray/surface intersection",
"For every solid or hollow sphere, cylinder and box, every position and every normalised direction, the two distances to the border are exactly the positive ray parameters (beyond the geometry precision) at which the ray crosses the surface of the body, the nearer one first. If the ray crosses the surface only once ahead, or starts inside the body's material, the second distance is negative, and if it never crosses it ahead both are negative.",
"every centre, size, position and unit direction (spheres and cylinders: in general position, no ray exactly through an edge or tangent), solid and hollow bodies",
"The geometry tests sample a handful of positions and axis-like directions; the intersection logic is a case split over many sign conditions that only a statement over all real inputs covers.",
[D+'geometry/Sphere.cxx',D+'geometry/Cylinder.cxx',D+'geometry/Box.cxx',D+'geometry/Geometry.cxx'],
[("quadratic ray/sphere intersection, hollow part",D+"geometry/Sphere.cxx Sphere::DistanceToBorder"),("mantle/cap intersection",D+"geometry/Cylinder.cxx Cylinder::DistanceToBorder"),("six-face intersection",D+"geometry/Box.cxx Box::DistanceToBorder")])
p("P02","Inside / in front / behind / entering / leaving classify every ray exactly",
"For every body, position and direction exactly one of inside, in front of and behind holds, and it agrees with the signs of the two border distances. Entering holds exactly where one border crossing lies ahead on the ray and none behind, leaving exactly where none lies ahead and one behind; on the border of a body without cavity exactly one of the two holds, according to whether the ray turns into or out of the body. The distance of closest approach is the projection of the centre onto the ray.",
"every pair of border distances a body can report, every position and direction","Tests compare flags for a few fixed rays only; the trichotomy is a statement about all sign combinations.",
[D+'geometry/Geometry.cxx',H+'geometry/Geometry.h'],
[("classification from the two distances",D+"geometry/Geometry.cxx Geometry::GetLocation, IsInside, IsInfront, IsBehind, IsEntering, IsLeaving"),("closest approach",D+"geometry/Geometry.cxx DistanceToClosestApproach")])
p("P03","Vector algebra and coordinate conversion are exact",
"Addition, subtraction, scaling, scalar and vector product, magnitude and normalisation of three-vectors obey Euclidean vector algebra in every coordinate representation. Converting between Cartesian and spherical representation preserves the vector, and deflecting a unit direction by given angles yields a unit vector enclosing exactly the requested polar angle with the original one.",
"all real vectors (non-zero where a direction is needed) and all deflection angles","Unit tests use a few integer-valued vectors; the rotation formula has a special branch along the axis and must preserve norm and angle for all directions.",
[D+'math/Cartesian3D.cxx',D+'math/Spherical3D.cxx',D+'math/Vector3D.cxx'],
[("vector operators and spherical conversion",D+"math/Cartesian3D.cxx"),("spherical representation",D+"math/Spherical3D.cxx"),("rotation of a direction",D+"math/Cartesian3D.cxx Cartesian3D::deflect")])
p("P04","Energy cuts split losses at the documented relative threshold",
"An energy cut accepts exactly the absolute/relative cut values that make sense and rejects all others. Its threshold for a given energy is the smaller of the absolute cut divided by the energy and the relative cut, limited to the kinematically allowed interval, so that the threshold always lies between the lower and upper kinematic bound; equality and configuration from a document agree with the stored values.",
"every absolute cut, relative cut, energy and kinematic interval; every configuration object","Tests check individual cut values; the clamping and validation are statements over all reals including infinity.",
[D+'EnergyCutSettings.cxx'],[("constructor validation, GetCut, equality",D+"EnergyCutSettings.cxx")],over=("inputs","configurations"))
p("P05","Density profiles: grammage is the path integral, correction its inverse",
"For every density profile the accumulated grammage between two points of a ray is the line integral of the mass density along it, and the correction returns the distance whose grammage from the start equals the requested value. Evaluation equals the documented profile (constant, exponential, polynomial, spline) of the depth along the chosen axis, copies are equal to the original and changing a parameter makes them unequal.",
"all positions, directions, distances, profile parameters and axes","The tests integrate a few fixed profiles on one axis direction; the inverse relation must hold for every ray.",
[D+'density_distr/density_distr.cxx',D+'density_distr/density_homogeneous.cxx',D+'density_distr/density_exponential.cxx',D+'density_distr/density_polynomial.cxx',D+'density_distr/density_splines.cxx'],
[("axis depth and effective distance",D+"density_distr/density_distr.cxx"),("homogeneous/exponential closed forms",D+"density_distr/density_exponential.cxx, density_homogeneous.cxx"),("polynomial/spline antiderivative",D+"density_distr/density_polynomial.cxx, density_splines.cxx")])
p("P06","Polynomials and splines: evaluation, calculus and interpolation conditions",
"A polynomial evaluates to the sum of its coefficients times powers, its derivative and antiderivative are the exact ones, and shifting the argument is exact. A linear or cubic spline passes through every support point, is continuous there (cubic: also twice differentiable with vanishing curvature at both ends), and its antiderivative is continuous and differentiates back to it.",
"all coefficients, arguments and strictly increasing support points (up to a stated number)","Tests evaluate a few numbers of one polynomial; interpolation and continuity conditions quantify over all supports.",
[D+'math/Function.cxx',D+'math/Spline.cxx'],[("polynomial arithmetic",D+"math/Function.cxx"),("spline coefficient calculation",D+"math/Spline.cxx")])
p("P07","Root finding keeps a sign-changing bracket and meets its tolerance",
"Given a continuous function with a sign change on an interval, bracketing root search only ever returns a point inside the initial bracket, reports a bracket that still contains a sign change and is no wider than the requested tolerance. Newton iteration with safeguard returns a point within the search interval, and a guess that already is a root is returned. Both searches raise an error exactly when the initial interval does not bracket a root; reaching the iteration limit is no error, the current bracket or point is returned.",
"every function, interval, tolerance and iteration limit","Tests find roots of three fixed functions; the bracket invariant must hold in every iteration for every function.",
[D+'math/MathMethods.cxx',H+'math/MathMethods.h'],[("bisection",D+"math/MathMethods.cxx Bisection"),("safeguarded Newton",D+"math/MathMethods.cxx NewtonRaphson")])
p("P08","Special functions and samplers are the documented ones",
"The dilogarithm equals its defining series and reflection formulas on every part of the real line. The inverse normal distribution is the documented rational approximation improved by one Halley step. The truncated Gaussian and exponential samplers invert the truncated distribution function, never leave their interval and return the mean for vanishing width, and the running mean and variance equal the mean and variance of all values seen.",
"all arguments of each function including every branch of its piecewise definition","Tests probe few points per branch; wrong behaviour in an unsampled branch stays invisible.",
[D+'math/MathMethods.cxx',H+'math/MathMethods.h'],[("dilog, normalppf, SampleFromGaussian, SampleFromExponential, welfords_online_algorithm",D+"math/MathMethods.cxx")])
p("P09","Numerical integration honours limits, sign and substitution",
"Integrating a function over an interval yields the integral with the correct sign for reversed limits and zero for an empty interval; every substitution method (plain, power, logarithmic) is an exact change of variables, and every integration rule is exact for polynomials of low degree in the substituted variable. Choosing the upper limit at a random fraction of the integral inverts the integration, and a copied or assigned integrator equals the original and keeps its integrand.",
"all limits further apart than the computer precision and on the same side of the singularity of the substitution, integrands of the stated class and substitution powers","The tests integrate a handful of fixed functions between fixed limits.",
[D+'math/Integral.cxx',H+'math/Integral.h'],[("Romberg integration with change of variable",D+"math/Integral.cxx"),("limit handling",D+"math/Integral.cxx InitIntegralOpenedAndClosed etc.")])
p("P10","Interpolation tables reproduce their nodes and polynomials of their order",
"An interpolation table returns the tabulated value at every node and reproduces any polynomial whose degree is below the interpolation order, in the interior and at the edges, for linear and logarithmic axes, in one and two dimensions; a table of logarithms reproduces exponentials of such polynomials, and a rational table of order two reproduces quotients of a constant and a linear function. Searching for the argument of a value inverts the interpolated function where it is monotonic (exactly for linear functions and for piecewise linear tables), leaves the table unchanged, and gives a limit of the table for values beyond it. Copies and assigned tables equal the original and give the same values; the builders make the table their definition describes.",
"all supports and tabulated values of the stated number of nodes and order","Tests interpolate two fixed functions with tolerances.",
[D+'math/Interpolant.cxx',D+'math/InterpolantBuilder.cxx'],[("Neville interpolation, axis mapping",D+"math/Interpolant.cxx")])
p("P11","A particle state keeps energy, momentum and mass consistent",
"Setting the momentum of a particle state makes its energy satisfy the relativistic energy-momentum relation with the mass of its particle type, and the momentum read back from an energy satisfies the same relation. Constructing, copying, storing and comparing particle states and stochastic losses covers every field.",
"every particle type, energy and momentum","Tests set a few energies only.",
[D+'particle/Particle.cxx',H+'particle/Particle.h'],[("SetEnergy/SetMomentum/GetMomentum, equality",D+"particle/Particle.cxx")])
p("P12","Particle definitions are consistent, comparable and complete",
"Predefined particles carry their documented mass, charge, lifetime and identifier, and antiparticles differ from their particle only in the sign of the charge and their identity. Two definitions compare equal exactly if all physical fields agree, equal definitions have equal hashes, building a definition field by field stores every field, lookup by type returns the matching definition, and registering a different definition under a known type is refused.",
"all predefined definitions and all field values","Tests compare a few definitions.",
[D+'particle/ParticleDef.cxx',H+'particle/ParticleDef.h'],[("definition table, builder, equality, hash",D+"particle/ParticleDef.cxx")],over=("inputs","configurations"))
p("P13","Two-body and many-body phase-space decays conserve four-momentum",
"Decaying a particle by phase space yields products on their mass shells whose energies and momenta sum to those of the decaying particle, for every parent state and every random outcome. The two-body momentum is the exact kinematic one.",
"all masses above threshold, parent energies/directions and all random numbers","Decay tests average over sampled decays with loose tolerance.",
[D+'decay/TwoBodyPhaseSpace.cxx',D+'decay/ManyBodyPhaseSpace.cxx',D+'decay/DecayChannel.cxx'],[("boost and rest-frame momentum",D+"decay/DecayChannel.cxx Boost, Momentum, CopyProducts"),("two-body",D+"decay/TwoBodyPhaseSpace.cxx"),("recursive many-body",D+"decay/ManyBodyPhaseSpace.cxx")])
p("P14","Leptonic decays follow the electroweak spectrum and conserve four-momentum",
"The charged lepton's energy in a leptonic decay follows the documented differential decay rate, its antiderivative being consistent with the spectrum, and the energies and momenta of the decay products add up to those of the parent.",
"all parent and product masses, energy fractions and random numbers","Tests only check particle identity and loose averages.",
[D+'decay/LeptonicDecayChannel.cxx'],[("DecayRate, DifferentialDecayRate, FindRootBoost",D+"decay/LeptonicDecayChannel.cxx")])
p("P15","Decay tables select every channel with its branching ratio",
"A decay table selects, for a uniform random number, the channel in whose cumulative branching interval it falls and never fails for random numbers below the sum of the branching ratios; stable tables return the stable channel. Copies hold the same channels and stay independent, and equality compares every channel and ratio.",
"all channel lists (up to a stated length), branching ratios and random numbers; all copy/assign/add histories","Tests draw a few random numbers from three tables.",
[D+'decay/DecayTable.cxx'],[("SelectChannel, addChannel, copy, equality",D+"decay/DecayTable.cxx")],over=("inputs","histories"))
p("P16","Media and elements derive their constants from composition exactly",
"Each element carries its documented charge number, atomic mass and tabulated constants, and its derived nuclear quantities equal their documented expressions. Each medium's derived sums, densities, mean weights, radiation length and maximum nucleon mass are the exact functions of its components, and media compare equal exactly if they have the same composition and constants.",
"all components, all predefined elements and media, every component list up to a stated length","Tests compare a few equalities of media; no derived value is tested.",
[D+'medium/Medium.cxx',D+'medium/Components.cxx',D+'medium/MediumFactory.cxx'],[("derived sums",D+"medium/Medium.cxx Medium::init"),("element constants",D+"medium/Components.cxx")],over=("inputs","configurations"))
p("P17","Kinematic limits of every interaction are the documented ones",
"For every interaction type and parametrization the allowed interval of relative energy loss is the documented function of particle mass, energy and target, with the lower bound at least zero and never above the upper bound, for energies above the rest mass; an interval that is not empty never extends above one.",
"all energies, particle masses and targets of every parametrization","No stable test touches the kinematic limits at all.",
[D+'crosssection/parametrization/*.cxx'],[("GetKinematicLimits",D+"crosssection/parametrization/*.cxx")])
p("P18","Bremsstrahlung cross sections equal their published parametrizations",
"For each bremsstrahlung parametrization the differential cross section at every energy, relative loss and element equals the published formula including electron screening, low-energy correction and LPM suppression, and is never negative.",
"all energies, losses inside the kinematic limits, elements, with and without LPM","These cross-section tests are not part of the reliably running tests; others sample tables.",
[D+'crosssection/parametrization/Bremsstrahlung.cxx'],[("parametrizations and LPM",D+"crosssection/parametrization/Bremsstrahlung.cxx")])
p("P19","Electron-pair production cross sections equal their published parametrizations",
"For each electron-pair parametrization the double-differential function, its integration over the asymmetry and the LPM suppression equal the published formula at every energy, loss and element.",
"all energies, losses, asymmetries and elements, with and without LPM","These cross-section tests are not part of the reliably running tests.",
[D+'crosssection/parametrization/EpairProduction.cxx'],[("FunctionToIntegral, rho integration, LPM",D+"crosssection/parametrization/EpairProduction.cxx")])
p("P20","Ionization cross sections and stopping power equal their published formulas",
"Differential ionization cross sections and the continuous loss below the cut equal the published Bethe-Bloch-Rossi respectively Moeller/Bhabha formulas including density and shell corrections, at every energy, cut and medium.",
"all energies, losses, cuts and media","These cross-section tests are not part of the reliably running tests.",
[D+'crosssection/parametrization/Ionization.cxx'],[("Bethe-Bloch-Rossi, Berger-Seltzer Bhabha/Moeller, Delta",D+"crosssection/parametrization/Ionization.cxx")])
p("P21","Photonuclear cross sections equal their published parametrizations",
"For every photonuclear parametrization (structure-function based with each shadowing model, and real-photon based with and without the hard component) the differential cross section equals the published expression at every energy, loss and momentum transfer.",
"all energies, losses, momentum transfers, particle masses and elements","These cross-section tests are not part of the reliably running tests.",
[D+'crosssection/parametrization/Photonuclear.cxx',D+'crosssection/parametrization/PhotoQ2Integration.cxx',D+'crosssection/parametrization/PhotoRealPhotonAssumption.cxx'],[("structure functions and shadowing",D+"crosssection/parametrization/PhotoQ2Integration.cxx"),("real photon cross sections",D+"crosssection/parametrization/PhotoRealPhotonAssumption.cxx")])
p("P22","Muon-pair, weak and photon interaction cross sections equal their formulas",
"Muon-pair production, charged-current weak interaction, Compton scattering, electron- and muon-pair production by photons, pair annihilation, photoelectric effect and photon-hadron interaction cross sections equal their published expressions at every energy, loss and element.",
"all energies, losses, asymmetries and elements","These cross-section tests are not part of the reliably running tests.",
[D+'crosssection/parametrization/MupairProduction.cxx',D+'crosssection/parametrization/WeakInteraction.cxx',D+'crosssection/parametrization/Compton.cxx',D+'crosssection/parametrization/PhotoPairProduction.cxx',D+'crosssection/parametrization/PhotoMuPairProduction.cxx',D+'crosssection/parametrization/Annihilation.cxx',D+'crosssection/parametrization/Photoeffect.cxx',D+'crosssection/parametrization/Photoproduction.cxx'],[("differential cross sections",D+"crosssection/parametrization/")])
p("P23","Continuous and stochastic losses split the cross section at the cut without gap",
"The continuous loss and its second moment are the first and second energy moments of the differential cross section from the lower kinematic limit up to the energy cut, the stochastic rate is its integral from the cut to the upper limit, weighted by the abundance of each component. Both parts meet at the same threshold, and sampling a loss from a rate inverts that integral.",
"all energies, cuts, parametrizations and components","No stable test covers these integrals; a gap or double counting at the cut only shows for particular energies.",
[D+'crosssection/CrossSectionDEDX/',D+'crosssection/CrossSectionDE2DX/',D+'crosssection/CrossSectionDNDX/'],[("integrands and limits",D+"crosssection/CrossSectionDEDX/CrossSectionDEDXIntegral.cxx etc.")])
p("P24","Multiple scattering angles follow the documented width and geometry",
"The Highland width is the documented function of grammage, energies, charge and radiation length; sampled offset and final angle obey the documented correlated combination of four random numbers. The resulting step and final directions are unit vectors obtained by rotating the initial direction by those angles, and scaling factors multiply exactly the angle of their own kind.",
"all energies, grammages, random numbers, initial directions and multipliers","Scattering tests are not among the reliably running tests.",
[D+'scattering/multiple_scattering/Highland.cxx',D+'scattering/multiple_scattering/Parametrization.cxx',D+'scattering/multiple_scattering/Coefficients.cxx',H+'scattering/ScatteringMultiplier.h'],[("theta0, angle calculation, rotation",D+"scattering/multiple_scattering/")])
p("P25","Stochastic deflection angles equal their parametrizations and stay physical",
"For each stochastic deflection model the polar angle is the documented function of initial energy, final energy, particle mass and random numbers, and is never negative, while the azimuth is the last random number scaled to the full circle. Scaling factors multiply exactly the polar angle of their own interaction type.",
"all initial/final energies, masses, media and random numbers","No stable test covers the deflection models.",
[D+'scattering/stochastic_deflection/'],[("CalculateRandomAngle of each model",D+"scattering/stochastic_deflection/")])
p("P26","Interaction products conserve energy and obey documented kinematics",
"Secondaries produced in an interaction share exactly the available energy, carry the position, time and type documented for that interaction, and their directions are unit vectors at the documented opening angles; two-body final states also conserve momentum.",
"all primary states, losses and random numbers of every secondary generator","Secondary-production tests are not among the reliably running tests.",
[D+'secondaries/parametrization/'],[("CalculateSecondaries of each generator",D+"secondaries/parametrization/")])
p("P27","Propagation integrals and their inversion agree",
"The propagation utility returns the integral of its integrand between two energies, and the final energy found for a given random portion is the one whose integral from the start equals it, never below the lower limit. Displacement, time, interaction, decay and randomization integrands are the documented combinations of the energy-loss rates.",
"all energies, limits and integrands","Only a single integrand is tested.",
[D+'propagation_utility/PropagationUtilityIntegral.cxx',H+'propagation_utility/'],[("Calculate and GetUpperLimit",D+"propagation_utility/PropagationUtilityIntegral.cxx")])
p("P28","A recorded track answers history queries consistently",
"A track stores its points and interaction types in order; queries for losses, decay products, entry, exit and closest-approach points, and states at a given energy or distance return exactly the recorded or interpolated values. An interpolated state lies on the segment between its two neighbouring points.",
"all recorded histories up to a stated length and all query values","Track tests are not among the reliably running tests.",
[D+'Secondaries.cxx'],[("track queries and interpolation",D+"Secondaries.cxx")],over=("inputs","histories"))
p("P29","Configured objects equal objects built directly from the same values",
"Building a geometry, density profile, axis or cut from a configuration document gives an object equal to the one built directly from the same numbers, for fractional as well as whole numbers and with defaults where a value is omitted; invalid or incomplete documents are rejected with an error.",
"all configuration documents of the documented shape","Tests construct objects almost only directly.",
[D+'geometry/*.cxx',D+'geometry/GeometryFactory.cxx',D+'density_distr/*.cxx',D+'EnergyCutSettings.cxx'],[("constructors taking a document",D+"geometry/*.cxx")],over=("configurations",))
p("P30","Physical constants and reference tables are the documented values",
"The physical constants, unit conversions and model parameter tables used throughout have their documented values and satisfy their defining relations.",
"every constant","No test checks them.",
[D+'Constants.cxx',H+'Constants.h'],[("constant definitions",D+"Constants.cxx")],over=("configurations",))
p("P31","Identity: distinct physics configurations have distinct identities",
"Copies of a configured object have the same identity hash as the original, and two configurations that differ in a parameter relevant to physics (parametrization, multiplier, cut, particle, medium, LPM, shadowing) feed that difference into their identity, so cached tables are never shared between them.",
"all pairs of configurations","Tests do not compare identities.",
[D+'EnergyCutSettings.cxx',D+'medium/Medium.cxx',D+'particle/ParticleDef.cxx',D+'crosssection/parametrization/'],[("hash accumulation",H+"methods.h hash_combine")],over=("configurations",))
p("P32","A propagation step ends at the first of interaction, decay, border or limit",
"Each propagation step ends at the first of: the highest of the sampled interaction energy, the sampled decay energy and the minimum energy; the border of the current sector or of a sector of higher hierarchy in it; the maximum distance (if no step is found within the permitted number of iterations it ends at the border). Position, direction, time, distance and energy after the step belong to this one step; an interaction reduces the energy by the sampled loss and neither moves the particle nor takes time; behind a border the propagation continues in the sector of the highest hierarchy which contains the particle; it ends at a decay, at the minimum energy, at the maximum distance or by the hierarchy condition; every step is recorded in order.",
"all particle states, sectors, sampled energies and propagation histories","Propagator tests cannot run here and sample random histories only.",
[D+'Propagator.cxx'],[("step loop",D+"Propagator.cxx Propagator::Propagate, AdvanceParticle")],over=("inputs","histories"))
p("P33","Tabulated cross sections and propagation integrals agree with direct integration",
"Energy-loss rates, interaction rates and propagation integrals obtained from interpolation tables agree with the directly integrated ones within interpolation accuracy.",
"all energies inside the table range","Needs the cubic-interpolation dependency which is absent here.",
[D+'crosssection/CrossSectionDEDX/CrossSectionDEDXInterpolant.cxx',D+'propagation_utility/PropagationUtilityInterpolant.cxx'],[("spline tables",D+"propagation_utility/PropagationUtilityInterpolant.cxx")])
p("P34","Random streams: reproducible, restorable and replaceable",
"The internal random stream is that of the standard Mersenne twister on the unit interval: equal seeds give equal sequences and seeding restarts them whatever was drawn before, saving and restoring the state of the generator resumes the sequence, a generator supplied by the user is used for every number until the default one is restored, and doing so does not disturb the internal stream.",
"all seeds and histories of drawing, seeding, saving, restoring and replacing","Tests draw from a few fixed seeds only and never mix these operations.",
[D+'math/RandomGenerator.cxx'],[("generator wrapper",D+"math/RandomGenerator.cxx")],over=("inputs","histories"))
open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
