// VF-SOURCES: Propagator.cxx Secondaries.cxx propagation_utility/PropagationUtility.cxx propagation_utility/Displacment.cxx propagation_utility/Interaction.cxx propagation_utility/Decay.cxx propagation_utility/Time.cxx propagation_utility/ContRand.cxx geometry/Geometry.cxx geometry/Box.cxx density_distr/density_distr.cxx math/Cartesian3D.cxx math/Spherical3D.cxx math/Vector3D.cxx math/RandomGenerator.cxx scattering/multiple_scattering/Parametrization.cxx crosssection/CrossSection.cxx decay/DecayTable.cxx decay/DecayChannel.cxx decay/StableChannel.cxx medium/Components.cxx medium/Medium.cxx particle/ParticleDef.cxx particle/Particle.cxx Constants.cxx Logging.cxx EnergyCutSettings.cxx methods.cxx
// VF-BOUNDED: [in=.*] up to three sectors, two iterations of the search of a step, two steps of a propagation
// VF-REPLACE: ^PROPOSAL::Propagator::AdvanceParticle\( => vfr_advance [in=vfc_propagate.*]
// VF-REPLACE: ^PROPOSAL::multiple_scattering::ScatterInitialDirection\( => vfr_scatter
// VF-REPLACE: ^PROPOSAL::RandomGenerator::RandomDouble\( => vfr_random
// VF-ASSUME: geometry, density, scattering and propagation utilities of the sectors are arbitrary functions (their own contracts are P01, P02, P05, P25, P27); the code is not part of the library built here (its interpolation dependency is absent) and is compiled with stand-ins for the headers of that dependency; reading a configuration is not covered
#include "sectors.hpp"
#include "PROPOSAL/propagation_utility/Decay.h"
#include "PROPOSAL/scattering/Scattering.h"
#include "PROPOSAL/Constants.h"
typedef Propagator P;

static std::shared_ptr<ParticleDef> muon() {
    ParticleDef::GetParticleDefForType(11);
    return std::make_shared<ParticleDef>(MuMinusDef{});
}
static Cartesian3D direction(const char* n) {
    double a = vf_real(num(n, 0).c_str(), 0.1, 1), b = vf_real(num(n, 1).c_str(), 0.1, 1), c = vf_real(num(n, 2).c_str(), 0.1, 1);
    double scale = vf_symbolic() ? 1 : 1 / std::sqrt(a * a + b * b + c * c);
    return Cartesian3D(a * scale, b * scale, c * scale);
}
static Cartesian3D place(const char* n) { return Cartesian3D(vf_real(num(n, 0).c_str(), -8, 8), vf_real(num(n, 1).c_str(), -8, 8), vf_real(num(n, 2).c_str(), -8, 8)); }
static ParticleState start() {
    double E = vf_real("E", 200, 1000); vf_assume(E > 0);
    return ParticleState(ParticleType::MuMinus, place("x"), direction("u"), E, vf_real("t", 0, 1), vf_real("l", 0, 10));
}
static double u_; // the random number
extern "C" double vfr_random(RandomGenerator*) { return u_; }
static double rnd() { return u_; }
static double unit_number() { double u = vf_real("rnd", 0.01, 0.99); vf_assume(u >= 0); vf_assume(u < 1); return u_ = u; }
static void same(const Vector3D& a, const Vector3D& b, const char* what) {
    auto x = a.GetCartesianCoordinates(), y = b.GetCartesianCoordinates();
    for (int i = 0; i < 3; i++) vf_assert_eq(x[i] + 100, y[i] + 100, what);
}

// ------------------------------------------------------------- sectors of arbitrary behaviour, which note how they are used
static struct { double E, e, g, rho; int times, calc, corr; double calc_d, calc_g, sg, se; } note;
static double next_ = -1;
struct NotedDisplacement : public Displacement {
    double id;
    NotedDisplacement(double i) : id(i) { lower_lim = 150 + 10 * i; hash = 1; }
    double SolveTrackIntegral(double a, double b) override { return 5 * vf_uf3("length", a, b, id); }
    double UpperLimitTrackIntegral(double a, double g) override {
        double e = vf_uf3("remaining", a, g, id);
        // contract of the displacement (P27): after less grammage more energy is left
        if (vf_symbolic() && next_ > 0) vf_assume(!(g < SolveTrackIntegral(a, next_)) | (e > next_));
        return e;
    }
};
struct NotedTime : public Time {
    double id;
    NotedTime(double i) : id(i) {}
    double TimeElapsed(double a, double b, double c, double d) override { note.E = a; note.e = b; note.g = c; note.rho = d; note.times++; return vf_uf4("time", a, b, c, d) + id; }
};
struct NotedDensity : public AnyDensity {
    bool endless; // the grammage is never reached
    NotedDensity(double i, bool e = false) : AnyDensity(i), endless(e) {}
    double Correct(const Vector3D& x, const Vector3D& d, double res, double border) const override {
        note.corr++;
        if (endless) throw DensityException("never");
        double r = 8 * AnyDensity::Correct(x, d, res, border);
        if (vf_symbolic()) vf_assume(r > 0);
        return r;
    }
    double Calculate(const Vector3D& x, const Vector3D& d, double l) const override { return note.calc_g = 5 * AnyDensity::Calculate(x, d, note.calc_d = l); }
};
struct Stochastic : public AnyInteraction::Nothing {
    double id;
    Stochastic(double i) : id(i) {}
    double CalculatedNdx(double) override { return 1; }
    std::vector<std::pair<size_t, double>> CalculatedNdx_PerTarget(double) override { return { { size_t(77), 2. } }; }
    double CalculateStochasticLoss(size_t h, double E, double r) override { return vf_uf4("loss", id, h, E, r); }
};
struct Enough {}; static int drawn_ = 0;
struct NotedInteraction : public Interaction {
    double id;
    NotedInteraction(double i) : Interaction(std::make_shared<NotedDisplacement>(i), crosssection_list_t(1, std::make_shared<Stochastic>(i))), id(i) {}
    double EnergyInteraction(double E, double u) override { if (!vf_symbolic() && ++drawn_ > 30) throw Enough(); return 300 * vf_uf3("interaction", E, u, id); }
    double EnergyIntegral(double, double) override { return 0; }
    double MeanFreePath(double) override { return 1; }
};
struct NotedDecay : public Decay {
    double id;
    NotedDecay(double i) : Decay(std::make_shared<NotedDisplacement>(i), 1, 1), id(i) {}
    double EnergyDecay(double E, double u, double rho) override { return 300 * vf_uf4("decay", E, u, rho, id); }
};
struct NotedRand : public ContRand {
    NotedRand(double i) : ContRand(std::make_shared<NotedDisplacement>(i), rand()) {}
    static std::vector<std::shared_ptr<CrossSectionBase>> rand() {
        struct R : AnyInteraction::Nothing { std::shared_ptr<const EnergyCutSettings> GetEnergyCutSettings() const noexcept override { return std::make_shared<const EnergyCutSettings>(500, 0.05, true); } };
        return { std::make_shared<R>() };
    }
    double Variance(double, double) override { return 0; }
    double EnergyRandomize(double a, double b, double c, double d) override { return 100 * vf_uf4("randomize", a, b, c, d); }
};
struct NotedScatter : public multiple_scattering::Parametrization {
    NotedScatter() : Parametrization(105.) {}
    std::unique_ptr<Parametrization> clone() const override { return std::unique_ptr<Parametrization>(new NotedScatter); }
    bool compare(const Parametrization&) const override { return true; }
    void print(std::ostream&) const override {}
    multiple_scattering::ScatteringOffset CalculateRandomAngle(double g, double E, double e, const std::array<double, 4>& r) override {
        multiple_scattering::ScatteringOffset o; note.sg = g; note.se = e; double k = vf_uf4("angle", g, E, e, r[0]);
        o.sx = 0.1 * vf_uf1("sx", k); o.sy = 0.1 * vf_uf1("sy", k); o.tx = 0.1 * vf_uf1("tx", k); o.ty = 0.1 * vf_uf1("ty", k);
        return o;
    }
    double CalculateScatteringAngle(double, double, double, double) override { return 0; }
    double CalculateScatteringAngle2D(double, double, double, double, double) override { return 0; }
};
typedef std::pair<Cartesian3D, Cartesian3D> Two;
extern "C" void vfr_scatter(Two* out, const Vector3D* d, const multiple_scattering::ScatteringOffset* o) {
    double k = key(*d, vf_uf4("offset", o->sx, o->sy, o->tx, o->ty));
    new (out) Two(Cartesian3D(vf_uf1("m0", k), vf_uf1("m1", k), vf_uf1("m2", k)), Cartesian3D(vf_uf1("n0", k), vf_uf1("n1", k), vf_uf1("n2", k)));
}
static PropagationUtility noted(double id, bool random, bool scatter, bool decay) {
    PropagationUtility::Collection c;
    c.displacement_calc = std::make_shared<NotedDisplacement>(id);
    c.time_calc = std::make_shared<NotedTime>(id);
    c.interaction_calc = std::make_shared<NotedInteraction>(id);
    if (decay) c.decay_calc = std::make_shared<NotedDecay>(id);
    if (random) c.cont_rand = std::make_shared<NotedRand>(id);
    if (scatter) c.scattering = std::make_shared<Scattering>(std::unique_ptr<multiple_scattering::Parametrization>(new NotedScatter), std::vector<std::unique_ptr<stochastic_deflection::Parametrization>>());
    return PropagationUtility(c);
}
static Sector sector(double id, unsigned hierarchy, std::shared_ptr<Geometry> g, bool random = false, bool scatter = false, bool decay = false, bool endless = false) {
    g->SetHierarchy(hierarchy);
    return Sector(g, noted(id, random, scatter, decay), std::make_shared<NotedDensity>(id, endless));
}
static double id_of(const Sector& s) { return static_cast<const NotedDensity&>(*std::get<P::DENSITY_DISTR>(s)).id; }

// ------------------------------------------------------------- which sector, how far to its border
static void arrangement(std::vector<Sector>& l) {
    l.push_back(sector(0, vf_choose("h0", 3), std::make_shared<Everywhere>()));
    l.push_back(sector(1, vf_choose("h1", 3), std::make_shared<AnyGeometry>(0)));
    l.push_back(sector(2, vf_choose("h2", 3), std::make_shared<AnyGeometry>(5)));
}
VF_CONTRACT(current_sector) {
    std::vector<Sector> l; arrangement(l);
    P p(*muon(), l);
    auto x = place("x"), u = direction("u");
    auto s = p.GetCurrentSector(x, u);
    int best = 0, h = std::get<P::GEOMETRY>(l[0])->GetHierarchy();
    for (int i = 1; i < 3; i++) {
        auto d = std::get<P::GEOMETRY>(l[i])->DistanceToBorder(x, u);
        int k = std::get<P::GEOMETRY>(l[i])->GetHierarchy();
        if (d.first > 0 && d.second < 0 && k > h) { best = i; h = k; }
    }
    vf_assert_eq(id_of(s), best, "the sector of the highest hierarchy which contains the particle");
}
VF_CONTRACT(distance_to_border) {
    std::vector<Sector> l; arrangement(l);
    P p(*muon(), l);
    auto x = place("x"), u = direction("u");
    int c = vf_choose("current", 3);
    auto& g = *std::get<P::GEOMETRY>(l[c]);
    double want = g.DistanceToBorder(x, u).first;
    for (int i = 0; i < 3; i++) {
        auto& o = *std::get<P::GEOMETRY>(l[i]);
        double d = o.DistanceToBorder(x, u).first;
        if (o.GetHierarchy() > g.GetHierarchy() && d >= 0 && d < want) want = d;
    }
    vf_assert_eq(p.CalculateDistanceToBorder(x, u, g), want, "the border of the sector or of one of higher hierarchy in it");
}
VF_CONTRACT(next_energy) {
    P p(*muon(), std::vector<Sector>());
    std::array<double, 3> a {{ vf_real("a", 0, 1), vf_real("b", 0, 1), vf_real("c", 0, 1) }};
    int i = p.maximize(a), j = p.minimize(a);
    vf_assert(i >= 0 && i < 3 && a[i] >= a[0] && a[i] >= a[1] && a[i] >= a[2], "the highest energy is reached first");
    vf_assert(j >= 0 && j < 3 && a[j] <= a[0] && a[j] <= a[1] && a[j] <= a[2], "the shortest distance is reached first");
}
VF_CONTRACT(stochastic_interaction) {
    P p(*muon(), std::vector<Sector>());
    double u = unit_number();
    auto s = start(), b = s;
    auto util = noted(1, false, vf_choose("scatter", 2), false);
    auto loss = p.DoStochasticInteraction(s, util, rnd);
    double v = vf_uf4("loss", 1, 77, b.energy, 2 - u * 2);
    vf_assert(loss.type == InteractionType::Brems && loss.comp_hash == 77, "the sampled process");
    vf_assert_eq(loss.v_loss, v, "the sampled loss");
    vf_assert_eq(s.energy, b.energy * (1 - v), "the energy is reduced by the loss");
    same(s.position, b.position, "an interaction does not move the particle");
    vf_assert(s.time == b.time && s.propagated_distance == b.propagated_distance && s.type == b.type, "an interaction takes no time");
    same(s.direction, b.direction, "without a deflection the direction stays");
}

// ------------------------------------------------------------- one step
static void advance(bool random, bool scatter, bool endless, int steps) {
    PropagationSettings::ADVANCE_PARTICLE_MAX_STEPS = steps;
    unit_number();
    std::vector<Sector> l;
    l.push_back(sector(0, 1, std::make_shared<Everywhere>(), random, scatter, false, endless));
    l.push_back(sector(1, 2, std::make_shared<AnyGeometry>(0), random, scatter, false, endless));
    P p(*muon(), l);
    auto s = start(), b = s;
    auto current = vf_symbolic() ? l[vf_choose("current", 2)] : p.GetCurrentSector(s.position, s.direction);
    double next = vf_real("next", 100, 190), final = vf_real("final", 0, 60), least = vf_real("least", 50, 100);
    bool minimal = vf_choose("minimal", 2);
    double most = final - b.propagated_distance;
    vf_assume(next > 0); vf_assume(next < s.energy); vf_assume(most > 0);
    next_ = next;
    note.times = 0; note.corr = 0; note.sg = note.se = 0;
    int how = p.AdvanceParticle(s, next, final, rnd, current, minimal, least);
    auto& util = std::get<P::UTILITY>(current);
    auto& rho = *std::get<P::DENSITY_DISTR>(current);
    auto& geo = *std::get<P::GEOMETRY>(current);
    double d = s.propagated_distance - b.propagated_distance;
    vf_assert(how == P::ReachedInteraction || how == P::ReachedBorder || how == P::ReachedMaxDistance, "a step has an end");
    // energy, grammage and distance of the step belong together
    vf_assert(note.times == 1, "the time of the step");
    vf_assert_eq(note.E, b.energy, "the step starts with the energy of the particle");
    vf_assert_eq(note.rho, rho.Evaluate(b.position), "density at the start");
    vf_assert_eq(s.time, b.time + vf_uf4("time", note.E, note.e, note.g, note.rho) + id_of(current), "the time grows by that of the step");
    bool whole = note.e == next;
    if (how == P::ReachedInteraction) vf_assert(whole, "the energy of the interaction is reached");
    if (whole && how == P::ReachedInteraction) vf_assert_eq(note.g, util.LengthContinuous(b.energy, next), "grammage down to the energy of the interaction");
    if (how == P::ReachedMaxDistance) {
        vf_assert_eq(note.g, rho.Calculate(b.position, b.direction, d), "grammage along the distance");
        vf_assert_eq(note.e, util.EnergyDistance(b.energy, note.g), "energy after the distance");
    }
    // where and whereto
    double sg = note.sg, se = note.se;
    if (scatter && how != P::ReachedBorder) { vf_assert_eq(sg, note.g, "scattering over the grammage of the step"); vf_assert_eq(se, note.e, "scattering down to the energy of the step"); }
    auto dirs = util.DirectionsScatter(sg, b.energy, se, b.direction, rnd);
    auto mean = std::get<0>(dirs);
    same(s.direction, std::get<1>(dirs), "direction after the step");
    same(s.position, Cartesian3D(b.position) + d * mean, "the step goes along the mean direction");
    // the first of interaction, border and limit
    double border = p.CalculateDistanceToBorder(b.position, mean, geo);
    if (how == P::ReachedInteraction) {
        vf_assert(d <= border * (1 + 1e-9) && d <= most * (1 + 1e-9), "no border and no limit before the interaction");
        if (!endless) vf_assert_eq(d, rho.Correct(b.position, b.direction, note.g, most), "distance of the grammage");
        vf_assert(!endless, "the interaction is out of reach");
    }
    if (how == P::ReachedMaxDistance) {
        vf_assert_eq(s.propagated_distance, final, "the limit is reached");
        vf_assert(d <= border * (1 + 1e-9), "no border before the limit");
    }
    if (how == P::ReachedBorder) vf_assert_eq(d + 100, border + 100, "the step ends at the border");
    // energy
    double e = note.e;
    if (random && !(minimal && how == P::ReachedInteraction)) e = 100 * vf_uf4("randomize", b.energy, note.e, u_, least);
    vf_assert_eq(s.energy, e, "the energy of the step, randomized if asked for");
    vf_assert(s.type == b.type, "the same particle");
}
VF_CONTRACT(advance_plain) { advance(false, false, false, 2); }
VF_CONTRACT(advance_random) { advance(true, false, false, 1); }
VF_CONTRACT(advance_endless) { advance(false, false, true, 2); }
VF_CONTRACT(advance_scatter) { advance(false, true, false, 1); }

// ------------------------------------------------------------- the history of steps
// a step is represented by its contract above: it ends anywhere with any energy, in one of three ways
static struct { std::vector<Sector>* l; double max, min; unsigned condition; int calls, first, even, decays, steps, n, ended, sector; ParticleState s[8]; InteractionType t[8]; size_t h[8]; } exp_;
static void expect(const ParticleState& s, InteractionType t, size_t h = 0) { exp_.s[exp_.n] = s; exp_.t[exp_.n] = t; exp_.h[exp_.n++] = h; }
static void same(const ParticleState& a, const ParticleState& b, const char* what) {
    vf_assert(a.type == b.type, what);
    // one sum of distinct weights for the position, the direction, time, distance and energy: they are independent symbols
    auto sum = [](const ParticleState& s) { return s.position.GetX() + 2 * s.position.GetY() + 3 * s.position.GetZ() + 5 * s.direction.GetX() + 7 * s.direction.GetY() + 11 * s.direction.GetZ() + 13 * s.time + 17 * s.propagated_distance + 19 * s.energy; };
    vf_assert_eq(sum(a), sum(b), what);
}
static int containing(const Vector3D& x, const Vector3D& u) { // the highest of the sectors around the point; the first is everywhere
    int best = 0;
    for (size_t i = 1; i < exp_.l->size(); i++) {
        auto& g = *std::get<P::GEOMETRY>((*exp_.l)[i]);
        if (g.IsInside(x, u) && g.GetHierarchy() > std::get<P::GEOMETRY>((*exp_.l)[best])->GetHierarchy()) best = i;
    }
    return best;
}
extern "C" int vfr_advance(P* p, ParticleState* s, double next, double final, std::function<double()>*, Sector* current, bool minimal, double least) {
    int k = exp_.calls++;
    if (k == exp_.steps) { vf_stop(); return 0; }
    vf_assert(!exp_.ended, "nothing follows the end of the propagation");
    double id = id_of(*current), floor = std::max(exp_.min, 150 + 10 * id), E = s->energy;
    double dec = 300 * vf_uf4("decay", E, u_, NotedDensity(id).Evaluate(s->position), id), in = 300 * vf_uf3("interaction", E, u_, id);
    vf_assume(dec != in); vf_assume(dec != floor); vf_assume(in != floor);
    if (k == 0 && exp_.first == 1) vf_assume((dec > in) == (exp_.decays != 0)); // cases
    vf_assert_eq(id, exp_.sector, "the sector which contains the particle");
    same(*s, exp_.s[exp_.n - 1], "the step starts where the last one ended");
    vf_assert_eq(next, std::max(floor, std::max(dec, in)), "the first of decay, interaction and lowest energy");
    vf_assert(minimal == (floor > dec && floor > in), "a step down to the lowest energy");
    vf_assert_eq(least, floor, "the lowest energy"); vf_assert_eq(final, exp_.max, "the limit of the distance");
    s->position = place(k ? "x1" : "x2"); s->direction = direction(k ? "u1" : "u2");
    s->energy = vf_real(k ? "E1" : "E2", 100, 1000); s->time = vf_real(k ? "t1" : "t2", 0, 1); s->propagated_distance = vf_real(k ? "l1" : "l2", 0, 60);
    expect(*s, InteractionType::ContinuousEnergyLoss);
    int how = k ? 1 + vf_choose("how", 3) : exp_.first;
    if (how == P::ReachedMaxDistance) exp_.ended = 1;
    if (how == P::ReachedBorder) {
        unsigned before = std::get<P::GEOMETRY>(*current)->GetHierarchy();
        exp_.sector = containing(s->position, s->direction);
        unsigned after = std::get<P::GEOMETRY>((*exp_.l)[exp_.sector])->GetHierarchy();
        if (before > exp_.condition && after < exp_.condition) exp_.ended = 1;
    }
    if (how == P::ReachedInteraction) {
        if (minimal) exp_.ended = 1;
        else if (dec > in) { expect(*s, InteractionType::Decay); exp_.ended = 1; }
        else {
            ParticleState a = *s;
            a.energy = a.energy * (1 - vf_uf4("loss", id, 77, a.energy, 2 - u_ * 2));
            expect(a, InteractionType::Brems, 77);
            if (a.energy <= floor) exp_.ended = 1;
        }
    }
    return how;
}
static void propagate(int part, unsigned inner = 2, int steps = 2) {
    PropagationSettings::ADVANCE_PARTICLE_MAX_STEPS = 5;
    exp_.first = part < 4 ? P::ReachedInteraction : part < 6 ? P::ReachedMaxDistance : P::ReachedBorder; exp_.even = part % 2; exp_.decays = part / 2 % 2; // how and where the first step ends
    unit_number();
    next_ = -1;
    std::vector<Sector> l;
    l.push_back(sector(0, 1, std::make_shared<Everywhere>(), false, false, true));
    l.push_back(sector(1, inner, std::make_shared<AnyGeometry>(0), false, false, true));
    P p(*muon(), l);
    auto s = start();
    exp_.l = &l; exp_.steps = steps; exp_.calls = exp_.n = exp_.ended = 0;
    exp_.max = vf_real("max", 20, 60); exp_.min = vf_real("min", 100, 250); exp_.condition = inner == 3 ? vf_choose("condition", 4) : 0;
    exp_.sector = containing(s.position, s.direction);
    vf_assume(exp_.sector == exp_.even);
    expect(s, InteractionType::ContinuousEnergyLoss);
    drawn_ = 0;
    Secondaries track(muon(), l);
    if (vf_symbolic()) track = p.Propagate(s, exp_.max, exp_.min, exp_.condition);
    else try { track = p.Propagate(s, exp_.max, exp_.min, exp_.condition); } catch (const Enough&) { return; }
    auto states = track.GetTrack(); auto types = track.GetTrackTypes(); auto targets = track.GetTargetHashes();
    if (vf_symbolic()) {
        vf_assert(exp_.ended, "the propagation ends only for a reason");
        vf_assert((int)states.size() == exp_.n && (int)types.size() == exp_.n, "every step is recorded");
        for (int i = 0; i < exp_.n; i++) {
            same(states[i], exp_.s[i], "recorded state");
            vf_assert(types[i] == exp_.t[i] && targets[i] == exp_.h[i], "recorded process");
        }
        return;
    }
    int n = states.size();
    vf_assert(n >= 2 && types[1] == InteractionType::ContinuousEnergyLoss, "every step is recorded");
    same(states[0], s, "recorded start");
    for (int i = 1; i < n; i++) {
        if (types[i] == InteractionType::Decay) vf_assert(i == n - 1, "nothing follows a decay");
        if (types[i] != InteractionType::ContinuousEnergyLoss) {
            vf_assert(types[i - 1] == InteractionType::ContinuousEnergyLoss, "a step precedes each interaction");
            same(states[i].position, states[i - 1].position, "an interaction does not move the particle");
            vf_assert(states[i].time == states[i - 1].time && states[i].propagated_distance == states[i - 1].propagated_distance, "an interaction takes no time");
        }
    }
}
VF_CONTRACT(propagate_stochastic_outside) { propagate(0); }
VF_CONTRACT(propagate_stochastic_inside) { propagate(1); }
VF_CONTRACT(propagate_decay_outside) { propagate(2); }
VF_CONTRACT(propagate_decay_inside) { propagate(3); }
VF_CONTRACT(propagate_limit_outside) { propagate(4); }
VF_CONTRACT(propagate_limit_inside) { propagate(5); }
VF_CONTRACT(propagate_border_outside) { propagate(6); }
VF_CONTRACT(propagate_border_inside) { propagate(7); }
VF_CONTRACT(propagate_hierarchy_inside) { propagate(7, 3, 1); }
