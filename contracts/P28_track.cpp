// VF-SOURCES: Secondaries.cxx propagation_utility/PropagationUtility.cxx propagation_utility/Displacment.cxx propagation_utility/Interaction.cxx propagation_utility/Time.cxx propagation_utility/ContRand.cxx geometry/Geometry.cxx geometry/Box.cxx density_distr/density_distr.cxx math/Cartesian3D.cxx math/Spherical3D.cxx math/Vector3D.cxx math/RandomGenerator.cxx scattering/multiple_scattering/Parametrization.cxx crosssection/CrossSection.cxx decay/DecayTable.cxx decay/DecayChannel.cxx decay/StableChannel.cxx medium/Components.cxx medium/Medium.cxx particle/ParticleDef.cxx particle/Particle.cxx Constants.cxx Logging.cxx EnergyCutSettings.cxx methods.cxx
// VF-BOUNDED: [in=.*] histories of up to four points (three for border queries)
// VF-ASSUME: geometry, density and propagation utilities of the sectors are arbitrary functions (their own contracts are P01, P02, P05, P27); histories of up to four points (three for border queries)
#include "sectors.hpp"

// ------------------------------------------------------------- histories
static const InteractionType TYPES[] = { InteractionType::ContinuousEnergyLoss, InteractionType::Brems, InteractionType::Decay };
static std::shared_ptr<ParticleDef> muon() {
    ParticleDef::GetParticleDefForType(11);
    return std::make_shared<ParticleDef>(MuMinusDef{});
}
static ParticleState point(int i) {
    auto r = [&](const char* n, double lo, double hi) { return vf_real(num(n, i).c_str(), lo, hi); };
    double dx = r("ux", 0.1, 1), dy = r("uy", 0.1, 1), dz = r("uz", 0.1, 1);
    double scale = vf_symbolic() ? 1 : 1 / std::sqrt(dx * dx + dy * dy + dz * dz);
    return ParticleState(ParticleType::MuMinus, Cartesian3D(r("x", -10, 10), r("y", -10, 10), r("z", -10, 10)), Cartesian3D(dx * scale, dy * scale, dz * scale), r("E", 200, 1000), r("t", 0, 1), r("l", 0, 10));
}
struct History { std::vector<ParticleState> p; std::vector<InteractionType> t; std::vector<size_t> h; };
static History history(Secondaries& s, int n, int kinds = 3) {
    History r;
    for (int i = 0; i < n; i++) {
        r.p.push_back(point(i));
        r.t.push_back(TYPES[kinds == 1 ? 0 : vf_choose(num("type", i).c_str(), kinds)]);
        r.h.push_back(70 + i);
        s.push_back(r.p[i], r.t[i], r.h[i]);
    }
    return r;
}
static void same(const Cartesian3D& a, const Cartesian3D& b, const char* what) {
    vf_assert_eq(a.GetX() + 100, b.GetX() + 100, what); vf_assert_eq(a.GetY() + 100, b.GetY() + 100, what); vf_assert_eq(a.GetZ() + 100, b.GetZ() + 100, what);
}
static void same(const ParticleState& a, const ParticleState& b, const char* what) {
    vf_assert(a.type == b.type, what);
    same(a.position, b.position, what); same(a.direction, b.direction, what);
    vf_assert_eq(a.energy, b.energy, what); vf_assert_eq(a.time + 100, b.time + 100, what); vf_assert_eq(a.propagated_distance + 100, b.propagated_distance + 100, what);
}
static Cartesian3D along(const ParticleState& a, const ParticleState& b, double* length = nullptr) {
    double dx = b.position.GetX() - a.position.GetX(), dy = b.position.GetY() - a.position.GetY(), dz = b.position.GetZ() - a.position.GetZ();
    double l = std::sqrt(dx * dx + dy * dy + dz * dz);
    vf_assume(l > 0);
    if (length) *length = l;
    return Cartesian3D(dx / l, dy / l, dz / l);
}
// the state a distance d behind the point, on the segment to the next one
static ParticleState at_distance(const ParticleState& p, const Cartesian3D& u, double d, double id = 0) {
    AnyDensity rho(id);
    double g = rho.Calculate(p.position, p.direction, d);
    double E = vf_uf2("upper", p.energy, g);
    return ParticleState(ParticleType::MuMinus, Cartesian3D(p.position.GetX() + d * u.GetX(), p.position.GetY() + d * u.GetY(), p.position.GetZ() + d * u.GetZ()), u, E,
                         p.time + vf_uf4("time", p.energy, E, g, rho.Evaluate(p.position)), p.propagated_distance + d);
}
static ParticleState at_energy(const ParticleState& p, const ParticleState& next, double E) {
    AnyDensity rho;
    auto u = along(p, next);
    double g = vf_uf2("solve", p.energy, E);
    double d = rho.Correct(p.position, p.direction, g, next.propagated_distance - p.propagated_distance);
    return ParticleState(ParticleType::MuMinus, Cartesian3D(p.position.GetX() + d * u.GetX(), p.position.GetY() + d * u.GetY(), p.position.GetZ() + d * u.GetZ()), u, E,
                         p.time + vf_uf4("time", p.energy, E, g, rho.Evaluate(p.position)), p.propagated_distance + d);
}

// ------------------------------------------------------------- what is recorded is returned, in order
static void recorded(bool emplace) {
    auto def = muon();
    Secondaries s(def, whole_space());
    s.reserve(2);
    const int n = 4;
    History r;
    for (int i = 0; i < n; i++) {
        r.p.push_back(point(i)); r.t.push_back(i % 2 ? InteractionType::Brems : InteractionType::ContinuousEnergyLoss); r.h.push_back(70 + i);
        auto& p = r.p[i];
        if (emplace) s.emplace_back(ParticleType::MuMinus, p.position, p.direction, p.energy, p.time, p.propagated_distance, r.t[i], r.h[i]);
        else s.push_back(p, r.t[i], r.h[i]);
        same(s.back(), p, "last point");
    }
    vf_assert(s.GetTrackLength() == n, "number of points");
    auto track = s.GetTrack(); auto pos = s.GetTrackPositions(); auto dir = s.GetTrackDirections(); auto E = s.GetTrackEnergies(); auto t = s.GetTrackTimes(); auto l = s.GetTrackPropagatedDistances(); auto types = s.GetTrackTypes(); auto h = s.GetTargetHashes();
    vf_assert(track.size() == n && pos.size() == n && dir.size() == n && E.size() == n && t.size() == n && l.size() == n && types.size() == n && h.size() == n, "one entry for each point");
    for (int i = 0; i < n; i++) {
        same(track[i], r.p[i], "points in order"); same(s[i], r.p[i], "point by number");
        same(pos[i], r.p[i].position, "positions in order"); same(dir[i], r.p[i].direction, "directions in order");
        vf_assert(vf_same_real(E[i], r.p[i].energy), "energies in order"); vf_assert(vf_same_real(t[i], r.p[i].time), "times in order"); vf_assert(vf_same_real(l[i], r.p[i].propagated_distance), "distances in order");
        vf_assert(types[i] == r.t[i] && h[i] == r.h[i], "interactions in order");
    }
    same(s.GetInitialState(), r.p[0], "first state"); same(s.GetFinalState(), r.p[n - 1], "final state");
    s.clear();
    vf_assert(s.GetTrackLength() == 0 && s.GetTrackTypes().empty() && s.GetTargetHashes().empty(), "cleared");
}
VF_CONTRACT(recorded_push) { recorded(false); }
VF_CONTRACT(recorded_emplace) { recorded(true); }

static void stochastic(const StochasticLoss& a, const History& r, int i) {
    vf_assert(a.type == (int)r.t[i] && a.target_hash == r.h[i], "kind and target of the loss");
    vf_assert_eq(a.energy + 1e4, r.p[i - 1].energy - r.p[i].energy + 1e4, "lost energy"); vf_assert_eq(a.parent_particle_energy, r.p[i - 1].energy, "energy before the loss");
    same(a.position, r.p[i].position, "place of the loss"); same(a.direction, r.p[i].direction, "direction of the loss");
    vf_assert(vf_same_real(a.time, r.p[i].time) && vf_same_real(a.propagated_distance, r.p[i].propagated_distance), "time and distance of the loss");
}
static void continuous(const ContinuousLoss& a, const History& r, int i) {
    vf_assert(a.type == (int)InteractionType::ContinuousEnergyLoss, "kind of the loss");
    vf_assert_eq(a.energy + 1e4, r.p[i - 1].energy - r.p[i].energy + 1e4, "lost energy"); vf_assert_eq(a.parent_particle_energy, r.p[i - 1].energy, "energy before the loss");
    same(a.start_position, r.p[i - 1].position, "begin of the loss"); same(a.end_position, r.p[i].position, "end of the loss");
    same(a.direction_initial, r.p[i - 1].direction, "direction before"); same(a.direction_final, r.p[i].direction, "direction after");
    vf_assert(vf_same_real(a.time_initial, r.p[i - 1].time) && vf_same_real(a.time_final, r.p[i].time), "times of the loss");
}
VF_CONTRACT(losses) {
    auto def = muon();
    Secondaries s(def, whole_space());
    auto r = history(s, 4);
    auto all = s.GetStochasticLosses(), brems = s.GetStochasticLosses(InteractionType::Brems), named = s.GetStochasticLosses(string("Brems"));
    auto cont = s.GetContinuousLosses();
    size_t k = 0, c = 0;
    for (int i = 1; i < 4; i++) {
        if (r.t[i] == InteractionType::Brems) {
            vf_assert(k < all.size() && k < brems.size() && k < named.size(), "every stochastic loss is returned");
            stochastic(all[k], r, i); stochastic(brems[k], r, i); stochastic(named[k], r, i); k++;
        }
        if (r.t[i] == InteractionType::ContinuousEnergyLoss) { vf_assert(c < cont.size(), "every continuous loss is returned"); continuous(cont[c], r, i); c++; }
    }
    vf_assert(all.size() == k && brems.size() == k && named.size() == k, "no other stochastic loss");
    vf_assert(cont.size() == c, "no other continuous loss");
    vf_assert(s.GetStochasticLosses(InteractionType::Epair).empty(), "no loss of a kind that did not occur");
}
VF_CONTRACT(losses_inside) {
    auto def = muon();
    Secondaries s(def, whole_space());
    auto r = history(s, 3);
    AnyGeometry g;
    auto st = s.GetStochasticLosses(g); auto cont = s.GetContinuousLosses(g); auto track = s.GetTrack(g);
    size_t k = 0, c = 0, n = 0;
    for (int i = 0; i < 3; i++) {
        if (!g.IsInside(r.p[i].position, r.p[i].direction)) continue;
        vf_assert(n < track.size(), "every point inside is returned"); same(track[n], r.p[i], "points inside in order"); n++;
        if (i == 0) continue;
        if (r.t[i] == InteractionType::Brems) { vf_assert(k < st.size(), "every loss inside is returned"); stochastic(st[k], r, i); k++; }
        if (r.t[i] == InteractionType::ContinuousEnergyLoss) { vf_assert(c < cont.size(), "every continuous loss inside is returned"); continuous(cont[c], r, i); c++; }
    }
    vf_assert(st.size() == k && cont.size() == c && track.size() == n, "nothing outside is returned");
}

// ------------------------------------------------------------- decay products
struct Products : public DecayChannel {
    DecayChannel* clone() const override { return new Products(*this); }
    const std::string& GetName() const override { static const std::string n = "products"; return n; }
    std::vector<ParticleState> Decay(const ParticleDef&, const ParticleState& p) override {
        std::vector<ParticleState> v;
        v.push_back(ParticleState(ParticleType::EMinus, p.position, p.direction, p.energy / 4, p.time, 0));
        v.push_back(ParticleState(ParticleType::NuMu, p.position, p.direction, 3 * p.energy / 4, p.time, 0));
        return v;
    }
    bool compare(const DecayChannel&) const override { return true; }
};
VF_CONTRACT(decay_products) {
    auto def = muon();
    const_cast<DecayTable&>(def->decay_table) = DecayTable();
    const_cast<DecayTable&>(def->decay_table).addChannel(1., Products());
    std::function<double()> rnd = [] { return 0.5; };
    RandomGenerator::Get().SetRandomNumberGenerator(rnd);
    Secondaries s(def, whole_space());
    auto r = history(s, 3);
    auto d = s.GetDecayProducts();
    size_t k = 0;
    for (int i = 0; i < 3; i++) if (r.t[i] == InteractionType::Decay) {
        vf_assert(d.size() >= k + 2, "every product is returned");
        vf_assert(d[k].type == (int)ParticleType::EMinus && d[k + 1].type == (int)ParticleType::NuMu, "kinds of the products");
        vf_assert_eq(d[k].energy + d[k + 1].energy, r.p[i].energy, "the products share the energy at the decay");
        same(d[k].position, r.p[i].position, "products start at the decay"); same(d[k + 1].position, r.p[i].position, "products start at the decay");
        k += 2;
    }
    vf_assert(d.size() == k, "no product without a decay");
}

// ------------------------------------------------------------- states at an energy or distance
VF_CONTRACT(state_for_energy) {
    auto def = muon();
    Secondaries s(def, whole_space());
    auto r = history(s, 3, 2);
    double E = vf_real("E", 150, 1100);
    auto got = s.GetStateForEnergy(E);
    if (E >= r.p[0].energy) { same(got, r.p[0], "first state above the initial energy"); return; }
    for (int i = 1; i < 3; i++) if (r.p[i].energy < E) {
        if (r.t[i] == InteractionType::ContinuousEnergyLoss) same(got, at_energy(r.p[i - 1], r.p[i], E), "state inside a continuous loss");
        else same(got, r.p[i - 1], "state before a stochastic loss");
        return;
    }
    same(got, r.p[2], "final state below the final energy");
}
VF_CONTRACT(state_for_distance) {
    auto def = muon();
    Secondaries s(def, whole_space());
    auto r = history(s, 3, 1);
    double l = vf_real("l", -1, 11);
    auto got = s.GetStateForDistance(l);
    if (r.p[0].propagated_distance >= l) { same(got, r.p[0], "first state before the initial distance"); return; }
    for (int i = 1; i < 3; i++) if (r.p[i].propagated_distance > l) {
        double d = l - r.p[i - 1].propagated_distance;
        same(got, at_distance(r.p[i - 1], along(r.p[i - 1], r.p[i]), d), "state at the distance");
        vf_assert_eq(got.propagated_distance + 100, l + 100, "the state has the distance asked for");
        return;
    }
    same(got, r.p[2], "final state beyond the final distance");
}

// ------------------------------------------------------------- borders
static const double NEAR = PARTICLE_POSITION_RESOLUTION;
static void entry(int n) {
    auto def = muon();
    Secondaries s(def, whole_space());
    auto r = history(s, n, 1);
    AnyGeometry g;
    auto got = s.GetEntryPoint(g);
    if (g.IsEntering(r.p[0].position, r.p[0].direction)) { vf_assert(got != nullptr, "track begins on the border"); same(*got, r.p[0], "entry at the first point"); return; }
    if (g.IsInside(r.p[0].position, r.p[0].direction)) { vf_assert(got == nullptr, "no entry if the track begins inside"); return; }
    for (int i = 0; i + 1 < n; i++) {
        double l;
        auto u = along(r.p[i], r.p[i + 1], &l);
        double d = g.DistanceToBorder(r.p[i].position, u).first;
        if (d <= l && d >= 0) {
            vf_assert(got != nullptr, "the border lies on this segment");
            if (std::fabs(l - d) < NEAR) same(*got, r.p[i + 1], "entry at a recorded point");
            else same(*got, at_distance(r.p[i], u, d), "entry between two points");
            return;
        }
    }
    vf_assert(got == nullptr, "no entry");
}
VF_CONTRACT(entry_2) { entry(2); }
VF_CONTRACT(entry_3) { entry(3); }
static void exit_(int n) {
    auto def = muon();
    Secondaries s(def, whole_space());
    auto r = history(s, n, 1);
    AnyGeometry g;
    auto got = s.GetExitPoint(g);
    auto& last = r.p[n - 1];
    if (g.IsLeaving(last.position, last.direction)) { vf_assert(got != nullptr, "track ends on the border"); same(*got, last, "exit at the last point"); return; }
    if (g.IsInside(last.position, last.direction)) { vf_assert(got == nullptr, "no exit if the track ends inside"); return; }
    for (int i = n - 1; i > 0; i--) {
        double l;
        auto u = along(r.p[i - 1], r.p[i], &l);
        double d = g.DistanceToBorder(r.p[i].position, Cartesian3D(-u.GetX(), -u.GetY(), -u.GetZ())).first;
        if (d <= l && d >= 0) {
            vf_assert(got != nullptr, "the border lies on this segment");
            if (std::fabs(l - d) < NEAR) same(*got, r.p[i - 1], "exit at a recorded point");
            else same(*got, at_distance(r.p[i - 1], u, l - d), "exit between two points");
            return;
        }
    }
    if (g.IsLeaving(r.p[0].position, r.p[0].direction)) { vf_assert(got != nullptr, "track begins on the border"); same(*got, r.p[0], "exit at the first point"); return; }
    vf_assert(got == nullptr, "no exit");
}
VF_CONTRACT(exit_2) { exit_(2); }
VF_CONTRACT(exit_3) { exit_(3); }
static void closest(int n) {
    auto def = muon();
    Secondaries s(def, whole_space());
    auto r = history(s, n, 1);
    AnyGeometry g(vf_real("center", -5, 5));
    g.SetPosition(Cartesian3D(vf_real("cx", -5, 5), vf_real("cy", -5, 5), vf_real("cz", -5, 5)));
    auto got = s.GetClosestApproachPoint(g);
    vf_assert(got != nullptr, "there always is a closest point");
    for (int i = 0; i + 1 < n; i++) {
        double l;
        auto u = along(r.p[i], r.p[i + 1], &l);
        auto c = g.GetPosition();
        double d = (c.GetX() - r.p[i].position.GetX()) * u.GetX() + (c.GetY() - r.p[i].position.GetY()) * u.GetY() + (c.GetZ() - r.p[i].position.GetZ()) * u.GetZ();
        if (std::fabs(d - l) <= NEAR) { same(*got, r.p[i + 1], "closest at a recorded point"); return; }
        if (d < l) {
            if (d < NEAR) same(*got, r.p[i], "closest at the begin of a segment");
            else same(*got, at_distance(r.p[i], u, d), "closest on a segment");
            return;
        }
    }
    same(*got, r.p[n - 1], "closest at the end");
}
VF_CONTRACT(closest_1) { closest(1); }
VF_CONTRACT(closest_2) { closest(2); }
VF_CONTRACT(closest_3) { closest(3); }
VF_CONTRACT(hit) {
    auto def = muon();
    Secondaries s(def, whole_space());
    auto r = history(s, 2, 1);
    AnyGeometry g;
    bool got = s.HitGeometry(g);
    auto u = along(r.p[0], r.p[1]);
    bool want = g.IsInside(r.p[0].position, u) || (g.IsInfront(r.p[0].position, u) && g.IsBehind(r.p[1].position, u)) || g.IsInside(r.p[1].position, r.p[1].direction);
    vf_assert(got == want, "hit if a point lies inside or the geometry lies between two points");
}
VF_CONTRACT(energy_lost_inside) {
    auto def = muon();
    Secondaries s(def, whole_space());
    auto r = history(s, 2, 1);
    AnyGeometry g;
    auto in = s.GetEntryPoint(g), out = s.GetExitPoint(g);
    double got = s.GetELost(g);
    bool starts = g.IsInside(r.p[0].position, r.p[0].direction);
    double a = in ? in->energy : r.p[0].energy, b = out ? out->energy : r.p[1].energy;
    if (!in && !out && !starts) vf_assert_eq(got, 0, "nothing is lost in a geometry that is never reached");
    else vf_assert_eq(got + 1e4, a - b + 1e4, "energy at the entry (or start) minus energy at the exit (or end)");
}

// ------------------------------------------------------------- sectors
VF_CONTRACT(sector) {
    auto def = muon();
    std::vector<Sector> sec;
    int best = -1; unsigned top = 0;
    for (int i = 0; i < 3; i++) {
        bool in = vf_choose(num("inside", i).c_str(), 2);
        auto g = std::make_shared<Everywhere>(in);
        unsigned h = vf_choose(num("hierarchy", i).c_str(), 2);
        g->SetHierarchy(h);
        sec.push_back(Sector(g, utility(), std::make_shared<AnyDensity>(i)));
        if (in && (best < 0 || h > top)) { best = i; top = h; }
    }
    Secondaries s(def, sec);
    auto r = history(s, 2, 1);
    double l = vf_real("l", 0, 10);
    vf_assume(r.p[0].propagated_distance < l); vf_assume(l < r.p[1].propagated_distance);
    bool thrown = false;
    try {
        auto got = s.GetStateForDistance(l);
        same(got, at_distance(r.p[0], along(r.p[0], r.p[1]), l - r.p[0].propagated_distance, best), "the sector of the highest hierarchy is used");
    } catch (const std::logic_error&) { thrown = true; }
    vf_assert(thrown == (best < 0), "a point outside all sectors is rejected");
}
