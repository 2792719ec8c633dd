// VF-SOURCES: decay/DecayTable.cxx decay/DecayChannel.cxx decay/StableChannel.cxx decay/LeptonicDecayChannel.cxx decay/TwoBodyPhaseSpace.cxx decay/ManyBodyPhaseSpace.cxx particle/Particle.cxx particle/ParticleDef.cxx math/Cartesian3D.cxx math/Vector3D.cxx Constants.cxx Logging.cxx methods.cxx
// VF-BOUNDED: [in=select_channel|copies|equality] tables of up to three channels (arbitrary branching ratios)
#include "common.hpp"
#include "PROPOSAL/decay/DecayTable.h"
#include "PROPOSAL/decay/DecayChannel.h"
#include "PROPOSAL/decay/StableChannel.h"
#include "PROPOSAL/decay/ManyBodyPhaseSpace.h"
#include "PROPOSAL/decay/LeptonicDecayChannel.h"
#include "PROPOSAL/decay/TwoBodyPhaseSpace.h"
#include "PROPOSAL/particle/Particle.h"
// a channel known by its number; counts the living objects and remembers the sampling mode it was given
static int g_alive;
struct Numbered : public DecayChannel {
    int id; bool uniform = false;
    static const std::string NAME;
    Numbered(int i) : id(i) { g_alive++; }
    Numbered(const Numbered& o) : DecayChannel(o), id(o.id), uniform(o.uniform) { g_alive++; }
    ~Numbered() { g_alive--; }
    DecayChannel* clone() const override { return new Numbered(*this); }
    std::vector<ParticleState> Decay(const ParticleDef&, const ParticleState&) override { return {}; }
    void SetUniformSampling(bool u) override { uniform = u; }
    const std::string& GetName() const override { return NAME; }
    bool compare(const DecayChannel& o) const override { auto* p = dynamic_cast<const Numbered*>(&o); return p && p->id == id; }
};
const std::string Numbered::NAME = "numbered";
static int id_of(DecayChannel& c) { return dynamic_cast<Numbered&>(c).id; }
static double ratio(const char* n) { double b = vf_real(n, 0.01, 1); vf_assume(b > 0); return b; }
static double g_b[3];
static DecayTable table(int n, int first = 0) {
    static const char* N[] = {"b0", "b1", "b2"};
    DecayTable t;
    for (int i = 0; i < n; i++) { g_b[i] = ratio(N[i]); if (!vf_symbolic() && i && vf_bool(i == 1 ? "tie" : "tie2")) g_b[i] = g_b[i - 1]; t.addChannel(g_b[i], Numbered(first + i)); }
    return t;
}
// every channel gets an interval of the length of its branching ratio
VF_CONTRACT(select_channel) {
    g_alive = 0;
    int n = 1 + vf_choose("channels", 3);
    {
        DecayTable t = table(n);
        vf_assert(g_alive == n, "the table owns one copy of every channel added");
        double u = vf_real("u", 0, 0.999), sum = 0;
        vf_assume(u >= 0); vf_assume(u < 1);
        for (int i = 0; i < n; i++) sum += g_b[i];
        if (!vf_symbolic()) vf_assume(u < 1 - 1e-9);
        int k = id_of(t.SelectChannel(u));
        vf_assert(k >= 0 && k < n, "one of the channels is selected");
        // channels are ordered by branching ratio, equal ones in the order they were added
        double lo = 0;
        for (int i = 0; i < n; i++) if (g_b[i] < g_b[k] || (g_b[i] == g_b[k] && i < k)) lo += g_b[i];
        double x = u * sum, tol = vf_symbolic() ? 0 : 1e-12;
        vf_assert(lo <= x + tol, "selected channel's cumulative interval starts at or below the random number");
        vf_assert(x < lo + g_b[k] + tol, "selected channel's cumulative interval ends above the random number");
        vf_cover("reached");
    }
    vf_assert(g_alive == 0, "the table releases its channels");
}
VF_CONTRACT(copies) {
    g_alive = 0;
    int n = vf_choose("channels", 3), how = vf_choose("how", 3);
    {
        DecayTable a = table(n);
        DecayTable c;
        if (how == 0) c = a;
        else if (how == 1) { c.addChannel(ratio("old"), Numbered(50)); c = a; }
        else { DecayTable d(a); swap(c, d); vf_assert(d == DecayTable(), "swapping exchanges the content"); }
        vf_assert(c == a, "a copy is equal"); vf_assert(!(c != a), "a copy is not unequal");
        vf_assert(g_alive == 2 * n, "a copy owns its own channels");
        DecayTable& self = a; a = self;
        vf_assert(c == a, "assignment to itself changes nothing");
        if (n) {
            a.SetUniformSampling(true);
            double u = vf_real("u", 0, 0.999);
            vf_assume(u >= 0); vf_assume(u < 1);
            vf_assert(dynamic_cast<Numbered&>(a.SelectChannel(u)).uniform, "uniform sampling reaches every channel");
            vf_assert(!dynamic_cast<Numbered&>(c.SelectChannel(u)).uniform, "a copy is independent of the original");
        }
        a.addChannel(ratio("more"), Numbered(9));
        vf_assert(a != c, "a further channel makes the tables unequal");
        a.SetStable();
        vf_assert(g_alive == n, "a stable table releases its channels");
    }
    vf_assert(g_alive == 0, "all channels are released");
}
VF_CONTRACT(equality) {
    DecayTable a, b;
    double p = ratio("p"), q = ratio("q"), r = ratio("r"), s = ratio("s");
    if (!vf_symbolic()) { if (vf_bool("pr")) r = p; if (vf_bool("qs")) s = q; }
    int i = vf_choose("i", 2), j = vf_choose("j", 2);
    a.addChannel(p, Numbered(0)); a.addChannel(q, Numbered(1));
    b.addChannel(r, Numbered(0)); b.addChannel(s, Numbered(1));
    vf_assume(p < q); vf_assume(r < s);
    vf_assert((a == b) == (p == r && q == s), "tables with the same channels are equal exactly if the ratios agree");
    DecayTable c, d;
    c.addChannel(p, Numbered(0)); c.addChannel(q, Numbered(i));
    d.addChannel(p, Numbered(j)); d.addChannel(q, Numbered(1));
    vf_assert((c == d) == (j == 0 && i == 1), "tables with the same ratios are equal exactly if the channels agree");
    vf_assert((c != d) == !(j == 0 && i == 1), "unequal is the negation of equal");
}
VF_CONTRACT(stable) {
    double u = vf_real("u", 0, 0.999);
    vf_assume(u >= 0); vf_assume(u < 1);
    DecayTable t = table(vf_choose("channels", 3));
    t.SetStable();
    auto& c = t.SelectChannel(u);
    vf_assert(c.GetName() == "StableChannel", "a stable table selects the stable channel");
    vf_assert(c.Decay(particle_of_mass(1), ParticleState()).empty(), "a stable particle has no products");
    vf_assert(t == DecayTable().addChannel(1.1, StableChannel()), "a stable table holds one stable channel");
}
VF_CONTRACT(channel_equality) {
    ParticleDef::GetParticleDefForType(11);
    double m = vf_real("m", 1, 100), o = vf_real("o", 1, 100);
    vf_assume(m > 0); vf_assume(o > 0);
    auto def = [](int t, double m) { return ParticleDef("p" + std::to_string(t), m, m, -1, 0, HardComponentTables::EmptyTable, DecayTable(), t, 0); };
    auto a = def(900001, m), b = def(900002, m), c = def(900003, o);
    TwoBodyPhaseSpace ab(a, b), ac(a, c), cb(c, b);
    LeptonicDecayChannelApprox l(a, b, c), l1(c, b, a);
    LeptonicDecayChannel x(a, b, c);
    StableChannel s;
    vf_assert(ab == TwoBodyPhaseSpace(ab), "a copied two-body channel is equal");
    vf_assert(ab != ac, "two-body channels with different products differ"); vf_assert(ab != cb, "two-body channels with different products differ");
    vf_assert(l == LeptonicDecayChannelApprox(l), "a copied leptonic channel is equal"); vf_assert(l != l1, "leptonic channels with different products differ");
    vf_assert((DecayChannel&)ab != (DecayChannel&)s && (DecayChannel&)s != (DecayChannel&)ab && (DecayChannel&)l != (DecayChannel&)s && (DecayChannel&)ab != (DecayChannel&)l, "channels of different kind differ");
    vf_assert(s == StableChannel(), "stable channels are equal");
    auto many = [&](const ParticleDef& x, const ParticleDef& y, const ParticleDef& z) { return ManyBodyPhaseSpace::Builder().addDaughter(x).addDaughter(y).addDaughter(z).build(); };
    auto p = many(a, b, a), q = many(a, b, a), r = many(a, b, c);
    vf_assert(p == q, "many-body channels with the same products are equal"); vf_assert(p == ManyBodyPhaseSpace(p), "a copied many-body channel is equal");
    vf_assert((p == r) == false, "many-body channels with different products differ");
    r.SetUniformSampling(false); auto p2 = p; p2.SetUniformSampling(false);
    vf_assert(p != p2, "the sampling mode matters");
}
