// VF-SOURCES: EnergyCutSettings.cxx Constants.cxx Logging.cxx
#include "vf.h"
#include "PROPOSAL/EnergyCutSettings.h"
#include "PROPOSAL/crosssection/parametrization/Parametrization.h"
#include "PROPOSAL/Constants.h"
#include <nlohmann/json.hpp>
#include <new>
using namespace PROPOSAL;

static bool valid(double e, double v) { return e > 0 && v > 0 && v <= 1; }
VF_CONTRACT(cut_validation) {
    double e = vf_real("ecut", -10, 1000), v = vf_real("vcut", -0.5, 1.5);
    if (vf_bool("edge")) v = vf_choose("edge_v", 2); // the borders 0 and 1
    if (vf_bool("edge_e")) e = 0;
    bool cr = vf_bool("cont_rand");
    bool threw = false;
    try {
        EnergyCutSettings c(e, v, cr);
        vf_assert_eq(c.GetEcut(), e, "absolute cut is stored");
        vf_assert_eq(c.GetVcut(), v, "relative cut is stored");
        vf_assert(c.GetContRand() == cr, "continuous randomization flag is stored");
    } catch (const std::invalid_argument&) { threw = true; }
    vf_assert(threw == !valid(e, v), "exactly ecut > 0 and 0 < vcut <= 1 are accepted");
}
VF_CONTRACT(cut_infinite) {
    double v = vf_real("vcut", 0, 1), E = vf_real("E", 1, 1e9);
    vf_assume(v > 0); vf_assume(v <= 1); vf_assume(E > 0);
    EnergyCutSettings c(INF, v, false);
    vf_assert_eq(c.GetCut(E), v, "an infinite absolute cut leaves the relative one");
}
static EnergyCutSettings cut(const char* e, const char* v, const char* r) {
    double a = vf_real(e, 1, 1000), b = vf_real(v, 1e-3, 1);
    vf_assume(a > 0); vf_assume(b > 0); vf_assume(b <= 1);
    return EnergyCutSettings(a, b, vf_bool(r));
}
VF_CONTRACT(cut_threshold) {
    auto c = cut("ecut", "vcut", "cont_rand");
    double E = vf_real("E", 1, 1e9);
    vf_assume(E > 0);
    vf_assert_eq(c.GetCut(E), std::min(c.GetEcut() / E, c.GetVcut()), "threshold is min(ecut/E, vcut)");
    crosssection::KinematicLimits l;
    l.v_min = vf_real("v_min", 0, 0.5); l.v_max = vf_real("v_max", 0, 1);
    vf_assume(0 <= l.v_min); vf_assume(l.v_min <= l.v_max); vf_assume(l.v_max <= 1);
    double r = c.GetCut(l, E), t = c.GetCut(E);
    double want = t < l.v_min ? l.v_min : t > l.v_max ? l.v_max : t;
    vf_assert_eq(r, want, "threshold is limited to the kinematic interval");
    vf_assert(r >= l.v_min, "threshold is at least the lower kinematic limit");
    vf_assert(r <= l.v_max, "threshold is at most the upper kinematic limit");
}
VF_CONTRACT(cut_equality) {
    auto a = cut("ecut", "vcut", "cont_rand"), b = cut("ecut2", "vcut2", "cont_rand2");
    if (vf_bool("same_ecut")) b = EnergyCutSettings(a.GetEcut(), b.GetVcut(), b.GetContRand());
    if (vf_bool("same_vcut")) b = EnergyCutSettings(b.GetEcut(), a.GetVcut(), b.GetContRand());
    bool same = a.GetEcut() == b.GetEcut() && a.GetVcut() == b.GetVcut() && a.GetContRand() == b.GetContRand();
    vf_assert((a == b) == same, "cuts are equal exactly if all three values agree");
}
VF_CONTRACT(cut_hash) {
    auto a = cut("ecut", "vcut", "cont_rand");
    EnergyCutSettings b(a.GetEcut(), a.GetVcut(), a.GetContRand());
    vf_assert(vf_same_int(a.GetHash(), b.GetHash()), "equal cuts have equal hashes");
    double d = vf_real("other", 1, 1000);
    vf_assume(d > 0);
    vf_assume(d != a.GetEcut());
    EnergyCutSettings e(d, a.GetVcut(), a.GetContRand());
    vf_assert(!vf_same_int(a.GetHash(), e.GetHash()), "a different absolute cut changes the hash");
    double f = vf_real("otherv", 0, 1);
    vf_assume(f > 0); vf_assume(f <= 1);
    vf_assume(f != a.GetVcut());
    EnergyCutSettings g(a.GetEcut(), f, a.GetContRand());
    vf_assert(!vf_same_int(a.GetHash(), g.GetHash()), "a different relative cut changes the hash");
}
VF_CONTRACT(cut_from_document) {
    double e = vf_real("ecut", 1, 1000), v = vf_real("vcut", 1e-3, 1);
    vf_assume(e > 0); vf_assume(v > 0); vf_assume(v <= 1);
    bool cr = vf_bool("cont_rand"), inf = vf_bool("inf");
    nlohmann::json j;
    int miss = vf_choose("missing", 4);
    if (miss != 0) { if (inf) j["e_cut"] = vf_bool("long") ? "Infinity" : "inf"; else j["e_cut"] = e; }
    if (miss != 1) j["v_cut"] = v;
    if (miss != 2) j["cont_rand"] = cr;
    bool threw = false;
    try {
        EnergyCutSettings c(j);
        vf_assert_eq(c.GetEcut(), inf ? INF : e, "absolute cut from a document");
        vf_assert_eq(c.GetVcut(), v, "relative cut from a document");
        vf_assert(c.GetContRand() == cr, "continuous randomization from a document");
    } catch (const std::invalid_argument&) { threw = true; }
    vf_assert(threw == (miss != 3), "a document is accepted exactly if all three keys are given");
}
