// C13 atomic defects: classification, influence extents, equality and hashing
#include "fv.hpp"
#include <fiction/technology/sidb_defects.hpp>
#include <optional>
#include <utility>
//FV: fp = fp
//FV: trust = std::hash<double> hashes +0.0 and -0.0 alike and depends on the value's bytes only (libstdc++ _Hash_bytes is uninterpreted)
using namespace fiction;
using dt = sidb_defect_type;

static dt any_type(const char* n)
{
    const auto v = fv::any_in<uint8_t>(n, 0, 14);
    return static_cast<dt>(v);
}
static sidb_defect any_defect(const char* nt, const char* nc, const char* ne, const char* nl)
{
    const auto t = any_type(nt);
    const auto c = fv::any<int64_t>(nc);
    const auto e = fv::any<double>(ne);
    const auto l = fv::any<double>(nl);
    ASSUME(e >= 0.0);
    ASSUME(l >= 0.0);
    return sidb_defect{t, c, e, l};
}
// independent statement of the classification
static bool spec_charged(dt t, int64_t c) { return c != 0 || t == dt::DB || t == dt::SI_VACANCY || t == dt::ARSENIC; }

FV_PROOF(construction)
{
    const auto t = any_type("t");
    const auto c = fv::any<int64_t>("c");
    const auto e = fv::any<double>("e"), l = fv::any<double>("l");
    ASSUME(e >= 0.0 && l >= 0.0);
    const sidb_defect d{t, c, e, l};
    CHECK(d.type == t);
    CHECK(d.charge == c);
    CHECK(d.epsilon_r == e);
    CHECK(d.lambda_tf == l);
    const sidb_defect u{};
    CHECK(u.type == dt::UNKNOWN && u.charge == 0 && u.epsilon_r == 0.0 && u.lambda_tf == 0.0);
}
FV_PROOF(classification)
{
    const auto d = any_defect("t", "c", "e", "l");
    CHECK(is_charged_defect_type(d) == spec_charged(d.type, d.charge));
    CHECK(is_neutral_defect_type(d) == (!spec_charged(d.type, d.charge) && d.type != dt::NONE));
    // a defect is charged, neutral, or no defect at all, and exactly one of these
    CHECK(static_cast<int>(is_charged_defect_type(d)) + static_cast<int>(is_neutral_defect_type(d)) + static_cast<int>(d.type == dt::NONE && d.charge == 0) == 1);
    // the sign of the charge is classified exactly once
    CHECK(is_positively_charged_defect(d) == (d.charge > 0));
    CHECK(is_negatively_charged_defect(d) == (d.charge < 0));
    CHECK(is_neutrally_charged_defect(d) == (d.charge == 0));
    // anything with a non-zero charge is treated as charged
    CHECK(fv::implies(is_positively_charged_defect(d) || is_negatively_charged_defect(d), is_charged_defect_type(d)));
}
FV_PROOF(extent)
{
    const auto d  = any_defect("t", "c", "e", "l");
    const auto cx = fv::any<uint16_t>("cx"), cy = fv::any<uint16_t>("cy"), nx = fv::any<uint16_t>("nx"), ny = fv::any<uint16_t>("ny");
    const auto hc = fv::any<bool>("has_charged"), hn = fv::any<bool>("has_neutral");
    std::optional<std::pair<uint16_t, uint16_t>> co{}, no{};
    if (hc) co = std::make_pair(cx, cy);
    if (hn) no = std::make_pair(nx, ny);
    const auto r = defect_extent(d, co, no);
    if (spec_charged(d.type, d.charge))
    {
        CHECK(r.first == (hc ? cx : SIDB_CHARGED_DEFECT_HORIZONTAL_SPACING));
        CHECK(r.second == (hc ? cy : SIDB_CHARGED_DEFECT_VERTICAL_SPACING));
    }
    else if (d.type == dt::NONE)
    {
        CHECK(r.first == 0 && r.second == 0);
    }
    else
    {
        CHECK(r.first == (hn ? nx : SIDB_NEUTRAL_DEFECT_HORIZONTAL_SPACING));
        CHECK(r.second == (hn ? ny : SIDB_NEUTRAL_DEFECT_VERTICAL_SPACING));
    }
}
FV_PROOF(default_extent)
{
    const auto d = any_defect("t", "c", "e", "l");
    const auto r = defect_extent(d);
    const bool ch = spec_charged(d.type, d.charge);
    CHECK(r.first == (ch ? 26 : d.type == dt::NONE ? 0 : 1));
    CHECK(r.second == (ch ? 13 : 0));
    // a charged defect is kept further away than a neutral one
    const auto d2 = any_defect("t2", "c2", "e2", "l2");
    const auto r2 = defect_extent(d2);
    if (ch && !spec_charged(d2.type, d2.charge)) CHECK(r.first > r2.first && r.second > r2.second);
}
FV_PROOF(equality)
{
    const auto a = any_defect("t1", "c1", "e1", "l1");
    const auto b = any_defect("t2", "c2", "e2", "l2");
    CHECK((a == b) == (a.type == b.type && a.charge == b.charge && a.epsilon_r == b.epsilon_r && a.lambda_tf == b.lambda_tf));
    CHECK((a != b) == !(a == b));
    CHECK(a == a);
}
FV_PROOF(hash_equal)
{
    const auto a = any_defect("t1", "c1", "e1", "l1");
#ifdef FV_SYMBOLIC
    const auto b = any_defect("t2", "c2", "e2", "l2");
    ASSUME(a == b);
#else
    sidb_defect b = a;
    if (fv::any<bool>("neg1") && a.epsilon_r == 0.0) b.epsilon_r = -a.epsilon_r;
    if (fv::any<bool>("neg2") && a.lambda_tf == 0.0) b.lambda_tf = -a.lambda_tf;
#endif
    CHECK(std::hash<sidb_defect>{}(a) == std::hash<sidb_defect>{}(b));
}
