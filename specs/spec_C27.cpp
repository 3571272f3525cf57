// The façade: a field is planned by the algorithms its options name, one after another.
#include "raw.h"
#include "fields2cover.h"
namespace spec {
typedef f2c::rp::RoutePlannerBase Planner;
typedef f2c::sg::BruteForce BF;
typedef f2c::Options Options;
inline F2CSwathsByCells best(const Options& o, double w, const F2CCells& land) {
  BF g;
  if (o.sg_obj == f2c::SGObjFunc::N_SWATH_MOD) { f2c::obj::NSwathModified c; return g.generateBestSwaths(c, w, land); }
  if (o.sg_obj == f2c::SGObjFunc::N_SWATH) { f2c::obj::NSwath c; return g.generateBestSwaths(c, w, land); }
  if (o.sg_obj == f2c::SGObjFunc::SWATH_LENGTH) { f2c::obj::SwathLength c; return g.generateBestSwaths(c, w, land); }
  if (o.sg_obj == f2c::SGObjFunc::FIELD_COV) { f2c::obj::FieldCoverage c; return g.generateBestSwaths(c, w, land); }
  f2c::obj::Overlaps c;
  return g.generateBestSwaths(c, w, land);
}
inline bool valid(const Options& o) {
  return (o.sg_obj == f2c::SGObjFunc::N_SWATH_MOD || o.sg_obj == f2c::SGObjFunc::N_SWATH || o.sg_obj == f2c::SGObjFunc::SWATH_LENGTH || o.sg_obj == f2c::SGObjFunc::FIELD_COV || o.sg_obj == f2c::SGObjFunc::OVERLAPS) &&
    (o.hg_alg == f2c::HGAlg::NONE || o.hg_alg == f2c::HGAlg::CONST) && (o.sg_alg == f2c::SGAlg::BRUTE_FORCE || o.sg_alg == f2c::SGAlg::GIVEN_ANGLE);
}
F2CRoute lhs_cells(const F2CRobot& r, const F2CCells& cs, const Options& o) { assume(valid(o)); return f2c::planCovRoute(r, cs, o); }
//= spec::lhs_cells ;whole=f2c::types::Route ;opaque=*::genRoute(*|*::generateBestSwaths(*|*::generateSwaths(*|*::generateHeadland*
F2CRoute cells(const F2CRobot& r, const F2CCells& cs, const Options& o) {
  assume(valid(o));
  Planner p;
  if (o.hg_alg == f2c::HGAlg::NONE) {
    F2CSwathsByCells s;
    if (o.sg_alg == f2c::SGAlg::GIVEN_ANGLE) { BF g; s = g.generateSwaths(o.sg_angle, r.getCovWidth(), cs); } else s = best(o, r.getCovWidth(), cs);
    return p.genRoute(cs, s);
  }
  f2c::hg::ConstHL h;
  F2CCells land = h.generateHeadlandArea(cs, r.getWidth(), o.hg_swaths);
  std::vector<F2CCells> rings = h.generateHeadlandSwaths(cs, r.getWidth(), o.hg_swaths);
  F2CSwathsByCells s;
  if (o.sg_alg == f2c::SGAlg::GIVEN_ANGLE) { BF g; s = g.generateSwaths(o.sg_angle, r.getCovWidth(), land); } else s = best(o, r.getCovWidth(), land);
  return p.genRoute(rings.empty() ? cs : rings[o.hg_swaths / 2], s);
}
// one cell, and a field: planned like its cells, on a copy in UTM when its own system is not to be used
F2CRoute lhs_cell(const F2CRobot& r, const F2CCell& c, const Options& o) { return f2c::planCovRoute(r, c, o); }
//= spec::lhs_cell ;whole=f2c::types::Route ;opaque=f2c::planCovRoute(const f2c::types::Robot &, const f2c::types::Cells &*
F2CRoute cell(const F2CRobot& r, const F2CCell& c, const Options& o) { F2CCells cs; cs.addGeometry(c); return f2c::planCovRoute(r, cs, o); }
F2CRoute lhs_field(const F2CRobot& r, const F2CField& f, const Options& o, bool local) { return f2c::planCovRoute(r, f, o, local); }
//= spec::lhs_field ;whole=f2c::types::Route|f2c::types::Field ;opaque=f2c::planCovRoute(const f2c::types::Robot &, const f2c::types::Cells &*|f2c::Transform::*
F2CRoute field(const F2CRobot& r, const F2CField& f, const Options& o, bool local) {
  F2CField mine = f.clone();
  if (local) return f2c::planCovRoute(r, mine.getField(), o);
  f2c::Transform::transformToUTM(mine);
  F2CRoute route = f2c::planCovRoute(r, mine.getField(), o);
  return f2c::Transform::transformToPrevCRS(route, mine);
}
F2CRoute lhs_field_plain(const F2CRobot& r, const F2CField& f, bool local) { return f2c::planCovRoute(r, f, local); }
//= spec::lhs_field_plain ;whole=f2c::types::Route|f2c::types::Field ;opaque=f2c::planCovRoute(const f2c::types::Robot &, const f2c::types::Cells &*|f2c::Transform::*
F2CRoute field_plain(const F2CRobot& r, const F2CField& f, bool local) { return f2c::planCovRoute(r, f, Options(), local); }
// the options used when none are given
bool lhs_defaults() {
  Options o;
  return o.hg_alg == f2c::HGAlg::CONST && o.hg_swaths == 3 && o.sg_alg == f2c::SGAlg::BRUTE_FORCE && o.sg_obj == f2c::SGObjFunc::N_SWATH_MOD && o.sg_angle == 0 && o.pp_alg == f2c::PPAlg::DUBINS;
}
//= spec::lhs_defaults
bool defaults() { return true; }
// a path: the route driven with the turns the options name
inline F2CPath driven(const F2CRobot& r, const F2CRoute& route, const Options& o) {
  if (o.pp_alg == f2c::PPAlg::DUBINS) { f2c::pp::DubinsCurves t; return f2c::pp::PathPlanning::planPath(r, route, t); }
  if (o.pp_alg == f2c::PPAlg::DUBINS_CC) { f2c::pp::DubinsCurvesCC t; return f2c::pp::PathPlanning::planPath(r, route, t); }
  if (o.pp_alg == f2c::PPAlg::REEDS_SHEPP) { f2c::pp::ReedsSheppCurves t; return f2c::pp::PathPlanning::planPath(r, route, t); }
  f2c::pp::ReedsSheppCurvesHC t;
  return f2c::pp::PathPlanning::planPath(r, route, t);
}
inline bool turns(const Options& o) { return o.pp_alg == f2c::PPAlg::DUBINS || o.pp_alg == f2c::PPAlg::DUBINS_CC || o.pp_alg == f2c::PPAlg::REEDS_SHEPP || o.pp_alg == f2c::PPAlg::REEDS_SHEPP_HC; }
F2CPath lhs_path_cells(const F2CRobot& r, const F2CCells& c, const Options& o) { assume(turns(o)); return f2c::planCovPath(r, c, o); }
//= spec::lhs_path_cells ;whole=f2c::types::Route|f2c::types::Path ;opaque=f2c::planCovRoute(*|f2c::pp::PathPlanning::planPath(*
F2CPath path_cells(const F2CRobot& r, const F2CCells& c, const Options& o) { assume(turns(o)); return driven(r, f2c::planCovRoute(r, c, o), o); }
F2CPath lhs_path_cell(const F2CRobot& r, const F2CCell& c, const Options& o) { assume(turns(o)); return f2c::planCovPath(r, c, o); }
//= spec::lhs_path_cell ;whole=f2c::types::Route|f2c::types::Path ;opaque=f2c::planCovRoute(const f2c::types::Robot &, const f2c::types::Cells &*|f2c::pp::PathPlanning::planPath(*
F2CPath path_cell(const F2CRobot& r, const F2CCell& c, const Options& o) { assume(turns(o)); F2CCells cs; cs.addGeometry(c); return driven(r, f2c::planCovRoute(r, cs, o), o); }
F2CPath lhs_path_field(const F2CRobot& r, const F2CField& f, const Options& o, bool local) { assume(turns(o)); return f2c::planCovPath(r, f, o, local); }
//= spec::lhs_path_field ;whole=f2c::types::Route|f2c::types::Field|f2c::types::Path ;opaque=f2c::planCovRoute(const f2c::types::Robot &, const f2c::types::Cells &*|f2c::Transform::*|f2c::pp::PathPlanning::planPath(*
F2CPath path_field(const F2CRobot& r, const F2CField& f, const Options& o, bool local) {
  assume(turns(o));
  F2CField mine = f.clone();
  if (local) return driven(r, f2c::planCovRoute(r, mine.getField(), o), o);
  f2c::Transform::transformToUTM(mine);
  F2CPath path = driven(r, f2c::planCovRoute(r, mine.getField(), o), o);
  return f2c::Transform::transformToPrevCRS(path, mine);
}
F2CPath lhs_path_plain(const F2CRobot& r, const F2CField& f, bool local) { return f2c::planCovPath(r, f, local); }
//= spec::lhs_path_plain ;whole=f2c::types::Route|f2c::types::Field|f2c::types::Path ;opaque=f2c::planCovRoute(const f2c::types::Robot &, const f2c::types::Cells &*|f2c::Transform::*|f2c::pp::PathPlanning::planPath(*
F2CPath path_plain(const F2CRobot& r, const F2CField& f, bool local) { return f2c::planCovPath(r, f, Options(), local); }
}
