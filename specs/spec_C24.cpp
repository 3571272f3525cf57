// Headlands: what remains of the field, and the swaths around it.
#include "raw.h"
namespace spec {
typedef f2c::hg::ConstHL HL;
//= f2c::hg::ConstHL::generateHeadlands(**)
Cells remains(HL& h, const Cells& f, double d) { return f.buffer(-d); }
//= f2c::hg::ConstHL::generateHeadlandArea(**)
Cells area(HL& h, const Cells& f, double w, int n) { return f.buffer(-(w * n)); }
std::vector<Cells> lhs_inwards(HL& h, const Cells& f, double w, int n) { return h.generateHeadlandSwaths(f, w, n, true); }
//= spec::lhs_inwards
std::vector<Cells> inwards(HL& h, const Cells& f, double w, int n) {
  std::vector<Cells> r;
  for (int i = 0; i < n; ++i) r.push_back(f.buffer(-(i * w + w / 2)));
  return r;
}
std::vector<Cells> lhs_deflt(HL& h, const Cells& f, double w, int n) { return h.generateHeadlandSwaths(f, w, n); }
//= spec::lhs_deflt
std::vector<Cells> deflt(HL& h, const Cells& f, double w, int n) { return h.generateHeadlandSwaths(f, w, n, true); }
std::vector<Cells> lhs_outwards(HL& h, const Cells& f, double w, int n) { return h.generateHeadlandSwaths(f, w, n, false); }
//= spec::lhs_outwards
std::vector<Cells> outwards(HL& h, const Cells& f, double w, int n) {
  std::vector<Cells> r;
  if (n <= 0) return r;
  Cells c = f.buffer(w / 2 - w * n);
  r.push_back(c);
  for (int i = 1; i < n; ++i) { c = c.buffer(w); r.push_back(c); }
  return r;
}
}
