// Vocabulary of the reference specifications.  They are written against the public
// interface of the library and against OGR, are only type-checked, and never run.
#pragma once
#include "fields2cover.h"
namespace spec {
using namespace f2c::types;
struct Unspecified {};
// the property says nothing about inputs for which c is false
inline void assume(bool c) { if (!c) throw Unspecified(); }
inline double px(const Point& p) { return p.get()->getX(); }
inline double py(const Point& p) { return p.get()->getY(); }
inline double pz(const Point& p) { return p.get()->getZ(); }
}
