// Composite quadrature rules.
#include "refine.cc"
#include <dune/geometry/quadraturerules/compositequadraturerule.hh>

// --- composite rules.  in: points and weights of the base rule;  iin: n, number of base points, order
template<int d> static QuadratureRule<double,d> base (const double* in, const long* iin)
{
  struct Rule : public QuadratureRule<double,d>
  {
    Rule (const double* in, const long* iin) : QuadratureRule<double,d>(GeometryTypes::simplex(d), iin[2])
    {
      for (long i = 0; i < iin[1]; ++i, in += d+1) {
        FieldVector<double,d> x;
        for (int j = 0; j < d; ++j) x[j] = in[j];
        this->push_back(QuadraturePoint<double,d>(x, in[d]));
      }
    }
  };
  return Rule(in, iin);
}
template<int d> static void composite (const double* in, const long* iin, double* out, long* iout)
{
  const CompositeQuadratureRule<double,d> r(base<d>(in, iin), refinementIntervals(iin[0]));
  iout[0] = r.size();
  iout[1] = r.order();
  iout[2] = r.type().id();
  iout[3] = r.type().dim();
  for (const auto& q : r) {
    for (int i = 0; i < d; ++i) *out++ = q.position()[i];
    *out++ = q.weight();
  }
}
DGV_ENTRY(rf_composite_1, composite<1>(in, iin, out, iout);)
DGV_ENTRY(rf_composite_2, composite<2>(in, iin, out, iout);)
DGV_ENTRY(rf_composite_3, composite<3>(in, iin, out, iout);)

#ifdef STATE
// --- two consecutive sub-elements at any place.  The begin and end of the refinement are replaced by these
//     in the translated code (see contracts/composite.py).
// in: points and weights of the base rule;  iin: number of base points, order, n, state of the first sub-element
static const long* place;
#define HOOK(d) \
  extern "C" __attribute__((noinline,used)) Simplex<d>::ElementIterator cq_begin_##d (RefinementIntervals) \
  { return EState<d>(place[0], place+1); } \
  extern "C" __attribute__((noinline,used)) Simplex<d>::ElementIterator cq_end_##d (RefinementIntervals) \
  { EState<d> s(place[0], place+1); ++s; ++s; return s; }
HOOK(1) HOOK(2) HOOK(3)
static volatile long opaque;
extern "C" __attribute__((noinline,used)) long cq_first (long elements) { opaque = elements; return opaque; }
template<int d> static void pair (const double* in, const long* iin, double* out, long* iout)
{
  place = iin+2;
  const long b[3] = { iin[2], iin[0], iin[1] };
  const CompositeQuadratureRule<double,d> r(base<d>(in, b), refinementIntervals(iin[2]));
  iout[0] = r.size();
  iout[1] = r.order();
  iout[2] = r.type().id();
  iout[3] = r.type().dim();
  EState<d> s(place[0], place+1);
  ++s;
  long* o = iout+4;
  s.state(o);
  for (long i = cq_first(place[d+2])*iin[0], k = 0; k < 2*iin[0]; ++i, ++k) {
    for (int j = 0; j < d; ++j) *out++ = r[i].position()[j];
    *out++ = r[i].weight();
  }
}
DGV_ENTRY(cq_pair_1, pair<1>(in, iin, out, iout);)
DGV_ENTRY(cq_pair_2, pair<2>(in, iin, out, iout);)
DGV_ENTRY(cq_pair_3, pair<3>(in, iin, out, iout);)
#endif
