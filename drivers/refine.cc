// Refinement: sub-entities of the refined reference elements, and the steps of the iterators over them.
#include "dgv.hh"
#include <vector>
#include <dune/geometry/referenceelementimplementation.cc>
#include <dune/geometry/virtualrefinement.hh>
#include <dune/geometry/quadraturerules/quadraturerules.cc>
using namespace Dune;

template<int d> constexpr unsigned S = GeometryTypes::simplex(d).id();
template<int d> constexpr unsigned Q = GeometryTypes::cube(d).id();
template<int d> using Cube = StaticRefinement<Q<d>, double, Q<d>, d>;
template<int d> using Simplex = StaticRefinement<S<d>, double, S<d>, d>;
template<int d> using CubeT = StaticRefinement<Q<d>, double, S<d>, d>;
template<int d> using PrismT = StaticRefinement<GeometryTypes::prism.id(), double, S<d>, d>;
template<int d> using PyramidT = StaticRefinement<GeometryTypes::pyramid.id(), double, S<d>, d>;

// --- what a sub-entity reports: iout index, corners, type id and dimension, vertex indices;
//     out coordinates, corners of the geometry, centre, volume
template<class R, class It>
static void vertex (const It& it, double*& out, long*& iout)
{
  *iout++ = it.index();
  const auto x = it.coords();
  for (int i = 0; i < R::dimension; ++i) *out++ = x[i];
  const auto g = it.geometry();
  *iout++ = g.corners();
  *iout++ = g.type().id();
  *iout++ = g.type().dim();
  const auto c = g.corner(0);
  for (int i = 0; i < R::dimension; ++i) *out++ = c[i];
}
template<class R, class It>
static void element (const It& it, double*& out, long*& iout)
{
  *iout++ = it.index();
  const auto x = it.coords();
  for (int i = 0; i < R::dimension; ++i) *out++ = x[i];
  const auto g = it.geometry();
  *iout++ = g.corners();
  *iout++ = g.type().id();
  *iout++ = g.type().dim();
  const auto v = it.vertexIndices();
  for (std::size_t i = 0; i < R::IndexVector::dimension; ++i) *iout++ = v[i];
  for (std::size_t k = 0; k < R::IndexVector::dimension; ++k) {
    const auto c = g.corner(k);
    for (int i = 0; i < R::dimension; ++i) *out++ = c[i];
  }
  const auto z = g.center();
  for (int i = 0; i < R::dimension; ++i) *out++ = z[i];
  *out++ = g.volume();
}

// --- counts and ends.  iin: n;  iout: vertices, elements, index of begin and end (vertices, elements), begin == end (both)
template<class R>
static void ends (const RefinementIntervals n, long* iout)
{
  iout[0] = R::nVertices(n);
  iout[1] = R::nElements(n);
  iout[2] = R::vBegin(n).index();
  iout[3] = R::vEnd(n).index();
  iout[4] = R::eBegin(n).index();
  iout[5] = R::eEnd(n).index();
  iout[6] = R::vBegin(n) == R::vEnd(n);
  iout[7] = R::eBegin(n) == R::eEnd(n);
}

// --- all of it.  iin: n, by levels;  iout: counts, then everything
template<class R>
static void all (const long* iin, double* out, long* iout)
{
  const RefinementIntervals n = iin[1] ? refinementLevels(iin[0]) : refinementIntervals(iin[0]);
  *iout++ = n.intervals();
  *iout++ = R::nVertices(n);
  *iout++ = R::nElements(n);
  long& nv = *iout++;
  long& ne = *iout++;
  nv = ne = 0;
  const auto ve = R::vEnd(n);
  for (auto it = R::vBegin(n); it != ve && nv <= iout[-4]; ++it, ++nv)
    ;
  const auto ee = R::eEnd(n);
  for (auto it = R::eBegin(n); it != ee && ne <= iout[-3]; ++it, ++ne)
    ;
  auto vt = R::vBegin(n);
  for (long k = 0; k < nv; ++k, ++vt) vertex<R>(vt, out, iout);
  auto et = R::eBegin(n);
  for (long k = 0; k < ne; ++k, ++et) element<R>(et, out, iout);
}
#define ALL(name, R) \
  DGV_ENTRY(rf_all_##name, all<R>(iin, out, iout);) \
  DGV_ENTRY(rf_ends_##name, ends<R>(refinementIntervals(iin[0]), iout);)
ALL(cube_2, Cube<2>) ALL(cube_3, Cube<3>)
ALL(simplex_1, Simplex<1>) ALL(simplex_2, Simplex<2>) ALL(simplex_3, Simplex<3>)
ALL(cubet_2, CubeT<2>) ALL(cubet_3, CubeT<3>) ALL(prismt_3, PrismT<3>) ALL(pyramidt_3, PyramidT<3>)

// --- cube: the state of an iterator is its index.  iin: n, digits of the index
template<int d>
static unsigned fromDigits (const long* c, unsigned w)
{
  unsigned i = 0;
  for (int k = d; k > 0; --k) i = i*w + c[k-1];
  return i;
}
template<int d> static void cubeVertex (const long* iin, double* out, long* iout)
{ vertex<Cube<d>>(typename Cube<d>::VertexIterator(fromDigits<d>(iin+1, iin[0]+1), iin[0]), out, iout); }
template<int d> static void cubeElement (const long* iin, double* out, long* iout)
{ element<Cube<d>>(typename Cube<d>::ElementIterator(fromDigits<d>(iin+1, iin[0]), iin[0]), out, iout); }
// iin: n, index, m, index;  iout: index after a step, comparison with the other iterator before and after the step
template<class It> static void cubeStep (const long* iin, long* iout)
{
  It it(iin[1], iin[0]), jt(iin[3], iin[2]);
  iout[0] = it.index();
  iout[1] = it == jt;
  iout[2] = it != jt;
  It kt(it);
  ++kt;
  iout[3] = kt.index();
  iout[4] = it.index();
  iout[5] = it == kt;
  kt = it;
  iout[6] = kt.index();
}
DGV_ENTRY(rf_cubev_2, cubeVertex<2>(iin, out, iout);)
DGV_ENTRY(rf_cubev_3, cubeVertex<3>(iin, out, iout);)
DGV_ENTRY(rf_cubee_2, cubeElement<2>(iin, out, iout);)
DGV_ENTRY(rf_cubee_3, cubeElement<3>(iin, out, iout);)
DGV_ENTRY(rf_cubevstep_2, cubeStep<Cube<2>::VertexIterator>(iin, iout);)
DGV_ENTRY(rf_cubevstep_3, cubeStep<Cube<3>::VertexIterator>(iin, iout);)
DGV_ENTRY(rf_cubeestep_2, cubeStep<Cube<2>::ElementIterator>(iin, iout);)
DGV_ENTRY(rf_cubeestep_3, cubeStep<Cube<3>::ElementIterator>(iin, iout);)

#ifdef STATE
// --- simplex: iterators in any state (steps < 0) or where the given number of steps leads
template<class It> static It advance (It it, long steps)
{
  for (; steps > 0; --steps) ++it;
  return it;
}
template<int d> struct VState : public Simplex<d>::VertexIterator
{
  VState (const typename Simplex<d>::VertexIterator& it) : Simplex<d>::VertexIterator(it) {}
  VState (int n, const long* v) : Simplex<d>::VertexIterator(n)
  { for (int i = 0; i < d; ++i) this->vertex[i] = v[i]; }
  void state (long*& o) const { for (int i = 0; i < d; ++i) *o++ = this->vertex[i]; }
};
template<int d> struct EState : public Simplex<d>::ElementIterator
{
  EState (const typename Simplex<d>::ElementIterator& it) : Simplex<d>::ElementIterator(it) {}
  EState (int n, const long* v) : Simplex<d>::ElementIterator(n)
  {
    for (int i = 0; i < d; ++i) this->origin[i] = v[i];
    this->kuhnIndex = v[d];
    this->index_ = v[d+1];
  }
  void state (long*& o) const
  {
    for (int i = 0; i < d; ++i) *o++ = this->origin[i];
    *o++ = this->kuhnIndex;
    *o++ = this->index_;
  }
};
// iin: n, state, steps
template<int d> static VState<d> vstate (const long* iin)
{
  if (iin[d+1] >= 0) return advance(Simplex<d>::vBegin(refinementIntervals(iin[0])), iin[d+1]);
  return VState<d>(iin[0], iin+1);
}
template<int d> static EState<d> estate (const long* iin)
{
  if (iin[d+3] >= 0) return advance(Simplex<d>::eBegin(refinementIntervals(iin[0])), iin[d+3]);
  return EState<d>(iin[0], iin+1);
}
template<int d> static void simplexVertex (const long* iin, double* out, long* iout)
{ vertex<Simplex<d>>(vstate<d>(iin), out, iout); }
template<int d> static void simplexElement (const long* iin, double* out, long* iout)
{ element<Simplex<d>>(estate<d>(iin), out, iout); }
// iout: the states after a step and of begin and end, then index and comparison with end before and after the step
template<class It, class State> static void simplexStep (const State& it, const It& begin, const It& end, long* iout)
{
  State kt(it);
  ++kt;
  kt.state(iout);
  State bt(it);
  static_cast<It&>(bt) = begin;
  bt.state(iout);
  static_cast<It&>(bt) = end;
  bt.state(iout);
  *iout++ = it.index();
  *iout++ = kt.index();
  *iout++ = it == end;
  *iout++ = kt == end;
}
template<int d> static void simplexVStep (const long* iin, long* iout)
{
  const auto n = refinementIntervals(iin[0]);
  simplexStep(vstate<d>(iin), Simplex<d>::vBegin(n), Simplex<d>::vEnd(n), iout);
}
template<int d> static void simplexEStep (const long* iin, long* iout)
{
  const auto n = refinementIntervals(iin[0]);
  simplexStep(estate<d>(iin), Simplex<d>::eBegin(n), Simplex<d>::eEnd(n), iout);
}
#define SIMPLEX(d) \
  DGV_ENTRY(rf_simplexv_##d, simplexVertex<d>(iin, out, iout);) \
  DGV_ENTRY(rf_simplexe_##d, simplexElement<d>(iin, out, iout);) \
  DGV_ENTRY(rf_simplexvstep_##d, simplexVStep<d>(iin, iout);) \
  DGV_ENTRY(rf_simplexestep_##d, simplexEStep<d>(iin, iout);) \
  DGV_ENTRY(rf_permutation_##d, auto p = RefinementImp::Simplex::getPermutation<d>(iin[0]); for (int i = 0; i < d; ++i) iout[i] = p[i];)
SIMPLEX(1) SIMPLEX(2) SIMPLEX(3)

// --- triangulations: the number of the Kuhn simplex and an iterator over its refinement.  iin: n, Kuhn simplex, state, steps
template<class R> struct TVState : public R::VertexIterator
{
  TVState (const typename R::VertexIterator& it) : R::VertexIterator(it) {}
  TVState (int n, const long* v) : R::VertexIterator(n)
  { this->kuhnIndex = v[0]; this->backend = VState<R::dimension>(n, v+1); }
  void state (long*& o) const
  {
    *o++ = this->kuhnIndex;
    const long zero[R::dimension+2] = {};
    VState<R::dimension> b(1, zero);
    static_cast<typename Simplex<R::dimension>::VertexIterator&>(b) = this->backend;
    b.state(o);
  }
};
template<class R> struct TEState : public R::ElementIterator
{
  TEState (const typename R::ElementIterator& it) : R::ElementIterator(it) {}
  TEState (int n, const long* v) : R::ElementIterator(n)
  { this->kuhnIndex = v[0]; this->backend = EState<R::dimension>(n, v+1); }
  void state (long*& o) const
  {
    *o++ = this->kuhnIndex;
    const long zero[R::dimension+2] = {};
    EState<R::dimension> b(1, zero);
    static_cast<typename Simplex<R::dimension>::ElementIterator&>(b) = this->backend;
    b.state(o);
  }
};
template<class R> static TVState<R> tvstate (const long* iin)
{
  if (iin[R::dimension+2] >= 0) return advance(R::vBegin(refinementIntervals(iin[0])), iin[R::dimension+2]);
  return TVState<R>(iin[0], iin+1);
}
template<class R> static TEState<R> testate (const long* iin)
{
  if (iin[R::dimension+4] >= 0) return advance(R::eBegin(refinementIntervals(iin[0])), iin[R::dimension+4]);
  return TEState<R>(iin[0], iin+1);
}
// iout: state after a step, then index and comparison with end before and after the step, comparison of both
template<class It, class State> static void triangulationStep (const State& it, const It& end, long* iout)
{
  State kt(it);
  ++kt;
  kt.state(iout);
  *iout++ = it.index();
  *iout++ = kt.index();
  *iout++ = it == end;
  *iout++ = kt == end;
  *iout++ = it == kt;
}
#define TRI(name, R) \
  DGV_ENTRY(rf_##name##v, vertex<R>(tvstate<R>(iin), out, iout);) \
  DGV_ENTRY(rf_##name##e, element<R>(testate<R>(iin), out, iout);) \
  DGV_ENTRY(rf_##name##vstep, triangulationStep(tvstate<R>(iin), R::vEnd(refinementIntervals(iin[0])), iout);) \
  DGV_ENTRY(rf_##name##estep, triangulationStep(testate<R>(iin), R::eEnd(refinementIntervals(iin[0])), iout);)
TRI(cubet_2, CubeT<2>) TRI(cubet_3, CubeT<3>) TRI(prismt_3, PrismT<3>) TRI(pyramidt_3, PyramidT<3>)

#endif
