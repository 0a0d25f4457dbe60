// Run-time selected refinement against the compile-time refinement.
#include "refine.cc"

template<class R> struct Ids;
template<unsigned t, unsigned c, int d> struct Ids<StaticRefinement<t,double,c,d>>
{
  typedef VirtualRefinementImp<(t & ~1u), double, (c & ~1u), d> Imp;
  static constexpr unsigned topology = t, coerceTo = c;
};

// --- selection.  iin: topology ids;  iout: number of the refinement (-1: none of them), 1 if rejected as documented
template<int d, class... R>
static void build (const long* iin, long* iout)
{
  iout[0] = -1;
  iout[1] = 0;
  try {
    const VirtualRefinement<d,double>* r = &buildRefinement<d,double>(GeometryType(iin[0], d), GeometryType(iin[1], d));
    const VirtualRefinement<d,double>* all[] = { &Ids<R>::Imp::instance()... };
    for (std::size_t i = 0; i < sizeof...(R); ++i)
      if (all[i] == r) iout[0] = i;
  } catch (const NotImplemented&) { iout[1] = 1; }
}
DGV_ENTRY(vr_build_1, build<1, Simplex<1>>(iin, iout);)
DGV_ENTRY(vr_build_2, build<2, Simplex<2>, CubeT<2>, Cube<2>>(iin, iout);)
DGV_ENTRY(vr_build_3, build<3, Simplex<3>, CubeT<3>, Cube<3>, PrismT<3>, PyramidT<3>>(iin, iout);)

template<class R>
static const VirtualRefinement<R::dimension,double>& get ()
{
  return buildRefinement<R::dimension,double>(GeometryType(Ids<R>::topology, R::dimension), GeometryType(Ids<R>::coerceTo, R::dimension));
}

// --- answers of both: iout index, vertex indices; out coordinates
template<class It, class V> static void answers (const It& it, const V*, int d, double*& out, long*& iout)
{
  *iout++ = it.index();
  const auto x = it.coords();
  for (int i = 0; i < d; ++i) *out++ = x[i];
  if constexpr (!std::is_void_v<V>) {
    const auto v = it.vertexIndices();
    *iout++ = v.size();
    for (std::size_t i = 0; i < V::dimension; ++i) *iout++ = v[i];
  }
}

// --- iterators as values: s and v are at the same place
// the answers of s and of its successor, then of v, a copy of v, a copy after a step, v again, an assigned iterator,
// a self-assigned one, an iterator assigned from the successor;  then comparisons
template<class R, class V, class S_, class I>
static void values (const S_& s, I v, double* out, long* iout)
{
  const int d = R::dimension;
  const V* tag = nullptr;
  S_ s1(s);
  ++s1;
  answers(s, tag, d, out, iout);
  answers(s1, tag, d, out, iout);
  I b(v);
  answers(v, tag, d, out, iout);
  answers(b, tag, d, out, iout);
  *iout++ = (v == b);
  ++b;
  answers(b, tag, d, out, iout);
  answers(v, tag, d, out, iout);
  *iout++ = (v == b);
  *iout++ = (v != b);
  I c(b);
  b = v;
  answers(b, tag, d, out, iout);
  answers(c, tag, d, out, iout);
  *iout++ = (v == b);
  *iout++ = (c == b);
  I& self = v;
  v = self;
  answers(v, tag, d, out, iout);
  *iout++ = (v == b);
  {
    I t(v);
    ++t;
    v = t;
  }
  answers(v, tag, d, out, iout);
  *iout++ = (v == c);
  *iout++ = (v == b);
}

// --- from begin.  iin: n, steps;  iout: counts, begin == end, at end after all
template<class R>
static void vertexRun (const long* iin, double* out, long* iout)
{
  const auto n = refinementIntervals(iin[0]);
  auto s = R::vBegin(n);
  auto v = get<R>().vBegin(n);
  for (long k = 0; k < iin[1]; ++k) { ++s; ++v; }
  values<R,void>(s, v, out, iout);
}
template<class R>
static void elementRun (const long* iin, double* out, long* iout)
{
  const auto n = refinementIntervals(iin[0]);
  auto s = R::eBegin(n);
  auto v = get<R>().eBegin(n);
  for (long k = 0; k < iin[1]; ++k) { ++s; ++v; }
  values<R,typename R::IndexVector>(s, v, out, iout);
}
// iout: numbers (run-time, compile-time), vertices and elements visited
template<class R>
static void whole (const long* iin, long* iout)
{
  const auto n = refinementIntervals(iin[0]);
  const auto& r = get<R>();
  iout[0] = r.nVertices(n);
  iout[1] = R::nVertices(n);
  iout[2] = r.nElements(n);
  iout[3] = R::nElements(n);
  iout[4] = iout[5] = 0;
  const auto ve = r.vEnd(n);
  for (auto it = r.vBegin(n); it != ve && iout[4] <= iout[1]; ++it) ++iout[4];
  const auto ee = r.eEnd(n);
  for (auto it = r.eBegin(n); it != ee && iout[5] <= iout[3]; ++it) ++iout[5];
}
// counts, first and last.  iin: n (any)
template<class R>
static void ends2 (const long* iin, long* iout)
{
  const auto n = refinementIntervals(iin[0]);
  const auto& r = get<R>();
  iout[0] = r.nVertices(n);
  iout[1] = r.nElements(n);
  iout[2] = r.vBegin(n).index();
  iout[3] = r.vEnd(n).index();
  iout[4] = r.eBegin(n).index();
  iout[5] = r.eEnd(n).index();
  iout[6] = (r.vBegin(n) == r.vEnd(n));
  iout[7] = (r.eBegin(n) == r.eEnd(n));
}
// comparison as at compile time.  iin: n, m
template<class R>
static void compare (const long* iin, long* iout)
{
  const auto n = refinementIntervals(iin[0]), m = refinementIntervals(iin[1]);
  const auto& r = get<R>();
  *iout++ = (r.vBegin(n) == r.vBegin(m)); *iout++ = (R::vBegin(n) == R::vBegin(m));
  *iout++ = (r.eBegin(n) == r.eBegin(m)); *iout++ = (R::eBegin(n) == R::eBegin(m));
  *iout++ = (r.vEnd(n) != r.vEnd(m)); *iout++ = (R::vEnd(n) != R::vEnd(m));
  *iout++ = (r.eEnd(n) != r.eEnd(m)); *iout++ = (R::eEnd(n) != R::eEnd(m));
}

// --- from every state: the run-time iterator around a compile-time one
template<class R, class It>
static void vertexState (const It& it, double* out, long* iout)
{
  const typename R::VertexIterator s(it);
  typedef typename Ids<R>::Imp::template SubEntityIteratorBack<R::dimension> Back;
  typedef typename VirtualRefinement<R::dimension,double>::VertexIterator I;
  values<R,void>(s, I(new Back(s)), out, iout);
}
template<class R, class It>
static void elementState (const It& it, double* out, long* iout)
{
  const typename R::ElementIterator s(it);
  typedef typename Ids<R>::Imp::template SubEntityIteratorBack<0> Back;
  typedef typename VirtualRefinement<R::dimension,double>::ElementIterator I;
  values<R,typename R::IndexVector>(s, I(new Back(s)), out, iout);
}
template<int d> static void cubeV (const long* iin, double* out, long* iout)
{ vertexState<Cube<d>>(typename Cube<d>::VertexIterator(fromDigits<d>(iin+1, iin[0]+1), iin[0]), out, iout); }
template<int d> static void cubeE (const long* iin, double* out, long* iout)
{ elementState<Cube<d>>(typename Cube<d>::ElementIterator(fromDigits<d>(iin+1, iin[0]), iin[0]), out, iout); }
DGV_ENTRY(vr_v_cube_2, cubeV<2>(iin, out, iout);)
DGV_ENTRY(vr_v_cube_3, cubeV<3>(iin, out, iout);)
DGV_ENTRY(vr_e_cube_2, cubeE<2>(iin, out, iout);)
DGV_ENTRY(vr_e_cube_3, cubeE<3>(iin, out, iout);)
#ifdef STATE
#define SV(d) \
  DGV_ENTRY(vr_v_simplex_##d, vertexState<Simplex<d>>(vstate<d>(iin), out, iout);) \
  DGV_ENTRY(vr_e_simplex_##d, elementState<Simplex<d>>(estate<d>(iin), out, iout);)
SV(1) SV(2) SV(3)
#define TV(name, R) \
  DGV_ENTRY(vr_v_##name, vertexState<R>(tvstate<R>(iin), out, iout);) \
  DGV_ENTRY(vr_e_##name, elementState<R>(testate<R>(iin), out, iout);)
TV(cubet_2, CubeT<2>) TV(cubet_3, CubeT<3>) TV(prismt_3, PrismT<3>) TV(pyramidt_3, PyramidT<3>)
#endif

#define VR(name, R) \
  DGV_ENTRY(vr_vrun_##name, vertexRun<R>(iin, out, iout);) \
  DGV_ENTRY(vr_erun_##name, elementRun<R>(iin, out, iout);) \
  DGV_ENTRY(vr_whole_##name, whole<R>(iin, iout);) \
  DGV_ENTRY(vr_ends_##name, ends2<R>(iin, iout);) \
  DGV_ENTRY(vr_compare_##name, compare<R>(iin, iout);)
VR(cube_2, Cube<2>) VR(cube_3, Cube<3>)
VR(simplex_1, Simplex<1>) VR(simplex_2, Simplex<2>) VR(simplex_3, Simplex<3>)
VR(cubet_2, CubeT<2>) VR(cubet_3, CubeT<3>) VR(prismt_3, PrismT<3>) VR(pyramidt_3, PyramidT<3>)

// --- comparison of iterators over different refinements (same dimension).  iin: n, m
DGV_ENTRY(vr_mixed_2,
  const auto n = refinementIntervals(iin[0]);
  const auto m = refinementIntervals(iin[1]);
  iout[0] = (get<Cube<2>>().vBegin(n) == get<Simplex<2>>().vBegin(m));
  iout[1] = (get<Cube<2>>().eBegin(n) == get<CubeT<2>>().eBegin(m));
  iout[2] = (get<Simplex<2>>().eBegin(n) != get<CubeT<2>>().eBegin(m));)
