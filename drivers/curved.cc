// geometries over arbitrary functions: the basis functions of a local finite element, an outer mapping, an inner geometry
#include "geoquery.hh"
#include <vector>
#include <dune/geometry/localfiniteelementgeometry.hh>
#include <dune/geometry/mappedgeometry.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/referenceelementimplementation.cc>
#include <dune/geometry/quadraturerules/quadraturerules.cc>
using namespace Dune;

// function number k (contracted to be any function; natively a quadratic polynomial with coefficients from the input)
static const double* cvCoef;
static int cvDim;
extern "C" __attribute__((noinline)) void cv_f (int id, const double* x, double* y, int m, int n)
{
  for (int k = 0; k < n; ++k) {
    const double* c = cvCoef + (id+k)*(cvDim+2);
    y[k] = c[0];
    for (int j = 0; j < m; ++j) y[k] += c[1+j]*x[j] + c[cvDim+1]*x[j]*x[j];
  }
}
extern "C" __attribute__((noinline)) void cv_df (int id, const double* x, double* A, int m, int n)
{
  for (int k = 0; k < n; ++k) {
    const double* c = cvCoef + (id+k)*(cvDim+2);
    for (int j = 0; j < m; ++j) A[k*m+j] = c[1+j] + 2*c[cvDim+1]*x[j];
  }
}

// an arbitrary quadrature rule
static const double* arbIn;
// a rule may be the one of the next order, too
static long arbPairs;
template<int d>
struct ArbRule : QuadratureRule<double,d>
{
  ArbRule (const GeometryType& gt, int order) : QuadratureRule<double,d>(gt, order) {}
};
template<int d>
static const QuadratureRule<double,d>* arb (const GeometryType& gt, int p)
{
  auto r = new ArbRule<d>(gt, arbPairs ? p|1 : p);
  const double* in = arbIn + 2*(d+1)*(arbPairs ? p/2 : p-1);
  for (int k = 0; k < 2; ++k) { auto x = getv<d>(in); const double w = *in++; r->push_back(QuadraturePoint<double,d>(x, w)); }
  return r;
}
extern "C" {
  const void* cv_rule_1 (const GeometryType& gt, int p, int) { return arb<1>(gt, p); }
  const void* cv_rule_2 (const GeometryType& gt, int p, int) { return arb<2>(gt, p); }
  const void* cv_rule_3 (const GeometryType& gt, int p, int) { return arb<3>(gt, p); }
}

template<int m>
struct Basis
{
  struct Traits
  {
    typedef double DomainFieldType; typedef double RangeFieldType;
    static constexpr int dimDomain = m;
    typedef FieldVector<double,m> DomainType;
    typedef FieldVector<double,1> RangeType;
    typedef FieldMatrix<double,1,m> JacobianType;
  };
  int N = 0, o = 0;
  unsigned int order () const { return o; }
  std::size_t size () const { return N; }
  void evaluateFunction (const FieldVector<double,m>& x, std::vector<FieldVector<double,1>>& out) const
  { out.resize(N); for (int i = 0; i < N; ++i) cv_f(i, &x[0], &out[i][0], m, 1); }
  void evaluateJacobian (const FieldVector<double,m>& x, std::vector<FieldMatrix<double,1,m>>& out) const
  { out.resize(N); for (int i = 0; i < N; ++i) cv_df(i, &x[0], &out[i][0][0], m, 1); }
};
template<int m>
struct Interpolation
{
  int N = 0;
  template<class F, class C> void interpolate (const F& f, std::vector<C>& out) const
  { out.resize(N); for (int i = 0; i < N; ++i) { FieldVector<double,m> x; x = i; out[i] = f(x); } }
};
template<int m>
struct Element
{
  struct Traits { typedef Basis<m> LocalBasisType; typedef Interpolation<m> LocalInterpolationType; };
  Basis<m> b;
  Interpolation<m> ip;
  Element () = default;
  Element (int N, int o) { b.N = N; b.o = o; ip.N = N; }
  const Basis<m>& localBasis () const { return b; }
  const Interpolation<m>& localInterpolation () const { return ip; }
  std::size_t size () const { return b.N; }
};

template<int m, int k>
struct Inner
{
  typedef double ctype;
  typedef FieldVector<double,m> LocalCoordinate;
  typedef FieldVector<double,k> GlobalCoordinate;
  GeometryType t;
  GeometryType type () const { return t; }
  auto ref () const { return Geo::ReferenceElements<double,m>::general(t); }
  int corners () const { return ref().size(m); }
  GlobalCoordinate global (const LocalCoordinate& x) const { GlobalCoordinate y; cv_f(0, &x[0], &y[0], m, k); return y; }
  GlobalCoordinate corner (int i) const { return global(ref().position(i, m)); }
  GlobalCoordinate center () const { return global(ref().position(0, 0)); }
  FieldMatrix<double,k,m> jacobian (const LocalCoordinate& x) const { FieldMatrix<double,k,m> A; cv_df(0, &x[0], &A[0][0], m, k); return A; }
  friend auto referenceElement (const Inner& g) { return g.ref(); }
};
template<int k, int n> struct DOuter
{
  FieldMatrix<double,n,k> operator() (const FieldVector<double,k>& x) const
  { FieldMatrix<double,n,k> A; cv_df(3, &x[0], &A[0][0], k, n); return A; }
};
template<int k, int n> struct Outer
{
  FieldVector<double,n> operator() (const FieldVector<double,k>& x) const
  { FieldVector<double,n> y; cv_f(3, &x[0], &y[0], k, n); return y; }
  friend DOuter<k,n> derivative (const Outer&) { return {}; }
};

enum { qRule = 12, qVolumeOpts };
template<int m, int n, class G>
static void ask (const G& g, const long* iin, const double*& in, double*& out, long*& iout)
{
  switch (iin[1]) {
  case qLocal: {
    FieldVector<double,n> y = getv<n>(in);
    Impl::GaussNewtonOptions<double> o;
    o.absTol = *in++; o.theta = *in++;
    o.maxIt = iin[6]; o.maxInnerIt = iin[7];
    // the buffers of the basis functions exist
    FieldVector<double,m> x(0); g.global(x); g.jacobian(x);
    putv<m>(out, iin[5] ? g.local(y) : g.local(y, o)); break; }
  case qRule: {
    QuadratureRule<double,m> r;
    for (int k = 0; k < iin[6]; ++k) { auto x = getv<m>(in); const double w = *in++; r.push_back(QuadraturePoint<double,m>(x, w)); }
    *out++ = g.volume(r); break; }
  case qVolumeOpts: {
    Impl::ConvergenceOptions<double> o;
    o.absTol = *in++; o.maxIt = iin[6];
    arbIn = in; arbPairs = iin[7];
    *out++ = g.volume(o); break; }
  default: query<m,n>(g, iin[1], in, out, iout);
  }
}

// contracts of the evaluation of a geometry whose coefficients are the unit vectors: any map
template<int m, int n>
static FieldVector<double,n> anyMap (const FieldVector<double,m>& x)
{ FieldVector<double,n> y; for (int i = 0; i < n; ++i) cv_f(i, &x[0], &y[i], m, 1); return y; }
template<int m, int n>
static FieldMatrix<double,n,m> anyDerivative (const FieldVector<double,m>& x)
{ FieldMatrix<double,n,m> A; for (int i = 0; i < n; ++i) cv_df(i, &x[0], &A[i][0], m, 1); return A; }

// iin: topology id, query, construction, number of basis functions, order, default options
template<int m, int n>
static void lfe (const double* in, const long* iin, double* out, long* iout)
{
  typedef LocalFiniteElementGeometry<Element<m>,n> G;
  const int N = iin[3];
  cvCoef = in; cvDim = m; in += N*(m+2);
  std::vector<FieldVector<double,n>> v(N);
  for (auto& c : v) c = getv<n>(in);
  Element<m> e(N, iin[4]);
  GeometryType t(iin[0], m);
  auto ref = Geo::ReferenceElements<double,m>::general(t);
  int k = 0;
  auto par = [&](const FieldVector<double,m>&) { return v[k++]; };
  switch (iin[2]) {
  case 0: { G g(ref, e, v); ask<m,n>(g, iin, in, out, iout); break; }
  case 1: { G g(t, e, v); ask<m,n>(g, iin, in, out, iout); break; }
  case 2: { G g(ref, e, par); ask<m,n>(g, iin, in, out, iout); break; }
  case 3: { G g(t, e, par); G h; h = g; ask<m,n>(h, iin, in, out, iout); break; }
  case 4: { G g(ref, e, v); g.affine(); G h(g); ask<m,n>(h, iin, in, out, iout); break; }
  }
}

// the sum over the basis functions: contracted to any number of functions and coefficients, natively at most 70
static volatile const void* cvSink;
extern "C" {
  __attribute__((noinline)) int cv_size (long N) { return N % 71; }
  __attribute__((noinline)) void cv_family (const void* v) { cvSink = v; }
  __attribute__((noinline)) void cv_single (const void* v) { cvSink = v; }
}
static double cvTable[70*5];
// iin: derivative, number of basis functions
template<int m, int n>
static void lfeSum (const double* in, const long* iin, double* out, long*)
{
  typedef LocalFiniteElementGeometry<Element<m>,n> G;
  const int N = cv_size(iin[1]);
  for (int i = 0; i < N*(m+2); ++i) cvTable[i] = (i*7%11)*0.125;
  cvCoef = cvTable; cvDim = m;
  FieldVector<double,m> x = getv<m>(in);
  std::vector<FieldVector<double,n>> v(N);
  for (int i = 0; i < N; ++i)
    for (int j = 0; j < n; ++j) v[i][j] = in[j]*(1+i) + 0.5*i*j;
  G g(GeometryTypes::cube(m), Element<m>(N, 1), v);
  cv_family(&g.coefficients());
  if (iin[0]) { auto A = g.jacobian(x); for (int j = 0; j < n; ++j) for (int d = 0; d < m; ++d) *out++ = A[j][d]; }
  else putv<n>(out, g.global(x));
  cv_single(&g.coefficients());
}

// the sum over the points of a rule: any number of points
template<int m, class G>
static void volumeSum (const G& g, const double* in, const long* iin, double* out)
{
  const int N = cv_size(iin[1]);
  QuadratureRule<double,m> r;
  for (int i = 0; i < N; ++i) {
    FieldVector<double,m> x;
    for (int j = 0; j < m; ++j) x[j] = in[j]/(1+i);
    r.push_back(QuadraturePoint<double,m>(x, in[m]*(1+i)));
  }
  std::vector<QuadraturePoint<double,m>>& v = r;
  cv_family(&v);
  *out = g.volume(r);
  cv_single(&v);
}
template<int m, int n>
static void lfeVolume (const double* in, const long* iin, double* out, long*)
{
  for (int i = 0; i < 70*5; ++i) cvTable[i] = (i*7%11)*0.125;
  cvCoef = cvTable; cvDim = m;
  std::vector<FieldVector<double,n>> v(n);
  for (int i = 0; i < n; ++i) { v[i] = 0; v[i][i] = 1; }
  volumeSum<m>(LocalFiniteElementGeometry<Element<m>,n>(GeometryTypes::cube(m), Element<m>(n, 2), v), in, iin, out);
}
template<int m, int k, int n>
static void mappedVolume (const double* in, const long* iin, double* out, long*)
{
  for (int i = 0; i < 70*5; ++i) cvTable[i] = (i*7%11)*0.125;
  cvCoef = cvTable; cvDim = 3;
  volumeSum<m>(MappedGeometry<Outer<k,n>,Inner<m,k>>(Outer<k,n>(), Inner<m,k>{GeometryTypes::cube(m)}), in, iin, out);
}

// iin: topology id, query, construction, affine
template<int m, int k, int n>
static void mapped (const double* in, const long* iin, double* out, long* iout)
{
  typedef MappedGeometry<Outer<k,n>,Inner<m,k>> G;
  cvCoef = in; cvDim = 3; in += 6*5;
  Inner<m,k> i{GeometryType(iin[0], m)};
  Outer<k,n> o;
  G g(o, i, bool(iin[3]));
  switch (iin[2]) {
  case 0: { ask<m,n>(g, iin, in, out, iout); break; }
  case 1: { G h(g); ask<m,n>(h, iin, in, out, iout); break; }
  case 2: { G h(o, i); h = g; ask<m,n>(h, iin, in, out, iout); break; }
  case 3: { G h(o, i); ask<m,n>(h, iin, in, out, iout); break; }
  }
}
#define LF(m,n) extern "C" { \
  FieldVector<double,n> cv_map_##m##n (const void*, const FieldVector<double,m>& x) { return anyMap<m,n>(x); } \
  FieldMatrix<double,n,m> cv_der_##m##n (const void*, const FieldVector<double,m>& x) { return anyDerivative<m,n>(x); } } \
  DGV_ENTRY(ls_##m##n, lfeSum<m,n>(in, iin, out, iout);) \
  DGV_ENTRY(lv_##m##n, lfeVolume<m,n>(in, iin, out, iout);) \
  DGV_ENTRY(lf_##m##n, lfe<m,n>(in, iin, out, iout);)
#define MP(m,k,n) DGV_ENTRY(mv_##m##k##n, mappedVolume<m,k,n>(in, iin, out, iout);) \
  DGV_ENTRY(mp_##m##k##n, mapped<m,k,n>(in, iin, out, iout);)
LF(1,1) LF(1,2) LF(1,3) LF(2,2) LF(2,3) LF(3,3)
MP(1,1,1) MP(1,1,2) MP(1,1,3) MP(1,2,2) MP(1,2,1) MP(1,2,3) MP(1,3,1) MP(1,3,2) MP(1,3,3)
MP(2,2,2) MP(2,2,3) MP(2,3,2) MP(2,3,3) MP(3,3,3)
