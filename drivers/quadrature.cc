#include "dgv.hh"
#include <complex>
#include <vector>
#include <dune/geometry/quadraturerules/quadraturerules.cc>
using namespace Dune;

template<int d>
static void put (const QuadratureRule<double,d>& r, double* out, long* iout)
{
  iout[0] = r.size();
  iout[1] = r.order();
  iout[2] = r.type().id();
  iout[3] = r.type().dim();
  for (const auto& q : r) {
    for (int i = 0; i < d; ++i) *out++ = q.position()[i];
    *out++ = q.weight();
  }
}

// iin: topology id, order, family
// iout: size, order, type, largest order; out: position and weight of every point
template<int d>
static void request (const long* iin, double* out, long* iout)
{
  iout[4] = QuadratureRules<double,d>::maxOrder(GeometryType(iin[0], d), QuadratureType::Enum(iin[2]));
  put<d>(QuadratureRules<double,d>::rule(GeometryType(iin[0], d), iin[1], QuadratureType::Enum(iin[2])), out, iout);
}
DGV_ENTRY(qr_0, request<0>(iin, out, iout);)
DGV_ENTRY(qr_1, request<1>(iin, out, iout);)
DGV_ENTRY(qr_2, request<2>(iin, out, iout);)
DGV_ENTRY(qr_3, request<3>(iin, out, iout);)

// the factories are private: an explicit instantiation may name them
template<int d> struct FactoryTag {
  typedef QuadratureRule<double,d> (*Rule)(const GeometryType&, int, QuadratureType::Enum);
  friend Rule factory (FactoryTag);
};
template<class Tag, typename Tag::Rule f> struct Grant { friend typename Tag::Rule factory (Tag) { return f; } };
template struct Grant<FactoryTag<0>, &QuadratureRuleFactory<double,0>::rule>;
template struct Grant<FactoryTag<1>, &QuadratureRuleFactory<double,1>::rule>;
template struct Grant<FactoryTag<2>, &QuadratureRuleFactory<double,2>::rule>;
template struct Grant<FactoryTag<3>, &QuadratureRuleFactory<double,3>::rule>;
template struct Grant<FactoryTag<4>, &QuadratureRuleFactory<double,4>::rule>;

// the rules for weight (1-x)^alpha are for the tensor product rules of any dimension only
namespace Dune {
  template<> struct TensorProductQuadratureRule<double,1000>
  { static QuadratureRule<double,1> jacobi (int order, int alpha) { return JacobiNQuadratureRule1D<double>(order, alpha); } };
}
// iin: order, alpha
DGV_ENTRY(qr_jacobi, put<1>(TensorProductQuadratureRule<double,1000>::jacobi(iin[0], iin[1]), out, iout);)

// the eigenvalue problem as contracted: records the matrix, returns arbitrary values
static const double* eigIn;
static double* eigOut;
static long eigN;
extern "C" void eig_stub (const DynamicMatrix<double>& J, DynamicVector<std::complex<double>>& l, std::vector<DynamicVector<double>>* v)
{
  const int n = J.rows();
  eigN = n;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) *eigOut++ = J[i][j];
  for (int i = 0; i < n; ++i) {
    l[i] = eigIn[2*i];
    (*v)[i][0] = eigIn[2*i+1];
  }
}
// iin: order, alpha; in: eigenvalues and first entries of the eigenvectors
// out: the rule; from 128 on the matrix
DGV_ENTRY(qr_golub, eigIn = in; eigOut = out+128; eigN = 0;
  put<1>(TensorProductQuadratureRule<double,1000>::jacobi(iin[0], iin[1]), out, iout); iout[4] = eigN;)

// arbitrary rules for the proof of the product construction: what the rules of
// lower dimension are contracted to return; the requests are recorded
static const double* arbIn;
static long arbSize[2], reqN, req[4][5];
template<int d>
static void fill (QuadratureRule<double,d>& r, int which)
{
  const double* in = arbIn + (which ? arbSize[0]*req[0][4] : 0);
  for (long k = 0; k < arbSize[which]; ++k) {
    FieldVector<double,d> x;
    for (int i = 0; i < d; ++i) x[i] = *in++;
    const double w = *in++;
    r.push_back(QuadraturePoint<double,d>(x, w));
  }
}
template<int d> static int note (long tid, long p, long qt)
{
  int i = 0;
  for (; i < reqN; ++i)
    if (req[i][0] == tid && req[i][1] == p && req[i][2] == qt && req[i][3] == d) return i;
  req[i][0] = tid; req[i][1] = p; req[i][2] = qt; req[i][3] = d; req[i][4] = d+1; ++reqN;
  return i;
}
template<int d>
static const QuadratureRule<double,d>* arb (const GeometryType& t, int p, QuadratureType::Enum qt)
{
  auto r = new QuadratureRule<double,d>;
  const int i = note<d>(t.id(), p, qt);
  fill<d>(*r, i);
  return r;
}
extern "C" {
  const void* arb_0 (const GeometryType& t, int p, int qt) { return arb<0>(t, p, QuadratureType::Enum(qt)); }
  const void* arb_1 (const GeometryType& t, int p, int qt) { return arb<1>(t, p, QuadratureType::Enum(qt)); }
  const void* arb_2 (const GeometryType& t, int p, int qt) { return arb<2>(t, p, QuadratureType::Enum(qt)); }
  const void* arb_3 (const GeometryType& t, int p, int qt) { return arb<3>(t, p, QuadratureType::Enum(qt)); }
  // family 100+alpha: weight (1-x)^alpha
  void arb_jacobi (void* o, int p, int alpha)
  { auto r = new (o) QuadratureRule<double,1>; const int i = note<1>(1, p, 100+alpha); fill<1>(*r, i); }
}

// iin: topology id, order, family, sizes of the two rules
// iout: as above, then number of requests and the requests
template<int d>
static void product (const double* in, const long* iin, double* out, long* iout)
{
  arbIn = in; arbSize[0] = iin[3]; arbSize[1] = iin[4]; reqN = 0;
  put<d>(factory(FactoryTag<d>())(GeometryType(iin[0], d), iin[1], QuadratureType::Enum(iin[2])), out, iout);
  iout[4] = reqN;
  for (int i = 0; i < reqN; ++i)
    for (int j = 0; j < 4; ++j) iout[5+4*i+j] = req[i][j];
}
DGV_ENTRY(qr_product_2, product<2>(in, iin, out, iout);)
DGV_ENTRY(qr_product_3, product<3>(in, iin, out, iout);)
DGV_ENTRY(qr_product_4, product<4>(in, iin, out, iout);)

// iin: topology id, family
template<int d>
static long maxOrder (const long* iin)
{ return QuadratureRules<double,d>::maxOrder(GeometryType(iin[0], d), QuadratureType::Enum(iin[1])); }
DGV_ENTRY(qr_max_0, iout[0] = maxOrder<0>(iin);)
DGV_ENTRY(qr_max_1, iout[0] = maxOrder<1>(iin);)
DGV_ENTRY(qr_max_2, iout[0] = maxOrder<2>(iin);)
DGV_ENTRY(qr_max_3, iout[0] = maxOrder<3>(iin);)
DGV_ENTRY(qr_max_4, iout[0] = maxOrder<4>(iin);)

// iin: number of requests; per request: topology id, order, family
// iout, per request: 0 answered, 1 out of range, 2 other error; first request that gave the object; is it the rule of the
// factory; is it unchanged at the end; order; largest order; topology id
template<int d>
static bool same (const QuadratureRule<double,d>& a, const QuadratureRule<double,d>& b)
{
  if (a.size() != b.size() || a.order() != b.order() || a.type() != b.type()) return false;
  for (std::size_t i = 0; i < a.size(); ++i)
    if (a[i].weight() != b[i].weight() || a[i].position() != b[i].position()) return false;
  return true;
}
template<int d>
static void history (const long* iin, long* iout)
{
  const long n = *iin++;
  std::vector<const QuadratureRule<double,d>*> r(n, nullptr);
  std::vector<QuadratureRule<double,d>> copy(n);
  for (long i = 0; i < n; ++i) {
    const GeometryType t(iin[3*i], d);
    const int p = iin[3*i+1];
    const QuadratureType::Enum qt = QuadratureType::Enum(iin[3*i+2]);
    long* o = iout+7*i;
    for (int j = 0; j < 7; ++j) o[j] = 0;
    o[5] = QuadratureRules<double,d>::maxOrder(t, qt);
    try {
      r[i] = &QuadratureRules<double,d>::rule(t, p, qt);
      copy[i] = *r[i];
      for (o[1] = 0; r[o[1]] != r[i]; ++o[1]) ;
      o[2] = same<d>(*r[i], factory(FactoryTag<d>())(t, p, qt));
      o[4] = r[i]->order();
      o[6] = r[i]->type().id();
    }
    catch (QuadratureOrderOutOfRange&) { o[0] = 1; }
    catch (...) { o[0] = 2; }
  }
  for (long i = 0; i < n; ++i)
    if (r[i]) iout[7*i+3] = same<d>(*r[i], copy[i]);
}
DGV_ENTRY(qr_history_0, history<0>(iin, iout);)
DGV_ENTRY(qr_history_1, history<1>(iin, iout);)
DGV_ENTRY(qr_history_2, history<2>(iin, iout);)
DGV_ENTRY(qr_history_3, history<3>(iin, iout);)
