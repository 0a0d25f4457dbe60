#include "geoquery.hh"
#include <array>
#include <vector>
#include <dune/geometry/multilineargeometry.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/referenceelementimplementation.cc>
using namespace Dune;

// corners in a fixed-size array
template<class ct> struct ArrayTraits : MultiLinearGeometryTraits<ct>
{
  template<int mydim, int cdim> struct CornerStorage { typedef std::array<FieldVector<ct,cdim>, (1 << mydim)> Type; };
};
// corners referenced, not stored
template<class ct> struct RefTraits : MultiLinearGeometryTraits<ct>
{
  template<int mydim, int cdim> struct CornerStorage
  { typedef std::reference_wrapper<const std::vector<FieldVector<ct,cdim>>> Type; };
};
template<class ct> struct CubeTraits : MultiLinearGeometryTraits<ct>
{
  template<int dim> struct hasSingleGeometryType
  { static const bool v = true; static const unsigned int topologyId = GeometryTypes::cube(dim).id(); };
};
template<class ct> struct SimplexTraits : MultiLinearGeometryTraits<ct>
{
  template<int dim> struct hasSingleGeometryType
  { static const bool v = true; static const unsigned int topologyId = GeometryTypes::simplex(dim).id(); };
};

template<class G, int m, int n, class C>
static void ml (const C& c, GeometryType t, const double* in, const long* iin, double* out, long* iout)
{
  if (iin[2] == 0) {
    G g(t, c);
    query<m,n>(g, iin[1], in, out, iout);
  } else {
    G g(Geo::ReferenceElements<double,m>::general(t), c);
    G h(g);
    query<m,n>(h, iin[1], in, out, iout);
  }
}

template<int m, int n>
static void mls (const double* in, const long* iin, double* out, long* iout)
{
  GeometryType t(iin[0], m);
  long nc = iin[4];
  long k = iin[3];
  if (k == 1) {
    std::array<FieldVector<double,n>, (1 << m)> c;
    for (long i = 0; i < nc; ++i) c[i] = getv<n>(in);
    for (long i = nc; i < (1 << m); ++i) c[i] = 0.;
    ml<MultiLinearGeometry<double,m,n,ArrayTraits<double>>,m,n>(c, t, in, iin, out, iout);
    return;
  }
  std::vector<FieldVector<double,n>> c(nc);
  for (auto& v : c) v = getv<n>(in);
  switch (k) {
  case 0: ml<MultiLinearGeometry<double,m,n>,m,n>(c, t, in, iin, out, iout); break;
  case 2: ml<MultiLinearGeometry<double,m,n,RefTraits<double>>,m,n>(std::cref(c), t, in, iin, out, iout); break;
  case 3: ml<MultiLinearGeometry<double,m,n,CubeTraits<double>>,m,n>(c, t, in, iin, out, iout); break;
  case 4: ml<MultiLinearGeometry<double,m,n,SimplexTraits<double>>,m,n>(c, t, in, iin, out, iout); break;
  case 5: ml<CachedMultiLinearGeometry<double,m,n>,m,n>(c, t, in, iin, out, iout); break;
  }
}

// iin: topology id, query, construction, kind, number of corners
#define ML(m,n) DGV_ENTRY(ml_##m##n, mls<m,n>(in, iin, out, iout);)
ML(0,1) ML(0,2) ML(0,3)
ML(1,1) ML(1,2) ML(1,3)
ML(2,2) ML(2,3)
ML(3,3)

// a caching geometry that lives across calls
template<int m, int n> using Cached = CachedMultiLinearGeometry<double,m,n>;
template<int m, int n>
static void cnew (const double* in, const long* iin, double* out, long* iout)
{
  GeometryType t(iin[0], m);
  std::vector<FieldVector<double,n>> c(iin[1]);
  for (auto& v : c) v = getv<n>(in);
  iout[0] = (long) (iin[2] ? new Cached<m,n>(Geo::ReferenceElements<double,m>::general(t), c) : new Cached<m,n>(t, c));
}
template<int m, int n>
static void cq (const double* in, const long* iin, double* out, long* iout)
{
  auto* g = (Cached<m,n>*) iin[0];
  if (iin[1] == 100) { auto* h = new Cached<m,n>(*g); delete g; iout[0] = (long) h; return; }
  if (iin[1] == 101) { Cached<m,n> h(*g); *g = h; iout[0] = (long) g; return; }
  iout[0] = (long) g;
  long* io = iout + 1;
  query<m,n>(*g, iin[1], in, out, io);
}
// a whole history in one call (replay): iin: topology id, number of corners, construction, number of operations, operations
template<int m, int n>
static void chist (const double* in, const long* iin, double* out, long* iout)
{
  long h = 0;
  GeometryType t(iin[0], m);
  std::vector<FieldVector<double,n>> c(iin[1]);
  for (auto& v : c) v = getv<n>(in);
  h = (long) (iin[2] ? new Cached<m,n>(Geo::ReferenceElements<double,m>::general(t), c) : new Cached<m,n>(t, c));
  for (long k = 0; k < iin[3]; ++k) {
    long a[2] = { h, iin[4+k] };
    double o[64]; long io[8];
    bool last = k == iin[3]-1;
    cq<m,n>(in, a, last ? out : o, last ? iout : io);
    h = last ? iout[0] : io[0];
    if (a[1] <= qIE) in += m;
    if (a[1] == qLocal) in += n;
  }
  delete (Cached<m,n>*) h;
  iout[0] = 0;
}
#define CM(m,n) DGV_ENTRY(chist_##m##n, chist<m,n>(in, iin, out, iout);) DGV_ENTRY(cnew_##m##n, cnew<m,n>(in, iin, out, iout);) DGV_ENTRY(cq_##m##n, cq<m,n>(in, iin, out, iout);)
CM(1,1) CM(1,2) CM(1,3) CM(2,2) CM(2,3) CM(3,3)
