#include "geoquery.hh"
#include <vector>
#include <dune/geometry/affinegeometry.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/referenceelementimplementation.cc>
using namespace Dune;

// iin: topology id, query, construction (0,1: corners, 2,3: origin and transposed Jacobian), number of corners given
template<int m, int n>
static void aff (const double* in, const long* iin, double* out, long* iout)
{
  typedef AffineGeometry<double,m,n> G;
  GeometryType t(iin[0], m);
  auto ref = Geo::ReferenceElements<double,m>::general(t);
  if (iin[2] < 2) {
    std::vector<FieldVector<double,n>> c(iin[3]);
    for (auto& v : c) v = getv<n>(in);
    if (iin[2] == 0) { G g(t, c); query<m,n>(g, iin[1], in, out, iout); }
    else             { G g(ref, c); G h; h = g; query<m,n>(h, iin[1], in, out, iout); }
  } else {
    FieldVector<double,n> o = getv<n>(in);
    FieldMatrix<double,m,n> jt;
    for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) jt[i][j] = *in++;
    if (iin[2] == 2) { G g(t, o, jt); query<m,n>(g, iin[1], in, out, iout); }
    else             { G g(ref, o, jt); G h(g); query<m,n>(h, iin[1], in, out, iout); }
  }
}
#define AF(m,n) DGV_ENTRY(af_##m##n, aff<m,n>(in, iin, out, iout);)
AF(0,1) AF(0,2) AF(0,3)
AF(1,1) AF(1,2) AF(1,3)
AF(2,2) AF(2,3)
AF(3,3)
