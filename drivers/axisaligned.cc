#include "geoquery.hh"
#include <bitset>
#include <dune/geometry/axisalignedcubegeometry.hh>
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/referenceelementimplementation.cc>
using namespace Dune;

// iin: axes, query, construction (0: corners [full dimension], 1: corners and axes, 2: point [dimension 0]),
// copy (0: none, 1: copy, 2: assignment to an empty object, 3: assignment to another geometry)
template<int m, int n>
static void aa (const double* in, const long* iin, double* out, long* iout)
{
  typedef AxisAlignedCubeGeometry<double,m,n> G;
  auto l = getv<n>(in), u = getv<n>(in);
  auto use = [&](const G& g) {
    switch (iin[3]) {
    case 0: query<m,n>(g, iin[1], in, out, iout); break;
    case 1: { G h(g); query<m,n>(h, iin[1], in, out, iout); break; }
    case 2: { G h; h = g; query<m,n>(h, iin[1], in, out, iout); break; }
    case 3: { FieldVector<double,n> a(3.), b(7.); std::bitset<n> ax((1ul << m) - 1); G h(a, b, ax); h = g;
              query<m,n>(h, iin[1], in, out, iout); break; }
    }
  };
  if (iin[2] == 0) { if constexpr (m == n) use(G(l, u)); }
  else if (iin[2] == 1) use(G(l, u, std::bitset<n>(iin[0])));
  else { if constexpr (m == 0) use(G(l)); }
}
#define AA(m,n) DGV_ENTRY(aa_##m##n, aa<m,n>(in, iin, out, iout);)
AA(0,1) AA(0,2) AA(0,3)
AA(1,1) AA(1,2) AA(1,3)
AA(2,2) AA(2,3)
AA(3,3)
