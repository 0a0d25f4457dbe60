#include "dgv.hh"
#include <type_traits>
#include <dune/geometry/type.hh>
#include <dune/geometry/typeindex.hh>
#include <dune/geometry/utility/typefromvertexcount.hh>
using namespace Dune;

static GeometryType get (const long* i) { return GeometryType((unsigned int)i[1], (unsigned int)i[0], (bool)i[2]); }
static void put (const GeometryType& g, long* o) { o[0] = g.dim(); o[1] = g.id(); o[2] = g.isNone(); }

// iin: two types (dim, id, none)
DGV_ENTRY(gt_compare,
  GeometryType a = get(iin), b = get(iin+3);
  iout[0] = a == b; iout[1] = a != b; iout[2] = a < b; iout[3] = b < a;
)
DGV_ENTRY(gt_id,
  GeometryType a = get(iin);
  put(a, iout);
  GeometryType::Id id = a; GeometryType b(id); put(b, iout+3);
  GeometryType c = a.toId(); put(c, iout+6);
  iout[9] = (c == a);
  iout[10] = (GeometryType(get(iin+3).toId()) == c); iout[11] = (a.toId() == get(iin+3).toId());
  GeometryType d; d = a; put(d, iout+12);
  GeometryType e; put(e, iout+15);
  GeometryType f((unsigned int)iin[1], (unsigned int)iin[0]); put(f, iout+18);
)
DGV_ENTRY(gt_shape,
  GeometryType a = get(iin);
  iout[0] = a.isVertex(); iout[1] = a.isLine(); iout[2] = a.isTriangle(); iout[3] = a.isQuadrilateral();
  iout[4] = a.isTetrahedron(); iout[5] = a.isPyramid(); iout[6] = a.isPrism(); iout[7] = a.isHexahedron();
  iout[8] = a.isSimplex(); iout[9] = a.isCube(); iout[10] = a.isNone();
)
// dim > 0; iin[3]: step
DGV_ENTRY(gt_cone,
  GeometryType a = get(iin); int s = iin[3];
  iout[0] = a.isConical(); iout[1] = a.isPrismatic(); iout[2] = a.isConical(s); iout[3] = a.isPrismatic(s);
  put(Impl::getBase(a), iout+4);
)
DGV_ENTRY(gt_impl,
  unsigned int id = iin[1]; int dim = iin[0]; int codim = iin[3];
  iout[0] = Impl::numTopologies(dim); iout[1] = Impl::isPyramid(id, dim, codim); iout[2] = Impl::isPrism(id, dim, codim);
  iout[3] = Impl::baseTopologyId(id, dim, codim); iout[4] = Impl::isPyramid(id, dim); iout[5] = Impl::isPrism(id, dim);
  iout[6] = Impl::baseTopologyId(id, dim);
)
DGV_ENTRY(gt_named,
  unsigned int d = iin[0];
  put(GeometryTypes::simplex(d), iout); put(GeometryTypes::cube(d), iout+3); put(GeometryTypes::none(d), iout+6);
  put(GeometryTypes::vertex, iout+9); put(GeometryTypes::line, iout+12); put(GeometryTypes::triangle, iout+15);
  put(GeometryTypes::quadrilateral, iout+18); put(GeometryTypes::tetrahedron, iout+21); put(GeometryTypes::pyramid, iout+24);
  put(GeometryTypes::prism, iout+27); put(GeometryTypes::hexahedron, iout+30);
)
DGV_ENTRY(gt_extend,
  GeometryType a = get(iin);
  put(GeometryTypes::conicalExtension(a), iout); put(GeometryTypes::prismaticExtension(a), iout+3);
)
// compile-time dispatch: the type the operation is instantiated with
template< GeometryType::Id id > struct Report
{ static int apply (long* o) { GeometryType g(id); put(g, o); return 17; } };
template< int dim > static void dispatch (const long* iin, long* iout)
{
  GeometryType g = get(iin);
  iout[3] = Impl::IfGeometryType< Report, dim >::apply(g, iout);
}
DGV_ENTRY(gt_if, switch (iin[3]) { case 0: dispatch<0>(iin, iout); break; case 1: dispatch<1>(iin, iout); break;
  case 2: dispatch<2>(iin, iout); break; case 3: dispatch<3>(iin, iout); break; case 4: dispatch<4>(iin, iout); break; })
template< int dim > static void constant (const long* iin, long* iout)
{
  Impl::toGeometryTypeIdConstant<dim>(get(iin), [&](auto id) { GeometryType g(decltype(id)::value); put(g, iout); });
}
DGV_ENTRY(gt_const, switch (iin[3]) { case 0: constant<0>(iin, iout); break; case 1: constant<1>(iin, iout); break;
  case 2: constant<2>(iin, iout); break; case 3: constant<3>(iin, iout); break; case 4: constant<4>(iin, iout); break; })

// indices
DGV_ENTRY(ti_local,
  GeometryType a = get(iin);
  iout[0] = LocalGeometryTypeIndex::index(a); iout[1] = LocalGeometryTypeIndex::size(a.dim());
  put(LocalGeometryTypeIndex::type(a.dim(), LocalGeometryTypeIndex::index(a)), iout+2);
  iout[5] = GlobalGeometryTypeIndex::index(a); iout[6] = GlobalGeometryTypeIndex::offset(a.dim());
  iout[7] = GlobalGeometryTypeIndex::size(a.dim());
)
// iin: dim, index
DGV_ENTRY(ti_type,
  GeometryType a = LocalGeometryTypeIndex::type(iin[0], iin[1]);
  put(a, iout); iout[3] = LocalGeometryTypeIndex::index(a); iout[4] = LocalGeometryTypeIndex::size(iin[0]);
)
// two types
DGV_ENTRY(ti_pair,
  GeometryType a = get(iin), b = get(iin+3);
  iout[0] = GlobalGeometryTypeIndex::index(a); iout[1] = GlobalGeometryTypeIndex::index(b);
  iout[2] = LocalGeometryTypeIndex::index(a); iout[3] = LocalGeometryTypeIndex::index(b);
  iout[4] = GlobalGeometryTypeIndex::offset(iin[6]); iout[5] = GlobalGeometryTypeIndex::size(iin[6]);
  iout[6] = LocalGeometryTypeIndex::size(iin[6]);
)
DGV_ENTRY(vc_type, put(geometryTypeFromVertexCount((unsigned int)iin[0], (unsigned int)iin[1]), iout); )
