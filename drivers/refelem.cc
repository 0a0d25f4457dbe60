#include "dgv.hh"
#include <dune/geometry/referenceelements.hh>
#include <dune/geometry/referenceelementimplementation.cc>
using namespace Dune;

// numbering of one reference element; iin: topologyId
template<int dim>
static void numbering (const long* iin, long* o)
{
  GeometryType gt((unsigned int)iin[0], dim);
  const auto& r = ReferenceElements<double,dim>::general(gt);
  *o++ = r.type().dim(); *o++ = r.type().id(); *o++ = r.type().isNone();
  for (int c = 0; c <= dim; ++c) {
    *o++ = r.size(c);
    for (int i = 0; i < r.size(c); ++i) {
      GeometryType t = r.type(i, c);
      *o++ = t.dim(); *o++ = t.id(); *o++ = t.isNone();
      for (int cc = 0; cc <= dim; ++cc) {
        *o++ = r.size(i, c, cc);
        for (int ii = 0; ii < r.size(i, c, cc); ++ii)
          *o++ = r.subEntity(i, c, ii, cc);
        auto s = r.subEntities(i, c, cc);
        *o++ = s.size();
        for (auto k : s) *o++ = k;
        for (int k = 0; k < r.size(cc); ++k) *o++ = s.contains(k);
      }
    }
  }
}
// access to the table; iin: topologyId
template<int dim>
static void access (const long* iin, long* o)
{
  typedef ReferenceElements<double,dim> R;
  GeometryType gt((unsigned int)iin[0], dim);
  auto r = R::general(gt);
  *o++ = referenceElement<double,dim>(gt) == r;
  *o++ = referenceElement<double>(gt, Dim<dim>()) == r;
  *o++ = referenceElement(double(), gt, Dim<dim>()) == r;
  *o++ = referenceElement(r.template geometry<0>(0)) == r;
  *o++ = R::simplex() == r; *o++ = R::cube() == r;
  *o++ = R::simplex() != r;
  typename R::ReferenceElement s; *o++ = s == r; s = r; *o++ = s == r;
  *o++ = R::end() - R::begin();
  for (auto it = R::begin(); it != R::end(); ++it) *o++ = (*it == r);
}
// positions, volume, normals; iin: topologyId
template<int dim>
static void positions (const long* iin, double* o)
{
  GeometryType gt((unsigned int)iin[0], dim);
  const auto& r = ReferenceElements<double,dim>::general(gt);
  for (int c = 0; c <= dim; ++c)
    for (int i = 0; i < r.size(c); ++i) {
      auto p = r.position(i, c);
      for (int k = 0; k < dim; ++k) *o++ = p[k];
    }
  *o++ = r.volume();
  if constexpr (dim > 0)
    for (int f = 0; f < r.size(1); ++f) {
      auto n = r.integrationOuterNormal(f);
      for (int k = 0; k < dim; ++k) *o++ = n[k];
    }
}
// embeddings of the sub-entities of codimension c; iin: topologyId, c; in: local point
template<int dim, int c>
static void embedding (const double* in, const long* iin, double* o, long* j)
{
  GeometryType gt((unsigned int)iin[0], dim);
  const auto& r = ReferenceElements<double,dim>::general(gt);
  FieldVector<double,dim-c> x;
  for (int k = 0; k < dim-c; ++k) x[k] = in[k];
  for (int i = 0; i < r.size(c); ++i) {
    auto g = r.template geometry<c>(i);
    *j++ = g.type().dim(); *j++ = g.type().id(); *j++ = g.corners(); *j++ = g.affine();
    auto y = g.global(x);
    for (int k = 0; k < dim; ++k) *o++ = y[k];
    for (int m = 0; m < g.corners(); ++m) { auto p = g.corner(m); for (int k = 0; k < dim; ++k) *o++ = p[k]; }
    auto J = g.jacobianTransposed(x);
    for (int a = 0; a < dim-c; ++a) for (int k = 0; k < dim; ++k) *o++ = J[a][k];
  }
}
// iin: topologyId; in: point
template<int dim>
static void inside (const double* in, const long* iin, long* o)
{
  GeometryType gt((unsigned int)iin[0], dim);
  const auto& r = ReferenceElements<double,dim>::general(gt);
  FieldVector<double,dim> x;
  for (int k = 0; k < dim; ++k) x[k] = in[k];
  *o = r.checkInside(x);
}
#define RE(d) \
  DGV_ENTRY(re_num_##d, numbering<d>(iin, iout);) \
  DGV_ENTRY(re_acc_##d, access<d>(iin, iout);) \
  DGV_ENTRY(re_pos_##d, positions<d>(iin, out);) \
  DGV_ENTRY(re_in_##d, inside<d>(in, iin, iout);)
RE(0) RE(1) RE(2) RE(3) RE(4)
#define EM(d,c) DGV_ENTRY(re_emb_##d##c, (embedding<d,c>(in, iin, out, iout));)
EM(0,0) EM(1,0) EM(1,1) EM(2,0) EM(2,1) EM(2,2) EM(3,0) EM(3,1) EM(3,2) EM(3,3) EM(4,0) EM(4,1) EM(4,2) EM(4,3) EM(4,4)

// recursive kernels at any dimension; iin: topologyId, dim, codim, i
namespace I = Dune::Geo::Impl;
DGV_ENTRY(rk_size, iout[0] = I::size((unsigned int)iin[0], (int)iin[1], (int)iin[2]);)
DGV_ENTRY(rk_sub, iout[0] = I::subTopologyId((unsigned int)iin[0], (int)iin[1], (int)iin[2], (unsigned int)iin[3]);)
DGV_ENTRY(rk_vol, iout[0] = I::referenceVolumeInverse((unsigned int)iin[0], (int)iin[1]);)
