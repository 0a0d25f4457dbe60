// queries on the geometry interface with flat input and output
#ifndef DGV_GEOQUERY_HH
#define DGV_GEOQUERY_HH

#include "dgv.hh"
#include <cassert>
#include <dune/common/fmatrix.hh>
#include <dune/common/fvector.hh>
#include <dune/common/diagonalmatrix.hh>
#include <dune/geometry/type.hh>

template<int n>
static Dune::FieldVector<double,n> getv (const double*& in)
{
  Dune::FieldVector<double,n> x;
  for (int i = 0; i < n; ++i) x[i] = *in++;
  return x;
}
template<int m, int n>
static double at (const Dune::FieldMatrix<double,m,n>& A, int i, int j) { return A[i][j]; }
template<int n>
static double at (const Dune::DiagonalMatrix<double,n>& A, int i, int j) { return i == j ? A.diagonal()[i] : 0.; }
template<int m, int n, class M>
static void putm (double*& out, const M& A)
{
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) *out++ = at(A, i, j);
}
template<int n>
static void putv (double*& out, const Dune::FieldVector<double,n>& x)
{
  for (int i = 0; i < n; ++i) *out++ = x[i];
}

enum { qGlobal, qJT, qJ, qJinvT, qJinv, qIE, qVolume, qAffine, qCenter, qCorners, qLocal, qRef };

template<int m, int n, class G>
static void query (const G& g, long q, const double*& in, double*& out, long*& iout)
{
  typedef Dune::FieldVector<double,m> L;
  switch (q) {
  case qGlobal: { L x = getv<m>(in); putv<n>(out, g.global(x)); break; }
  case qJT:     { L x = getv<m>(in); putm<m,n>(out, g.jacobianTransposed(x)); break; }
  case qJ:      { L x = getv<m>(in); putm<n,m>(out, g.jacobian(x)); break; }
  case qJinvT:  { L x = getv<m>(in); putm<n,m>(out, g.jacobianInverseTransposed(x)); break; }
  case qJinv:   { L x = getv<m>(in); putm<m,n>(out, g.jacobianInverse(x)); break; }
  case qIE:     { L x = getv<m>(in); *out++ = g.integrationElement(x); break; }
  case qVolume: *out++ = g.volume(); break;
  case qAffine: *iout++ = g.affine(); break;
  case qCenter: putv<n>(out, g.center()); break;
  case qCorners:
    *iout++ = g.corners();
    *iout++ = g.type().id();
    *iout++ = g.type().dim();
    for (int i = 0; i < g.corners(); ++i) putv<n>(out, g.corner(i));
    break;
  case qLocal:  { Dune::FieldVector<double,n> y = getv<n>(in); putv<m>(out, g.local(y)); break; }
  case qRef:    { auto r = referenceElement(g); *iout++ = r.type().id(); *iout++ = r.type().dim(); break; }
  }
}

#endif
