#include "dgv.hh"
#include <cassert>
#include <dune/geometry/utility/defaultmatrixhelper.hh>
using namespace Dune;
using H = Impl::FieldMatrixHelper<double>;

template<int m, int n> static FieldMatrix<double,m,n> mat (const double*& in)
{
  FieldMatrix<double,m,n> A;
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) A[i][j] = *in++;
  return A;
}
template<int n> static FieldVector<double,n> vec (const double*& in)
{
  FieldVector<double,n> x;
  for (int i = 0; i < n; ++i) x[i] = *in++;
  return x;
}
template<int m, int n> static void put (double*& out, const FieldMatrix<double,m,n>& A)
{
  for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) *out++ = A[i][j];
}
template<int n> static void putl (double*& out, const FieldMatrix<double,n,n>& A)
{
  for (int i = 0; i < n; ++i) for (int j = 0; j <= i; ++j) *out++ = A[i][j];
}
template<int n> static void put (double*& out, const FieldVector<double,n>& x)
{
  for (int i = 0; i < n; ++i) *out++ = x[i];
}

#define SQ(n) \
  DGV_ENTRY(cholesky_##n, auto A = mat<n,n>(in); FieldMatrix<double,n,n> L(0.); bool c = iin[0]; \
    iout[0] = c ? H::cholesky_L(A, L, true) : H::cholesky_L(A, L); if (iout[0]) putl<n>(out, L);) \
  DGV_ENTRY(detL_##n, auto A = mat<n,n>(in); out[0] = H::detL(A);) \
  DGV_ENTRY(invL_##n, auto A = mat<n,n>(in); double d = H::invL(A); putl<n>(out, A); *out = d;) \
  DGV_ENTRY(invLx_##n, auto A = mat<n,n>(in); auto x = vec<n>(in); H::invLx(A, x); put(out, x);) \
  DGV_ENTRY(invLTx_##n, auto A = mat<n,n>(in); auto x = vec<n>(in); H::invLTx(A, x); put(out, x);) \
  DGV_ENTRY(Lx_##n, auto A = mat<n,n>(in); auto x = vec<n>(in); FieldVector<double,n> y; H::Lx(A, x, y); put(out, y);) \
  DGV_ENTRY(LTx_##n, auto A = mat<n,n>(in); auto x = vec<n>(in); FieldVector<double,n> y; H::LTx(A, x, y); put(out, y);) \
  DGV_ENTRY(LTL_##n, auto A = mat<n,n>(in); FieldMatrix<double,n,n> R; H::LTL(A, R); put(out, R);) \
  DGV_ENTRY(LLT_##n, auto A = mat<n,n>(in); FieldMatrix<double,n,n> R; H::LLT(A, R); put(out, R);) \
  DGV_ENTRY(spdDetA_##n, auto A = mat<n,n>(in); out[0] = H::spdDetA(A);) \
  DGV_ENTRY(spdInvA_##n, auto A = mat<n,n>(in); double d = H::spdInvA(A); put(out, A); *out = d;) \
  DGV_ENTRY(spdInvAx_##n, auto A = mat<n,n>(in); auto x = vec<n>(in); bool c = iin[0]; \
    iout[0] = c ? H::spdInvAx(A, x, true) : H::spdInvAx(A, x); if (iout[0]) put(out, x);)
SQ(1) SQ(2) SQ(3)

#define RECT(m,n) \
  DGV_ENTRY(ATA_L_##m##n, auto A = mat<m,n>(in); FieldMatrix<double,n,n> R; H::ATA_L(A, R); putl<n>(out, R);) \
  DGV_ENTRY(AAT_L_##m##n, auto A = mat<m,n>(in); FieldMatrix<double,m,m> R; H::AAT_L(A, R); putl<m>(out, R);) \
  DGV_ENTRY(AAT_##m##n, auto A = mat<m,n>(in); FieldMatrix<double,m,m> R; H::AAT(A, R); put(out, R);) \
  DGV_ENTRY(ATA_##m##n, auto A = mat<m,n>(in); FieldMatrix<double,n,n> R; H::ATA(A, R); put(out, R);) \
  DGV_ENTRY(Ax_##m##n, auto A = mat<m,n>(in); auto x = vec<n>(in); FieldVector<double,m> y; H::Ax(A, x, y); put(out, y);) \
  DGV_ENTRY(ATx_##m##n, auto A = mat<m,n>(in); auto x = vec<m>(in); FieldVector<double,n> y; H::ATx(A, x, y); put(out, y);) \
  DGV_ENTRY(detATA_##m##n, auto A = mat<m,n>(in); out[0] = H::detATA(A);) \
  DGV_ENTRY(sqrtDetAAT_##m##n, auto A = mat<m,n>(in); out[0] = H::sqrtDetAAT(A);)
RECT(1,1) RECT(1,2) RECT(1,3) RECT(2,1) RECT(2,2) RECT(2,3) RECT(3,1) RECT(3,2) RECT(3,3)

#define RIGHT(m,n) \
  DGV_ENTRY(rightInvA_##m##n, auto A = mat<m,n>(in); FieldMatrix<double,n,m> R; double d = H::rightInvA(A, R); put(out, R); *out = d;) \
  DGV_ENTRY(xTRightInvA_##m##n, auto A = mat<m,n>(in); auto x = vec<n>(in); FieldVector<double,m> y; \
    iout[0] = H::xTRightInvA(A, x, y); if (iout[0]) put(out, y);) \
  DGV_ENTRY(leftInvA_##n##m, auto A = mat<n,m>(in); FieldMatrix<double,m,n> R; double d = H::leftInvA(A, R); put(out, R); *out = d;) \
  DGV_ENTRY(leftInvAx_##n##m, auto A = mat<n,m>(in); auto x = vec<n>(in); FieldVector<double,m> y; \
    iout[0] = H::leftInvAx(A, x, y); if (iout[0]) put(out, y);)
RIGHT(1,1) RIGHT(1,2) RIGHT(1,3) RIGHT(2,2) RIGHT(2,3) RIGHT(3,3)

#define PROD(m,n,p) \
  DGV_ENTRY(AB_##m##n##p, auto A = mat<m,n>(in); auto B = mat<n,p>(in); FieldMatrix<double,m,p> R; H::AB(A, B, R); put(out, R);) \
  DGV_ENTRY(ATBT_##m##n##p, auto A = mat<m,n>(in); auto B = mat<p,m>(in); FieldMatrix<double,n,p> R; H::ATBT(A, B, R); put(out, R);)
#define PROD2(m,n) PROD(m,n,1) PROD(m,n,2) PROD(m,n,3)
PROD2(1,1) PROD2(1,2) PROD2(1,3) PROD2(2,1) PROD2(2,2) PROD2(2,3) PROD2(3,1) PROD2(3,2) PROD2(3,3)
