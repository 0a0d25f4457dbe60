#include "dgv.hh"
#include <dune/geometry/utility/algorithms.hh>
using namespace Dune;

// an arbitrary function (contracted to be any function of its argument; natively a quadratic polynomial with
// coefficients from the input: value, slopes, curvature per component)
static const double* gnCoef;
extern "C" __attribute__((noinline)) void gn_f (const double* x, double* y, int m, int n)
{
  for (int k = 0; k < n; ++k) {
    const double* c = gnCoef + k*(m+2);
    y[k] = c[0];
    for (int j = 0; j < m; ++j) y[k] += c[1+j]*x[j] + c[m+1]*x[j]*x[j];
  }
}
extern "C" __attribute__((noinline)) void gn_df (const double* x, double* A, int m, int n)
{
  for (int j = 0; j < m; ++j)
    for (int k = 0; k < n; ++k) {
      const double* c = gnCoef + k*(m+2);
      A[j*n+k] = c[1+j] + 2*c[m+1]*x[j];
    }
}

// in: start value, target, tolerance, reduction factor, coefficients; iin: iteration limits
// out: result; iout: status
template<int m, int n>
static void gn (const double* in, const long* iin, double* out, long* iout)
{
  FieldVector<double,m> x;
  FieldVector<double,n> y;
  for (int i = 0; i < m; ++i) x[i] = *in++;
  for (int i = 0; i < n; ++i) y[i] = *in++;
  Impl::GaussNewtonOptions<double> o;
  o.absTol = *in++; o.theta = *in++;
  o.maxIt = iin[0]; o.maxInnerIt = iin[1];
  gnCoef = in;
  const auto e = Impl::gaussNewton(
    [](const FieldVector<double,m>& x) { FieldVector<double,n> y; gn_f(&x[0], &y[0], m, n); return y; },
    [](const FieldVector<double,m>& x) { FieldMatrix<double,m,n> A; gn_df(&x[0], &A[0][0], m, n); return A; },
    y, x, o);
  for (int i = 0; i < m; ++i) out[i] = x[i];
  iout[0] = int(e);
}
DGV_ENTRY(gn_11, gn<1,1>(in, iin, out, iout);)
DGV_ENTRY(gn_12, gn<1,2>(in, iin, out, iout);)
DGV_ENTRY(gn_13, gn<1,3>(in, iin, out, iout);)
DGV_ENTRY(gn_22, gn<2,2>(in, iin, out, iout);)
DGV_ENTRY(gn_23, gn<2,3>(in, iin, out, iout);)
DGV_ENTRY(gn_33, gn<3,3>(in, iin, out, iout);)
