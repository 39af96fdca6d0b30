// LAPACKE / CBLAS entry points the library uses, on top of the Fortran LAPACK
// that is installed (no LAPACKE here).
#ifndef STANDIN_MKL_H
#define STANDIN_MKL_H
#include <complex>
#include <vector>
#include <algorithm>
#include <cstddef>
typedef int lapack_int;
#ifndef MKL_INT
#define MKL_INT int
#endif
typedef std::complex<double> MKL_Complex16;
typedef std::complex<double> lapack_complex_double;
#ifndef LAPACK_ROW_MAJOR
#define LAPACK_ROW_MAJOR 101
#define LAPACK_COL_MAJOR 102
#endif
extern "C" {
void dstev_(const char *, const int *, double *, double *, double *, const int *, double *, int *);
void dstevd_(const char *, const int *, double *, double *, double *, const int *, double *, const int *, int *,
             const int *, int *);
void dstevx_(const char *, const char *, const int *, double *, double *, const double *, const double *, const int *,
             const int *, const double *, int *, double *, double *, const int *, double *, int *, int *, int *);
void dsyev_(const char *, const char *, const int *, double *, const int *, double *, double *, const int *, int *);
void zheev_(const char *, const char *, const int *, std::complex<double> *, const int *, double *,
            std::complex<double> *, const int *, double *, int *);
void dgesvd_(const char *, const char *, const int *, const int *, double *, const int *, double *, double *,
             const int *, double *, const int *, double *, const int *, int *);
void zgesvd_(const char *, const char *, const int *, const int *, std::complex<double> *, const int *, double *,
             std::complex<double> *, const int *, std::complex<double> *, const int *, std::complex<double> *,
             const int *, double *, int *);
}
// Row-major eigenvector output is transposed back from the column-major result.
inline void standin_transpose(int layout, double *z, int n, int ldz) {
  if (layout != LAPACK_ROW_MAJOR || z == nullptr) return;
  for (int i = 0; i < n; ++i)
    for (int j = i + 1; j < n; ++j) std::swap(z[i * ldz + j], z[j * ldz + i]);
}
inline int LAPACKE_dstev(int layout, char jobz, int n, double *d, double *e, double *z, int ldz) {
  std::vector<double> work(std::max(1, 2 * n - 2));
  int info = 0;
  int ld = std::max(1, ldz);
  dstev_(&jobz, &n, d, e, z, &ld, work.data(), &info);
  if (jobz == 'V') standin_transpose(layout, z, n, ld);
  return info;
}
inline int LAPACKE_dstevd(int layout, char jobz, int n, double *d, double *e, double *z, int ldz) {
  return LAPACKE_dstev(layout, jobz, n, d, e, z, ldz);
}
inline int LAPACKE_dstevx(int layout, char jobz, char range, int n, double *d, double *e, double vl, double vu, int il,
                          int iu, double abstol, int *m, double *w, double *z, int ldz, int *ifail) {
  std::vector<double> work(5 * std::max(1, n));
  std::vector<int> iwork(5 * std::max(1, n));
  int info = 0;
  int ncols = (range == 'I') ? iu - il + 1 : n;
  std::vector<double> zc((size_t)std::max(1, n) * std::max(1, ncols));
  int ldc = std::max(1, n);
  dstevx_(&jobz, &range, &n, d, e, &vl, &vu, &il, &iu, &abstol, m, w, zc.data(), &ldc, work.data(), iwork.data(), ifail,
          &info);
  if (jobz == 'V')
    for (int c = 0; c < *m; ++c)
      for (int r = 0; r < n; ++r)
        z[layout == LAPACK_ROW_MAJOR ? (size_t)r * ldz + c : (size_t)c * ldz + r] = zc[(size_t)c * n + r];
  return info;
}
inline int LAPACKE_dsyev(int layout, char jobz, char uplo, int n, double *a, int lda, double *w) {
  int info = 0, lw = std::max(1, 4 * n);
  std::vector<double> work(lw);
  char u = uplo;
  if (layout == LAPACK_ROW_MAJOR) u = (uplo == 'U') ? 'L' : 'U';
  dsyev_(&jobz, &u, &n, a, &lda, w, work.data(), &lw, &info);
  if (jobz == 'V') standin_transpose(layout, a, n, lda);
  return info;
}
extern "C" {
double dnrm2_(const int *, const double *, const int *);
}
inline void cblas_dscal(int n, double a, double *x, int inc) {
  for (int i = 0; i < n; ++i) x[(size_t)i * inc] *= a;
}
inline double cblas_dnrm2(int n, const double *x, int inc) { return dnrm2_(&n, x, &inc); }
enum { CblasRowMajor = 101, CblasColMajor = 102, CblasNoTrans = 111, CblasTrans = 112, CblasConjTrans = 113 };
inline void cblas_dgemv(int layout, int trans, int m, int n, double alpha, const double *a, int lda, const double *x,
                        int incx, double beta, double *y, int incy) {
  bool rowmajor = layout == CblasRowMajor, t = trans != CblasNoTrans;
  int ylen = t ? n : m, xlen = t ? m : n;
  for (int i = 0; i < ylen; ++i) {
    double s = 0;
    for (int j = 0; j < xlen; ++j) {
      int r = t ? j : i, c = t ? i : j;
      s += (rowmajor ? a[(size_t)r * lda + c] : a[(size_t)c * lda + r]) * x[(size_t)j * incx];
    }
    y[(size_t)i * incy] = alpha * s + (beta == 0 ? 0 : beta * y[(size_t)i * incy]);
  }
}
#endif
