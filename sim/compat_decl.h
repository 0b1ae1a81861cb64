// Compatibility entry points; the library has no header that declares them.
#ifndef SIM_COMPAT_DECL_H
#define SIM_COMPAT_DECL_H
extern "C" {
void dgemm_(char *, char *, int *, int *, int *, double *, double *, int *, double *, int *, double *, double *, int *);
void dsymm_(char *, char *, int *, int *, double *, double *, int *, double *, int *, double *, double *, int *);
void dsyrk_(char *, char *, int *, int *, double *, double *, int *, double *, double *, int *);
void dsyr2k_(char *, char *, int *, int *, double *, double *, int *, double *, int *, double *, double *, int *);
void dtrmm_(char *, char *, char *, char *, int *, int *, double *, double *, int *, double *, int *);
void dtrsv_(char *, char *, char *, int *, double *, int *, double *, int *);
void daxpy_(int *, double *, double *, int *, double *, int *);
double ddot_(int *, double *, int *, double *, int *);
double dnrm2_(int *, double *, int *);
double dasum_(int *, double *, int *);
int idamax_(int *, double *, int *);
void dcopy_(int *, double *, int *, double *, int *);
void dswap_(int *, double *, int *, double *, int *);
void drot_(int *, double *, int *, double *, int *, double *, double *);
void dscal_(int *, double *, double *, int *);
void dsymv_(char *, int *, double *, double *, int *, double *, int *, double *, double *, int *);
void dsyr_(char *, int *, double *, double *, int *, double *, int *);
void cblas_dgemm(int, int, int, int, int, int, double, double *, int, double *, int, double, double *, int);
void cblas_dsymm(int, int, int, int, int, double, double *, int, double *, int, double, double *, int);
void cblas_dtrmm(int, int, int, int, int, int, int, double, double *, int, double *, int);
void cblas_dtrsm(int, int, int, int, int, int, int, double, double *, int, double *, int);
void dtrsm_(char *, char *, char *, char *, int *, int *, double *, double *, int *, double *, int *);
void dtrmv_(char *, char *, char *, int *, double *, int *, double *, int *);
void dgemv_(char *, int *, int *, double *, double *, int *, double *, int *, double *, double *, int *);
void dger_(int *, int *, double *, double *, int *, double *, int *, double *, int *);
void dsyr2_(char *, int *, double *, double *, int *, double *, int *, double *, int *);
void drotg_(double *, double *, double *, double *);
}
#endif
