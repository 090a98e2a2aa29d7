/* Stand-in for Cuba's header: the integrator is harness/suave.c */
#ifndef VT_CUBA_H
#define VT_CUBA_H
typedef int (*integrand_t)(const int *ndim, const double x[], const int *ncomp, double f[], void *userdata);
void Suave(const int ndim, const int ncomp, integrand_t integrand, void *userdata, const int nvec,
  const double epsrel, const double epsabs, const int flags, const int seed, const int mineval, const int maxeval,
  const int nnew, const int nmin, const double flatness, const char *statefile, void *spin,
  int *nregions, int *neval, int *fail, double integral[], double error[], double prob[]);
void cubaaccel(const int n, const int p);
void cubacores(const int n, const int p);
#endif
