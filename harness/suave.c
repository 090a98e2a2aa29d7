/* Stand-in for the Monte-Carlo integrator: the mean of the integrand over a fixed list of points. As the integrator it
   replaces, it prints at the levels of verbosity above zero (the lowest two bits of flags), keeps its state in a file
   when it is given the name of one (bit 4: also afterwards), and stops when an integrand returns -999. */
#define VT_IMPL
#include "vt.h"
#include "cuba.h"
#include <sched.h>
static double pts[5 * 256]; static int npts;
static long bad_ndim, bad_ncomp, bad_nvec, calls; static int fail_every;
void vt_points(const double *x, int n) { npts = n > 256 ? 256 : n; memcpy(pts, x, sizeof(double) * 5 * (size_t)npts); }
void vt_suave(long out[4]) { out[0] = calls; out[1] = bad_ndim; out[2] = bad_ncomp; out[3] = bad_nvec; }
void vt_suave_fail(int n) { fail_every = n; }
void Suave(const int ndim, const int ncomp, integrand_t integrand, void *userdata, const int nvec,
  const double epsrel, const double epsabs, const int flags, const int seed, const int mineval, const int maxeval,
  const int nnew, const int nmin, const double flatness, const char *statefile, void *spin,
  int *nregions, int *neval, int *fail, double integral[], double error[], double prob[])
{
  int i, c; double x[8], f[64], s[64] = {0};
  int stop = 0, n = 0;
  (void)epsrel; (void)epsabs; (void)seed; (void)mineval; (void)maxeval; (void)nnew; (void)nmin; (void)flatness; (void)spin;
  if (flags & 3) { printf("Suave input parameters:\n  ndim %d\n  ncomp %d\n", ndim, ncomp); fflush(stdout); }
  if (statefile && *statefile && !strchr(statefile, '/')) {
    FILE *g = fopen(statefile, "w");
    if (g) { fprintf(g, "%d\n", ndim); fclose(g); if (!(flags & 16)) remove(statefile); }
  }
  __sync_fetch_and_add(&calls, 1);
  if (ndim != 5) __sync_fetch_and_add(&bad_ndim, 1);
  if (ncomp != 1 && ncomp != 12) __sync_fetch_and_add(&bad_ncomp, 1);
  if (nvec != 1) __sync_fetch_and_add(&bad_nvec, 1);
  for (i = 0; i < npts && !stop; i++) {
    for (c = 0; c < 5; c++) x[c] = pts[5 * i + c];
    x[5] = x[6] = x[7] = NAN;
    for (c = 0; c < 64; c++) f[c] = 0.;
    if (i % 3 == 1) sched_yield();
    stop = integrand(&ndim, x, &ncomp, f, userdata) == -999;
    n++;
    for (c = 0; c < ncomp && c < 64; c++) s[c] += f[c];
  }
  for (c = 0; c < ncomp && c < 64; c++) { integral[c] = n ? s[c] / n : 0.; if (error) error[c] = 0.; if (prob) prob[c] = 0.; }
  if (nregions) *nregions = 1;
  if (neval) *neval = n;
  if (fail) *fail = stop ? -99 : 0;
}
void cubaaccel(const int n, const int p) { (void)n; (void)p; }
void cubacores(const int n, const int p) { (void)n; (void)p; }
