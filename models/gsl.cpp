// Gauss hypergeometric series and Gamma, for |z| < 1.
#include <cmath>
extern "C" double gsl_sf_hyperg_2F1(double a, double b, double c, double z) {
  double t = 1, s = 1; for (int n = 0; n < 200000 && std::fabs(t) > 1e-17 * std::fabs(s); n++) { t *= (a + n) * (b + n) / ((c + n) * (n + 1.)) * z; s += t; }
  return s;
}
extern "C" double gsl_sf_gamma(double x) { return std::tgamma(x); }
