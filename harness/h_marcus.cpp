#include "mc.hpp"
#include "mythical/charge_transport/marcus.hpp"
#include "mythical/constants.hpp"
using mc::Ctx;
using mythical::charge_transport::Marcus;
namespace {
const long double KB = 8.617333262145e-5L, HB = 6.582119569e-16L, PI_ = 3.14159265358979323846L;
long double oracle(double lam, double T, double ei, double ej, double h) {
  long double a = 2.0L * PI_ / HB / sqrtl(4.0L * PI_ * KB * (long double)T);
  long double x = (long double)lam + (long double)ej - (long double)ei;
  return a * (long double)h * (long double)h * expl(-x * x / (4.0L * (long double)lam * KB * (long double)T));
}
const std::vector<double> LAM = {0.01, 0.05, 0.1, 0.15, 0.25, 0.4, 0.5, 0.8, 1.0, 1.6, 2.5};
const std::vector<double> TEMP = {1.0, 20.0, 77.0, 100.0, 200.0, 273.15, 298.0, 300.0, 301.0, 350.0, 500.0, 1000.0, 5000.0};
const std::vector<double> E = {-5.6, -5.2, -1.0, -0.5, -0.31, -0.2, -0.1, -0.03, 0.0, 1e-6, 0.004, 0.05, 0.1, 0.25, 0.5, 0.77, 1.0, 2.0, 5.0};
const std::vector<double> HAB = {-1.0, -0.02, 1e-6, 1e-3, 0.01, 0.0137, 0.1, 1.0, 3.0};
}  // namespace
int main(int argc, char** argv) {
  mc::Main m(argc, argv);
  const bool TH = m.thorough();
  static std::vector<double> e = E, h = HAB;
  if (TH) { for (int i = -40; i <= 40; ++i) e.push_back(i * 0.0313 + 0.001); for (int i = 1; i < 10; ++i) h.push_back(i * 0.0071); }
  m.add("C29", "marcus", (int)(LAM.size() * TEMP.size()), [](Ctx& c) {
    double lam = LAM[c.cfg % LAM.size()], T = TEMP[c.cfg / LAM.size()];
    Marcus q(lam, T);
    double hc = h[c.choose((int)h.size())];
    for (double a : e) for (double b : e) {
      c.label(mc::strf("lambda %g T %g E_i %g E_j %g H %g", lam, T, a, b, hc));
      double k = q.getRate(a, b, hc);
      long double o = oracle(lam, T, a, b, hc);
      long double x = (long double)lam + b - a;
      // round off of the exponent
      double tol = 1e-8 + 1e-14 * (double)(x * x / (4.0L * lam * KB * T)) * 10;
      REQ(c, std::isfinite(k) && k >= 0, "rate %g is not a finite non-negative number", k);
      if (o > 1e-290L) REQ(c, k > 0 && std::fabs((double)(k / o - 1.0L)) < tol, "rate %.17g, Marcus expression gives %.17Lg", k, o);
      else REQ(c, k < 1e-280, "rate %.17g, Marcus expression gives %.17Lg", k, o);
      double r = q.getRate(b, a, hc);
      if (k > 1e-250 && r > 1e-250) {
        long double lhs = logl((long double)k) - logl((long double)r), rhs = -((long double)b - a) / (KB * T);
        REQ(c, fabsl(lhs - rhs) < 1e-9L * (1 + fabsl(rhs)) + 10 * tol, "ln(k_ij/k_ji)=%.12Lg, detailed balance needs %.12Lg", lhs, rhs);
      }
      double k2 = q.getRate(a, b, 2 * hc), kn = q.getRate(a, b, -hc);
      REQ(c, k < 1e-290 || mc::close(k2, 4 * k, 1e-12), "doubling the coupling gives %.17g instead of 4 x %.17g", k2, k);
      REQ(c, kn == k || mc::close(kn, k, 1e-14), "the sign of the coupling changes the rate: %.17g %.17g", kn, k);
      double k0 = q.getRate(a, b, hc);
      REQ(c, k0 == k, "the same question is answered with %.17g and %.17g", k, k0);
      Marcus q2(lam, T);
      REQ(c, q2.getRate(a, b, hc) == k, "an identical second object answers %.17g", q2.getRate(a, b, hc));
      c.step();
      c.visited();
      c.outcome(mc::hmix((uint64_t)(k > 0 ? std::llround(std::log10(k)) + 400 : 0), c.cfg));
    }
    REQ(c, q.getRate(0, 1, 0.0) == 0.0, "no coupling but a rate");
    c.sample(mc::strf("lambda %g T %g H %g: %zu^2 energy pairs", lam, T, hc, e.size()));
  });
  return m.run();
}
