// link: base
#include <algorithm>
#include <deque>
#include <math_physics/control_utilities/first_order_lag.hpp>
#include <math_physics/math/interpolation.hpp>
#include <math_physics/math/ordinary_differential_equation.hpp>
#include <math_physics/numerical_integration/dormand_prince_5.hpp>
#include <math_physics/numerical_integration/numerical_integrator_manager.hpp>
#include <math_physics/numerical_integration/runge_kutta_4.hpp>
#include <math_physics/numerical_integration/runge_kutta_fehlberg.hpp>
#include <math_physics/orbit/interpolation_orbit.hpp>
#include "pbt.hpp"
using pbt::Case;
namespace ni = s2e::numerical_integration;
using Vec = std::vector<double>;
using LV = std::vector<long double>;

// ---- generated systems: dx_i = sum_j A_ij x_j + sum_k p_ik t^k + s_i sin(w_i t + g_i x_{i+1}) -------------------------------------
struct System {
  size_t n = 1;
  std::vector<Vec> a, p;
  Vec s, w, g;
  LV F(long double t, const LV& x) const {
    LV d(n);
    for (size_t i = 0; i < n; i++) {
      long double v = 0;
      for (size_t j = 0; j < n; j++) v += (long double)a[i][j] * x[j];
      long double tk = 1;
      for (double k : p[i]) v += k * tk, tk *= t;
      v += s[i] * std::sin((long double)w[i] * t + g[i] * x[(i + 1) % n]);
      d[i] = v;
    }
    return d;
  }
};
enum Kind { kLinear, kPoly, kGeneral };
static System AnySystem(Case& c, size_t n, Kind kind) {
  System y;
  y.n = n;
  for (size_t i = 0; i < n; i++) {
    Vec r;
    for (size_t j = 0; j < n; j++) r.push_back(kind == kPoly ? 0 : c.Real(-1, 1));
    y.a.push_back(r);
    Vec q;
    if (kind != kLinear)
      for (int k = (int)c.Int(0, 3); k >= 0; k--) q.push_back(c.Real(-2, 2));
    y.p.push_back(q);
    y.s.push_back(kind == kGeneral && c.Bool() ? c.Real(-1, 1) : 0);
    y.w.push_back(c.Real(-2, 2));
    y.g.push_back(c.Real(-2, 2));
  }
  return y;
}
template <size_t N>
struct Ode : ni::InterfaceOde<N> {
  const System* y;
  s2e::math::Vector<N> DerivativeFunction(const double t, const s2e::math::Vector<N>& x) const override {
    LV v(N);
    for (size_t i = 0; i < N; i++) v[i] = x[i];
    LV d = y->F(t, v);
    s2e::math::Vector<N> r;
    for (size_t i = 0; i < N; i++) r[i] = (double)d[i];
    return r;
  }
};
// ---- textbook methods -------------------------------------------------------------------------------------------------------------
struct Tableau {
  std::vector<LV> a;
  LV c, b, lo;
};
static const Tableau& Tab(int m) {
  typedef long double L;
  static const Tableau rk4{{{}, {0.5L}, {0, 0.5L}, {0, 0, 1}}, {0, 0.5L, 0.5L, 1}, {1 / 6.0L, 1 / 3.0L, 1 / 3.0L, 1 / 6.0L}, {}};
  static const Tableau rkf{{{},
                            {L(1) / 4},
                            {L(3) / 32, L(9) / 32},
                            {L(1932) / 2197, L(-7200) / 2197, L(7296) / 2197},
                            {L(439) / 216, -8, L(3680) / 513, L(-845) / 4104},
                            {L(-8) / 27, 2, L(-3544) / 2565, L(1859) / 4104, L(-11) / 40}},
                           {0, L(1) / 4, L(3) / 8, L(12) / 13, 1, L(1) / 2},
                           {L(16) / 135, 0, L(6656) / 12825, L(28561) / 56430, L(-9) / 50, L(2) / 55},
                           {L(25) / 216, 0, L(1408) / 2565, L(2197) / 4104, L(-1) / 5, 0}};
  static const Tableau dp{{{},
                           {L(1) / 5},
                           {L(3) / 40, L(9) / 40},
                           {L(44) / 45, L(-56) / 15, L(32) / 9},
                           {L(19372) / 6561, L(-25360) / 2187, L(64448) / 6561, L(-212) / 729},
                           {L(9017) / 3168, L(-355) / 33, L(46732) / 5247, L(49) / 176, L(-5103) / 18656},
                           {L(35) / 384, 0, L(500) / 1113, L(125) / 192, L(-2187) / 6784, L(11) / 84}},
                          {0, L(1) / 5, L(3) / 10, L(4) / 5, L(8) / 9, 1, 1},
                          {L(35) / 384, 0, L(500) / 1113, L(125) / 192, L(-2187) / 6784, L(11) / 84, 0},
                          {L(5179) / 57600, 0, L(7571) / 16695, L(393) / 640, L(-92097) / 339200, L(187) / 2100, L(1) / 40}};
  return m == 0 ? rk4 : m == 1 ? rkf : dp;
}
static LV Step(const System& y, int m, long double t, const LV& x, long double h, long double* err) {
  const Tableau& T = Tab(m);
  std::vector<LV> k;
  for (size_t i = 0; i < T.c.size(); i++) {
    LV z = x;
    for (size_t j = 0; j < i; j++)
      for (size_t q = 0; q < y.n; q++) z[q] += h * T.a[i][j] * k[j][q];
    k.push_back(y.F(t + T.c[i] * h, z));
  }
  LV r = x;
  long double e2 = 0;
  for (size_t q = 0; q < y.n; q++) {
    long double e = 0;
    for (size_t i = 0; i < T.c.size(); i++) {
      r[q] += h * T.b[i] * k[i][q];
      if (m) e += h * (T.b[i] - T.lo[i]) * k[i][q];
    }
    e2 += e * e;
  }
  if (err) *err = std::sqrt(e2);
  return r;
}
template <size_t N>
static double Dist(const s2e::math::Vector<N>& g, const LV& w) {
  double d = 0;
  for (size_t i = 0; i < N; i++) {
    const double e = std::fabs((double)(g[i] - w[i]));
    if (!(e == e)) return INFINITY;
    d = std::max(d, e);
  }
  return d;
}
static double Size(const LV& x) {
  double m = 1;
  for (auto v : x) m = std::max(m, (double)std::fabs(v));
  return m;
}
static const char* kName[] = {"RK4", "RKF45", "DP5"};
template <size_t N>
static void MethodN(Case& c) {
  const int m = (int)c.Int(0, 2);
  const System y = AnySystem(c, N, c.Chance(0.3) ? kLinear : kGeneral);
  Ode<N> ode;
  ode.y = &y;
  double h = c.LogReal(1e-3, 0.5 / N);
  if (c.Chance(0.2)) h = -h;
  const ni::NumericalIntegrationMethod id[] = {ni::NumericalIntegrationMethod::kRk4, ni::NumericalIntegrationMethod::kRkf, ni::NumericalIntegrationMethod::kDp5};
  c.Note(kName[m], " N=", N, " h=", h);
  std::shared_ptr<ni::NumericalIntegrator<N>> in;
  ni::EmbeddedRungeKutta<N>* emb = nullptr;
  if (c.Bool()) in = ni::NumericalIntegratorManager<N>(h, ode, id[m]).GetIntegrator();
  else if (m == 0) in = std::make_shared<ni::RungeKutta4<N>>(h, ode);
  else if (m == 1) in = std::make_shared<ni::RungeKuttaFehlberg<N>>(h, ode);
  else in = std::make_shared<ni::DormandPrince5<N>>(h, ode);
  emb = dynamic_cast<ni::EmbeddedRungeKutta<N>*>(in.get());
  long double t = c.Real(-3, 3);
  LV x(N);
  s2e::math::Vector<N> x0;
  for (size_t i = 0; i < N; i++) x[i] = x0[i] = c.Real(-2, 2);
  in->SetState((double)t, x0);
  c.Check(Dist<N>(in->GetState(), x) == 0, "set-state");
  const int n = (int)c.Int(1, 10);
  c.NonTrivial(n > 1);
  double step = h;
  for (int k = 0; k < n; k++) {
    const LV before = x;
    long double err = 0;
    x = Step(y, m, t, x, step, &err);
    t += step;
    in->Integrate();
    const double tol = 1e-13 * (k + 2) * 8 * Size(x);
    c.Check(Dist<N>(in->GetState(), x) <= tol, "method", kName[m], " step ", k, " differs from the textbook method by ", Dist<N>(in->GetState(), x));
    // dense output meets both ends of the step
    c.Check(Dist<N>(in->CalcInterpolationState(1.0), x) <= 50 * tol, "dense-end", kName[m], " sigma 1 off by ", Dist<N>(in->CalcInterpolationState(1.0), x));
    if (m) c.Check(Dist<N>(in->CalcInterpolationState(0.0), before) <= 50 * tol, "dense-start", kName[m], " sigma 0 off by ", Dist<N>(in->CalcInterpolationState(0.0), before));
    if (emb) {
      const double le = emb->GetLocalTruncationError();
      c.Near(le, (double)err, 1e-14 * Size(x), 1e-6, "error-estimate", kName[m]);
      if (h > 0 && err > 1e-9 && c.Chance(0.4)) {
        const double tolr = (double)err * c.LogReal(0.1, 10);
        const double want = step * std::pow(tolr / le, 1.0 / (m == 1 ? 5 : 6));
        emb->ControlStepWidth(tolr);
        step = want;  // checked through the following steps
        c.Label("step controlled");
        if (std::fabs(step) > 1) return;
      } else if (le == 0 && c.Bool()) {
        emb->ControlStepWidth(1e-6);  // nothing to scale by: the step must stay usable
        c.Label("zero error");
      }
    }
  }
}
static void Method(Case& c) {
  switch (c.Int(0, 3)) {
    case 0: return MethodN<1>(c);
    case 1: return MethodN<2>(c);
    case 2: return MethodN<3>(c);
    default: return MethodN<6>(c);
  }
}
// exactness on polynomials in time and repeated adaptive steps near the tolerance
static void Exact(Case& c) {
  const int m = (int)c.Int(0, 2);
  const int deg = m == 0 ? 3 : (int)c.Int(3, 4);
  Vec p;
  for (int k = 0; k <= deg; k++) p.push_back(c.Real(-3, 3));
  System y;
  y.n = 1;
  y.a = {{0}};
  y.p = {p};
  y.s = y.w = y.g = {0};
  Ode<1> ode;
  ode.y = &y;
  const double h = c.LogReal(1e-2, 3), t0 = c.Real(-2, 2);
  c.Note(kName[m], " h=", h, " t0=", t0);
  c.NonTrivial();
  ni::RungeKutta4<1> rk(h, ode);
  ni::RungeKuttaFehlberg<1> rf(h, ode);
  ni::DormandPrince5<1> dp(h, ode);
  ni::NumericalIntegrator<1>* in = m == 0 ? (ni::NumericalIntegrator<1>*)&rk : m == 1 ? (ni::NumericalIntegrator<1>*)&rf : &dp;
  const double x0 = c.Real(-5, 5);
  in->SetState(t0, s2e::math::Vector<1>(x0));
  auto primitive = [&](long double t) {
    long double v = 0, tk = t;
    for (int k = 0; k <= deg; k++) v += p[(size_t)k] * tk / (k + 1), tk *= t;
    return v;
  };
  long double t = t0;
  double mag = 10;
  for (int k = 0; k < 5; k++) {
    in->Integrate();
    // quartic dense output of the embedded methods is exact for cubic right-hand sides
    t += h;
    long double s = 0, tk = std::fabs(t);
    for (int q = 0; q <= deg; q++) s += std::fabs(p[(size_t)q]) * tk, tk *= std::fabs(t);
    mag = std::max(mag, (double)s);
    const double want = (double)(x0 + primitive(t) - primitive(t0));
    c.Near(in->GetState()[0], want, 1e-13 * mag, 1e-13, "polynomial-exactness", kName[m]);
    if (m) {
      // a quartic interpolant reproduces quartic solutions
      double sg = c.Unit();
      if (deg < 4) c.Near(in->CalcInterpolationState(sg)[0], (double)(x0 + primitive(t - h + sg * h) - primitive(t0)), 1e-12 * mag, 0, "dense-exactness");
    }
  }
}
// dense output against the exact solution of a linear system
template <size_t N>
static void DenseN(Case& c) {
  const int m = (int)c.Int(1, 2);
  const System y = AnySystem(c, N, kLinear);
  Ode<N> ode;
  ode.y = &y;
  const double h = c.LogReal(0.003, 0.1);
  double na = 0;
  for (auto& r : y.a) {
    double s = 0;
    for (double v : r) s += std::fabs(v);
    na = std::max(na, s);
  }
  ni::RungeKuttaFehlberg<N> rf(h, ode);
  ni::DormandPrince5<N> dp(h, ode);
  ni::NumericalIntegrator<N>* in = m == 1 ? (ni::NumericalIntegrator<N>*)&rf : &dp;
  c.Note(kName[m], " N=", N, " h=", h, " |A|=", na);
  s2e::math::Vector<N> x0;
  for (size_t i = 0; i < N; i++) x0[i] = c.Real(-2, 2);
  in->SetState(0, x0);
  c.NonTrivial(na * h > 1e-3);
  for (int k = 0; k < 3; k++) {
    LV b(N);
    for (size_t i = 0; i < N; i++) b[i] = in->GetState()[i];
    in->Integrate();
    for (int r = 0; r < 4; r++) {
      const double sg = c.Unit();
      LV e = b, term = b;
      for (int q = 1; q < 30; q++) {
        LV nx(N, 0);
        for (size_t i = 0; i < N; i++)
          for (size_t j = 0; j < N; j++) nx[i] += (long double)y.a[i][j] * term[j] * (sg * h / q);
        term = nx;
        for (size_t i = 0; i < N; i++) e[i] += term[i];
      }
      const double tol = (2e-14 + 0.05 * std::pow(h * na, 5)) * Size(e) * 2;
      c.Check(Dist<N>(in->CalcInterpolationState(sg), e) <= tol, "dense-inner", kName[m], " sigma ", sg, " off by ", Dist<N>(in->CalcInterpolationState(sg), e), " tolerance ", tol);
    }
  }
}
static void Dense(Case& c) {
  if (c.Bool()) DenseN<2>(c);
  else DenseN<4>(c);
}
// adaptive stepping keeps the estimated error near the tolerance
static void Adaptive(Case& c) {
  const int m = (int)c.Int(1, 2);
  const System y = AnySystem(c, 3, kGeneral);
  Ode<3> ode;
  ode.y = &y;
  const double tol = c.LogReal(1e-10, 1e-6);
  const double h0 = c.LogReal(1e-2, 0.2);
  ni::RungeKuttaFehlberg<3> rf(h0, ode);
  ni::DormandPrince5<3> dp(h0, ode);
  ni::EmbeddedRungeKutta<3>* in = m == 1 ? (ni::EmbeddedRungeKutta<3>*)&rf : &dp;
  s2e::math::Vector<3> x;
  for (size_t i = 0; i < 3; i++) x[i] = c.Real(-1, 1);
  in->SetState(0, x);
  c.Note(kName[m], " tolerance ", tol, " first step ", h0);
  std::vector<double> r;
  for (int k = 0; k < 12; k++) {
    in->Integrate();
    const double e = in->GetLocalTruncationError();
    if (!(in->GetState().CalcNorm() < 50)) c.Skip();
    if (k >= 4) r.push_back(std::log10(e / tol));
    in->ControlStepWidth(tol);
  }
  std::sort(r.begin(), r.end());
  c.NonTrivial();
  c.Check(std::fabs(r[4]) < 1.5, "adaptive-error", "median of log10(error/tolerance) after settling ", r[4]);
}
template <size_t N>
struct Old : s2e::math::OrdinaryDifferentialEquation<N> {
  const System* y;
  explicit Old(double h) : s2e::math::OrdinaryDifferentialEquation<N>(h) {}
  void DerivativeFunction(double t, const s2e::math::Vector<N>& x, s2e::math::Vector<N>& d) override {
    LV v(N);
    for (size_t i = 0; i < N; i++) v[i] = x[i];
    LV r = y->F(t, v);
    for (size_t i = 0; i < N; i++) d[i] = (double)r[i];
  }
};
static void OldOde(Case& c) {
  const System y = AnySystem(c, 3, kGeneral);
  double h = c.LogReal(1e-3, 0.2);
  Old<3> o(h);
  o.y = &y;
  c.Check(o.GetStepWidth() == h && o.GetIndependentVariable() == 0 && o[0] == 0 && o[2] == 0, "initial");
  long double t = c.Real(-2, 2);
  LV x(3);
  s2e::math::Vector<3> x0;
  for (size_t i = 0; i < 3; i++) x[i] = x0[i] = c.Real(-2, 2);
  o.Setup((double)t, x0);
  c.Note("h=", h);
  const int n = (int)c.Int(1, 12);
  c.NonTrivial(n > 1);
  for (int k = 0; k < n; k++) {
    if (c.Chance(0.2)) h = c.LogReal(1e-3, 0.2), o.SetStepWidth(h), c.Note("step ", k, " width ", h);
    x = Step(y, 0, t, x, h, nullptr);
    t += h;
    if (c.Bool()) ++o;
    else o.Update();
    for (size_t i = 0; i < 3; i++) c.Near(o[i], (double)x[i], 1e-12 * Size(x), 0, "old-ode", "step " + std::to_string(k));
    c.Near(o.GetIndependentVariable(), (double)t, 1e-13, 1e-13, "old-ode-time");
  }
}
// ---- interpolation ----------------------------------------------------------------------------------------------------------------
static std::vector<double> Points(Case& c, size_t n, double lo, double width) {
  Vec t;
  double x = lo;
  for (size_t i = 0; i < n; i++) t.push_back(x), x += width / n * c.Real(0.5, 1.5);
  return t;
}
static void Polynomial(Case& c) {
  const size_t n = (size_t)c.Int(2, 12);
  const Vec t = Points(c, n, c.Real(-5, 5), c.LogReal(0.01, 100));
  const int deg = (int)c.Int(0, (int64_t)n - 1);
  Vec p;
  for (int k = 0; k <= deg; k++) p.push_back(c.Real(-3, 3));
  const double mid = t[n / 2], wid = t.back() - t.front();
  auto f = [&](long double x) {
    long double v = 0, z = (x - mid) / wid, zk = 1;
    for (double k : p) v += k * zk, zk *= z;
    return v;
  };
  Vec y;
  for (double v : t) y.push_back((double)f(v));
  s2e::math::Interpolation in(t, y);
  c.Note(n, " points, degree ", deg);
  c.NonTrivial(deg > 0);
  c.Check(in.GetDegree() == n && in.GetIndependentVariables() == t && in.GetDependentVariables() == y, "interpolation-getters");
  for (int r = 0; r < 6; r++) {
    double x = c.Real(t.front() - 0.1 * wid, t.back() + 0.1 * wid);
    if (c.Chance(0.3)) x = c.From(t);
    if (c.Chance(0.1)) x = 0.5 * (t[0] + t[1]);
    long double lam = 0;
    for (size_t i = 0; i < n; i++) {
      long double l = 1;
      for (size_t j = 0; j < n; j++)
        if (j != i) l *= ((long double)x - t[j]) / ((long double)t[i] - t[j]);
      lam += std::fabs(l * y[i]);
    }
    c.Near(in.CalcPolynomial(x), (double)f(x), 1e-13 * n * n * ((double)lam + 3 * deg + 3), 0, "polynomial-interpolation", "at " + std::to_string(x));
  }
}
static void Trigonometric(Case& c) {
  const size_t n = (size_t)c.Int(2, 11);
  const double w = c.LogReal(0.05, 20);
  // the points cover less than one period
  const double span = 2 * M_PI / w * c.Real(0.3, 0.6);
  const Vec t = Points(c, n, c.Real(-5, 5), span);
  const int deg = (int)c.Int(0, (int64_t)(n % 2 ? n - 1 : n - 2) / 2);
  Vec ca, sa;
  for (int k = 0; k <= deg; k++) ca.push_back(c.Real(-2, 2)), sa.push_back(c.Real(-2, 2));
  auto f = [&](long double x) {
    long double v = 0;
    for (int k = 0; k <= deg; k++) v += ca[(size_t)k] * std::cos(k * (long double)w * x) + sa[(size_t)k] * std::sin(k * (long double)w * x);
    return v;
  };
  Vec y;
  for (double v : t) y.push_back((double)f(v));
  s2e::math::Interpolation in(t, y);
  c.Note(n, " points, degree ", deg, " w=", w);
  c.NonTrivial(deg > 0);
  for (int r = 0; r < 6; r++) {
    const bool at = c.Chance(0.3);
    const double x = at ? c.From(t) : c.Real(t.front(), t.back());
    long double lam = 0;
    for (size_t skip = 0; skip < 2; skip++) {
      const size_t b = n % 2 ? 0 : skip, e = n % 2 ? n : n - 1 + skip;
      long double s = 0;
      for (size_t i = b; i < e; i++) {
        long double l = 1;
        for (size_t j = b; j < e; j++)
          if (j != i) l *= std::sin(w * ((long double)x - t[j]) / 2) / std::sin(w * ((long double)t[i] - t[j]) / 2);
        s += std::fabs(l * y[i]);
      }
      lam = std::max(lam, s);
    }
    c.Near(in.CalcTrigonometric(x, w), (double)f(x), 1e-12 * n * n * ((double)lam + 1), 0, "trigonometric-interpolation", "at " + std::to_string(x));
  }
  {  // whatever the data are, samples come back (an even number of points leaves the farthest one out)
    Vec z;
    for (size_t i = 0; i < n; i++) z.push_back(c.Real(-1e3, 1e3));
    s2e::math::Interpolation any(t, z);
    for (size_t i = 0; i < n; i++) c.Near(any.CalcTrigonometric(t[i], w), z[i], 1e-8, 0, "trigonometric-samples");
    for (size_t i = 0; i < n; i++) c.Near(any.CalcPolynomial(t[i]), z[i], 1e-8, 0, "polynomial-samples");
  }
}
static void Window(Case& c) {
  const size_t n = (size_t)c.Int(2, 9);
  s2e::orbit::InterpolationOrbit o(n);
  std::deque<double> t(n, -1.0);
  std::deque<std::array<double, 3>> p(n, {0, 0, 0});
  double now = c.Bool() ? 0 : c.Real(-3, 100);
  const int ops = (int)c.Int(1, 40);
  c.Note("degree ", n);
  // one quadratic per axis (degree < n where possible)
  double q[3][3];
  const int deg = std::min<int>(2, (int)n - 1);
  for (auto& a : q)
    for (auto& b : a) b = c.Real(-5, 5);
  auto f = [&](int a, double x) {
    double v = 0, k = 1;
    for (int i = 0; i <= deg; i++) v += q[a][i] * k, k *= x / 100;
    return v;
  };
  int valid = 0;
  for (int i = 0; i < ops; i++) {
    const double step = c.Chance(0.2) ? -c.Real(0, 3) : c.Real(0.5, 3);
    const double x = now + (c.Chance(0.1) ? 0 : step);
    s2e::math::Vector<3> v;
    for (int a = 0; a < 3; a++) v[(size_t)a] = f(a, x);
    const bool want = x > t.back();
    const bool got = o.PushAndPopData(x, v);
    c.Check(got == want, "push-order", "push ", x, " after ", t.back(), " gave ", got);
    if (want) {
      t.pop_front(), t.push_back(x);
      p.pop_front(), p.push_back({v[0], v[1], v[2]});
      now = x;
      valid++;
    } else c.Label("rejected");
    const auto tl = o.GetTimeList();
    c.Check(o.GetDegree() == n && tl.size() == n, "window-size");
    for (size_t k = 0; k < n; k++) {
      c.Check(tl[k] == t[k], "window-times");
      for (size_t a = 0; a < 3; a++) {
        const auto d = o.GetPositionDataList(a);
        c.Check(d.size() == n && d[k] == p[k][a], "window-data", "axis ", a, " entry ", k);
      }
    }
    const size_t out = (size_t)c.Int(3, 6);
    c.Check(o.GetPositionDataList(out).size() == n, "axis-out-of-range");
    if (valid >= (int)n) {
      c.NonTrivial();
      const double x2 = c.Real(t.front(), t.back());
      const auto r = o.CalcPositionWithPolynomial(x2);
      double mag = 0;
      for (auto& e : p) mag = std::max({mag, std::fabs(e[0]), std::fabs(e[1]), std::fabs(e[2])});
      for (int a = 0; a < 3; a++) c.Near(r[(size_t)a], f(a, x2), 1e-9 * (1 + mag), 0, "orbit-polynomial");
      const double w = 2 * M_PI / (3 * (t.back() - t.front()));
      const auto s = o.CalcPositionWithTrigonometric(t[n / 2], w);
      if (n % 2)
        for (size_t a = 0; a < 3; a++) c.Near(s[a], p[n / 2][a], 1e-9 * (1 + mag), 0, "orbit-trigonometric");
    }
  }
}
static void Lag(Case& c) {
  using s2e::control_utilities::FirstOrderLag;
  const double dt = c.LogReal(1e-4, 10), gain = c.Signed(0.01, 100);
  const double tau = c.Chance(0.1) ? 0 : dt * c.LogReal(0.5, 1e4);
  FirstOrderLag f(dt, tau, gain), scaled(dt, tau, gain), other(dt, tau, gain), sum(dt, tau, gain);
  c.Note("dt ", dt, " tau ", tau, " gain ", gain);
  c.Check(f.GetOutput() == 0, "lag-initial");
  const int n = (int)c.Int(1, 60);
  double u = 0, u2 = 0, exact = 0, slack = 0, big = 0;
  c.NonTrivial(n > 3 && tau > 0);
  for (int k = 0; k < n; k++) {
    if (k == 0 || c.Chance(0.2)) {
      const double nu = c.Real(-10, 10);
      slack += 0.25 * std::fabs(gain * (nu - u)) * (tau > 0 ? std::min(dt / tau, 1.5) : 0);
      u = nu;
      c.Note("step ", k, " input ", u);
    }
    big = std::max(big, std::fabs(u));
    if (c.Chance(0.2)) u2 = c.Real(-10, 10);
    const double a = tau > 0 ? std::exp(-dt / tau) : 0;
    exact = a * exact + (1 - a) * gain * u;
    const double y = f.Update(u);
    c.Check(y == f.GetOutput(), "lag-output");
    c.Near(y, exact, slack + 1e-12 * std::fabs(gain) * 10, 0, "lag-response", "step " + std::to_string(k));
    c.Check(std::fabs(y) <= std::fabs(gain) * big * (1 + 1e-12), "lag-bounded", y);
    c.Near(scaled.Update(3 * u), 3 * y, 1e-12 * std::fabs(gain) * 30, 0, "lag-linear");
    const double yo = other.Update(u2);
    c.Near(sum.Update(u + u2), y + yo, 1e-12 * std::fabs(gain) * 30, 0, "lag-superposition");
  }
  // settles on gain times input
  const double tail = tau > 0 ? 40 * tau / dt + 40 : 1;
  if (tail < 3000) {
    double y = 0;
    for (int k = 0; k < tail; k++) y = f.Update(u);
    c.Near(y, gain * u, 1e-9 * std::fabs(gain) * 10, 0, "lag-static-gain");
  }
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "U05", "several steps of a coupled system, a polynomial or trigonometric degree above zero, a full window, or more than three filter steps",
                   {{"method", Method, 20000, 400000, 200},
                    {"exact", Exact, 20000, 400000, 200},
                    {"dense", Dense, 10000, 200000, 100},
                    {"adaptive", Adaptive, 4000, 80000, 100},
                    {"old-ode", OldOde, 10000, 200000, 200},
                    {"polynomial", Polynomial, 20000, 400000, 200},
                    {"trigonometric", Trigonometric, 20000, 400000, 200},
                    {"window", Window, 6000, 100000, 100},
                    {"lag", Lag, 20000, 400000, 200}},
                   {"RK4 offers no dense output: its interpolation is only required to return the current state."});
}
