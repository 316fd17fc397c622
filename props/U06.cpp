// link: base
#include <algorithm>
#include <map>
#include <math_physics/randomization/global_randomization.hpp>
#include <math_physics/randomization/minimal_standard_linear_congruential_generator.hpp>
#include <math_physics/randomization/minimal_standard_linear_congruential_generator_with_shuffle.hpp>
#include <math_physics/randomization/normal_randomization.hpp>
#include <math_physics/randomization/random_walk.hpp>
#include "pbt.hpp"
using pbt::Case;
using namespace s2e::randomization;
static const int64_t M = 2147483647, A = 16807;
static int64_t RefNext(int64_t s) { return (int64_t)((__int128)s * A % M); }
static int64_t RefStart(int64_t seed) {
  int64_t s = seed % M;
  return s < 0 ? s + M : s;
}
static long AnySeed(Case& c) {
  switch (c.Int(0, 4)) {
    case 0: return c.Int(1, M - 1);
    case 1: return c.Of<long>({1, 2, 3, 100, M - 1, M / 2, 127773, 127774, 16807, 2836});
    case 2: return -c.Int(1, M - 1);
    case 3: return c.Int(-((int64_t)1 << 31), ((int64_t)1 << 31));
    default: return c.Chance(0.5) ? c.Of<long>({M, -M, 2 * M, 0, M + 1, -M - 1, 0xdeadbeefL}) : (long)c.Raw(0);
  }
}
static bool Degenerate(long seed) { return seed % M == 0; }

static void Lcg(Case& c) {
  const long seed = AnySeed(c);
  c.Note("seed ", seed);
  if (Degenerate(seed)) {
    bool threw = false;
    try {
      MinimalStandardLcg g(seed);
    } catch (const std::invalid_argument&) { threw = true; }
    c.Check(threw, "degenerate-seed", "a seed the generator can never leave is accepted");
    MinimalStandardLcg h;
    threw = false;
    try {
      h.Initialize(seed);
    } catch (const std::invalid_argument&) { threw = true; }
    c.Check(threw, "degenerate-seed", "Initialize accepts a degenerate seed");
    return;
  }
  MinimalStandardLcg g(seed), h;
  const int pre = (int)c.Int(0, 50);
  for (int i = 0; i < pre; i++) (void)(double)h;
  h.Initialize(seed);
  int64_t s = RefStart(seed);
  const int n = (int)c.Int(1, 400);
  c.NonTrivial();
  for (int i = 0; i < n; i++) {
    s = RefNext(s);
    const double want = (double)s / (double)M, v = g, w = h;
    c.Check(v > 0 && v < 1, "lcg-range", "draw ", i, " = ", v);
    c.Near(v, want, 1e-15, 0, "lcg-sequence", "draw " + std::to_string(i));
    c.Check(v == w, "lcg-reseed", "draw ", i, " after ", pre, " earlier draws: ", v, " vs ", w);
  }
}
static void Shuffle(Case& c) {
  long seed = AnySeed(c);
  if (Degenerate(seed)) c.Skip();
  c.Note("seed ", seed);
  MinimalStandardLcgWithShuffle g(seed), h;
  const int pre = (int)c.Int(0, 300);
  for (int i = 0; i < pre; i++) (void)(double)h;
  h.InitSeed(seed);
  const int n = 2000;
  std::map<int64_t, int> at;
  int64_t s = RefStart(seed);
  for (int i = 0; i < n + 500; i++) {
    s = RefNext(s);
    at[s] = i;
  }
  std::vector<int> order;
  c.NonTrivial();
  for (int i = 0; i < n; i++) {
    const double v = g, w = h;
    c.Check(v > 0 && v < 1, "shuffle-range", v);
    c.Check(v == w, "shuffle-reseed", "draw ", i, " after ", pre, " earlier draws: ", v, " vs ", w);
    auto it = at.find((int64_t)std::llround(v * (double)M));
    c.Check(it != at.end(), "shuffle-permutation", "draw ", i, " is not among the generator's numbers");
    c.Check(it->second >= 0, "shuffle-permutation", "draw ", i, " repeats an earlier number");
    order.push_back(it->second);
    it->second = -1;
  }
  int consecutive = 0;
  double disp = 0;
  for (int i = 1; i < n; i++) {
    consecutive += order[(size_t)i] == order[(size_t)i - 1] + 1;
    disp += std::fabs(order[(size_t)i] - order[(size_t)i - 1]);
  }
  // with a 32-entry table a consecutive pair has probability of about 1/32^2 plus 1/32
  c.Check(consecutive < n / 8, "shuffle-mixes", consecutive, " of ", n, " draws follow their predecessor of the unshuffled stream");
  c.Check(disp / n > 8, "shuffle-mixes", "mean displacement ", disp / n);
}
// Kolmogorov-Smirnov distance to a distribution function
template <class F>
static double Ks(std::vector<double> x, F cdf) {
  std::sort(x.begin(), x.end());
  double d = 0;
  for (size_t i = 0; i < x.size(); i++) {
    const double f = cdf(x[i]);
    d = std::max({d, std::fabs(f - (double)i / x.size()), std::fabs(f - (double)(i + 1) / x.size())});
  }
  return d;
}
static void NoSerial(Case& c, const std::vector<double>& x, double mean, double sd, const char* what) {
  const size_t n = x.size();
  for (size_t lag = 1; lag <= 4; lag++) {
    double r = 0;
    for (size_t i = lag; i < n; i++) r += (x[i] - mean) * (x[i - lag] - mean) / (sd * sd);
    r /= std::sqrt((double)(n - lag));
    c.Check(std::fabs(r) < 6.5, "serial-correlation", what, " lag ", lag, " normalised correlation ", r);
  }
}
static void Uniform(Case& c) {
  long seed = AnySeed(c);
  if (Degenerate(seed)) c.Skip();
  c.Note("seed ", seed);
  MinimalStandardLcg a(seed);
  MinimalStandardLcgWithShuffle b(seed);
  const int n = 4000;
  std::vector<double> x, y;
  for (int i = 0; i < 20; i++) (void)(double)a, (void)(double)b;  // a small seed starts with small numbers
  for (int i = 0; i < n; i++) x.push_back(a), y.push_back(b);
  c.NonTrivial();
  for (auto* v : {&x, &y}) {
    const char* w = v == &x ? "plain" : "shuffled";
    double m = 0, q = 0;
    for (double u : *v) m += u, q += (u - 0.5) * (u - 0.5);
    c.Check(std::fabs(m / n - 0.5) * std::sqrt(12.0 * n) < 6.5, "uniform-mean", w, " mean ", m / n);
    c.Check(std::fabs(q / n - 1.0 / 12) * std::sqrt(180.0 * n) < 6.5, "uniform-variance", w, " variance ", q / n);
    c.Check(Ks(*v, [](double u) { return u; }) * std::sqrt((double)n) < 4.2, "uniform-ks", w);
    NoSerial(c, *v, 0.5, std::sqrt(1.0 / 12), w);
  }
}
static void Normal(Case& c) {
  long seed = AnySeed(c);
  if (Degenerate(seed)) c.Skip();
  const double mean = c.Bool() ? 0 : c.Signed(1e-3, 1e5), sd = c.LogReal(1e-6, 1e4);
  c.Note("seed ", seed, " mean ", mean, " sd ", sd);
  NormalRand g(mean, sd, seed), std01(0, 1, seed), h;
  c.Check(g.GetAverage() == mean && g.GetStandardDeviation() == sd, "getters");
  const int pre = (int)c.Int(0, 9);
  c.Note("draws before reseeding ", pre);
  for (int i = 0; i < pre; i++) (void)(double)h;
  h.SetParameters(mean, sd, seed);
  const int n = 4000;
  std::vector<double> z;
  c.NonTrivial();
  for (int i = 0; i < n; i++) {
    const double v = g, u = std01, w = h;
    c.Check(v == w, "normal-reseed", "draw ", i, " after ", pre, " earlier draws: ", v, " vs ", w);
    c.Near(v, mean + sd * u, 1e-12 * std::fabs(mean) + 1e-12 * sd, 0, "normal-affine");
    z.push_back(u);
  }
  double m = 0, q = 0, k3 = 0, k4 = 0;
  for (double u : z) m += u, q += u * u, k3 += u * u * u, k4 += u * u * u * u;
  const double r = std::sqrt((double)n);
  c.Check(std::fabs(m / n) * r < 6.5, "normal-mean", m / n);
  c.Check(std::fabs(q / n - 1) * r / std::sqrt(2.0) < 7, "normal-variance", q / n);
  c.Check(std::fabs(k3 / n) * r / std::sqrt(15.0) < 8, "normal-skew", k3 / n);
  c.Check(std::fabs(k4 / n - 3) * r / std::sqrt(96.0) < 10, "normal-kurtosis", k4 / n);
  c.Check(Ks(z, [](double u) { return 0.5 * std::erfc(-u / std::sqrt(2.0)); }) * r < 4.2, "normal-ks");
  NoSerial(c, z, 0, 1, "normal");
  std::vector<double> sq;
  for (double u : z) sq.push_back(u * u);
  NoSerial(c, sq, 1, std::sqrt(2.0), "squared normal");
}
// setters in the middle of a stream act on the following draws only and leave the underlying stream alone
// The tails of a long sample: every draw of a pair and both signs reach as far as the distribution does
static void Tails(Case& c) {
  long seed = AnySeed(c);
  if (Degenerate(seed)) c.Skip();
  c.Note("seed ", seed);
  c.NonTrivial();
  NormalRand g(0, 1, seed);
  MinimalStandardLcgWithShuffle u(seed);
  const int n = 1000000;
  const double at[4] = {2.5, 3, 3.5, 3.72};
  double count[2][2][4] = {}, edge[2] = {};
  for (int i = 0; i < n; i++) {
    const double v = g, a = std::fabs(v), w = u;
    for (int k = 0; k < 4; k++) count[i % 2][v > 0][k] += a > at[k];
    edge[0] += w < 1e-4, edge[1] += w > 1 - 1e-4;
  }
  auto poisson = [&](double got, double want, const char* key, const std::string& what) {
    c.Check(got > want - 6.5 * std::sqrt(want) && got < want + 6.5 * std::sqrt(want) + 6, key, what, " got ", got, " expected ", want);
  };
  for (int odd = 0; odd < 2; odd++)
    for (int s = 0; s < 2; s++)
      for (int k = 0; k < 4; k++) poisson(count[odd][s][k], n / 2 * 0.5 * std::erfc(at[k] / std::sqrt(2.0)), "normal-tail", (odd ? "odd " : "even ") + std::string(s ? ">" : "< -") + std::to_string(at[k]));
  for (int s = 0; s < 2; s++) poisson(edge[s], n * 1e-4, "uniform-edge", s ? "near one" : "near zero");
}
static void NormalSetters(Case& c) {
  const long seed = c.Int(1, M - 1);
  NormalRand g(0, 1, seed), base(0, 1, seed), d;
  c.Check(d.GetAverage() == 0 && d.GetStandardDeviation() == 1, "default-parameters");
  {  // the constructors without a seed start one stream, scaled
    const double m = c.Real(-10, 10), sg = c.LogReal(1e-3, 1e3);
    NormalRand none, two(m, sg);
    c.Check(two.GetAverage() == m && two.GetStandardDeviation() == sg, "getters");
    for (int i = 0; i < 5; i++) {
      const double u = none, v = two;
      c.Near(v, m + sg * u, 1e-12 * (std::fabs(m) + std::fabs(sg * u)), 0, "no-seed", "draw " + std::to_string(i) + " without a seed");
    }
  }
  double mean = 0, sd = 1;
  const int n = (int)c.Int(1, 60);
  c.Note("seed ", seed);
  for (int i = 0; i < n; i++) {
    switch (c.Int(0, 4)) {
      case 0: mean = c.Real(-10, 10); g.SetAverage(mean); c.Note(i, ": average ", mean); c.NonTrivial(); break;
      case 1: sd = c.Real(0, 10); g.SetStandardDeviation(sd); c.Note(i, ": deviation ", sd); c.NonTrivial(); break;
      case 2: mean = c.Real(-10, 10), sd = c.Real(0, 10); g.SetParameters(mean, sd); c.Note(i, ": both ", mean, " ", sd); c.NonTrivial(); break;
      default: break;
    }
    c.Check(g.GetAverage() == mean && g.GetStandardDeviation() == sd, "getters");
    const double u = base, v = g;
    c.Near(v, mean + sd * u, 1e-12 * (std::fabs(mean) + std::fabs(sd * u)), 0, "setters", "draw " + std::to_string(i));
  }
}
static void DifferentSeeds(Case& c) {
  const long a = c.Int(1, M - 1);
  long b = c.Bool() ? c.Int(1, M - 1) : a + c.Int(1, 3);
  if (b >= M) b = 1;
  if (a == b) c.Skip();
  c.Note("seeds ", a, " ", b);
  c.NonTrivial();
  MinimalStandardLcg l1(a), l2(b);
  MinimalStandardLcgWithShuffle s1(a), s2(b);
  NormalRand n1(0, 1, a), n2(0, 1, b);
  int el = 0, es = 0, en = 0;
  std::vector<double> p;
  const int n = 200;
  double corr = 0;
  for (int i = 0; i < n; i++) {
    el += (double)l1 == (double)l2;
    es += (double)s1 == (double)s2;
    const double u = n1, v = n2;
    en += u == v;
    corr += u * v;
  }
  c.Check(el == 0 && es < 3 && en < 3, "seeds-differ", el, " ", es, " ", en, " equal draws");
  (void)corr;
}
static void Global(Case& c) {
  const long seed = AnySeed(c);
  if (Degenerate(seed)) c.Skip();
  GlobalRandomization g, h;
  const int pre = (int)c.Int(0, 20), n = (int)c.Int(1, 200);
  c.Note("seed ", seed, " pre ", pre);
  for (int i = 0; i < pre; i++) (void)h.MakeSeed();
  g.SetSeed(seed);
  h.SetSeed(seed);
  std::vector<long> all;
  int neg = 0;
  for (int i = 0; i < n; i++) {
    const long a = g.MakeSeed(), b = h.MakeSeed();
    c.Check(a == b, "global-repeat", "seed ", i, ": ", a, " vs ", b, " after ", pre, " earlier seeds");
    c.Check(!Degenerate(a), "global-usable", "made seed ", a);
    MinimalStandardLcg ok(a);
    all.push_back(a);
    neg += a < 0;
  }
  std::sort(all.begin(), all.end());
  c.Check(std::adjacent_find(all.begin(), all.end()) == all.end(), "global-distinct", "repeated seed");
  if (n >= 150) c.Check(all.back() - all.front() > 3000000000L, "global-range", "seeds only span ", all.back() - all.front());
  c.NonTrivial(n > 5);
}
// sequences seeded one after another by the global source have nothing in common, also not with a delay
static void Streams(Case& c) {
  const long gs = c.Int(1, M - 2);
  const int K = 6, W = 200, N = 300;
  c.Note("global seed ", gs);
  std::vector<std::vector<double>> mean(K);
  for (int k = 0; k < K; k++) {
    if (k == 0) global_randomization.SetSeed(gs);
    if (k == K / 2) global_randomization.SetSeed(gs + 1);  // the other half from a neighbouring global seed
    MinimalStandardLcgWithShuffle r(global_randomization.MakeSeed());
    for (int n = 0; n < N; n++) {
      double s = 0;
      for (int i = 0; i < W; i++) s += (double)r - 0.5;
      mean[k].push_back(s / std::sqrt(W / 12.0));
    }
  }
  for (int a = 0; a < K; a++)
    for (int b = 0; b < a; b++) {
      double rho = 0;
      for (int n = 0; n < N; n++) rho += mean[a][n] * mean[b][n] / N;
      c.Near(rho, 0, 7 / std::sqrt((double)N), 0, "unrelated-streams", "sequences " + std::to_string(b) + " and " + std::to_string(a));
    }
  c.NonTrivial();
}
static void Walk(Case& c) {
  const double dt = c.LogReal(1e-3, 10), lim0 = c.LogReal(1e-6, 1e3);
  s2e::math::Vector<3> sd(0.0), lim(0.0);
  for (size_t i = 0; i < 3; i++) {
    sd[i] = c.LogReal(1e-6, 10);
    lim[i] = c.Bool() ? lim0 * c.Real(0.5, 2) : 1e9;
  }
  const long gs = c.Int(1, M - 1);
  c.Note("dt ", dt, " sd ", sd[0], ",", sd[1], ",", sd[2], " limit ", lim[0], ",", lim[1], ",", lim[2], " global seed ", gs);
  global_randomization.SetSeed(gs);
  RandomWalk<3> w(dt, sd, lim);
  global_randomization.SetSeed(gs);
  RandomWalk<3> r(dt, sd, lim);
  const int n = 1500;
  std::vector<double> inc[3];
  double prev[3] = {0, 0, 0}, inward[3] = {0, 0, 0};
  int beyond[3] = {0, 0, 0};
  for (size_t k = 0; k < 3; k++) c.Check(w[(int)k] == 0, "walk-start", "initial state ", w[(int)k]);
  for (int i = 0; i < n; i++) {
    ++w;
    ++r;
    for (size_t k = 0; k < 3; k++) {
      const double v = w[(int)k];
      c.Check(v == r[(int)k], "walk-repeat", "same global seed, different walk at step ", i);
      c.Check(std::fabs(v) <= lim[k] + 10 * sd[k] * dt, "walk-limit", "axis ", k, " state ", v, " limit ", lim[k], " step deviation ", sd[k] * dt);
      const double d = (v - prev[k]) / (sd[k] * dt);
      if (std::fabs(prev[k]) > lim[k]) inward[k] += prev[k] > 0 ? -d : d, beyond[k]++;
      if (lim[k] >= 1e8) inc[k].push_back(d);
      else if (std::fabs(v) > lim[k]) c.Label("limit reached"), c.NonTrivial();
      prev[k] = v;
    }
  }
  // beyond its limit an axis is driven back: each step's first slope points inward
  for (size_t k = 0; k < 3; k++)
    if (beyond[k] >= 100 && sd[k] * dt < lim[k] / 2)
      c.Check(inward[k] / beyond[k] > 0.2, "walk-returns", "axis ", k, " mean inward movement ", inward[k] / beyond[k], " over ", beyond[k], " steps beyond the limit");
  // free axes: independent increments; the Runge-Kutta mean of four draws weighted 1,2,2,1 has deviation sqrt(10)/6
  const double sdi = std::sqrt(10.0) / 6;
  for (size_t k = 0; k < 3; k++) {
    if (inc[k].empty()) continue;
    c.NonTrivial();
    double m = 0, q = 0;
    for (double d : inc[k]) m += d, q += d * d;
    const double nn = (double)inc[k].size();
    c.Check(std::fabs(m / nn) / sdi * std::sqrt(nn) < 6.5, "walk-drift", "mean increment ", m / nn);
    c.Check(std::fabs(q / nn / (sdi * sdi) - 1) * std::sqrt(nn / 2) < 7, "walk-increments", "increment variance ratio ", q / nn / (sdi * sdi));
    NoSerial(c, inc[k], 0, sdi, "walk increments");
    for (size_t j = 0; j < k; j++) {
      if (inc[j].empty()) continue;
      double x = 0;
      for (size_t i = 0; i < inc[k].size(); i++) x += inc[k][i] * inc[j][i];
      c.Check(std::fabs(x) / (sdi * sdi) / std::sqrt(nn) < 6.5, "walk-axes-independent", "axes ", j, " and ", k);
    }
  }
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "U06", "a usable seed with at least one reseeding, setter change, limit contact or full statistical sample",
                   {{"lcg", Lcg, 30000, 300000, 200},
                    {"shuffle", Shuffle, 4000, 60000, 50},
                    {"uniform", Uniform, 4000, 80000, 25},
                    {"normal", Normal, 4000, 80000, 25},
                    {"tails", Tails, 12, 400, 1},
                    {"normal-setters", NormalSetters, 20000, 400000, 200},
                    {"different-seeds", DifferentSeeds, 10000, 200000, 100},
                    {"global", Global, 10000, 200000, 100},
                    {"streams", Streams, 60, 1500, 5},
                    {"walk", Walk, 2000, 40000, 20}},
                   {"Statistical bounds are at least 6.5 standard errors; at 1e5 samples a false alarm has a probability below 1e-5 per run over all seeds tried."});
}
