// link: base
// U09: Gaussian laser beams.
#include <math_physics/optics/gaussian_beam_base.hpp>
#include "ref.hpp"
#include "s2e_ref.hpp"
#include "pbt.hpp"
using pbt::Case;
using s2e::optics::GaussianBeamBase;

// 1/e^2 radius from the definition: complex beam parameter q = z + i z_R, 1/w^2 = -pi/lambda Im(1/q)
static double Width(double lambda, double waist, double z) {
  const long double zr = M_PIl * waist * waist / lambda, im = zr / ((long double)z * z + zr * zr);
  return (double)std::sqrt((long double)lambda / (M_PIl * im));
}
static void Beam(Case& c) {
  double lambda = c.LogReal(1e-7, 1e-4), waist = c.LogReal(1e-4, 10), power = c.Chance(0.1) ? 0.0 : c.LogReal(1e-6, 1e6);
  GaussianBeamBase beam(lambda, waist, power);
  ref::V3 aim{0, 0, 0}, from{0, 0, 0};
  bool aimed = false, placed = false;
  const int steps = (int)c.Int(1, 8);
  c.NonTrivial(steps > 1);
  for (int k = 0; k < steps; k++) {
    switch (c.Int(0, 5)) {
      case 0: beam.SetWaveLength_m(lambda = c.LogReal(1e-7, 1e-4)); break;
      case 1: beam.SetBeamWaistRadius_m(waist = c.LogReal(1e-4, 10)); break;
      case 2: beam.SetTotalPower_W(power = c.Chance(0.1) ? 0.0 : c.LogReal(1e-6, 1e6)); break;
      case 3:
        aim = c.Dir(), aimed = true;
        beam.SetPointingVector_i(s2e_ref::S(aim));
        break;
      case 4:
        from = {c.Signed(1, 1e8), c.Signed(1, 1e8), c.Signed(1, 1e8)}, placed = true;
        beam.SetBeamWaistPosition_i_m(s2e_ref::S(from));
        break;
      default: break;
    }
    c.Check(beam.GetWaveLength_m() == lambda && beam.GetBeamWaistRadius_m() == waist && beam.GetTotalPower_W() == power, "keeps", "settings read back");
    for (int i = 0; i < 3; i++) {
      if (aimed) c.Check(beam.GetPointingVector_i()[i] == aim[i], "keeps", "pointing direction");
      if (placed) c.Check(beam.GetBeamWaistPosition_i_m()[i] == from[i], "keeps", "position of the waist");
    }
    const double zr = M_PI * waist * waist / lambda, z = c.Chance(0.15) ? 0.0 : (c.Bool() ? -1 : 1) * zr * (c.Chance(0.2) ? c.LogReal(1e4, 1e9) : c.LogReal(1e-4, 1e4));
    c.Note("lambda ", lambda, " waist ", waist, " power ", power, " z/zr ", z / zr, "; ");
    const double w = Width(lambda, waist, z);
    c.Near(beam.CalcBeamWidthRadius_m(z), w, 0, 1e-12, "width", "radius at a distance from the waist");
    c.Check(beam.CalcBeamWidthRadius_m(z) == beam.CalcBeamWidthRadius_m(-z), "symmetric", "radius before and behind the waist");
    const double r = w * c.Real(0, 3);
    c.Near(beam.CalcIntensity_W_m2(z, r), 2 * power / (M_PI * w * w) * std::exp(-2 * (r / w) * (r / w)), 0, 1e-10, "intensity", "intensity off the axis");
    // the power through every plane is the total power, 1 - exp(-2) of it within the radius
    long double inside = 0, all = 0;
    const int n = 400;
    for (int i = 0; i < 4 * n; i++) {  // Simpson's rule on rings out to four radii
      const double h = w / n, a = i * h;
      const auto f = [&](double x) { return 2 * M_PI * x * beam.CalcIntensity_W_m2(z, x); };
      const long double part = h / 6 * (f(a) + 4 * f(a + h / 2) + f(a + h));
      all += part;
      if (i < n) inside += part;
    }
    c.Near((double)all, power, 0, 1e-9, "power", "power through a plane");
    c.Near((double)inside, power * (1 - std::exp(-2.0)), 0, 1e-9, "power-in-radius", "power within the radius");
    c.Check(beam.CalcIntensity_W_m2(z, r) <= beam.CalcIntensity_W_m2(z, 0), "peak", "the axis is brightest");
  }
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "U09", "several settings of one beam", {{"beam", Beam, 3000, 60000, 100, 20}});
}
