// Control interface of the stand-ins (fake_spice.cpp).
#pragma once
#include <array>
#include <functional>
#include <string>
#include <vector>
extern "C" {
#include "nrlmsise-00.h"
}
namespace fake {
constexpr double kTdbMinusUtc = 69.184;  // constant offset used by str2et_c
using State = std::array<double, 6>;     // km, km/s
// Heliocentric-ish state of a body at ephemeris time et, J2000 axes. Built-in analytic orbits by default.
State BodyState(int id, double et);
// Override: if set and returns true, it supplies the absolute state of body id.
extern std::function<bool(int id, double et, State& out)> state_override;
double GM(int id);                        // km^3/s^2
std::array<double, 3> Radii(int id);      // km
extern std::function<bool(int id, std::array<double, 3>& out)> radii_override;
extern std::vector<std::string> furnished;
extern long spkezr_calls;
extern std::string last_frame, last_correction;
// rotation J2000 -> IAU_MOON at et (row major)
std::array<double, 9> MoonRot(double et);
extern nrlmsise_input last_msis_input;
extern ap_array last_msis_ap;
extern long msis_calls;
double MsisDensity(const nrlmsise_input& in);  // what gtd7 puts in d[5]
}  // namespace fake
