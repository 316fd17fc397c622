// Puts the spacecraft of a mission at a chosen state (explicit instantiations may name protected members).
#pragma once
#include "mission.hpp"
namespace place {
template <class Tag, typename Tag::type M>
struct Open {
  friend typename Tag::type Get(Tag) { return M; }
};
using s2e::dynamics::orbit::Orbit;
struct Pos {
  typedef s2e::math::Vector<3> Orbit::*type;
  friend type Get(Pos);
};
struct Vel {
  typedef s2e::math::Vector<3> Orbit::*type;
  friend type Get(Vel);
};
struct ToEcef {
  typedef void (Orbit::*type)();
  friend type Get(ToEcef);
};
struct ToGeodetic {
  typedef void (Orbit::*type)();
  friend type Get(ToGeodetic);
};
template struct Open<Pos, &Orbit::spacecraft_position_i_m_>;
template struct Open<Vel, &Orbit::spacecraft_velocity_i_m_s_>;
template struct Open<ToEcef, &Orbit::TransformEciToEcef>;
template struct Open<ToGeodetic, &Orbit::TransformEcefToGeodetic>;
inline void Put(s2e::dynamics::Dynamics& d, const ref::V3& r, const ref::V3& v, const ref::Q4& q, const ref::V3& w = {0, 0, 0}) {
  Orbit& o = const_cast<Orbit&>(d.GetOrbit());
  o.*Get(Pos()) = s2e_ref::S(r);
  o.*Get(Vel()) = s2e_ref::S(v);
  (o.*Get(ToEcef()))();
  (o.*Get(ToGeodetic()))();
  d.SetAttitude().SetQuaternion_i2b(s2e_ref::S(q));
  d.SetAttitude().SetAngularVelocity_b_rad_s(s2e_ref::S(w));
  o.UpdateByAttitude(s2e_ref::S(q));
}
}  // namespace place
