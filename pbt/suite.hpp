// A spacecraft carrying any subset of the library's components, and the columns its log must show (names and present values).
#pragma once
#include <components/ideal/angular_velocity_observer.hpp>
#include <components/ideal/attitude_observer.hpp>
#include <components/ideal/force_generator.hpp>
#include <components/ideal/orbit_observer.hpp>
#include <components/ideal/torque_generator.hpp>
#include <components/real/aocs/gnss_receiver.hpp>
#include <components/real/aocs/gyro_sensor.hpp>
#include <components/real/aocs/magnetometer.hpp>
#include <components/real/aocs/magnetorquer.hpp>
#include <components/real/aocs/reaction_wheel.hpp>
#include <components/real/aocs/star_sensor.hpp>
#include <components/real/aocs/sun_sensor.hpp>
#include <components/real/mission/telescope.hpp>
#include <components/real/power/battery.hpp>
#include <components/real/power/pcu_initial_study.hpp>
#include <components/real/power/solar_array_panel.hpp>
#include <components/real/propulsion/simple_thruster.hpp>
#include "mission.hpp"
namespace suite {
namespace k = s2e::components;
using s2e_ref::R;
struct Column {
  std::string name;
  double value;
  int digits;
};
struct Columns : std::vector<Column> {
  void One(const std::string& name, double v, int digits = 6) { push_back({name, v, digits}); }
  template <class V>
  void Vec(const std::string& name, const std::string& unit, const V& v, int digits = 6) {
    for (int i = 0; i < 3; i++) push_back({name + "_" + "xyz"[i] + "[" + unit + "]", v[i], digits});
  }
  template <class Q>
  void Quat(const std::string& name, const Q& q) {
    for (int i = 0; i < 4; i++) push_back({name + "_" + "xyzw"[i], q[i], 6});
  }
};
enum Part { kGyro, kMag, kStt, kSun, kGnss, kMtq, kRw, kThruster, kTelescope, kForce, kTorque, kRate, kAttitude, kOrbit, kPower, kPowerUnit, kParts };
struct Suite : s2e::spacecraft::InstalledComponents {
  unsigned mask;
  std::unique_ptr<k::GyroSensor> gyro;
  std::unique_ptr<k::Magnetometer> mag;
  std::unique_ptr<k::StarSensor> stt;
  std::unique_ptr<k::SunSensor> sun;
  std::unique_ptr<k::GnssReceiver> gnss;
  std::unique_ptr<k::Magnetorquer> mtq;
  std::unique_ptr<k::ReactionWheel> rw;
  std::unique_ptr<k::SimpleThruster> thruster;
  std::unique_ptr<k::Telescope> telescope;
  std::unique_ptr<k::ForceGenerator> force;
  std::unique_ptr<k::TorqueGenerator> torque;
  std::unique_ptr<k::AngularVelocityObserver> rate;
  std::unique_ptr<k::AttitudeObserver> attitude;
  std::unique_ptr<k::OrbitObserver> orbit;
  std::unique_ptr<k::SolarArrayPanel> panel;
  std::unique_ptr<k::Battery> battery;
  std::unique_ptr<k::PcuInitialStudy> pcu;
  std::vector<std::unique_ptr<k::PowerPort>> ports;  // of the powered components, switched on
  bool Has(int p) const { return mask >> p & 1; }
  bool Powered() const { return mask >> kParts & 1; }
  k::PowerPort* Port() {
    ports.emplace_back(new k::PowerPort((int)ports.size(), 1e3));
    return ports.back().get();
  }
  Suite(const s2e::dynamics::Dynamics* dyn, s2e::spacecraft::Structure* st, const s2e::environment::LocalEnvironment* local, const s2e::environment::GlobalEnvironment* global,
        const s2e::simulation::SimulationConfiguration* conf, s2e::environment::ClockGenerator* clock, unsigned id, unsigned mask_)
      : mask(mask_) {
    const std::string sat = conf->spacecraft_file_list_[id];
    const std::string d = sat.substr(0, sat.find_last_of('/')) + "/components/";
    const double step = global->GetSimulationTime().GetComponentStepTime_s();
    if (Has(kGyro)) gyro.reset(new k::GyroSensor(Powered() ? k::InitGyroSensor(clock, Port(), 1, d + "gyro_sensor.ini", step, dyn) : k::InitGyroSensor(clock, 1, d + "gyro_sensor.ini", step, dyn)));
    if (Has(kMag)) mag.reset(new k::Magnetometer(Powered() ? k::InitMagnetometer(clock, Port(), 1, d + "magnetometer.ini", step, &local->GetGeomagneticField()) : k::InitMagnetometer(clock, 1, d + "magnetometer.ini", step, &local->GetGeomagneticField())));
    if (Has(kStt)) stt.reset(new k::StarSensor(Powered() ? k::InitStarSensor(clock, Port(), 1, d + "star_sensor.ini", step, dyn, local) : k::InitStarSensor(clock, 1, d + "star_sensor.ini", step, dyn, local)));
    if (Has(kSun)) sun.reset(new k::SunSensor(Powered() ? k::InitSunSensor(clock, Port(), 1, d + "sun_sensor.ini", &local->GetSolarRadiationPressure(), &local->GetCelestialInformation()) : k::InitSunSensor(clock, 1, d + "sun_sensor.ini", &local->GetSolarRadiationPressure(), &local->GetCelestialInformation())));
    if (Has(kGnss)) gnss.reset(new k::GnssReceiver(Powered() ? k::InitGnssReceiver(clock, Port(), 1, d + "gnss_receiver.ini", dyn, &global->GetGnssSatellites(), &global->GetSimulationTime()) : k::InitGnssReceiver(clock, 1, d + "gnss_receiver.ini", dyn, &global->GetGnssSatellites(), &global->GetSimulationTime())));
    if (Has(kMtq)) mtq.reset(new k::Magnetorquer(Powered() ? k::InitMagnetorquer(clock, Port(), 1, d + "magnetorquer.ini", step, &local->GetGeomagneticField()) : k::InitMagnetorquer(clock, 1, d + "magnetorquer.ini", step, &local->GetGeomagneticField())));
    if (Has(kRw)) rw.reset(new k::ReactionWheel(Powered() ? k::InitReactionWheel(clock, Port(), 1, d + "reaction_wheel.ini", step) : k::InitReactionWheel(clock, 1, d + "reaction_wheel.ini", step)));
    if (Has(kThruster)) thruster.reset(new k::SimpleThruster(Powered() ? k::InitSimpleThruster(clock, Port(), 1, d + "thruster.ini", st, dyn) : k::InitSimpleThruster(clock, 1, d + "thruster.ini", st, dyn)));
    if (Has(kTelescope))
      telescope.reset(new k::Telescope(k::InitTelescope(clock, 1, d + "telescope.ini", &dyn->GetAttitude(), &global->GetHipparcosCatalog(), &local->GetCelestialInformation(), &dyn->GetOrbit())));
    if (Has(kForce)) force.reset(new k::ForceGenerator(k::InitializeForceGenerator(clock, d + "force_generator.ini", dyn)));
    if (Has(kTorque)) torque.reset(new k::TorqueGenerator(k::InitializeTorqueGenerator(clock, d + "torque_generator.ini", dyn)));
    if (Has(kRate)) rate.reset(new k::AngularVelocityObserver(k::InitializeAngularVelocityObserver(clock, d + "angular_velocity_observer.ini", step, dyn->GetAttitude())));
    if (Has(kAttitude)) attitude.reset(new k::AttitudeObserver(k::InitializeAttitudeObserver(clock, d + "attitude_observer.ini", dyn->GetAttitude())));
    if (Has(kOrbit)) orbit.reset(new k::OrbitObserver(k::InitializeOrbitObserver(clock, d + "orbit_observer.ini", dyn->GetOrbit())));
    if (Has(kPower)) {
      panel.reset(new k::SolarArrayPanel(k::InitSAP(clock, 1, d + "solar_array_panel.ini", &local->GetSolarRadiationPressure(), &local->GetCelestialInformation(), step)));
      battery.reset(new k::Battery(k::InitBAT(clock, 1, d + "battery.ini", step)));
      if (Has(kPowerUnit)) pcu.reset(new k::PcuInitialStudy(k::InitPCU_InitialStudy(clock, 1, d + "pcu_initial_study.ini", {panel.get()}, battery.get(), step)));
    }
    for (auto& p : ports) p->SetVoltage_V(28);
  }
  // commands that make the actuators' columns move
  void Drive(double a) {
    if (mtq) mtq->SetOutputMagneticMoment_c_Am2(s2e::math::Vector<3>(0.03 * a));
    if (rw) rw->SetDriveFlag(true), rw->SetTargetTorque_rw_Nm(5e-4 * a);
    if (thruster) thruster->SetDuty(0.5 + 0.4 * a);
    if (force) {
      s2e::math::Vector<3> f(0.0);
      f[0] = 0.3 * a, f[1] = 0.1, f[2] = -0.2;
      force->SetForce_b_N(f);
    }
    if (torque) {
      s2e::math::Vector<3> f(0.0);
      f[0] = 1e-4 * a, f[1] = 2e-4, f[2] = -1e-4;
      torque->SetTorque_b_Nm(f);
    }
  }
  s2e::math::Vector<3> GenerateForce_b_N() override {
    s2e::math::Vector<3> f(0.0);
    if (thruster) f += thruster->GetOutputThrust_b_N();
    if (force) f += force->GetGeneratedForce_b_N();
    return f;
  }
  s2e::math::Vector<3> GenerateTorque_b_Nm() override {
    s2e::math::Vector<3> t(0.0);
    if (mtq) t += mtq->GetOutputTorque_b_Nm();
    if (rw) t += rw->GetOutputTorque_b_Nm();
    if (thruster) t += thruster->GetOutputTorque_b_Nm();
    if (torque) t += torque->GetGeneratedTorque_b_Nm();
    return t;
  }
  void LogSetup(s2e::logger::Logger& l) override {
    for (s2e::logger::ILoggable* p : std::initializer_list<s2e::logger::ILoggable*>{gyro.get(), mag.get(), stt.get(), sun.get(), gnss.get(), mtq.get(), rw.get(), thruster.get(), telescope.get(), force.get(),
                                                                                    torque.get(), rate.get(), attitude.get(), orbit.get(), panel.get(), battery.get(), pcu.get()})
      if (p) l.AddLogList(p);
  }
  void Expect(Columns& e) const {
    if (gyro) e.Vec("gyro_sensor1_measured_angular_velocity_c", "rad/s", gyro->GetMeasuredAngularVelocity_c_rad_s());
    if (mag) e.Vec("magnetometer1_measured_magnetic_field_c", "nT", mag->GetMeasuredMagneticField_c_nT());
    if (stt) e.Quat("stt1_measured_quaternion_i2c", stt->GetMeasuredQuaternion_i2c()), e.One("stt1_error_flag", stt->GetErrorFlag());
    if (sun) e.Vec("sun_sensor1_measured_sun_direction_c", "-", sun->GetMeasuredSunDirection_c()), e.One("sun_sensor1_sun_detected_flag[-]", sun->GetSunDetectedFlag());
    if (gnss) {
      e.Vec("gnss_receiver1_measured_position_ecef", "m", gnss->GetMeasuredPosition_ecef_m(), 10);
      e.Vec("gnss_receiver1_measured_velocity_ecef", "m/s", gnss->GetMeasuredVelocity_ecef_m_s(), 10);
      e.One("gnss_receiver1_measured_latitude[rad]", gnss->GetMeasuredGeodeticPosition().GetLatitude_rad(), 10);
      e.One("gnss_receiver1_measured_longitude[rad]", gnss->GetMeasuredGeodeticPosition().GetLongitude_rad(), 10);
      e.One("gnss_receiver1_measured_altitude[m]", gnss->GetMeasuredGeodeticPosition().GetAltitude_m(), 10);
    }
    if (mtq) e.Vec("magnetorquer1_output_torque_b", "Nm", mtq->GetOutputTorque_b_Nm());
    if (rw) e.One("rw1_angular_velocity[rad/s]", rw->GetAngularVelocity_rad_s()), e.One("rw1_angular_velocity[rpm]", rw->GetAngularVelocity_rpm());
    if (thruster) {
      e.Vec("simple_thruster1_output_thrust_b", "N", thruster->GetOutputThrust_b_N()), e.Vec("simple_thruster1_output_torque_b", "Nm", thruster->GetOutputTorque_b_Nm());
      e.One("simple_thruster1_output_thrust_norm[N]", ref::Norm(R(thruster->GetOutputThrust_b_N())));
    }
    if (telescope) {
      e.One("telescope_sun_in_exclusion_angle[]", telescope->GetIsSunInForbiddenAngle());
      e.One("telescope_earth_in_exclusion_angle[]", telescope->GetIsEarthInForbiddenAngle());
      e.One("telescope_moon_in_exclusion_angle[]", telescope->GetIsMoonInForbiddenAngle());
    }
    if (force) {
      e.Vec("ideal_force_generator_generated_force_b", "N", force->GetGeneratedForce_b_N()), e.Vec("ideal_force_generator_generated_force_i", "N", force->GetGeneratedForce_i_N());
      e.Vec("ideal_force_generator_generated_force_rtn", "N", force->GetGeneratedForce_rtn_N());
    }
    if (torque) e.Vec("ideal_torque_generator_generated_torque_b", "Nm", torque->GetGeneratedTorque_b_Nm());
    if (rate) e.Vec("angular_velocity_observer_measured_value_b", "rad/s", rate->GetAngularVelocity_b_rad_s());
    if (attitude) e.Quat("attitude_observer_quaternion_i2b", attitude->GetQuaternion_i2b());
    if (orbit) e.Vec("orbit_observer_position_i", "m", orbit->GetPosition_i_m(), 16), e.Vec("orbit_observer_velocity_i", "m/s", orbit->GetVelocity_i_m_s(), 16);
    if (panel) e.One("sap1_generated_power[W]", panel->GetPowerGeneration_W());
    if (battery) e.One("battery_voltage[V]", battery->GetVoltage_V());
  }
};
// a factory that remembers the components of each spacecraft
struct Fleet {
  std::vector<Suite*> of;  // owned by the spacecraft
  mission::ComponentFactory Make(std::vector<unsigned> masks) {
    return [this, masks](s2e::dynamics::Dynamics* d, s2e::spacecraft::Structure* st, const s2e::environment::LocalEnvironment* l, const s2e::environment::GlobalEnvironment* g,
                         const s2e::simulation::SimulationConfiguration* c, s2e::environment::ClockGenerator* k, unsigned id) -> s2e::spacecraft::InstalledComponents* {
      if (of.size() <= id) of.resize(id + 1);
      return of[id] = new Suite(d, st, l, g, c, k, id, masks[id % masks.size()]);
    };
  }
};
}  // namespace suite
