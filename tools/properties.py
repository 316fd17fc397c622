# Source of properties.jsonl and MANIFEST.json (see gen_meta.py).
# (id, title, statement, over, quantifier text, why tests can't, files, [(mechanism, where)], observe_at, technique, level note)
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, technique=technique, note=note))

M = "src/math_physics/"
prop("S01", "Every subsystem updates exactly on its configured schedule",
 "A simulation run advances by its configured step and every subsystem (attitude, orbit, thermal, components, log) is told to update exactly once per its own period rounded up to whole steps, evenly spaced, never skipping or doubling an update however steps and periods are combined. The run covers the whole configured duration reports its progress once per percent on the way, and then that it is finished; a simulation speed setting only paces the run against the wall clock at that ratio (it waits until a step is due, never waits when it is behind, and gives up simulated time only after a whole second of falling behind). Start epoch, elapsed time, current calendar date, Julian date and decimal year always agree.",
 ["configurations", "schedules"], "all start dates 1970-2099, durations, steps, and periods that are whole multiples of the step or not",
 "No test covers the simulation clock; a sampled schedule cannot show that accumulated step counts never drift off the configured period.",
 ["src/environment/global/simulation_time.cpp", M+"time_system/date_time_format.cpp"],
 [("per-subsystem step counters compared with the period", "src/environment/global/simulation_time.cpp UpdateTime"), ("wall-clock pacing", "src/environment/global/simulation_time.cpp UpdateTime, ResetClock"), ("Julian date advance", "src/environment/global/simulation_time.cpp")],
 ["SimulationTime getters after every step"],
 "model-based property testing of generated schedules against an exact integer schedule model", "Randomised search with exact rational schedule oracle; pacing to a simulation speed is decided on a virtual clock which replaces the system clock and the sleeps, with generated work times between the steps.")
prop("S02", "Civil dates, Julian dates, GPS time and epoch arithmetic agree",
 "Converting an instant between civil calendar date, Julian date, epoch seconds, GPS week and time-of-week, day of year and decimal year is consistent in every direction for every date from 1970 through 2099, including leap days, month and year ends. Adding and subtracting times keeps a normalised whole-second and fractional part and obeys ordinary arithmetic, and reading back a printed date gives the date to the printed six digits of the second.",
 ["inputs", "histories"], "all instants 1970-2099 with sub-second parts, all sequences of additions and subtractions",
 "Existing tests check a few hand-picked dates; carry and leap rules must hold at every boundary.",
 [M+"time_system/date_time_format.cpp", M+"time_system/epoch_time.cpp", M+"time_system/gps_time.cpp", "src/environment/global/simulation_time.cpp"],
 [("calendar arithmetic", M+"time_system/date_time_format.cpp"), ("carry of fractional seconds", M+"time_system/epoch_time.cpp"), ("GPS epoch offset and week split", M+"time_system/gps_time.cpp")],
 ["conversion results"], "round-trip and differential property testing against an independent day-count calendar", "Randomised plus boundary-biased search; leap seconds are outside the library's model.")
prop("S03", "A mission run is reproducible and independent of other missions",
 "Running the same settings with the same seeds again produces the same log, line for line, whatever other mission was simulated earlier in the same process. Physically separate spacecraft, sensors and environments never influence each other: adding a second spacecraft or instance leaves the first one's history unchanged, and changing the seed changes only random quantities.",
 ["configurations", "histories"], "all mission settings, seeds, and orders of missions and instances in one process",
 "Tests build single objects; leaking static state shows only across instances and runs.",
 ["src/simulation/case/simulation_case.cpp", "src/environment/local/geomagnetic_field.cpp", "src/disturbances/magnetic_disturbance.cpp", M+"randomization/global_randomization.cpp", "src/components/real/aocs/reaction_wheel_jitter.cpp", M+"geomagnetic/igrf.cpp"],
 [("seeded generators owned by each instance", M+"randomization"), ("log list cleared per run", "src/logger/logger.cpp")],
 ["log CSV of complete missions"], "metamorphic property testing: generated missions run twice, in different orders and in company, logs compared", "Whole example missions with generated settings; ephemeris comes from an analytic stand-in for the SPICE library.")
prop("S04", "The log is a faithful rectangular record of the run",
 "Every row of the log of a mission has exactly as many columns as the header, in the same order, whatever components, environments, bodies, satellites and axes are enabled, and the header names each column once (with several spacecraft, once per spacecraft, in the order of the spacecraft). Each value is the logged quantity at the logged time written to the logger's number format, one row per log period, and disabled logs contribute neither header nor values.",
 ["configurations"], "all combinations of enabled logs, components, selected bodies, spacecraft and log periods",
 "No test inspects mission logs; column mismatches depend on combinations of settings.",
 ["src/logger/logger.cpp", "src/logger/log_utility.hpp", "src/simulation/spacecraft/spacecraft.cpp"],
 [("header and value writers paired per loggable", "src/logger/logger.cpp"), ("scalar/vector/matrix writers", "src/logger/log_utility.hpp")],
 ["log CSV", "GetLogHeader/GetLogValue of every loggable"], "property testing of generated missions with a CSV-vs-state oracle", "Numbers compared to the logger's printed precision.")
prop("S05", "Components tick at their prescaled rate and only when powered",
 "A component's main routine runs exactly once every prescale-th component tick while its supply is on, its fast routine exactly once per fast tick, and its power-off routine instead when the supply is off. A supply port is on exactly while its voltage meets the minimum and its current (power over voltage) stays within the limit, and drawn current is zero when off; destroyed or copied components neither keep ticking nor tick twice.",
 ["schedules", "histories", "fault_sequences"], "all prescalers, tick counts, voltages, limits and orders of power events and component creation and destruction",
 "Tests do not exercise ticking; exact counts must hold for every interleaving of ticks and power faults.",
 ["src/components/base/component.cpp", "src/components/ports/power_port.cpp", "src/environment/global/clock_generator.cpp"],
 [("tick counters and prescalers", "src/components/base/component.cpp"), ("over-current and under-voltage logic", "src/components/ports/power_port.cpp"), ("registration list", "src/environment/global/clock_generator.cpp")],
 ["calls of the main, fast and power-off routines", "port state"], "stateful model-based property testing with a reference tick/power model", "Exact comparison against a reference model over random histories.")
prop("E01", "Celestial and local body positions agree with the ephemeris and frames",
 "Positions and velocities of every selected body relative to the configured centre, to the spacecraft, and in the spacecraft body frame are exactly those of the ephemeris at the current epoch, transformed by the current attitude including its rotation rate. Every query by name, identifier or index returns the data of that body, and the gravity constants and radii are those of the ephemeris.",
 ["configurations", "inputs"], "all selections and orders of bodies, centre bodies, epochs, spacecraft states and attitudes",
 "Ephemeris-dependent code has no tests; the mapping must hold for each selection and order of bodies.",
 ["src/environment/global/celestial_information.cpp", "src/environment/local/local_celestial_information.cpp", "src/environment/global/moon_rotation.cpp"],
 [("ephemeris queries and unit conversion", "src/environment/global/celestial_information.cpp"), ("relative and body-frame conversion", "src/environment/local/local_celestial_information.cpp")],
 ["getters after each update"], "differential property testing against an independent analytic ephemeris and frame algebra", "The SPICE library is replaced by an analytic ephemeris at its C interface; its own accuracy is not judged.")
prop("E02", "Earth and Moon orientation is a proper rotation matching the standard model",
 "The inertial-to-Earth-fixed matrix is a proper rotation at every epoch, matches the documented precession, nutation and sidereal-time model (or sidereal time only, or identity, as configured), turns once per sidereal day about the Earth's axis and varies smoothly in time. The Moon orientation is a proper rotation following the mean-Earth or ephemeris-defined model selected in the settings.",
 ["inputs", "configurations"], "all epochs 1970-2099 and all rotation modes",
 "Tests compare a few epochs; the model must hold over the whole time axis.",
 ["src/environment/global/earth_rotation.cpp", M+"planet_rotation/moon_rotation_utilities.cpp", "src/environment/global/moon_rotation.cpp"],
 [("precession, nutation, sidereal rotation product", "src/environment/global/earth_rotation.cpp"), ("mean Earth frame of the Moon", M+"planet_rotation/moon_rotation_utilities.cpp")],
 ["direction cosine matrices"], "differential property testing against an independent implementation of the IAU 1976/1980 model", "Tolerance set by the model's truncated series; polar motion is not modelled by the code.")
prop("E03", "Sunlight, eclipse, albedo and Earth infrared follow geometry",
 "The fraction of sunlight reaching the spacecraft is the unobscured fraction of the solar disc seen past every configured shadowing body: one when nothing is in front, zero inside a full shadow, the visible area ratio in partial and annular shadow, continuous in between and never outside zero to one; with several bodies their fractions multiply. Solar pressure equals solar flux over the speed of light, falls with the square of distance to the Sun and is scaled by that fraction, and Earth albedo and infrared pressures follow their documented geometric factors.",
 ["inputs", "configurations"], "all spacecraft positions, Sun distances and sets of shadowing bodies",
 "Tests do not cover the shadow cone; thin penumbra and annular cases need generated geometry.",
 ["src/environment/local/solar_radiation_pressure_environment.cpp", "src/environment/local/earth_albedo.cpp", "src/environment/local/earth_infrared.cpp"],
 [("disc overlap formula", "src/environment/local/solar_radiation_pressure_environment.cpp CalcShadowCoefficient"), ("inverse square law", "src/environment/local/solar_radiation_pressure_environment.cpp")],
 ["shadow coefficient, pressure, power density, albedo and IR values"], "differential property testing against numerically computed disc overlap", "Independent overlap area; tolerance covers apparent-radius rounding.")
prop("E04", "Atmospheric density follows its selected model everywhere",
 "Air density is positive, finite and the value of the selected model (layered exponential, diurnal-bulge table, or external empirical model with the space-weather data of that day and location) at every altitude, latitude, local time and date, and does not increase with altitude. Configured noise is zero-mean around the model value, and a disabled model yields no density.",
 ["inputs", "configurations"], "all altitudes 0-2000 km, locations, dates and space weather rows",
 "Tests sample few altitudes; layer borders, month ends and table ends must be right everywhere.",
 ["src/environment/local/atmosphere.cpp", M+"atmosphere/simple_air_density_model.cpp", M+"atmosphere/harris_priester_model.cpp", M+"atmosphere/wrapper_nrlmsise00.cpp"],
 [("layer search and exponential interpolation", M+"atmosphere/simple_air_density_model.cpp"), ("table interpolation with bulge angle", M+"atmosphere/harris_priester_model.cpp"), ("space weather lookup", M+"atmosphere/wrapper_nrlmsise00.cpp")],
 ["density values and arguments handed to the external model"], "differential property testing against independent table models and recorded external-model inputs", "NRLMSISE-00 itself is a stand-in recording its inputs.")
prop("E05", "The geomagnetic field is the IGRF potential field at every place and date",
 "The reported field equals the gradient of the tabulated reference-field harmonics, with coefficients linearly interpolated to the requested date, at every position and date regardless of earlier queries; outside the Earth it is divergence- and curl-free. The body-frame field is the inertial field seen through the attitude, and noise is added independently for each spacecraft around that value.",
 ["inputs", "histories", "configurations"], "all positions from the surface to high orbit, dates in the coefficient range, orders of queries",
 "Tests compare few points at one date; the model keeps internal state between calls.",
 [M+"geomagnetic/igrf.cpp", "src/environment/local/geomagnetic_field.cpp"],
 [("spherical harmonic synthesis", M+"geomagnetic/igrf.cpp"), ("frame conversion and noise", "src/environment/local/geomagnetic_field.cpp")],
 ["field vectors"], "differential property testing against an independent spherical-harmonic evaluator and finite-difference Maxwell checks", "Uses the coefficient file shipped in the repository.")
prop("E06", "GNSS satellite positions and clocks follow the ephemeris file",
 "At every epoch covered by the loaded precise-ephemeris file the position and clock of each satellite agree with the smooth orbit the file samples (exactly at sample epochs, to interpolation accuracy between them), in both Earth-fixed and inertial frames. Unknown satellites or epochs are rejected with harmless default values.",
 ["inputs", "histories"], "all valid ephemeris files, satellites, and query times, advancing with any simulation step",
 "Tests read one sample file; interpolation windows must stay correct as time advances.",
 ["src/environment/global/gnss_satellites.cpp", M+"gnss/sp3_file_reader.cpp", M+"orbit/interpolation_orbit.cpp"],
 [("sliding interpolation window", "src/environment/global/gnss_satellites.cpp"), ("trigonometric and Lagrange interpolation", M+"math/interpolation.hpp")],
 ["position and clock getters"], "differential property testing: ephemeris files generated from analytic orbits and queried back", "Interpolation tolerance derived from sampling.")
prop("E07", "The star catalogue and telescope report exactly the visible stars",
 "Every catalogue star up to the magnitude limit is loaded once with its identifier, magnitude and direction, and none other. A telescope reports a star, body or ground point exactly when its direction falls inside the field of view, at the pixel its direction projects to, and exclusion angles for Sun, Earth and Moon are honoured.",
 ["inputs", "configurations"], "all catalogue files, magnitude limits, attitudes and pointing directions",
 "No test covers catalogue parsing or projection at field edges.",
 ["src/environment/global/hipparcos_catalogue.cpp", "src/components/real/mission/telescope.cpp"],
 [("CSV parsing and magnitude cut", "src/environment/global/hipparcos_catalogue.cpp"), ("angle test and pixel projection", "src/components/real/mission/telescope.cpp")],
 ["star list", "telescope log"], "differential property testing with generated catalogues and an independent projection", "Star directions taken from the catalogue's right ascension and declination.")
prop("D01", "Attitude motion obeys rigid-body dynamics",
 "The attitude quaternion stays unit length and its rate equals the rate implied by the angular velocity; angular momentum changes exactly by the applied torque (including internal wheel momentum and structural inertia, and flexible appendage coupling when modelled). Torque-free motion conserves inertial angular momentum and rotational energy for every inertia tensor, rate and step size within integration accuracy.",
 ["inputs", "histories"], "all inertia tensors, initial states, torque and wheel-momentum histories, step sizes",
 "Tests of attitude dynamics are absent; conservation must hold over whole histories.",
 ["src/dynamics/attitude/attitude_rk4.cpp", "src/dynamics/attitude/attitude.cpp", "src/dynamics/attitude/attitude_with_cantilever_vibration.cpp", "src/dynamics/attitude/ode_attitude_with_cantilever_vibration.hpp"],
 [("Euler equations with Runge-Kutta integration", "src/dynamics/attitude/attitude_rk4.cpp"), ("momentum and energy bookkeeping", "src/dynamics/attitude/attitude.cpp")],
 ["quaternion, angular velocity, momentum, energy"], "invariant and differential property testing against a fine-step reference integrator", "Integration tolerance scaled with step size.")
prop("D02", "Controlled attitude always points its target axes",
 "In ideal pointing modes the main body axis points exactly at its commanded target (Sun, Earth, velocity direction, orbit normal or ground speed direction) and the sub axis lies as close as possible to its own target, for every geometry where the two differ. The reported angular velocity reproduces the attitude's rotation between updates and the reported torque the corresponding change of momentum.",
 ["inputs", "configurations", "histories"], "all mode pairs, axis pairs, orbits and times",
 "No tests; sign flips and degenerate geometry appear only in some histories.",
 ["src/dynamics/attitude/controlled_attitude.cpp"],
 [("triad construction", "src/dynamics/attitude/controlled_attitude.cpp"), ("finite-difference rate", "src/dynamics/attitude/controlled_attitude.cpp")],
 ["quaternion, angular velocity, torque"], "property testing of generated geometries and histories against vector-geometry oracles", "Exact geometry up to rounding; rate checked to first order in the step.")
prop("D03", "Every orbit propagation method follows the equations of motion",
 "Starting from any bound state, each propagation method gives the trajectory of its force model: two-body methods conserve energy, angular momentum and eccentricity vector, the numerical and perturbed methods respond to any applied acceleration history as Newton's law requires, and methods with the same force model agree with each other within integration accuracy. Splitting a propagation into smaller updates does not change the result.",
 ["inputs", "histories"], "all initial states, acceleration histories, update periods and integration steps",
 "Tests cover few element sets; agreement must hold for all orbits and update patterns.",
 ["src/dynamics/orbit/rk4_orbit_propagation.cpp", "src/dynamics/orbit/kepler_orbit_propagation.cpp", "src/dynamics/orbit/encke_orbit_propagation.cpp", M+"orbit/kepler_orbit.cpp"],
 [("Runge-Kutta integration of the equations of motion", "src/dynamics/orbit/rk4_orbit_propagation.cpp"), ("Encke deviation and rectification", "src/dynamics/orbit/encke_orbit_propagation.cpp"), ("Kepler's equation", M+"orbit/kepler_orbit.cpp")],
 ["position and velocity"], "differential and invariant property testing against a high-accuracy reference integrator", "Tolerances from integrator order; eccentricity below 0.9.")
prop("D04", "Orbital elements, relative orbits and element sets describe the same motion",
 "Orbital elements computed from a position and velocity reproduce that position and velocity and satisfy the defining relations for every bound orbit in any orientation, and mean motion, period and anomaly equations hold. Relative orbit models (linearised transition matrices and relative dynamics) satisfy their differential equations and agree with each other, and two-line-element propagation stays on the orbit its elements describe.",
 ["inputs", "configurations"], "all bound orbits including near-circular and retrograde, all epochs and relative states",
 "Tests use a handful of element sets in one quadrant.",
 [M+"orbit/orbital_elements.cpp", M+"orbit/kepler_orbit.cpp", M+"orbit/relative_orbit_models.cpp", "src/dynamics/orbit/relative_orbit.cpp", M+"orbit/sgp4", "src/dynamics/orbit/sgp4_orbit_propagation.cpp"],
 [("element extraction", M+"orbit/orbital_elements.cpp"), ("state transition matrix", M+"orbit/relative_orbit_models.cpp")],
 ["elements, states"], "round-trip and metamorphic property testing", "Near-degenerate orbits compared through states rather than angles.")
prop("D05", "All reported frames and velocities of an orbit are mutually consistent",
 "Whatever the propagation method, the inertial, Earth-fixed, geodetic, body-frame and local-vertical descriptions of the spacecraft state are the same state seen through the current rotations, and the reported velocity is the rate of change of the reported position in each frame. Initial states given as elements, position and velocity, ephemeris files or two-line elements start where the settings say.",
 ["configurations", "inputs", "histories"], "all propagation methods, initial states, rotation modes and attitudes",
 "Tests do not drive the orbit base class or initialisers.",
 ["src/dynamics/orbit/orbit.cpp", "src/dynamics/orbit/initialize_orbit.cpp", "src/dynamics/orbit/relative_orbit.cpp", "src/dynamics/orbit/time_series_file_orbit_propagation.cpp"],
 [("frame conversions after each propagation", "src/dynamics/orbit/orbit.cpp"), ("mode selection and initial state", "src/dynamics/orbit/initialize_orbit.cpp")],
 ["orbit getters and log"], "metamorphic property testing of generated missions with independent frame algebra", "Ephemeris stand-in as in E01.")
prop("D06", "Temperatures obey heat balance",
 "Each node's temperature changes at the rate given by conduction, radiation, solar, Earth infrared and albedo, internal and heater heat over its capacity; boundary nodes stay put; an isolated network conserves heat and relaxes toward equilibrium without overshoot, independent of node order. Heaters switch with their hysteresis band and internal heat loads follow their time table at every time.",
 ["inputs", "histories", "configurations"], "all networks of nodes, conductances, load tables, heater settings and step sizes",
 "Tests do not cover the thermal network.",
 ["src/dynamics/thermal/temperature.cpp", "src/dynamics/thermal/node.cpp", "src/dynamics/thermal/heatload.cpp", "src/dynamics/thermal/heater.cpp", "src/dynamics/thermal/heater_controller.cpp"],
 [("heat flow sum and Runge-Kutta step", "src/dynamics/thermal/temperature.cpp"), ("table interpolation", "src/dynamics/thermal/heatload.cpp"), ("hysteresis", "src/dynamics/thermal/heater_controller.cpp")],
 ["node temperatures, heater states"], "differential and invariant property testing against an independent network integrator", "Tolerance from fourth-order integration.")
prop("F01", "Surface pressure forces follow flat-plate physics",
 "Solar and air-drag force and torque are the sum over illuminated or windward surfaces of the documented flat-plate law with each surface's area, reflectivity or accommodation, normal and position: faces turned away contribute nothing, force scales linearly with pressure or density and area, and torque is lever arm cross force about the centre of mass. Force never has a component against the incoming flow direction, and the result follows changes of centre of mass and attitude.",
 ["inputs", "configurations"], "all surface sets, attitudes, Sun and flow directions, pressures and densities",
 "Tests do not cover surface forces; sign and grazing cases need generated geometry.",
 ["src/disturbances/surface_force.cpp", "src/disturbances/solar_radiation_pressure_disturbance.cpp", "src/disturbances/air_drag.cpp"],
 [("per-surface coefficient and accumulation", "src/disturbances/surface_force.cpp")],
 ["force and torque in the body frame"], "differential property testing against an independent flat-plate model with metamorphic symmetries", "Free-molecular coefficients compared with published formulas.")
prop("F02", "Perturbing gravity is the gradient of its potential",
 "Acceleration from the Earth's and Moon's spherical-harmonic fields up to the configured degree equals the gradient of the potential defined by the coefficient file, at every position, and third-body acceleration equals the difference of point-mass attractions on spacecraft and centre for every selected body. The inertial acceleration is the body-fixed one seen through the current rotation.",
 ["inputs", "configurations"], "all positions, degrees, coefficient sets and selected bodies",
 "Tests compare one field at a few points.",
 [M+"gravity/gravity_potential.cpp", "src/disturbances/geopotential.cpp", "src/disturbances/lunar_gravity_field.cpp", "src/disturbances/third_body_gravity.cpp"],
 [("Cunningham recursion", M+"gravity/gravity_potential.cpp"), ("coefficient file readers", "src/disturbances/geopotential.cpp")],
 ["accelerations"], "differential property testing against an independent potential and numerical gradient", "Coefficient files generated, as none is shipped.")
prop("F03", "Gravity-gradient and magnetic torques follow their vector laws",
 "Gravity-gradient torque is three times the gravity parameter over distance cubed times the direction crossed with inertia times direction, for every inertia and direction; magnetic torque is the total residual moment crossed with the body-frame field, perpendicular to both. The residual moment stays near its configured constant with configured random fluctuations independent for each spacecraft, and follows component contributions.",
 ["inputs", "configurations", "histories"], "all inertia tensors, directions, fields and residual-moment settings",
 "Tests do not cover these torques.",
 ["src/disturbances/gravity_gradient.cpp", "src/disturbances/magnetic_disturbance.cpp", "src/simulation/spacecraft/structure/residual_magnetic_moment.hpp"],
 [("cross product formula", "src/disturbances/gravity_gradient.cpp"), ("random-walk residual moment", "src/disturbances/magnetic_disturbance.cpp")],
 ["torques"], "differential property testing against vector formulas and statistical checks", "Noise judged by bounds with negligible false-alarm probability.")
prop("F04", "Disturbances sum, obey their switches and reach the dynamics",
 "Total disturbance force, torque and acceleration are exactly the sums of the enabled disturbances: a disabled one contributes nothing and leaves all others unchanged. Together with component-generated forces and torques they act on the orbit as force over mass in the inertial frame plus acceleration, and on the attitude as body torque, in the same update.",
 ["configurations", "histories"], "all subsets of enabled disturbances, masses, attitudes and component outputs",
 "No test assembles disturbances; combinations are exponential.",
 ["src/disturbances/disturbances.cpp", "src/disturbances/disturbance.hpp", "src/simulation/spacecraft/spacecraft.cpp", "src/dynamics/dynamics.cpp"],
 [("summing loop", "src/disturbances/disturbances.cpp"), ("forwarding to orbit and attitude", "src/simulation/spacecraft/spacecraft.cpp"), ("force to acceleration", "src/dynamics/dynamics.cpp")],
 ["sums and dynamics response"], "metamorphic property testing of generated missions", "Ephemeris stand-in as in E01.")
prop("C01", "Vector sensors report truth through their configured error model",
 "Gyroscopes and magnetometers, and the ideal observers for attitude, rate and orbit, report the true quantity rotated into the sensor frame, then scaled and cross-coupled, offset by bias, random walk and noise, and clipped to the range settings as documented; without errors configured the report equals the truth exactly. Noise is zero-mean with the configured standard deviation, differs between separate sensors and repeats for the same seed, and an unpowered sensor takes no new measurement.",
 ["inputs", "configurations", "histories"], "all true values, mounting orientations, scale factors, biases, ranges, seeds",
 "Tests do not cover sensors; error terms interact.",
 ["src/components/base/sensor_template_functions.hpp", "src/components/real/aocs/gyro_sensor.cpp", "src/components/real/aocs/magnetometer.cpp", "src/components/ideal"],
 [("measurement pipeline", "src/components/base/sensor_template_functions.hpp")],
 ["measured values"], "differential property testing against an independent error model, plus statistical bounds", "Statistical facets use bounds with negligible false-alarm probability.")
prop("C02", "Reaction wheels exchange momentum and respect their limits",
 "Wheel output torque on the spacecraft is exactly opposite to the rate of change of wheel momentum along its axis; commanded torque is limited, delayed and lagged as configured, the motor stops accelerating the rotor once its speed limit is passed, and with the drive off the wheel coasts down under its friction polynomial toward zero and never past it; without power it keeps its speed and exerts no wheel torque. Jitter forces follow the harmonics configured for that wheel and repeat for the same seed.",
 ["inputs", "histories", "fault_sequences"], "all wheel settings, command and power histories",
 "Tests do not cover the wheel; history-dependent limits need generated sequences.",
 ["src/components/real/aocs/reaction_wheel.cpp", "src/components/real/aocs/reaction_wheel_ode.cpp", "src/components/real/aocs/reaction_wheel_jitter.cpp"],
 [("delay buffer, lag and limits", "src/components/real/aocs/reaction_wheel.cpp"), ("jitter synthesis", "src/components/real/aocs/reaction_wheel_jitter.cpp")],
 ["output torque, angular momentum, speed"], "stateful model-based property testing against a reference wheel", "Lag integration compared to first order in the step.")
prop("C03", "Actuators produce the commanded action through their alignment and limits",
 "Magnetorquers, thrusters and ideal force and torque generators output the commanded moment, thrust or wrench, clipped, scaled, misaligned and offset as configured, in the direction and at the position of the unit in the body frame; torque is lever arm cross force about the current centre of mass and moment cross field. Repeating ticks with a constant command does not change the noiseless output, and power-off output is zero.",
 ["inputs", "histories", "configurations"], "all mountings, limits, commands, duty histories and centre-of-mass positions",
 "Tests do not cover actuators; repeated ticks expose accumulation.",
 ["src/components/real/aocs/magnetorquer.cpp", "src/components/real/propulsion/simple_thruster.cpp", "src/components/ideal/force_generator.cpp", "src/components/ideal/torque_generator.cpp", "src/components/real/aocs/mtq_magnetometer_interference.cpp"],
 [("output calculation", "src/components/real/aocs/magnetorquer.cpp"), ("thrust direction error and lever arm", "src/components/real/propulsion/simple_thruster.cpp")],
 ["output force, torque, moment"], "stateful differential property testing against vector formulas", "Random errors judged by hard and statistical bounds.")
prop("C04", "Sun and star sensors report directions and reject blocked views",
 "A noiseless Sun sensor reports the Sun direction in its frame exactly when it lies in the field of view and enough sunlight arrives, otherwise no detection; a star sensor reports the true attitude quaternion composed with its mounting, delayed as configured, with error flagged exactly when the Sun, Earth or Moon is inside its exclusion angle or the body rate exceeds its limit. Errors stay within the configured noise about and across the boresight.",
 ["inputs", "configurations", "histories"], "all attitudes, mountings, Sun, Earth and Moon geometries, delays and tick counts",
 "Tests do not cover optical sensors; edge-of-view and delay buffers need sequences.",
 ["src/components/real/aocs/sun_sensor.cpp", "src/components/real/aocs/star_sensor.cpp"],
 [("field-of-view test", "src/components/real/aocs/sun_sensor.cpp"), ("delay ring buffer and exclusion judgement", "src/components/real/aocs/star_sensor.cpp")],
 ["measured direction, quaternion, flags"], "stateful differential property testing against vector geometry", "Cases within rounding of an exclusion edge accept either answer.")
prop("C05", "GNSS receivers report position, velocity and time of visible satellites",
 "A receiver reports the spacecraft's true Earth-fixed position and velocity, plus only its configured noise, exactly when its visibility rule is met, and otherwise keeps its last fix: the simple antenna needs its boresight on the side away from the Earth, the cone antenna needs four satellites, each visible exactly when the line of sight from the antenna clears the Earth and lies inside the cone. Each visible satellite is listed with the range and the direction in the antenna frame of the geometry; time output matches the simulation's epoch and geodetic output the reported position.",
 ["inputs", "configurations"], "all receiver settings, attitudes, orbits and constellations",
 "Tests do not cover the receiver.",
 ["src/components/real/aocs/gnss_receiver.cpp"],
 [("visibility and cone test", "src/components/real/aocs/gnss_receiver.cpp"), ("GPS time conversion", "src/components/real/aocs/gnss_receiver.cpp")],
 ["receiver outputs"], "differential property testing with generated constellations", "Edge-of-cone cases accept either answer.")
prop("C06", "Electrical power is conserved and batteries count charge",
 "Array power is the product of efficiencies, sunlight intensity, area and the cosine of incidence, never negative and zero in full shadow; bus voltage and currents balance array, battery and load at every step. Battery charge changes exactly by the current times time from its initial depth of discharge, charging follows its constant-current then constant-voltage limits, voltage follows the discharge curve, and supply switching reflects ports and consumption. A scenario file, when enabled, replaces sunlight and load from each of its rows on, zero before the first, and damaged ones are rejected.",
 ["inputs", "histories", "configurations"], "all illumination and load histories, battery and array settings",
 "Tests do not cover power; conservation must hold over whole histories.",
 ["src/components/real/power/battery.cpp", "src/components/real/power/solar_array_panel.cpp", "src/components/real/power/pcu_initial_study.cpp", "src/components/real/power/power_control_unit.cpp", "src/components/real/power/csv_scenario_interface.cpp"],
 [("charge counting and curve interpolation", "src/components/real/power/battery.cpp"), ("bus balance", "src/components/real/power/pcu_initial_study.cpp")],
 ["voltages, currents, depth of discharge"], "stateful differential property testing with a reference power model", "Curve tables linearly interpolated.")
prop("C07", "Onboard data links deliver bytes in order and intact",
 "Bytes written to a serial port by the computer or the component arrive at the other side in order, unmodified, never more than were written and up to the buffer capacity; bus register reads and writes address exactly the selected device and register; digital pins read back the level last written. A component's parser sees exactly the command bytes it asked for, its telemetry reaches the computer whole, and requests on unknown or closed ports or beyond a buffer are refused without side effects.",
 ["histories", "schedules", "inputs"], "all sequences of sends, receives, register accesses and pin writes, buffer sizes, offsets and port numbers",
 "Tests cover a few buffer writes; ordering must hold over every history.",
 ["src/utilities/ring_buffer.cpp", "src/components/ports/uart_port.cpp", "src/components/ports/i2c_port.cpp", "src/components/ports/gpio_port.cpp", "src/components/real/cdh/on_board_computer.cpp", "src/components/base/uart_communication_with_obc.cpp", "src/components/base/i2c_target_communication_with_obc.cpp"],
 [("ring buffers per direction", "src/components/ports/uart_port.cpp"), ("register table", "src/components/ports/i2c_port.cpp"), ("command and telemetry buffers", "src/components/base/uart_communication_with_obc.cpp")],
 ["received bytes"], "stateful model-based property testing against queue and register models", "Overflowing a ring buffer loses old data by design and is outside the ordering claim.")
prop("C08", "Ground contact and radio link budgets follow geometry",
 "A ground station sees the spacecraft exactly when its elevation exceeds the limit; antenna gain is the pattern value in the direction of the other end as seen in the antenna's own frame, and link margins are the budget sum of power, gains, losses and free-space loss for the actual distance, so they fall by twenty decibels per decade of distance. No margin is reported when not visible.",
 ["inputs", "configurations"], "all station and spacecraft positions, attitudes, antenna patterns and powers",
 "Tests do not cover link computation; antenna frames matter in generic geometry only.",
 ["src/components/real/communication/ground_station_calculator.cpp", "src/components/real/communication/antenna.cpp", "src/components/real/communication/antenna_radiation_pattern.cpp", "src/simulation/ground_station/ground_station.cpp"],
 [("elevation test", "src/simulation/ground_station/ground_station.cpp"), ("budget sum", "src/components/real/communication/ground_station_calculator.cpp"), ("pattern lookup", "src/components/real/communication/antenna_radiation_pattern.cpp")],
 ["visibility, gains, margins"], "differential property testing against an independent link budget", "Visibility within rounding of the limit accepts either answer.")
prop("U01", "Settings and table files are read back exactly or rejected",
 "Every value written in a settings or table file (numbers, vectors, quaternions, flags, strings, lists, with comments and blank lines) is read back with its exact value under its section and key; missing keys give the documented defaults. No file content, however malformed or truncated, makes reading crash or run forever.",
 ["inputs"], "all settings, CSV, command-database and operation files",
 "Tests read one fixed file.",
 ["src/setting_file_reader/initialize_file_access.cpp", "src/setting_file_reader/c2a_command_database.cpp", "src/setting_file_reader/wings_operation_file.cpp"],
 [("typed readers", "src/setting_file_reader/initialize_file_access.cpp"), ("command encoding", "src/setting_file_reader/c2a_command_database.cpp")],
 ["values read"], "round-trip property testing with generated and mutated files under sanitizers", "Line-length limit of the bundled INI parser is respected by the generator.")
prop("U02", "Byte framing, byte order and quantisation round-trip",
 "Framing any byte string and unframing it, alone or with a header, returns it unchanged for every stream split, and no framed payload contains the delimiter; byte-order conversion is its own inverse and matches the host-independent definition. Quantising returns the grid value within one step toward zero, keeping sign and order, for every ratio of value to step, and a byte ring returns what was written, in order, while less than its capacity is unread.",
 ["inputs", "histories"], "all byte strings, frames including malformed ones, integers, floats and resolutions",
 "Tests use fixed byte strings.",
 ["src/utilities/slip.cpp", "src/utilities/endian.cpp", "src/utilities/quantization.cpp", "src/utilities/ring_buffer.cpp"],
 [("escape coding", "src/utilities/slip.cpp"), ("byte swap", "src/utilities/endian.cpp")],
 ["decoded bytes"], "round-trip property testing and fuzzing under sanitizers", "None beyond sampling.")
prop("U03", "GNSS product files are read faithfully and never crash the reader",
 "Precise-ephemeris, antenna-calibration and bias files that follow their format are read with every field at full printed precision for every satellite, epoch, frequency and direction; product file names follow the naming rules. Truncated or corrupted files are reported as failures without crashing, hanging or inventing data.",
 ["inputs", "fault_sequences"], "all valid files and truncations, mutations thereof",
 "Tests read sample files only.",
 [M+"gnss/sp3_file_reader.cpp", M+"gnss/antex_file_reader.cpp", M+"gnss/bias_sinex_file_reader.cpp", M+"gnss/igs_product_name_handling.hpp", M+"gnss/gnss_satellite_number.cpp"],
 [("fixed-column parsers", M+"gnss")],
 ["parsed records"], "round-trip property testing with generated files plus truncation and mutation fuzzing under sanitizers", "Field widths per the published formats.")
prop("U04", "Vectors, matrices, quaternions and rotations obey their algebra",
 "Vector, matrix and quaternion operations satisfy the laws of linear algebra: inverses and products compose, rotations preserve length and handedness, conversions between quaternion, direction cosines, Euler angles and axis-angle describe the same rotation in every octant, and frame conversion followed by its inverse is the identity. Angles are wrapped into their documented range, and angles between vectors are finite and correct for all directions.",
 ["inputs"], "all vectors, invertible matrices, unit quaternions, angles",
 "Tests use fixed matrices and angles.",
 [M+"math/vector.hpp", M+"math/vector.cpp", M+"math/matrix_template_functions.hpp", M+"math/matrix_vector_template_functions.hpp", M+"math/quaternion.cpp", M+"math/s2e_math.cpp"],
 [("conversions", M+"math/quaternion.cpp"), ("LU decomposition", M+"math/matrix_vector_template_functions.hpp")],
 ["results"], "algebraic-law and differential property testing", "Floating-point tolerance scaled with conditioning.")
prop("U05", "Numerical integration, interpolation and filters reach their stated accuracy",
 "Each integrator is exact for the polynomial degree of its order and converges at that order on any smooth system, adaptive step control keeps the local error near its tolerance, and dense output agrees with integration at every inner point. Interpolators return sample values at samples and reproduce the function class they are built for; the first-order lag follows its exponential response for any sequence of inputs.",
 ["inputs", "histories"], "all smooth systems of the generated families, step sizes, sample sets and input sequences",
 "Tests run a few fixed systems and steps.",
 [M+"numerical_integration", M+"math/interpolation.cpp", M+"math/ordinary_differential_equation_template_functions.hpp", M+"control_utilities/first_order_lag.cpp", M+"orbit/interpolation_orbit.cpp"],
 [("Butcher tableaus", M+"numerical_integration"), ("barycentric-style products", M+"math/interpolation.cpp")],
 ["solutions"], "differential property testing against exact solutions, order-of-convergence checks", "Rounding bounds limit the order estimate.")
prop("U06", "Random sources have their stated distribution and repeat by seed",
 "Each random generator yields the documented sequence for its seed, repeats it after reseeding whatever was drawn before, and different seeds, also those handed out one after another by the global source, give unrelated streams; uniform values stay strictly inside their interval, normal values have the requested mean and deviation and no serial correlation, random walks stay within their limit statistics, and shuffled streams are permutations in distribution.",
 ["inputs", "histories"], "all seeds and draw and reseed histories",
 "Tests look at one seed's statistics.",
 [M+"randomization"],
 [("minimal standard congruential generator", M+"randomization/minimal_standard_linear_congruential_generator.cpp"), ("shuffle table", M+"randomization/minimal_standard_linear_congruential_generator_with_shuffle.cpp"), ("Box-Muller", M+"randomization/normal_randomization.cpp")],
 ["random streams"], "differential property testing against reference generators and statistical bounds", "Statistical bounds chosen for negligible false-alarm probability.")
prop("U07", "Monte Carlo runs draw every parameter from its configured distribution",
 "Each execution receives, for every configured parameter, a value from the configured distribution (uniform or normal, per component or on spheres, quaternion types, or none) inside its bounds and of unit norm where required; the executions are counted exactly, each has its own log, and a given seed repeats the whole campaign. Parameters without settings stay at their file values, and random seeds differ between executions.",
 ["configurations", "histories"], "all parameter sets, distributions, bounds, seeds and execution counts",
 "No Monte Carlo test exists; campaign-level claims need whole campaigns.",
 ["src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp", "src/simulation/monte_carlo_simulation/monte_carlo_simulation_executor.cpp", "src/simulation/monte_carlo_simulation/initialize_monte_carlo_simulation.cpp", "src/simulation/monte_carlo_simulation/simulation_object.cpp"],
 [("parameter generators", "src/simulation/monte_carlo_simulation/initialize_monte_carlo_parameters.cpp")],
 ["parameter values per execution"], "property testing of generated campaigns with distribution oracles", "Statistical bounds chosen for negligible false-alarm probability.")
prop("U08", "Geodetic and Earth-fixed coordinates are exact inverses",
 "Converting latitude, longitude and height to Earth-fixed coordinates and back returns the same point everywhere, including poles, equator, date line, below the surface and high orbit, with longitude in its stated range; the result lies on the reference ellipsoid's normal at that height. The local vertical and topocentric frame is a proper rotation with its axes along east, north and up, and ground stations sit at their configured place as the Earth turns.",
 ["inputs"], "all latitudes, longitudes and heights from -10 km to 100000 km, all epochs",
 "Tests sample a few latitudes.",
 [M+"geodesy/geodetic_position.cpp", "src/simulation/ground_station/ground_station.cpp"],
 [("iterative latitude solution", M+"geodesy/geodetic_position.cpp")],
 ["coordinates"], "round-trip property testing with an independent ellipsoid oracle", "Tolerance one millimetre class.")
prop("U09", "Laser beams spread by diffraction and keep their power",
 "The radius of a Gaussian beam at any distance before or behind its waist follows from wavelength and waist radius, and its intensity is the Gaussian profile of that radius, so the power through every plane is the configured total power whatever sequence of settings was made.",
 ["inputs"], "all wavelengths, waist radii, powers, distances and offsets of practical size, and sequences of settings",
 "No test covers the beam.",
 [M+"optics/gaussian_beam_base.cpp"],
 [("beam radius and intensity", M+"optics/gaussian_beam_base.cpp")],
 ["beam radius and intensity"], "property testing against the complex beam parameter and a conservation law", "Integrals by Simpson's rule to 1e-9.")
prop("M01", "Relative information between spacecraft is antisymmetric and current",
 "For every pair of spacecraft in a simulation the relative position, distance, velocity and attitude are those of their current states in the inertial and the reference spacecraft's orbital frame: relative vectors are antisymmetric, distances symmetric, relative attitudes mutual inverses and self-relations zero. This remains true while spacecraft are added or removed.",
 ["configurations", "histories"], "all numbers of spacecraft, states, and orders of registration and removal",
 "No test has several spacecraft.",
 ["src/simulation/multiple_spacecraft/relative_information.cpp", "src/simulation/multiple_spacecraft/inter_spacecraft_communication.cpp"],
 [("pairwise update", "src/simulation/multiple_spacecraft/relative_information.cpp")],
 ["relative getters and log"], "stateful model-based property testing", "None beyond sampling.")
