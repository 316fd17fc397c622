// Stand-in for NAIF CSPICE (not installable offline): declares exactly the entry points s2e-core calls.
// The implementation (fake_spice.cpp) is an analytic ephemeris the checks can reconfigure.
#ifndef VERIF_STUB_SPICEUSR_H
#define VERIF_STUB_SPICEUSR_H
#ifdef __cplusplus
extern "C" {
#endif
typedef int SpiceInt;
typedef double SpiceDouble;
typedef int SpiceBoolean;
typedef char SpiceChar;
typedef const char ConstSpiceChar;
#define SPICETRUE 1
#define SPICEFALSE 0
void bodvcd_c(SpiceInt bodyid, ConstSpiceChar* item, SpiceInt maxn, SpiceInt* dim, SpiceDouble* values);
void bodc2n_c(SpiceInt code, SpiceInt namelen, SpiceChar* name, SpiceBoolean* found);
void bodn2c_c(ConstSpiceChar* name, SpiceInt* code, SpiceBoolean* found);
void furnsh_c(ConstSpiceChar* file);
void str2et_c(ConstSpiceChar* str, SpiceDouble* et);
void spkezr_c(ConstSpiceChar* target, SpiceDouble et, ConstSpiceChar* ref, ConstSpiceChar* abcorr, ConstSpiceChar* obs, SpiceDouble starg[6],
              SpiceDouble* lt);
void sxform_c(ConstSpiceChar* from, ConstSpiceChar* to, SpiceDouble et, SpiceDouble xform[6][6]);
#ifdef __cplusplus
}
#endif
#endif
