#ifndef VSTUB_SPICE
#define VSTUB_SPICE
extern "C" {
typedef int SpiceInt; typedef char SpiceChar; typedef int SpiceBoolean; typedef double SpiceDouble;
typedef const char ConstSpiceChar;
#define SPICETRUE 1
#define SPICEFALSE 0
void ktotal_c(ConstSpiceChar *, SpiceInt *);
void kdata_c(SpiceInt, ConstSpiceChar *, SpiceInt, SpiceInt, SpiceInt, SpiceChar *, SpiceChar *, SpiceChar *, SpiceInt *, SpiceBoolean *);
void furnsh_c(ConstSpiceChar *);
void spkpos_c(ConstSpiceChar *, SpiceDouble, ConstSpiceChar *, ConstSpiceChar *, ConstSpiceChar *, SpiceDouble[3], SpiceDouble *);
void spkezp_c(SpiceInt, SpiceDouble, ConstSpiceChar *, ConstSpiceChar *, SpiceInt, SpiceDouble[3], SpiceDouble *);
void spkgps_c(SpiceInt, SpiceDouble, ConstSpiceChar *, SpiceInt, SpiceDouble[3], SpiceDouble *);
void bodvrd_c(ConstSpiceChar *, ConstSpiceChar *, SpiceInt, SpiceInt *, SpiceDouble *);
void unitim_c_(void);
SpiceDouble unitim_c(SpiceDouble, ConstSpiceChar *, ConstSpiceChar *);
void str2et_c(ConstSpiceChar *, SpiceDouble *);
SpiceDouble spd_c(void); SpiceDouble j2000_c(void);
void deltet_c(SpiceDouble, ConstSpiceChar *, SpiceDouble *);
}
#endif
