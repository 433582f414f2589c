/* the Mode S decoder and the two detectors, as they are */
#include <stddef.h>
#include "desktop_blocks/adsb/modes.c"
#include "desktop_blocks/adsb/modes_2400.c"
#define M(f) size_t mm__##f(void) { return offsetof(struct mode_s_msg, f); }
M(msg) M(msgbits) M(msgtype) M(crcok) M(crc) M(errorbit) M(aa1) M(aa2) M(aa3) M(phase_corrected) M(ca) M(metype) M(mesub) M(heading_is_valid) M(heading) M(aircraft_type) M(fflag) M(tflag) M(raw_latitude)
M(raw_longitude) M(flight) M(ew_dir) M(ew_velocity) M(ns_dir) M(ns_velocity) M(vert_rate_source) M(vert_rate_sign) M(vert_rate) M(velocity) M(fs) M(dr) M(um) M(identity) M(altitude) M(unit)
#define S(f) size_t st__##f(void) { return offsetof(mode_s_t, f); }
S(icao_cache) S(fix_errors) S(aggressive) S(check_crc)
size_t mm__sizeof(void) { return sizeof(struct mode_s_msg); }
size_t st__sizeof(void) { return sizeof(mode_s_t); }
/* what a speed and a heading are, as arithmetic on the two components */
int ref__speed(int ew, int ns) { return sqrt(ns * ns + ew * ew); }
int ref__heading(int ew, int ns)
{
	int h = atan2(ew, ns) * 360 / (M_PI * 2);
	return h < 0 ? h + 360 : h;
}
int ref__air_heading(int h) { return (360.0 / 128) * (h & 127); }
