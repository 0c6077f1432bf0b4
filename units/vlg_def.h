/* ghost variables that loop contracts (vf/loops.h) may mention */
#include "loops.h"
struct vlg VLG; unsigned char VIN1[64], VIN2[64], VOUT[128], VLAST[64];
