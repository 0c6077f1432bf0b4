#ifdef NATIVE
#ifdef VF_INPUTS_C
#include VF_INPUTS_C
#else
void vf_load_inputs(void) {}
#endif
#endif
