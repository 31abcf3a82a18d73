// The same check, for the listeners of a wavefront that is being propagated.
#define WAVE 2
#include "listeners.inc"
