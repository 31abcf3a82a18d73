// C22: wavefront_notifier
#define WAVE 1
#include "listeners.inc"
