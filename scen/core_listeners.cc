// C22: update_notifier
#include "listeners.inc"
