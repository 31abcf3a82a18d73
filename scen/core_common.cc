#include "common.h"
#include <time.h>
void sim_sleep_ms(int ms) {
    struct timespec t = {ms / 1000, long(ms % 1000) * 1000000L};
    nanosleep(&t, nullptr);
}
