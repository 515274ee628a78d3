// the clock is the harness's
#include <time.h>
extern int mock_clock_gettime(clockid_t, struct timespec*);
#define clock_gettime(a, b) mock_clock_gettime((a), (b))
