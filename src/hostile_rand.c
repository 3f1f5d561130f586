/* rand() as hostile as the standard allows: extremes come up often, never for ever. */
#include <stdlib.h>
int __real_rand(void);
static unsigned long n;
int __wrap_rand(void) {
  int r = __real_rand();
  switch (++n % 23) {
    case 3: case 9: case 10: case 17: return RAND_MAX;
    case 4: return 0;
    case 12: return RAND_MAX - 1;
    case 14: return 1;
    default: return r;
  }
}
