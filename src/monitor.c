/* Runtime monitor linked with the interpreter (LBASIC_MONITOR hook).
 * LB_STEPS=n   step budget: exceeding it ends the process with status 97
 * LB_INT=a,b,c raise SIGINT before step a, b, c (counted from 1 over the whole session)
 * LB_INT_OFF=f no SIGINT once file f exists
 * LB_FSIZE=n  files can hold n bytes only: writing more fails (device full)
 * LB_NOFLUSH=1 what standard output has not delivered is lost when the budget is exceeded
 * LB_UNBUF=1   write standard output at once (for interactive drivers)
 * LB_COUNT=f   write the number of steps to file f at exit */
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/resource.h>

static unsigned long long steps, budget, next_int = ~0ull;
static const char *ints, *count_file, *off_file;
static int ready;

/* A process that hangs or floods ends by itself. */
__attribute__((constructor)) static void limits(void) {
  struct rlimit c = { 30, 35 }, f = { 64u << 20, 64u << 20 }, z = { 0, 0 };
  setrlimit(RLIMIT_CPU, &c);
  setrlimit(RLIMIT_FSIZE, &f);
  setrlimit(RLIMIT_CORE, &z);
  if (getenv("LB_FSIZE")) {
    f.rlim_cur = strtoull(getenv("LB_FSIZE"), NULL, 10);
    setrlimit(RLIMIT_FSIZE, &f);
    signal(SIGXFSZ, SIG_IGN);
  }
  if (getenv("LB_UNBUF"))
    setvbuf(stdout, NULL, _IONBF, 0);
}

static void write_count(void) {
  int f = open(count_file, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (f >= 0) {
    dprintf(f, "%llu\n", steps);
    close(f);
  }
}

static void take_int(void) {
  next_int = ~0ull;
  if (ints && *ints) {
    char *end;
    next_int = strtoull(ints, &end, 10);
    ints = *end == ',' ? end + 1 : end;
  }
}

void lb_monitor_step(void) {
  if (!ready) {
    const char *s = getenv("LB_STEPS");
    ready = 1;
    budget = s ? strtoull(s, NULL, 10) : 20000000ull;
    ints = getenv("LB_INT");
    off_file = getenv("LB_INT_OFF");
    take_int();
    count_file = getenv("LB_COUNT");
    if (count_file)
      atexit(write_count);
  }
  if (++steps > budget) {
    static const char msg[] = "\nMONITOR: step budget exceeded\n";
    if (!getenv("LB_NOFLUSH"))
      fflush(stdout);
    if (write(2, msg, sizeof msg - 1) < 0) {}
    _exit(97);
  }
  while (steps >= next_int) {
    take_int();
    if (!(off_file && access(off_file, F_OK) == 0))
      raise(SIGINT);
  }
}
