/* Makes one allocation fail. LB_FAIL=n: the n-th (from 1) returns NULL, and so do all later ones
 * when LB_FAIL_ALL is set. LB_ALLOCS=f: the number of allocations goes to file f at exit,
 * and the first and last ordinal of those from each place in the code and of each realloc. */
#include <errno.h>
#include <fcntl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
char* __real_strdup(const char*);
char* __real_strndup(const char*, size_t);

static unsigned long count, at;
static int ready, all;
static const char* file;

/* the places, told apart by the return addresses on the stack */
#define SITES 512
static struct { unsigned long where, first, last; } site[SITES];
static unsigned long grown[SITES];
static unsigned nsite, ngrown;

static void note(unsigned long where) {
  unsigned i;
  if (!file)
    return;
  for (i = 0; i < nsite && site[i].where != where; i++)
    ;
  if (i == nsite) {
    if (nsite == SITES)
      return;
    site[nsite].where = where;
    site[nsite++].first = count;
  }
  site[i].last = count;
}

static void report(void) {
  int f = file ? open(file, O_WRONLY | O_CREAT | O_TRUNC, 0600) : -1;
  if (f >= 0) {
    unsigned i;
    dprintf(f, "%lu\n", count);
    for (i = 0; i < nsite; i++)
      dprintf(f, "%lu\n%lu\n", site[i].first, site[i].last);
    for (i = 0; i < ngrown; i++)
      dprintf(f, "%lu\n", grown[i]);
    close(f);
  }
}

__attribute__((constructor)) static void start(void) {
  const char* s = getenv("LB_FAIL");
  at = s ? strtoul(s, NULL, 10) : 0;
  all = getenv("LB_FAIL_ALL") != NULL;
  file = getenv("LB_ALLOCS");
  ready = 1;
  atexit(report);
}

static int fails(void) {
  if (!ready)
    return 0;
  count++;
  if (at && (count == at || (all && count > at))) {
    errno = ENOMEM;
    return 1;
  }
  return 0;
}

/* frames: 0 in the allocating helper, 1 in what called it, 2 in what called that */
#define NOTE() (file ? note((unsigned long) __builtin_return_address(0) * 3 + (unsigned long) __builtin_return_address(1) * 7 + (unsigned long) __builtin_return_address(2) * 31) : (void) 0)

void* __wrap_malloc(size_t n) { int f = fails(); NOTE(); return f ? NULL : __real_malloc(n); }
void* __wrap_calloc(size_t n, size_t m) { int f = fails(); NOTE(); return f ? NULL : __real_calloc(n, m); }
void* __wrap_realloc(void* p, size_t n) {
  int f = fails();
  NOTE();
  if (ngrown < SITES)
    grown[ngrown++] = count;
  return f ? NULL : __real_realloc(p, n);
}
char* __wrap_strdup(const char* s) { int f = fails(); NOTE(); return f ? NULL : __real_strdup(s); }
char* __wrap_strndup(const char* s, size_t n) { int f = fails(); NOTE(); return f ? NULL : __real_strndup(s, n); }
