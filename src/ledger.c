/* A ledger of every memory block and stream the interpreter holds.
 * LB_LEDGER=f: file f gets one line "mark <blocks> <bytes> <streams>" for every shell command "ledger"
 * (system() is replaced), one line "end <blocks> <bytes> <streams> <allocations> <releases>" at exit */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>

void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
char* __real_strdup(const char*);
char* __real_strndup(const char*, size_t);
void __real_free(void*);
FILE* __real_fopen(const char*, const char*);
int __real_fclose(FILE*);

#define SLOTS (1u << 20)
static struct { void* p; size_t n; } slot[SLOTS];
#define GONE ((void*)1)
static unsigned long blocks, bytes, streams, allocs, frees;
static FILE* streamset[256];
static FILE* out;

static unsigned hash(void* p) { return (unsigned)(((uintptr_t)p >> 4) * 2654435761u) & (SLOTS - 1); }

static void enter(void* p, size_t n) {
  if (!p)
    return;
  unsigned h = hash(p);
  while (slot[h].p && slot[h].p != GONE)
    h = (h + 1) & (SLOTS - 1);
  slot[h].p = p;
  slot[h].n = n;
  blocks++;
  bytes += n;
  allocs++;
}

static int leave(void* p) {
  if (!p)
    return 1;
  unsigned h = hash(p);
  while (slot[h].p && slot[h].p != p)
    h = (h + 1) & (SLOTS - 1);
  if (slot[h].p != p)
    return 0;   /* not from here: the C library's, or released twice, which ASan reports */
  slot[h].p = GONE;
  blocks--;
  bytes -= slot[h].n;
  frees++;
  return 1;
}

static void report(void) {
  if (out) {
    fprintf(out, "end %lu %lu %lu %lu %lu\n", blocks, bytes, streams, allocs, frees);
    __real_fclose(out);
  }
  out = NULL;
}

__attribute__((constructor)) static void start(void) {
  const char* f = getenv("LB_LEDGER");
  if (f) {
    out = __real_fopen(f, "w");
    atexit(report);
  }
}

void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); enter(p, n); return p; }
void* __wrap_calloc(size_t n, size_t m) { void* p = __real_calloc(n, m); enter(p, n * m); return p; }
void* __wrap_realloc(void* p, size_t n) {
  leave(p);
  void* q = __real_realloc(p, n);
  enter(q, n);
  return q;
}
char* __wrap_strdup(const char* s) { char* p = __real_strdup(s); enter(p, strlen(s) + 1); return p; }
char* __wrap_strndup(const char* s, size_t n) { char* p = __real_strndup(s, n); enter(p, p ? strlen(p) + 1 : 0); return p; }
void __wrap_free(void* p) { leave(p); __real_free(p); }

FILE* __wrap_fopen(const char* name, const char* mode) {
  FILE* f = __real_fopen(name, mode);
  if (f) {
    streams++;
    for (int i = 0; i < 256; i++)
      if (!streamset[i]) {
        streamset[i] = f;
        break;
      }
  }
  return f;
}

int __wrap_fclose(FILE* f) {
  for (int i = 0; i < 256; i++)
    if (streamset[i] == f) {
      streamset[i] = NULL;
      streams--;
      break;
    }
  return __real_fclose(f);
}

int __wrap_system(const char* c) {
  if (out && c && strstr(c, "ledger")) {
    fprintf(out, "mark %lu %lu %lu\n", blocks, bytes, streams);
  }
  return 0;
}
