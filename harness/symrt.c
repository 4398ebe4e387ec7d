/* Native side of the symbolic API: replays the values of a counterexample
   (or zeros) through the same harness binary the engine executed. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
static FILE *f; static int opened;
static uint64_t next(void) {
  if (!opened) { opened = 1; const char *p = getenv("SYM_REPLAY"); if (p) f = fopen(p, "r"); }
  unsigned long long v = 0; if (f && fscanf(f, "%llu", &v) != 1) v = 0; return v;
}
void __sym_make(void *p, uint64_t es, uint64_t n, const char *name, uint64_t nl) {
  for (uint64_t i = 0; i < n; i++) { uint64_t v = next(); memcpy((char *)p + i * es, &v, es); }
}
void __sym_assume(uint32_t c) { if (!c) { fflush(stdout); fprintf(stderr, "ASSUME-FAILED\n"); _Exit(77); } }
void __sym_assert(uint32_t c, const char *id, uint64_t n) {
  if (!c) { fflush(stdout); fprintf(stderr, "ASSERT-FAILED %.*s\n", (int)n, id); if (!getenv("SYM_KEEP_GOING")) _Exit(101); }
}
void __sym_cover(uint64_t id) { if (getenv("SYM_COVERS")) fprintf(stderr, "COVER %llu\n", (unsigned long long)id); }
uint64_t __sym_concretize(uint64_t v) { return v; }
static int allow_panic;
void __sym_panic_mode(uint32_t allow) { allow_panic = allow; }
uint32_t __sym_panic_allowed(void) { return allow_panic; }
uint32_t __sym_is_engine(void) { return 0; }
uint32_t __sym_is_symbolic(uint64_t v) { return 0; }
void __sym_note(const char *p, uint64_t n) { fprintf(stderr, "NOTE %.*s\n", (int)n, p); }
uint32_t __sym_tier(void) { const char *t = getenv("SYM_TIER"); return t ? (uint32_t)atoi(t) : 0; }
