/* Native meaning of the symbolic primitives: replay a recorded input (file named by SYM_REPLAY). */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static unsigned char *buf; static size_t len, pos; static int loaded;
static void load(void) {
  if (loaded) return; loaded = 1;
  const char *p = getenv("SYM_REPLAY"); if (!p) return;
  FILE *f = fopen(p, "rb"); if (!f) { perror(p); _exit(78); }
  size_t cap = 1 << 20; buf = malloc(cap); len = fread(buf, 1, cap, f); fclose(f);
}
void __sym_bytes(unsigned char *p, size_t n) { load(); for (size_t i = 0; i < n; i++) p[i] = pos < len ? buf[pos++] : 0; }
void __sym_assume(_Bool c) { if (!c) { fprintf(stderr, "SYM: assumption not met\n"); _exit(77); } }
void __sym_check(_Bool c, const char *m, size_t n) { if (!c) { fprintf(stderr, "SYM: check failed: %.*s\n", (int)n, m); _exit(42); } }
void __sym_reach(const char *m, size_t n) { if (getenv("SYM_VERBOSE")) fprintf(stderr, "SYM: reach %.*s\n", (int)n, m); }
_Bool __sym_known_not(_Bool c) { return !c; }
unsigned long long __sym_concrete(unsigned long long v) { return v; }
