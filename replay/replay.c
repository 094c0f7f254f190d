/* Native driver: loads a harness library, answers sym_* from model files and reports what happened.
   usage: replay LIB ENTRY MODELFILE...   (each model runs in a child process) */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/wait.h>
#include <unistd.h>

#define MAXV 4096
static char *names[MAXV];
static uint64_t vals[MAXV];
static int nv;
static char *occ_name[MAXV];
static int occ_n[MAXV];
static int nocc;
static uint64_t obs[65536];
static int nobs;
static char failed[65536], kfs[65536];
static long asserts;

static uint64_t next(const char *n) {
  int k = 0, i;
  for (i = 0; i < nocc; i++)
    if (!strcmp(occ_name[i], n)) break;
  if (i == nocc) { occ_name[nocc] = strdup(n); occ_n[nocc++] = 0; }
  k = occ_n[i]++;
  char full[512];
  snprintf(full, sizeof full, "%s#%d", n, k);
  for (i = 0; i < nv; i++)
    if (!strcmp(names[i], full)) return vals[i];
  return 0;
}
static void finish(const char *how) {
  printf("RESULT how=%s asserts=%ld failed=%s kf=%s observed=", how, asserts, *failed ? failed : "-", *kfs ? kfs : "-");
  for (int i = 0; i < nobs; i++) printf("%s%llu", i ? "," : "", (unsigned long long)obs[i]);
  if (!nobs) printf("-");
  printf("\n");
  fflush(stdout);
  _exit(0);
}
uint8_t sym_u8(const char *n) { return next(n); }
uint16_t sym_u16(const char *n) { return next(n); }
uint32_t sym_u32(const char *n) { return next(n); }
uint64_t sym_u64(const char *n) { return next(n); }
bool sym_bool(const char *n) { return next(n) & 1; }
uint32_t sym_choice(const char *n, uint32_t k) { uint32_t v = next(n); if (v >= k) finish("prune"); return v; }
void sym_assume(bool c) { if (!c) finish("prune"); }
/* the list is comma separated and ends at a space */
static void app(char *b, const char *s) {
  size_t n = strlen(b);
  if (n + strlen(s) + 2 >= 65536) return;
  if (n) b[n++] = ',';
  for (; *s; s++) b[n++] = *s == ' ' || *s == ',' || *s == '=' ? '_' : *s;
  b[n] = 0;
}
void sym_assert(bool c, const char *id) { asserts++; if (!c) app(failed, id); }
void sym_assert_kf(bool c, const char *id, const char *kf, bool cond) {
  asserts++;
  if (!c) { app(failed, id); if (cond) app(kfs, kf); }
}
void sym_observe(uint64_t v) { if (nobs < 65536) obs[nobs++] = v; }
void sym_cover(const char *i) { (void)i; }
void sym_may_panic(bool b) { (void)b; }
void sym_no_fmt(bool b) { (void)b; }
void sym_prune(void) { finish("prune"); }
void sym_end(void) { finish("end"); }
uint64_t sym_concrete(uint64_t v) { return v; }
/* deterministic hash seeds, as in the symbolic run */
ssize_t getrandom(void *p, size_t n, unsigned f) { (void)f; memset(p, 0, n); return n; }

int main(int argc, char **argv) {
  void *h = dlopen(argv[1], RTLD_LAZY | RTLD_GLOBAL);
  if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); return 2; }
  void (*f)(void) = (void (*)(void))dlsym(h, argv[2]);
  if (!f) { fprintf(stderr, "no entry %s\n", argv[2]); return 2; }
  for (int a = 3; a < argc; a++) {
    FILE *fp = fopen(argv[a], "r");
    if (!fp) { perror(argv[a]); return 2; }
    char line[1024], name[512];
    unsigned long long v;
    nv = 0;
    while (fgets(line, sizeof line, fp))
      if (sscanf(line, "%511s %llu", name, &v) == 2 && nv < MAXV) { names[nv] = strdup(name); vals[nv++] = v; }
    fclose(fp);
    printf("MODEL %s\n", argv[a]);
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) { alarm(120); f(); finish("end"); }
    int st;
    waitpid(p, &st, 0);
    if (st) { printf("RESULT how=crash asserts=0 failed=panic kf=- observed=- status=%d\n", st); fflush(stdout); }
  }
  return 0;
}
