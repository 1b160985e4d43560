/* Runs harness entries natively on given inputs. Each stdin line
 * "entry p0,p1,... hexinput" is run in its own process; one line comes back:
 *   ok|assume|assert <id>|panic|signal <n>|timeout|starved   asserts=<n> notes=<t>:<v>,...
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

static uint8_t in[1 << 16];
static size_t in_n, in_p;
static uint64_t par[16];
static int par_n;
static int out;
static unsigned long asserts;
static char notes[1 << 16];
static size_t notes_n;

static void done(const char *how) {
  dprintf(out, "%s asserts=%lu notes=%s\n", how, asserts, notes_n ? notes : "-");
  _exit(0);
}
void sym_bytes(uint8_t *p, size_t n) {
  if (n > in_n - in_p) done("starved");
  memcpy(p, in + in_p, n);
  in_p += n;
}
void sym_assume(_Bool c) { if (!c) done("assume"); }
void sym_assert(_Bool c, uint64_t id) {
  asserts++;
  if (!c) { char b[64]; snprintf(b, sizeof b, "assert:%llu", (unsigned long long)id); done(b); }
}
void sym_cover(uint32_t id) { (void)id; }
void sym_note(uint32_t t, uint64_t v) {
  if (notes_n < sizeof notes - 64) notes_n += sprintf(notes + notes_n, "%s%u:%llu", notes_n ? "," : "", t, (unsigned long long)v);
}
uint64_t sym_concretize(uint64_t v) { return v; }
uint64_t sym_param(uint64_t i) { return i < (uint64_t)par_n ? par[i] : 0; }
void sym_digits(const unsigned __int128 *v, const uint8_t *p, size_t n) {
  unsigned __int128 x = 0;
  while (n--) x = x * 10 + (*p++ - '0');
  if (x != *v) done("panic");
}
void sym_debug(uint64_t a) { (void)a; }

static int hexv(int c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }

int main(int argc, char **argv) {
  static char line[1 << 18];
  int verbose = argc > 1 && !strcmp(argv[1], "-v");
  setvbuf(stdout, 0, _IOLBF, 0);
  while (fgets(line, sizeof line, stdin)) {
    char entry[128], ps[512], hx[1 << 17];
    hx[0] = 0;
    if (sscanf(line, "%127s %511s %131071s", entry, ps, hx) < 2) continue;
    par_n = 0;
    if (strcmp(ps, "-"))
      for (char *t = strtok(ps, ","); t && par_n < 16; t = strtok(0, ",")) par[par_n++] = strtoull(t, 0, 10);
    in_n = 0;
    for (char *h = hx; h[0] && h[1] && h[0] != '-'; h += 2) in[in_n++] = hexv(h[0]) << 4 | hexv(h[1]);
    void (*f)(void) = (void (*)(void))dlsym(RTLD_DEFAULT, entry);
    if (!f) { printf("no-entry\n"); continue; }
    int p[2];
    if (pipe(p)) return 3;
    fflush(stdout);
    pid_t c = fork();
    if (!c) {
      close(p[0]);
      out = p[1];
      if (!verbose && !freopen("/dev/null", "w", stderr)) _exit(9);
      /* no room for a single allocation of 64 MiB, see MAX_ALLOC of symex */
      unsigned long long pages = 0;
      FILE *sm = fopen("/proc/self/statm", "r");
      if (!sm || fscanf(sm, "%llu", &pages) != 1) _exit(9);
      fclose(sm);
      rlim_t most = pages * sysconf(_SC_PAGESIZE) + (60 << 20);
      struct rlimit m = {most, most}, z = {0, 0}, st = {256 << 20, 256 << 20};
      setrlimit(RLIMIT_AS, &m);
      setrlimit(RLIMIT_CORE, &z);
      setrlimit(RLIMIT_STACK, &st);
      alarm(20);
      f();
      done("ok");
    }
    close(p[1]);
    char b[1 << 17];
    size_t n = 0;
    ssize_t k;
    while (n < sizeof b - 1 && (k = read(p[0], b + n, sizeof b - 1 - n)) > 0) n += k;
    b[n] = 0;
    close(p[0]);
    int st = 0;
    waitpid(c, &st, 0);
    if (n) fputs(b, stdout);
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) printf("timeout asserts=0 notes=-\n");
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT) printf("panic asserts=0 notes=-\n");
    else if (WIFSIGNALED(st)) printf("signal:%d asserts=0 notes=-\n", WTERMSIG(st));
    else printf("exit:%d asserts=0 notes=-\n", WEXITSTATUS(st));
  }
  return 0;
}
