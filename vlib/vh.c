/* vh.c -- see vh.h */
#include "vh.h"
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#define KEYLEN 4000
#define MAXOBS (1<<20)
#define MAXPATH 4096

typedef struct {
  uint64_t cur;                 /* number of the case being executed */
  int running;
  uint64_t evaluations, states, transitions, nfail, ndistinct, leaves;
  int nsamples;
  char key[KEYLEN];
  char trace[16384];
  size_t tracelen;
  uint64_t obs[MAXOBS];
  int in_dfs, dfs_active, dfs_done, pruned, plen, pos, userkey;
  int path[MAXPATH], width[MAXPATH];
  int cfail; uint64_t cobs;
  uint64_t resume_at;
  char dfs_name[64];
} Shared;

static Shared *S;
static int shard, nshards = 1, thorough, timeout_s = 40, forkeach = 0;
static uint64_t counter, resume_at;
static const char *only_key;
static FILE *out;               /* result stream: json lines */
static char outpath[4096], scratch[4096];
#define cur_failed S->cfail
#define cur_obs S->cobs
static char errpath[4200];
static int cargc; static char **cargv;

extern size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
extern void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
size_t vh_heap(void)
{
  return __sanitizer_get_current_allocated_bytes ?
    __sanitizer_get_current_allocated_bytes() : 0;
}

uint64_t vh_hash(const void *data, size_t n, uint64_t h)
{
  const unsigned char *p = data;
  size_t i;
  h ^= 0xcbf29ce484222325ULL;
  for (i=0; i<n; i++) { h ^= p[i]; h *= 0x100000001b3ULL; }
  h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 32;
  return h;
}

int vh_set_add(vh_set *s, uint64_t h)
{
  size_t i;
  if (!h) h = 1;
  if (2*s->n >= s->cap) {
    size_t oc = s->cap, j; uint64_t *ov = s->v;
    s->cap = oc ? 2*oc : 1024; s->n = 0;
    s->v = calloc(s->cap, sizeof(uint64_t));
    for (j=0; j<oc; j++) if (ov[j]) vh_set_add(s, ov[j]);
    free(ov);
  }
  for (i = h & (s->cap-1); s->v[i]; i = (i+1) & (s->cap-1))
    if (s->v[i] == h) return 0;
  s->v[i] = h; s->n++;
  return 1;
}
void vh_set_free(vh_set *s) { free(s->v); memset(s, 0, sizeof(*s)); }

static void jstr(FILE *fp, const char *s)
{
  fputc('"', fp);
  for (; *s; s++) {
    unsigned char c = *s;
    if (c == '"' || c == '\\') fprintf(fp, "\\%c", c);
    else if (c < 0x20 || c >= 0x7f) fprintf(fp, "\\u%04x", c);
    else fputc(c, fp);
  }
  fputc('"', fp);
}

static void emit_fail(const char *tag, const char *msg)
{
  char rk[KEYLEN]; int i; size_t n;
  if (S->in_dfs) {
    n = snprintf(rk, sizeof(rk), "%s:", S->dfs_name);
    for (i=0; i<S->pos && n < sizeof(rk)-16; i++)
      n += snprintf(rk+n, sizeof(rk)-n, "%d.", S->path[i]);
    if (!S->userkey) snprintf(S->key, KEYLEN, "%s", rk);
  } else snprintf(rk, sizeof(rk), "%s", S->key);
  S->nfail++;
  if (S->nfail > 200000) return;
  fprintf(out, "{\"fail\": {\"key\": "); jstr(out, S->key);
  fprintf(out, ", \"replay\": "); jstr(out, rk);
  fprintf(out, ", \"tag\": "); jstr(out, tag);
  fprintf(out, ", \"msg\": "); jstr(out, msg);
  fprintf(out, ", \"trace\": "); jstr(out, S->trace);
  fprintf(out, "}}\n");
  fflush(out);
}

void vh_fail(const char *tag, const char *fmt, ...)
{
  char msg[4096];
  va_list ap;
  va_start(ap, fmt); vsnprintf(msg, sizeof(msg), fmt, ap); va_end(ap);
  if (cur_failed) return;     /* first failure of a case is the finding */
  cur_failed = 1;
  emit_fail(tag, msg);
}
int vh_failed(void) { return cur_failed; }

static void begin(void)
{
  cur_failed = 0; cur_obs = 0;
  S->trace[0] = 0; S->tracelen = 0;
  S->running = 1;
  S->evaluations++;
  alarm(timeout_s);
}

int vh_case(const char *fmt, ...)
{
  va_list ap;
  uint64_t me = counter++;
  if (!only_key && (me % nshards != (uint64_t)shard || me < resume_at)) return 0;
  va_start(ap, fmt); vsnprintf(S->key, KEYLEN, fmt, ap); va_end(ap);
  if (only_key && strcmp(only_key, S->key)) return 0;
  S->cur = me; S->in_dfs = 0;
  begin();
  return 1;
}

static void endcase(void)
{
  uint64_t h = cur_obs ? cur_obs : 1, i;
  alarm(0);
  S->running = 0;
  if (cur_obs) {
    for (i = h % MAXOBS; S->obs[i] && S->obs[i] != h; i = (i+1) % MAXOBS) ;
    if (!S->obs[i] && S->ndistinct < MAXOBS/2) { S->obs[i] = h; S->ndistinct++; }
  }
}
void vh_end(void) { endcase(); }

void vh_observe(const void *data, size_t n) { cur_obs = vh_hash(data, n, cur_obs+1); }
void vh_observef(const char *fmt, ...)
{
  char b[4096]; int n; va_list ap;
  va_start(ap, fmt); n = vsnprintf(b, sizeof(b), fmt, ap); va_end(ap);
  if (n > (int)sizeof(b)-1) n = sizeof(b)-1;
  vh_observe(b, n);
}
void vh_trace(const char *fmt, ...)
{
  va_list ap; int n; size_t left = sizeof(S->trace) - S->tracelen;
  if (left < 8) return;
  va_start(ap, fmt); n = vsnprintf(S->trace+S->tracelen, left, fmt, ap); va_end(ap);
  if (n < 0) return;
  S->tracelen += ((size_t)n < left) ? (size_t)n : left-1;
}
void vh_sample(const char *fmt, ...)
{
  char b[2048]; va_list ap;
  if (S->nsamples >= 12) return;
  S->nsamples++;
  va_start(ap, fmt); vsnprintf(b, sizeof(b), fmt, ap); va_end(ap);
  fprintf(out, "{\"sample\": "); jstr(out, b); fprintf(out, "}\n"); fflush(out);
}
void vh_count_states(uint64_t n) { S->states += n; }
void vh_count_transitions(uint64_t n) { S->transitions += n; }
int vh_thorough(void) { return thorough; }
const char *vh_scratch(void) { return scratch; }
int vh_arg(const char *name, int dflt)
{
  int i; size_t n = strlen(name);
  for (i=cargc-1; i>0; i--)                     /* the last one counts */
    if (!strncmp(cargv[i], "--", 2) && !strncmp(cargv[i]+2, name, n) && cargv[i][2+n] == '=')
      return atoi(cargv[i]+3+n);
  return dflt;
}

/* ---- dfs over choices ---- */
/* All state of the search lives in shared memory, so that it survives the
   death of the child and continues with the next leaf. */
static jmp_buf prune_jmp;
static int dfs_index;
int vh_choose(int n)
{
  int c;
  if (!S->in_dfs) { fprintf(stderr, "VH: vh_choose outside dfs\n"); abort(); }
  if (n <= 0) { fprintf(stderr, "VH: vh_choose(%d)\n", n); abort(); }
  if (S->pos < S->plen) {
    if (S->width[S->pos] && S->width[S->pos] != n) {   /* nondeterminism */
      fprintf(stderr, "VH: replay diverged at %d: width %d != %d\n",
              S->pos, S->width[S->pos], n);
      abort();
    }
    S->width[S->pos] = n; c = S->path[S->pos];
    if (c >= n) { fprintf(stderr, "VH: choice out of range\n"); abort(); }
  } else {
    if (S->plen >= MAXPATH) abort();
    S->path[S->plen] = 0; S->width[S->plen] = n; S->plen++; c = 0;
  }
  S->pos++;
  return c;
}
void vh_prune(void) { S->pruned = 1; longjmp(prune_jmp, 1); }

/* advance to next leaf; returns zero when the tree is exhausted */
static int dfs_advance(void)
{
  while (S->plen > 0 && S->path[S->plen-1]+1 >= S->width[S->plen-1]) S->plen--;
  if (S->plen == 0) return 0;
  S->path[S->plen-1]++;
  return 1;
}

void vh_dfs(const char *name, void (*body)(void))
{
  int me = dfs_index++;
  if (only_key) {
    size_t l = strlen(name); const char *p; int n;
    if (strncmp(only_key, name, l) || only_key[l] != ':') return;
    S->plen = 0;
    for (p=only_key+l+1; sscanf(p, "%d.%n", &S->path[S->plen], &n) == 1; p += n)
      S->width[S->plen++] = 0;
  } else {
    if (me < S->dfs_done) return;
    if (S->dfs_active) {          /* resumed after a crash in this dfs */
      S->plen = S->pos;
      if (!dfs_advance()) goto done;
    } else {
      S->plen = 0; S->dfs_active = 1;
      resume_at = S->resume_at = counter;
    }
  }
  snprintf(S->dfs_name, sizeof(S->dfs_name), "%s", name);
  for (;;) {
    int mine = 1;
    if (nshards > 1 && !only_key) {
      /* ownership is decided by the first three choices */
      int a = S->plen > 0 ? S->path[0] : 0, b = S->plen > 1 ? S->path[1] : 0,
        c = S->plen > 2 ? S->path[2] : 0;
      mine = ((a*7919 + b*31 + c) % nshards) == shard;
      if (!mine && S->plen >= 3) {
        S->plen = 3;
        if (!dfs_advance()) break;
        continue;
      }
    }
    S->pos = 0; S->pruned = 0; S->in_dfs = 1;
    S->key[0] = 0; S->userkey = 0;
    begin();
    if (!mine) { cur_failed = 1; S->evaluations--; }   /* width discovery only */
    if (!setjmp(prune_jmp)) body();
    if (S->pruned && mine) S->evaluations--;
    else if (mine) S->leaves++;
    if (!mine) cur_obs = 0;
    endcase();
    S->in_dfs = 0;
    if (only_key) return;
    S->plen = S->pos;
    if (!dfs_advance()) break;
  }
 done:
  S->dfs_active = 0;
  S->dfs_done = me+1;
}

void vh_key(const char *fmt, ...)
{
  va_list ap;
  va_start(ap, fmt); vsnprintf(S->key, KEYLEN, fmt, ap); va_end(ap);
  S->userkey = 1;
}

static void on_alarm(int sig)
{
  static const char m[] = "VH-TIMEOUT\n";
  (void)sig;
  if (write(2, m, sizeof(m)-1)) {}
  _exit(97);
}

static void read_tail(const char *p, long offset, char *buf, size_t n)
{
  FILE *fp = fopen(p, "r");
  char line[1024];
  size_t k = 0; int nframes = 0, on = 0;
  buf[0] = 0;
  if (!fp) return;
  fseek(fp, offset, SEEK_SET);
  while (fgets(line, sizeof(line), fp)) {
    char *q = strstr(line, "ERROR: AddressSanitizer");
    if (!q) q = strstr(line, "Assertion");
    if (!q) q = strstr(line, "runtime error");
    if (!q) q = strstr(line, "VH");
    if (q) on = 1;
    else if (on && strstr(line, "    #") && nframes < 6) { q = strstr(line, " in "); nframes++; }
    if (q && on) {
      size_t l = strcspn(q, "\n");
      if (k + l + 3 < n) { memcpy(buf+k, q, l); k += l; buf[k++] = '|'; buf[k] = 0; }
    }
  }
  fclose(fp);
}

static void crash_report(int status, long offset)
{
  char msg[3000], tail[2500];
  const char *tag = "crash";
  read_tail(errpath, offset, tail, sizeof(tail));
  if (WIFEXITED(status) && WEXITSTATUS(status) == 97) tag = "hang";
  else if (strstr(tail, "Assertion")) tag = "abort";
  else if (strstr(tail, "AddressSanitizer")) tag = "memory";
  snprintf(msg, sizeof(msg), "status=%d %s", status, tail);
  emit_fail(tag, msg);
}

/* Run the rest of the case in a process of its own:
     if (vh_fork()) { ...; vh_join(); }                                  */
int vh_fork(void)
{
  pid_t pid; int status; struct stat st; long off = 0;
  fflush(NULL);
  if (!stat(errpath, &st)) off = st.st_size;
  if ((pid = fork()) < 0) { perror("VH fork"); abort(); }
  if (!pid) { alarm(timeout_s); return 1; }
  alarm(0);
  while (waitpid(pid, &status, 0) < 0 && errno == EINTR) ;
  if (status) { if (!cur_failed) crash_report(status, off); cur_failed = 1; }
  return 0;
}
void vh_join(void) { fflush(NULL); _exit(0); }

int main(int argc, char *argv[])
{
  int i; pid_t pid; int status;
  cargc = argc; cargv = argv;
  strcpy(outpath, "/dev/stdout"); strcpy(scratch, "/tmp");
  for (i=1; i<argc; i++) {
    if (!strncmp(argv[i], "--shard=", 8)) sscanf(argv[i]+8, "%d/%d", &shard, &nshards);
    else if (!strncmp(argv[i], "--out=", 6)) snprintf(outpath, sizeof(outpath), "%s", argv[i]+6);
    else if (!strncmp(argv[i], "--scratch=", 10)) snprintf(scratch, sizeof(scratch), "%s", argv[i]+10);
    else if (!strncmp(argv[i], "--key=", 6)) only_key = argv[i]+6;
    else if (!strncmp(argv[i], "--timeout=", 10)) timeout_s = atoi(argv[i]+10);
    else if (!strcmp(argv[i], "--thorough")) thorough = 1;
    else if (!strcmp(argv[i], "--forkeach")) forkeach = 1;
  }
  if (!(out = fopen(outpath, "a"))) { perror(outpath); return 2; }
  S = mmap(NULL, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  if (S == MAP_FAILED) { perror("mmap"); return 2; }
  snprintf(errpath, sizeof(errpath), "%s.err", outpath);
  int crashes = 0;
  for (;;) {
    fflush(NULL);
    pid = fork();
    if (pid < 0) { perror("fork"); return 2; }
    if (!pid) {
      int fd = open(errpath, O_CREAT|O_TRUNC|O_WRONLY|O_APPEND, 0666);
      if (!getenv("VH_STDERR")) { dup2(fd, 2); dup2(fd, 1); }
      signal(SIGALRM, on_alarm);
      vh_setup();
      vh_explore();
      fflush(NULL);
      _exit(0);
    }
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) ;
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && !S->running) break;
    {
      if (!S->running) {
        snprintf(S->key, KEYLEN, "(outside any case)"); S->userkey = 1;
        crash_report(status, 0);
        break;
      }
      if (!cur_failed) crash_report(status, 0);
      S->running = 0;
      if (S->in_dfs) { resume_at = S->resume_at; S->in_dfs = 0; }
      else resume_at = S->cur + 1;
      if (WIFEXITED(status) && WEXITSTATUS(status) == 97) crashes += 500;
      if (++crashes > 2000) { fprintf(out, "{\"capped\": \"too many crashes\"}\n"); break; }
      if (only_key) break;
    }
  }
  { uint64_t k; int n=0;
    for (k=0; k<MAXOBS; k++) if (S->obs[k]) {
      fprintf(out, "%s\"%llx\"", n++ ? "," : "{\"obs\": [", (unsigned long long)S->obs[k]);
    }
    if (n) fprintf(out, "]}\n");
  }
  fprintf(out, "{\"stats\": {\"evaluations\": %llu, \"states\": %llu, \"transitions\": %llu, "
          "\"distinct\": %llu, \"fails\": %llu, \"leaves\": %llu}}\n",
          (unsigned long long)S->evaluations, (unsigned long long)S->states,
          (unsigned long long)S->transitions, (unsigned long long)S->ndistinct,
          (unsigned long long)S->nfail, (unsigned long long)S->leaves);
  fclose(out);
  unlink(errpath);
  return 0;
}
