/* S05: every fault of the file underneath a JSON save or load.  The library's
   fopen() is replaced by one that, for files in the scratch directory, returns
   a stream over open/read/write/close whose failures are chosen by the
   explorer: each open, each read, the close, and running out of space after
   every possible number of bytes.  Whatever the call sequence reports is then
   compared with what is really in the file. */
#include "vh.h"
#include "inst.h"
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <unistd.h>
#include "dlite-store.h"
#include "dlite-storage.h"
#include "dlite-json.h"
#include "dlite-collection.h"
#include "utils/jstore.h"
#include "utils/fileutils.h"
#define LEN(a) ((int)(sizeof(a)/sizeof(*(a))))
enum { NONE, OPEN, READ, SPACE, CLOSE, SPACE_CLOSE, NKINDS };
static const char *KN[] = {"none", "open", "read", "space", "close", "space and close"};
static struct { int kind, at, eno, nopen, nread, nclose, nwrite; long bytes; int hit, bufsz; char dir[300]; } P;
typedef struct { int fd, w; } Ck;
static ssize_t c_read(void *v, char *b, size_t n) { Ck *c = v; if (P.kind == READ && P.nread++ == P.at) { P.hit = 1; errno = P.eno; return -1; } if (P.kind != READ) P.nread++; return read(c->fd, b, n); }
static ssize_t c_write(void *v, const char *b, size_t n)
{
  Ck *c = v; size_t m = n; ssize_t r; P.nwrite++;
  if (P.kind == SPACE || P.kind == SPACE_CLOSE) { long left = P.at - P.bytes; if ((long)m > left) m = left > 0 ? left : 0; if (m < n) P.hit = 1; }
  r = m ? write(c->fd, b, m) : 0; if (r > 0) P.bytes += r;
  if (m < n) { errno = P.eno; return r > 0 ? r : 0; }
  return r;
}
static int c_seek(void *v, off64_t *o, int w) { Ck *c = v; off64_t r = lseek64(c->fd, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int c_close(void *v) { Ck *c = v; int r = close(c->fd), n = P.nclose, w = c->w; free(c); if (w) P.nclose++; if (w && P.kind == CLOSE && n == P.at) { P.hit = 1; errno = P.eno; return EOF; } if (w && P.kind == SPACE_CLOSE && P.hit) { errno = P.eno; return EOF; } return r; }
FILE *fopen(const char *path, const char *mode)
{
  static FILE *(*real)(const char *, const char *); Ck *c; FILE *f; int fl; cookie_io_functions_t io = {c_read, c_write, c_seek, c_close}; char m[4]; int k = 0; const char *q;
  if (!real) real = dlsym(RTLD_NEXT, "fopen");
  if (!*P.dir || strncmp(path, P.dir, strlen(P.dir))) return real(path, mode);
  if (P.nopen++ == P.at && P.kind == OPEN) { P.hit = 1; errno = P.eno; return NULL; }
  fl = (mode[0] == 'r' ? (strchr(mode, '+') ? O_RDWR : O_RDONLY) : (strchr(mode, '+') ? O_RDWR : O_WRONLY) | O_CREAT | (mode[0] == 'w' ? O_TRUNC : O_APPEND));
  c = calloc(1, sizeof(*c)); c->w = fl & (O_WRONLY | O_RDWR); if ((c->fd = open(path, fl, 0644)) < 0) { free(c); return NULL; }
  for (q=mode; *q; q++) if (*q != 't' && *q != 'b') m[k++] = *q; m[k] = 0;
  f = fopencookie(c, m, io); if (P.bufsz) setvbuf(f, NULL, P.bufsz == 1 ? _IONBF : _IOFBF, P.bufsz); return f;
}
FILE *fopen64(const char *p, const char *m) { return fopen(p, m); }

static DLiteMeta *M; static DLiteInstance *A, *B; static char F[400], H[300]; static char *OLD, *FULL; static long nfull;
static char *dumpi(const DLiteInstance *q) { Buf b = {0}; buf_inst(&b, q, 0); return b.p; }
static char *DA;
static char *slurp(long *n) { int fd = open(F, O_RDONLY); char *b; if (fd < 0) { *n = -1; return NULL; } b = calloc(1, 100001); *n = read(fd, b, 100000); close(fd); return b; }
static void put(const char *t) { int fd; unlink(F); if (!t) return; fd = open(F, O_WRONLY | O_CREAT | O_TRUNC, 0644); if (write(fd, t, strlen(t)) != (ssize_t)strlen(t)) abort(); close(fd); }
/* --- ways to save; each returns non-zero if any step reports failure */
static int st_save(const char *o, int n) { DLiteStorage *s = dlite_storage_open("json", F, o); int r; if (!s) return 1; r = n > 0 ? dlite_instance_save(s, A) : 0; if (n > 1) r |= dlite_instance_save(s, B); r |= dlite_storage_close(s); return r; }
static int s_w(void) { return st_save("mode=w", 1); }
static int s_w2(void) { return st_save("mode=w", 2); }
static int s_a(void) { return st_save("mode=a", 1); }
static int s_def(void) { return st_save("", 1); }
static int s_single(void) { return st_save("mode=w;single=true", 1); }
static int s_empty(void) { return st_save("mode=w", 0); }
static int s_aempty(void) { return st_save("mode=a", 0); }
static int s_loc(void) { return dlite_instance_save_loc("json", F, "mode=w", A); }
static int s_url(void) { char u[600]; snprintf(u, sizeof(u), "json://%s?mode=a", F); return dlite_instance_save_url(u, A); }
static int s_urls(void) { char u[600]; snprintf(u, sizeof(u), "json://%s?mode=w;single=true", F); return dlite_instance_save_url(u, A); }
static int s_meta(void) { char u[600]; snprintf(u, sizeof(u), "json://%s?mode=w", F); return dlite_meta_save_url(u, M); }
static int s_print(void) { return dlite_json_printfile(F, A, 0) < 0; }
static int s_fprint(void) { FILE *f = fopen(F, "w"); int r; if (!f) return 1; r = dlite_json_fprint(f, A, 2, dliteJsonSingle) < 0; if (fclose(f)) r = 1; return r; }
static int s_fprintf(void) { FILE *f = fopen(F, "w"); int r, q; if (!f) return 1; setvbuf(f, NULL, _IONBF, 0); r = dlite_json_fprint(f, A, 2, dliteJsonSingle) < 0; q = P.hit; fclose(f); return q ? r : P.hit ? 1 : r; }
static int s_jstore(void) { JStore *j = jstore_open(); int r; jstore_add(j, "k", "{\"a\": 1}"); jstore_add(j, "l", "[1, 2]"); r = jstore_to_file(j, F); jstore_close(j); return r; }
static int s_jupd(void) { JStore *j = jstore_open(); int r; jstore_add(j, "k", "{\"a\": 1}"); r = jstore_update_file(j, F); jstore_close(j); return r; }
static int s_coll(void) { DLiteCollection *c = dlite_collection_create("coll"); int r; char u[600]; snprintf(u, sizeof(u), "json://%s?mode=w", F); dlite_collection_add(c, "a", A); dlite_collection_add(c, "b", B); r = dlite_collection_save_url(c, u); dlite_collection_decref(c); return r; }
static int s_coll2(void) { DLiteCollection *c = dlite_collection_create("coll"); DLiteStorage *s; int r; dlite_collection_add(c, "a", A); s = dlite_storage_open("json", F, "mode=a"); r = !s || dlite_collection_save(c, s); if (s) r |= dlite_storage_close(s); dlite_collection_decref(c); return r; }
typedef struct { const char *n; int (*f)(void); int old; } Sv;
static const Sv SV[] = {{"w", s_w}, {"w2", s_w2}, {"w over old", s_w, 1}, {"append", s_a}, {"append to old", s_a, 1}, {"default", s_def}, {"default with old", s_def, 1}, {"single", s_single}, {"single over old", s_single, 1}, {"nothing over old", s_empty, 1}, {"nothing", s_empty}, {"nothing appended to old", s_aempty, 1}, {"save_loc", s_loc}, {"save_url", s_url, 1}, {"save_url single", s_urls}, {"meta", s_meta}, {"printfile", s_print}, {"printfile over old", s_print, 1}, {"fprint", s_fprint}, {"fprint unbuffered", s_fprintf}, {"jstore", s_jstore}, {"jstore update", s_jupd, 1}, {"collection", s_coll}, {"collection append", s_coll2, 1}};
/* --- ways to load: 0 loaded (into G), 1 error reported, 2 nothing and no error */
static DLiteInstance *G; static int L; /* for enumerating loads */
static int res(DLiteInstance *q) { G = q; return q ? 0 : err_geteval() ? 1 : 2; }
static int st_load(const char *o) { DLiteStorage *s = dlite_storage_open("json", F, o); int r; if (!s) return res(NULL); r = res(dlite_instance_load(s, A->uuid)); dlite_storage_close(s); return r; }
static int l_r(void) { return st_load("mode=r"); }
static int l_a(void) { return st_load("mode=a"); }
static int l_def(void) { return st_load(""); }
static int l_loc(void) { return res(dlite_instance_load_loc("json", F, "mode=r", A->uuid)); }
static int l_url(void) { char u[600]; snprintf(u, sizeof(u), "json://%s?mode=r#%s", F, A->uuid); return res(dlite_instance_load_url(u)); }
static int l_scanf(void) { return res(dlite_json_scanfile(F, A->uuid, NULL)); }
static int l_fscan(void) { FILE *f = fopen(F, "r"); DLiteInstance *q; if (!f) { err(1, "open"); return 1; } q = dlite_json_fscan(f, A->uuid, NULL); fclose(f); return res(q); }
static int l_get(void) { DLiteInstance *q; if (dlite_storage_paths_append(F) < 0) abort(); q = dlite_instance_get(A->uuid); if (dlite_storage_paths_remove_index(0)) abort(); return res(q); }
static int l_iter(void) { DLiteStorage *s = dlite_storage_open("json", F, "mode=r"); char b[40]; int n = 0, r; void *it; if (!s) return res(NULL); it = dlite_storage_iter_create(s, NULL); while (it && (r = dlite_storage_iter_next(s, it, b)) == 0) n++; if (it) dlite_storage_iter_free(s, it); dlite_storage_close(s); G = NULL; return n == 2 ? 0 : err_geteval() ? 1 : 2; }
static int l_check(void) { DLiteJsonFlag fl; int r = dlite_json_checkfile(F, A->uuid, &fl); G = NULL; return r == dliteJsonDataFormat ? 0 : r < 0 && err_geteval() ? 1 : 2; }
static int l_jst(void) { JStore *j = jstore_open(); int r = jstore_update_from_file(j, F), n = jstore_count(j); jstore_close(j); G = NULL; return !r && n == 2 ? 0 : r ? 1 : 2; }
static int l_read(void) { char *b = jstore_readfile(F); int ok = b && !strcmp(b, OLD); free(b); G = NULL; return ok ? 0 : b ? 2 : 1; }
static int l_fu(void) { FILE *f = fopen(F, "r"); char *b; int ok; if (!f) { G = NULL; return 1; } b = fu_readfile(f); fclose(f); ok = b && !strcmp(b, OLD); G = NULL; free(b); return ok ? 0 : b ? 2 : 1; }
typedef struct { const char *n; int (*f)(void); } Ld;
static const Ld LD[] = {{"storage r", l_r}, {"storage a", l_a}, {"storage default", l_def}, {"load_loc", l_loc}, {"load_url", l_url}, {"scanfile", l_scanf}, {"fscan", l_fscan}, {"instance_get", l_get}, {"iterate", l_iter}, {"checkfile", l_check}, {"jstore_update_from_file", l_jst}, {"jstore_readfile", l_read}, {"fu_readfile", l_fu}};
static const int BS[] = {0, 1, 64};
static void plan(int kind, int at, int eno, int bs) { P.kind = kind; P.at = at; P.eno = eno; P.bufsz = bs; P.nopen = P.nread = P.nclose = P.nwrite = P.hit = 0; P.bytes = 0; }
void vh_setup(void)
{
  DLiteDimension d = {"n", NULL}; char *sh[] = {"n"}; size_t n[1] = {2}; DLiteProperty p[] = {{"x", dliteInt, 4, NULL, 0, NULL, NULL, NULL}, {"s", dliteStringPtr, sizeof(char *), NULL, 0, NULL, NULL, NULL}, {"f", dliteFloat, 8, NULL, 1, sh, NULL, NULL}}; char t[] = "some text", *s = t; int32_t x = 42; double f[2] = {1.5, -2}; DLiteStorage *st; long l;
  dlite_add_dll_path(); err_set_stream(NULL);
  M = (DLiteMeta *)dlite_meta_create("http://vh.org/0.1/IOF", "faulty", 1, &d, 3, p); A = dlite_instance_create(M, n, "A"); B = dlite_instance_create(M, n, "B");
  dlite_instance_set_property(A, "x", &x); dlite_instance_set_property(A, "s", &s); dlite_instance_set_property(A, "f", f); dlite_instance_set_property(B, "x", &x);
  DA = dumpi(A); snprintf(F, sizeof(F), "%s/f.json", vh_scratch());
  st = dlite_storage_open("json", F, "mode=w"); dlite_instance_save(st, A); dlite_instance_save(st, B); if (dlite_storage_close(st)) abort();
  OLD = slurp(&l); snprintf(P.dir, sizeof(P.dir), "%s/", vh_scratch());
}
static void reload_ok(const char *what)
{ /* a failed operation must not spoil what comes after it */
  int r; plan(NONE, -1, 0, 0); put(NULL); err_clear(); r = s_w2(); VH_CHECK(!r, "after", "%s: saving afterwards fails: %s", what, err_getmsg()); if (!r) { long n; char *b = slurp(&n); VH_CHECK(b && !strcmp(b, OLD), "after", "%s: saving afterwards gives other content", what); free(b); } err_clear();
}
void vh_explore(void)
{
  int i, k, e, b; static const int EN[] = {EIO, ENOSPC, EMFILE, EACCES};
  for (i=0; i<LEN(SV); i++) for (b=0; b<LEN(BS); b++) {
    for (k=NONE; k<NKINDS; k++) if (vh_case("save %s buffer %d fault %s", SV[i].n, BS[b], KN[k])) {
      int at, nhit = 0, r; long n, nf; char *full, *got; const char *old = SV[i].old == 1 && SV[i].f == s_jupd ? "{\n  \"a\": 2\n}\n" : SV[i].old ? OLD : NULL;
      plan(NONE, -1, 0, BS[b]); put(old); err_clear(); r = SV[i].f(); VH_CHECK(!r, "plain", "fails without a fault: %s", err_getmsg()); full = slurp(&nf); err_clear();
      if (k == NONE) { vh_observe(full ? full : "", nf > 0 ? nf : 0); free(full); vh_end(); continue; }
      for (at=0; !vh_failed(); at++) { int any = 0;
        for (e=0; e<LEN(EN) && !vh_failed(); e++) { if (e >= 2 && k != OPEN) break; if (k >= SPACE && e == 0 && at % 16) continue;
          plan(k, at, EN[e], BS[b]); put(old); err_clear(); snprintf(H, sizeof(H), "%s %d fails with %s", KN[k], at, strerror(EN[e]));
          r = SV[i].f(); got = slurp(&n); any |= P.hit; { /* mode w discards: an empty store is as good as no file, and may replace the old content also when the save failed */ int empty = got && !strcmp(got, "{\n}\n"), w = SV[i].f == s_single || SV[i].f == s_w || SV[i].f == s_empty || SV[i].f == s_urls || SV[i].f == s_meta; if (P.hit && k == OPEN && empty && ((!r && nf < 0) || (r && w))) { free(got); nhit++; continue; } } vh_count_transitions(1);
          if (P.hit) { nhit++; if (!r) { VH_CHECK(n == nf && (n < 0 || !memcmp(got, full, n)), "lost", "%s: success is reported, but the file has %ld bytes of %ld", H, n, nf); if (k != READ && k != OPEN) vh_fail("unreported", "%s: success is reported", H); }
            if (r && (k == READ || k == OPEN) && old && n >= 0 && strcmp(got, old) && strcmp(got, full ? full : "") && n > 0) vh_fail("damaged", "%s: error is reported, but the file was overwritten with %ld other bytes", H, n); 
            if (k == READ && old && n != (long)strlen(old) && !(n == nf && !memcmp(got, full, n))) vh_fail("damaged", "%s: %ld bytes of the old %ld are left", H, n, (long)strlen(old)); }
          else VH_CHECK(!r && n == nf && (n < 0 || !memcmp(got, full, n)), "nofault", "%s: not reached, but %d is returned (%s)", H, r, err_getmsg());
          free(got); if (P.hit && at % 7 == 0) reload_ok(H); }
        if (!any && !(k >= SPACE && (at % 16) == 1 && 0)) break; }
      VH_CHECK(vh_failed() || nhit || (k == READ && !strstr(SV[i].n, "old") && !SV[i].old) || nf < 0 || k == READ || SV[i].f == s_aempty, "vacuous", "no fault reached");
      reload_ok("after all"); vh_observef("%d faults, %ld bytes", nhit, nf); free(full); vh_end();
    }
  }
  for (i=0; i<LEN(LD); i++) for (b=0; b<LEN(BS); b++) for (k=NONE; k<=READ; k++) if (vh_case("load %s buffer %d fault %s", LD[i].n, BS[b], KN[k])) {
    int at, nhit = 0, r, gone; DLiteInstance *q = A; long n; char *got; int heap0;
    plan(NONE, -1, 0, 0); put(OLD); dlite_instance_decref(A); (void)q; gone = 1; { static DLiteInstance fake; dlite_get_uuid(fake.uuid, "A"); A = &fake; }
    for (at=-1; !vh_failed() && gone; at++) { int any = 0;
      for (e=0; e<LEN(EN) && !vh_failed(); e++) { if (e && k != OPEN) break; if (e == 1) continue;
        if (k == NONE && at >= 0) break;
        plan(at < 0 ? NONE : k, at, EN[e], BS[b]); err_clear(); snprintf(H, sizeof(H), "%s %d fails with %s", KN[P.kind], at, strerror(EN[e])); G = NULL;
        r = LD[i].f(); any |= P.hit; nhit += P.hit; vh_count_transitions(1);
        if (!P.hit) VH_CHECK(r == 0, "nofault", "%s: not reached, but not loaded (%d): %s", H, r, err_getmsg());
        VH_CHECK(r != 2, "unreported", "%s: no error", H);
        if (G) { char *t = dumpi(G); VH_CHECK(!strcmp(t, DA), "value", "%s: %s", H, bufdiff(t, DA)); free(t); VH_CHECK(G->_refcount == 1, "refs", "%s: %d references", H, G->_refcount); dlite_instance_decref(G); }
        got = slurp(&n); VH_CHECK(got && !strcmp(got, OLD), "written", "%s: loading changed the file", H); free(got); err_clear(); }
      if (at >= 0 && !any) break; }
    VH_CHECK(vh_failed() || k == NONE || nhit, "vacuous", "no fault reached");
    plan(NONE, -1, 0, 0); A = vh_failed() ? NULL : dlite_json_scanfile(F, "A", NULL); if (!vh_failed()) { char *t; VH_CHECK(A != NULL, "after", "%s", err_getmsg()); if (A) { t = dumpi(A); VH_CHECK(!strcmp(t, DA), "after", "%s", bufdiff(t, DA)); free(t); } }
    vh_observef("%d", nhit); vh_end();
  }
}
