/* S04: files as maps.  A session is an open mode plus a sequence of saves;
   every session is run from every reachable state of the file (which
   instances it contains, how each was written, single or multi-entity
   layout), and what the storage then contains is compared with a map from
   uuid to the last value saved.  --part=1 JSON, 2 HDF5. */
#include "vh.h"
#include "inst.h"
#include <unistd.h>
#include <sys/stat.h>
#include "dlite-store.h"
#include "dlite-storage.h"
#include "dlite-storage-plugins.h"
#define LEN(a) ((int)(sizeof(a)/sizeof(*(a))))
enum { A, B, C, E, NI };
static const char *ID[NI] = {"http://vh.org/A#1", "12345678-aaaa-4bbb-8ccc-0123456789ab", "c", "http://vh.org/0.1/Saved"};
static char UU[NI][40], F[500], H[900]; static DLiteMeta *M[2]; static int part, NIN = NI;
typedef struct { const char *o; char m; int single, key; } Mode;   /* single: -1 not given */
static const Mode JM[] = {{"mode=r", 'r', -1, 0}, {"mode=w", 'w', -1, 0}, {"mode=a", 'a', -1, 0}, {"", 'd', -1, 0}, {"mode=w;single=true", 'w', 1, 0}, {"mode=w;single=false", 'w', 0, 0}, {"mode=w;uri-key=true", 'w', -1, 1}, {"mode=a;uri-key=true;with-uuid=true", 'a', -1, 1}, {"mode=a;arrays=true", 'a', -1, 0}, {"mode=a;single=true", 'x', 1, 0}, {"mode=q", 'x', 0, 0}, {"with-meta=true", 'd', -1, 0}};
static const Mode HM[] = {{"mode=r", 'r', 0, 0}, {"mode=w", 'w', 0, 0}, {"mode=append", 'a', 0, 0}, {"", 'a', 0, 0}, {"mode=rw", 'u', 0, 0}, {"mode=q", 'x', 0, 0}};
static const Mode *MD; static int nmd; static const char *DRV;
typedef struct { signed char exists, single, has[NI], key[NI]; int v[NI]; } S;
typedef struct { int m, n; signed char s[4]; } Sess;
static DLiteInstance *mkobj(int i, int v)
{
  if (i == E) { DLiteProperty p = {"q", dliteInt, 8, NULL, 0, NULL, "m", NULL}; return (DLiteInstance *)dlite_meta_create(ID[E], "saved metadata", 0, NULL, 1, &p); }
  { size_t d[1] = {v % 3}; DLiteInstance *q = dlite_instance_create(M[i == C], d, ID[i]); int32_t x = v; char t[30], *s = t; sprintf(t, "value %d", v); if (!q) return NULL; dlite_instance_set_property(q, "x", &x); dlite_instance_set_property(q, "s", &s); if (v % 3) { double f[2] = {v, -v}; dlite_instance_set_property(q, "f", f); } return q; }
}
static void dropobj(int i, DLiteInstance *q) { if (i == E) { VH_CHECK(drop_meta((DLiteMeta *)q) == 2, "refs", "%s: metadata has other references", H); } else { VH_CHECK(q->_refcount == 1, "refs", "%s: %d references", H, q->_refcount); dlite_instance_decref(q); } }
static int isobj(int i, int v, const DLiteInstance *q)
{
  if (strcmp(q->uuid, UU[i])) return 0;
  if (i == E) return !strcmp(q->uri, ID[E]) && ((DLiteMeta *)q)->_nproperties == 1 && !strcmp(((DLiteMeta *)q)->_properties[0].name, "q");
  { char t[30]; sprintf(t, "value %d", v); return q->meta == (void *)M[i == C] && *(int32_t *)dlite_instance_get_property(q, "x") == v && dlite_instance_get_dimension_size(q, "n") == v % 3 && *(char **)dlite_instance_get_property(q, "s") && !strcmp(*(char **)dlite_instance_get_property(q, "s"), t) && (v % 3 == 0 || ((double *)dlite_instance_get_property(q, "f"))[0] == v); }
}
static char *slurp(long *n) { FILE *f = fopen(F, "r"); char *b; if (!f) { *n = -1; return NULL; } b = malloc(200000); *n = fread(b, 1, 200000, f); fclose(f); return b; }
/* what an open storage shows */
static void look(DLiteStorage *s, const S *st, const char *when)
{
  int i, k, form; char seen[NI]; char buf[DLITE_UUID_LENGTH+1]; void *it; const char *pat[] = {NULL, M[0]->uri, M[1]->uri, DLITE_ENTITY_SCHEMA, "http://vh.org/0.1/None", "*", "http://vh.org/0.1/*", "*/[^O]*", "http://vh.org/0.1/T?o", "One"}; char **u;
  for (k=0; k<LEN(pat); k++) {
    char want[NI] = {0}; int r, extra = 0, dup = 0; memset(seen, 0, sizeof(seen));
    for (i=0; i<NI; i++) want[i] = st->has[i] && (k == 0 || (k == 1 && i <= B) || (k == 2 && i == C) || (k == 3 && i == E) || k == 5 || (k == 6 && i != E) || (k == 7) || (k == 8 && i == C));
    err_clear();
    if (part == 1) {
      it = dlite_storage_iter_create(s, pat[k]); if (!it) { vh_fail("iterate", "%s (%s): %s", H, when, err_getmsg()); return; }
      while ((r = dlite_storage_iter_next(s, it, buf)) == 0) { for (i=0; i<NI; i++) if (!strcmp(buf, UU[i])) break; if (i == NI) extra++; else if (seen[i]++) dup++; if (extra + dup > 20) break; }
      if (r < 0) vh_fail("iterate", "%s (%s): %s", H, when, err_getmsg());
      dlite_storage_iter_free(s, it);
      if (extra || dup || memcmp(!extra && !dup ? seen : (char *)"", want, extra || dup ? 0 : sizeof(want))) vh_fail("iterate", "%s (%s): iterating with pattern %s gives %d%d%d%d and %d others instead of %d%d%d%d", H, when, pat[k] ? pat[k] : "none", seen[0], seen[1], seen[2], seen[3], extra, want[0], want[1], want[2], want[3]);
    }
    memset(seen, 0, sizeof(seen)); extra = 0; u = dlite_storage_uuids(s, pat[k]);
    if (u) { char **q; for (q=u; *q; q++) { for (i=0; i<NI; i++) if (!strcmp(*q, UU[i])) break; if (i == NI) extra++; else seen[i]++; } dlite_storage_uuids_free(u); }
    if (extra || memcmp(seen, want, sizeof(seen))) vh_fail("list", "%s (%s): listing with pattern %s gives %d%d%d%d and %d others instead of %d%d%d%d %s", H, when, pat[k] ? pat[k] : "none", seen[0], seen[1], seen[2], seen[3], extra, want[0], want[1], want[2], want[3], err_getmsg());
  }
  for (i=0; i<NIN; i++) for (form=0; form<2; form++) {
    DLiteInstance *q; err_clear(); q = dlite_instance_load(s, form ? ID[i] : UU[i]);
    if (!st->has[i]) { if (q) { vh_fail("load", "%s (%s): %s is loaded, but was not saved", H, when, ID[i]); return; } VH_CHECK(err_geteval(), "load", "%s (%s): no error for %s", H, when, ID[i]); }
    else if (!q) vh_fail("load", "%s (%s): %s by %s: %s", H, when, ID[i], form ? "id" : "uuid", err_getmsg());
    else { if (!isobj(i, st->v[i], q)) { Buf b = {0}; if (i == E) buf_meta(&b, (DLiteMeta *)q); else buf_inst(&b, q, 0); vh_fail("value", "%s (%s): %s is not what was saved last (%d): %.300s", H, when, ID[i], st->v[i], b.p); free(b.p); } if (!vh_failed()) dropobj(i, q); }
  }
  if (part == 1) { int n = 0, which = 0; DLiteInstance *q; for (i=0; i<NI; i++) if (st->has[i]) { n++; which = i; } err_clear(); q = dlite_instance_load(s, NULL);
    if (n == 1) { if (!q) vh_fail("only", "%s (%s): the only instance is not loaded without id: %s", H, when, err_getmsg()); else if (!isobj(which, st->v[which], q)) vh_fail("only", "%s (%s): without id, another instance is loaded", H, when); else dropobj(which, q); }
    else VH_CHECK(!q && err_geteval(), "only", "%s (%s): an instance is loaded without id", H, when); }
  err_clear();
}
/* one session on the real file and on the map; returns 0 if it cannot be opened */
static void session(S *st, const Sess *q, int *ctr)
{
  const Mode *m = &MD[q->m]; char mode = m->m; DLiteStorage *s; long n0, n1; char *b0 = slurp(&n0), *b1; int k, saved = 0, direct = 0, ok, may; S before = *st;
  (void)may;
  if (mode == 'd') mode = !st->exists ? 'w' : st->single ? 'r' : 'a';
  ok = mode != 'x' && !((mode == 'r' || mode == 'u') && !st->exists);
  err_clear(); s = dlite_storage_open(DRV, F, m->o);
  VH_CHECK(!!s == ok, "open", "%s: open %s: %s", H, s ? "succeeds" : "fails", err_getmsg()); if (!s) VH_CHECK(err_geteval(), "open", "%s: no error", H);
  if (!s || !ok) { if (s) dlite_storage_close(s); goto end; }
  VH_CHECK(!!dlite_storage_is_writable(s) == (mode != 'r'), "writable", "%s: is_writable", H);
  if (mode == 'w') { memset(st, 0, sizeof(*st)); st->single = m->single == 1; }
  st->exists = 1;
  if (mode == 'r' || mode == 'a' || mode == 'u') look(s, st, "opened");
  for (k=0; k<q->n && !vh_failed(); k++) {
    int i = q->s[k], v = ++*ctr, r, bad, sg; DLiteInstance *o = mkobj(i, v); err_clear();
    if (!o) { vh_fail("create", "%s: %s", H, err_getmsg()); break; }
    r = dlite_instance_save(s, o);
    /* single-entity layout takes one instance, and then no other */
    sg = part == 1 && mode == 'w' && !direct && (m->single == 1 || (m->single == -1 && !saved && i == E));
    bad = mode == 'r' || direct;
    VH_CHECK(!!r == !!bad, "save", "%s: save %d returns %d: %s", H, k, r, err_getmsg()); if (bad) VH_CHECK(err_geteval(), "save", "%s: no error", H);
    if (!bad) { st->has[i] = 1; st->v[i] = v; st->key[i] = m->key; saved++; st->single = sg; if (sg) direct = 1; if (mode == 'a') st->single = 0; }
    dropobj(i, o);
    if (!vh_failed() && (mode == 'r' || mode == 'a' || mode == 'u')) look(s, st, "after save");
  }
  { int r = dlite_storage_delete(s, UU[A]); VH_CHECK(r && err_geteval(), "delete", "%s: not supported, but returns %d", H, r); err_clear(); }
  k = dlite_storage_close(s); VH_CHECK(!k, "close", "%s: close: %s", H, err_getmsg());
 end:
  b1 = slurp(&n1);
  if (mode == 'r' || !ok) { VH_CHECK(n0 == n1 && (n0 < 0 || !memcmp(b0, b1, n0)), "readonly", "%s: the file was changed", H); *st = before; }
  free(b0); free(b1);
  if (st->exists && !vh_failed() && access(F, F_OK) == 0) { s = dlite_storage_open(DRV, F, "mode=r"); if (!s) vh_fail("reopen", "%s: %s", H, err_getmsg()); else { look(s, st, "reopened"); dlite_storage_close(s); } }
  else if (!vh_failed() && st->exists) { int any = 0; for (k=0; k<NI; k++) any |= st->has[k]; VH_CHECK(!any && (mode == 'a' || (mode == 'w' && !before.exists)), "missing", "%s: no file", H); st->exists = 0; }
  else VH_CHECK(vh_failed() || access(F, F_OK), "exists", "%s: a file appeared", H);
  err_clear();
}
static int same(const S *a, const S *b) { return a->exists == b->exists && a->single == b->single && !memcmp(a->has, b->has, NI) && !memcmp(a->key, b->key, NI); }
typedef struct { S s; int from, depth; Sess q; } Node;
static void name(const Sess *q) { int k; snprintf(H + strlen(H), sizeof(H) - strlen(H), "%s[%s", *H ? " " : "", MD[q->m].o); for (k=0; k<q->n; k++) snprintf(H + strlen(H), sizeof(H) - strlen(H), " save %s", q->s[k] == A ? "A" : q->s[k] == B ? "B" : q->s[k] == C ? "C" : "E"); strcat(H, "]"); }
/* abstract successor */
static void msucc(S *s, const Sess *q)
{
  const Mode *m = &MD[q->m]; char mode = m->m; int k, direct = 0, saved = 0;
  if (mode == 'd') mode = !s->exists ? 'w' : s->single ? 'r' : 'a';
  if (mode == 'x' || mode == 'r' || (mode == 'u' && !s->exists)) return;
  if (!s->exists && !q->n && part == 1) return;
  if (mode == 'w') memset(s, 0, sizeof(*s));
  s->exists = 1;
  for (k=0; k<q->n && !direct; k++) { int i = q->s[k]; s->has[i] = 1; s->key[i] = m->key; s->single = 0; if (part == 1 && mode == 'w' && (m->single == 1 || (m->single == -1 && !saved && i == E))) s->single = direct = 1; saved++; }
}
void vh_setup(void)
{
  DLiteDimension d = {"n", NULL}; char *sh[] = {"n"}; DLiteProperty p[] = {{"x", dliteInt, 4, NULL, 0, NULL, NULL, NULL}, {"s", dliteStringPtr, sizeof(char *), NULL, 0, NULL, NULL, NULL}, {"f", dliteFloat, 8, NULL, 1, sh, NULL, NULL}}; int i;
  part = vh_arg("part", 1); dlite_init(); err_set_stream(NULL); DRV = part == 1 ? "json" : "hdf5"; MD = part == 1 ? JM : HM; nmd = part == 1 ? LEN(JM) : LEN(HM); if (part == 2) NIN = E;
  snprintf(F, sizeof(F), "%s/st%d.%s", vh_scratch(), (int)getpid(), part == 1 ? "json" : "h5");
  M[0] = dlite_meta_create("http://vh.org/0.1/One", "d", 1, &d, 3, p); M[1] = dlite_meta_create("http://vh.org/0.1/Two", "d", 1, &d, 3, p);
  for (i=0; i<NI; i++) dlite_get_uuid(UU[i], ID[i]);
  warn("x"); err_clear();
}
void vh_explore(void)
{
  static Node N[3000]; static Sess Q[8000]; int nq = 0, nn = 1, k, j, a, n, maxs = vh_arg("saves", 2), base[4];
  for (j=0; j<nmd; j++) for (n=0; n<=maxs; n++) { memset(base, 0, sizeof(base)); for (;;) { Q[nq].m = j; Q[nq].n = n; for (a=0; a<n; a++) Q[nq].s[a] = base[a]; nq++; for (a=n-1; a>=0; a--) { if (++base[a] < NIN) break; base[a] = 0; } if (a < 0) break; } }
  memset(N, 0, sizeof(N)); N[0].from = -1;
  for (k=0; k<nn; k++) for (j=0; j<nq; j++) { S s = N[k].s; msucc(&s, &Q[j]); for (a=0; a<nn; a++) if (same(&N[a].s, &s)) break; if (a == nn && nn < LEN(N)) { N[nn].s = s; N[nn].from = k; N[nn].depth = N[k].depth+1; N[nn].q = Q[j]; nn++; } }
  vh_count_states(nn);
  for (k=0; k<nn; k++) for (a=0; a<nmd; a++) {
    Sess path[20]; int d = N[k].depth, q = k, i;
    for (i=d-1; i>=0; i--) { path[i] = N[q].q; q = N[q].from; }
    if (vh_case("state %d mode %s", k, MD[a].o)) {
      long cnt = 0;
      for (j=0; j<nq && !vh_failed(); j++) if (Q[j].m == a) {
        S s; int ctr = 0; memset(&s, 0, sizeof(s)); *H = 0; unlink(F);
        for (i=0; i<d && !vh_failed(); i++) { name(&path[i]); session(&s, &path[i], &ctr); }
        if (!vh_failed()) { S w = N[k].s; if (!same(&s, &w)) vh_fail("model", "%s: another state is reached", H); name(&Q[j]); session(&s, &Q[j], &ctr); cnt++; }
      }
      unlink(F); vh_count_transitions(cnt); vh_observef("%d %d", k, a); vh_end();
    }
  }
}
