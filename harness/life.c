/* I02: lifetime of instances.  All states of a reference-counting model that
   can be reached with a bounded number of operations are enumerated breadth
   first; in each one every operation is run on the real library, after
   replaying the shortest history leading there. */
#include "vh.h"
#include "inst.h"
#include <unistd.h>
#include "dlite-store.h"
#include "dlite-storage.h"
#include "dlite-json.h"
#define LEN(a) ((int)(sizeof(a)/sizeof(*(a))))
#define URI "http://onto-ns.com/meta/0.1/"
char **dlite_istore_get_uuids(int *n);
enum { A, B, C, D, NO };                       /* D is made by copying A */
static const char *ID[NO] = {"inst-a", "inst-b", "12345678-0000-4000-8000-0123456789ab", "inst-d"};
static char UU[NO][DLITE_UUID_LENGTH+1], FILE_[300];
typedef struct { signed char rc[NO], h[NO], st[NO], x[NO], r[NO], rs[NO][2], mh[2]; } S;  /* r, rs: -1 or object */
static const size_t DM[1] = {2};
static int HC = 2;                                  /* cap on handles */
enum { CREATE, CREATE_DIM, CREATE_META, CREATE_NEG, GET, GETUU, GETC, HAS, INC, DEC, SETX, SETR, SETRS, COPY, ADD, ADDNEW, POP, POPALL, REMOVE, SGET, SFREE, LOAD, LOADURL, LOADNONE, MCREATE, MGET, MDEC, FROMID, MWRONG, LOADST, PULL, SCANBAD, SCANBAD2, NEGSCAN };
static const char *ON[] = {"create", "create other size", "create other metadata", "create negative", "get", "get by uuid", "get casted", "has", "incref", "decref", "set x", "set r", "set rs", "copy", "store add", "store add_new", "store pop", "store pop_all", "store remove", "store get", "store free", "load", "load url", "load missing", "meta create", "meta get", "meta decref", "create from metadata id", "meta create other", "load from open storage", "storage load", "scan invalid", "scan invalid list", "scan negative"};
typedef struct { signed char op, o, a, b; } Op;
static Op OPS[200]; static int nops;
static void add(int op, int o, int a, int b) { OPS[nops++] = (Op){op, o, a, b}; }
static void mkops(void)
{
  int o, k; static const int RS[][2] = {{A,B},{B,B},{-1,B},{-1,-1},{A,D}};
  for (o=0; o<NO; o++) {
    if (o != D) { add(CREATE,o,0,0); add(CREATE_DIM,o,0,0); add(CREATE_META,o,0,0); add(CREATE_NEG,o,0,0); add(FROMID,o,0,0); }
    add(GET,o,0,0); add(GETUU,o,0,0); add(GETC,o,0,0); add(HAS,o,0,0); add(INC,o,0,0); add(DEC,o,0,0); add(SETX,o,0,0);
    add(ADD,o,0,0); add(ADDNEW,o,0,0); add(POP,o,0,0); add(POPALL,o,0,0); add(REMOVE,o,0,0); add(SGET,o,0,0);
  }
  for (k=-1; k<NO; k++) if (k != C) { add(SETR,A,k,0); add(SETR,B,k,0); if (k == -1 || k == D) add(SETR,D,k,0); }
  for (k=0; k<LEN(RS); k++) add(SETRS,A,RS[k][0],RS[k][1]);
  add(SETRS,D,-1,-1); add(COPY,D,A,0); add(SFREE,0,0,0);
  add(LOAD,C,0,0); add(LOADURL,C,0,0); add(LOADNONE,C,0,0); add(LOADST,C,0,0); add(SCANBAD,C,0,0); add(SCANBAD2,C,0,0); add(NEGSCAN,A,0,0);
  for (k=0; k<2; k++) { add(MCREATE,0,k,0); add(MGET,0,k,0); add(MDEC,0,k,0); add(MWRONG,0,k,0); }
}
/* ------------------------------------------------------------------ model */
static void drop(S *s, int o)
{
  if (o < 0) return;
  if (--s->rc[o]) return;
  { int r = s->r[o], a = s->rs[o][0], b = s->rs[o][1]; s->r[o] = s->rs[o][0] = s->rs[o][1] = -1; s->x[o] = 0; drop(s, r); drop(s, a); drop(s, b); }
}
static void take(S *s, int o) { if (o >= 0) s->rc[o]++; }
/* returns 0 if the operation is outside the bound, 1 ok, 2 refused */
static int model(S *s, Op p)
{
  int o = p.o, live = s->rc[o] > 0, i;
  switch (p.op) {
  case CREATE: case FROMID: if (s->h[o] >= HC) return 0; s->rc[o]++; s->h[o]++; return 1;
  case CREATE_DIM: return live && o != C ? 2 : 0;
  case CREATE_META: return live ? 2 : 0;
  case CREATE_NEG: return !live && o != C ? 2 : 0;
  case GET: case GETUU: case GETC: if (!live && o != C) return 2; if (s->h[o] >= HC) return 0; if (!live) s->x[o] = 2; /* from the open storage */ s->rc[o]++; s->h[o]++; return 1;
  case HAS: return live ? 1 : 2;
  case INC: if (!s->h[o] || s->h[o] >= HC) return 0; s->rc[o]++; s->h[o]++; return 1;
  case DEC: if (!s->h[o]) return 0; s->h[o]--; drop(s, o); return 1;
  case SETX: if (!s->h[o] || s->x[o] == 1) return 0; s->x[o] = 1; return 1;
  case SETR: if (!s->h[o] || (p.a >= 0 && !s->rc[(int)p.a])) return 0; i = s->r[o]; take(s, p.a); s->r[o] = p.a; drop(s, i); return 1;
  case SETRS: if (!s->h[o] || (p.a >= 0 && !s->rc[(int)p.a]) || (p.b >= 0 && !s->rc[(int)p.b])) return 0;
    { int q = s->rs[o][0], r = s->rs[o][1]; take(s, p.a); take(s, p.b); s->rs[o][0] = p.a; s->rs[o][1] = p.b; drop(s, q); drop(s, r); } return 1;
  case COPY: if (live || !s->h[(int)p.a]) return 0; s->rc[o] = s->h[o] = 1; s->x[o] = s->x[(int)p.a]; s->r[o] = s->r[(int)p.a]; memcpy(s->rs[o], s->rs[(int)p.a], 2); take(s, s->r[o]); take(s, s->rs[o][0]); take(s, s->rs[o][1]); return 1;
  case ADD: if (!live || s->st[o] >= 2) return 0; s->st[o]++; s->rc[o]++; return 1;
  case ADDNEW: if (!s->h[o] || s->st[o] >= 2) return 0; s->st[o]++; s->h[o]--; return 1;
  case POP: if (!s->st[o]) return 2; if (s->h[o] >= HC) return 0; s->st[o]--; s->h[o]++; return 1;
  case POPALL: if (!s->st[o]) return 2; if (s->h[o] >= HC) return 0; i = s->st[o]; s->st[o] = 0; s->h[o]++; s->rc[o] -= i-1; return 1;
  case REMOVE: if (!s->st[o]) return 2; s->st[o]--; drop(s, o); return 1;
  case SGET: return s->st[o] ? 1 : 2;
  case SFREE: for (i=0; i<NO; i++) while (s->st[i]) { s->st[i]--; drop(s, i); } return 1;
  case LOAD: case LOADURL: case LOADST: if (s->h[o] >= HC) return 0; if (!live) s->x[o] = 2; s->rc[o]++; s->h[o]++; return 1;
  case LOADNONE: return 2;
  case MCREATE: case MGET: if (s->mh[(int)p.a] >= HC) return 0; s->mh[(int)p.a]++; return 1;
  case MDEC: if (!s->mh[(int)p.a]) return 0; s->mh[(int)p.a]--; return 1;
  case SCANBAD2: case NEGSCAN: if (!live) return 2; if (s->h[o] >= HC) return 0; s->rc[o]++; s->h[o]++; return 1;
  case MWRONG: case SCANBAD: return 2;
  }
  return 0;
}
/* ------------------------------------------------------------------ real */
static DLiteMeta *M[2], *OTHER; static DLiteStore *ST; static DLiteStorage *SG; static DLiteInstance *P[NO];
static int mdecs(int k, DLiteMeta **m)
{
  DLiteDimension d = {"n", NULL}; char *sh[] = {"n"}; DLiteProperty p[] = {{"x", dliteInt, 4, NULL, 0, NULL, NULL, NULL}, {"r", dliteRef, sizeof(void *), URI "Life0", 0, NULL, NULL, NULL}, {"rs", dliteRef, sizeof(void *), URI "Life0", 1, sh, NULL, NULL}};
  *m = k ? dlite_meta_create(URI "Life1", "d", 0, NULL, 1, p) : dlite_meta_create(URI "Life0", "d", 1, &d, 3, p);
  return !*m;
}
static int rc_of(DLiteInstance *i) { int n = dlite_instance_incref(i) - 1; if (dlite_instance_decref(i) != n) return -1; return n; }
static const DLiteMeta *meta_of(int o) { return M[o == C]; }
static int real(Op p, DLiteInstance **got)
{
  int o = p.o; const DLiteMeta *m = meta_of(o); DLiteInstance *i = NULL; *got = NULL; err_clear();
  switch (p.op) {
  case CREATE: *got = i = dlite_instance_create(m, o == C ? NULL : DM, ID[o]); return i ? 1 : 2;
  case FROMID: *got = i = dlite_instance_create_from_id(m->uri, o == C ? NULL : DM, ID[o]); return i ? 1 : 2;
  case CREATE_DIM: { size_t d[1] = {3}; *got = dlite_instance_create(m, d, ID[o]); } return *got ? 1 : 2;
  case CREATE_META: *got = dlite_instance_create(OTHER, NULL, ID[o]); return *got ? 1 : 2;
  case CREATE_NEG: { size_t d[1] = {(size_t)-2}; *got = dlite_instance_create(m, d, ID[o]); } return *got ? 1 : 2;
  case GET: *got = dlite_instance_get(ID[o]); return *got ? 1 : 2;
  case GETUU: *got = dlite_instance_get(UU[o]); return *got ? 1 : 2;
  case GETC: *got = dlite_instance_get_casted(ID[o], NULL); return *got ? 1 : 2;
  case HAS: *got = dlite_instance_has(ID[o], 0); return *got ? 1 : 2;
  case INC: dlite_instance_incref(P[o]); return 1;
  case DEC: dlite_instance_decref(P[o]); return 1;
  case SETX: { int32_t x = 1; return dlite_instance_set_property(P[o], "x", &x) ? 2 : 1; }
  case SETR: { DLiteInstance *t = p.a < 0 ? NULL : dlite_instance_has(ID[(int)p.a], 0); return dlite_instance_set_property(P[o], "r", &t) ? 2 : 1; }
  case SETRS: { DLiteInstance *t[2]; t[0] = p.a < 0 ? NULL : dlite_instance_has(ID[(int)p.a], 0); t[1] = p.b < 0 ? NULL : dlite_instance_has(ID[(int)p.b], 0); return dlite_instance_set_property(P[o], "rs", t) ? 2 : 1; }
  case COPY: *got = dlite_instance_copy(P[(int)p.a], ID[o]); return *got ? 1 : 2;
  case ADD: return dlite_store_add(ST, dlite_instance_has(ID[o], 0)) ? 2 : 1;
  case ADDNEW: return dlite_store_add_new(ST, P[o]) ? 2 : 1;
  case POP: *got = dlite_store_pop(ST, ID[o]); return *got ? 1 : 2;
  case POPALL: *got = dlite_store_pop_all(ST, UU[o]); return *got ? 1 : 2;
  case REMOVE: return dlite_store_remove(ST, ID[o]) ? 2 : 1;
  case SGET: *got = dlite_store_get(ST, ID[o]); return *got ? 1 : 2;
  case SFREE: dlite_store_free(ST); return (ST = dlite_store_create()) ? 1 : 2;
  case LOAD: *got = dlite_instance_load_loc("json", FILE_, "mode=r", ID[o]); return *got ? 1 : 2;
  case LOADURL: { char u[400]; sprintf(u, "json://%s?mode=r#%s", FILE_, UU[o]); *got = dlite_instance_load_url(u); return *got ? 1 : 2; }
  case LOADST: *got = dlite_instance_load(SG, ID[o]); return *got ? 1 : 2;
  case SCANBAD: *got = dlite_json_sscan("{\"uuid\": \"12345678-0000-4000-8000-0123456789ab\", \"meta\": \"" URI "Life1\", \"dimensions\": {}, \"properties\": {}}", NULL, NULL); return *got ? 1 : 2;
  case SCANBAD2: *got = dlite_json_sscan("{\"12345678-0000-4000-8000-0123456789ab\": {\"meta\": \"" URI "Life1\", \"dimensions\": {}, \"properties\": {\"x\": \"one\"}}}", ID[C], NULL); return *got ? 1 : 2;
  case NEGSCAN: *got = dlite_json_sscan("{\"inst-a\": {\"meta\": \"" URI "Life0\", \"dimensions\": {\"n\": -3}, \"properties\": {\"x\": 1}}}", ID[A], NULL); return *got ? 1 : 2;
  case LOADNONE: *got = dlite_instance_load_loc("json", FILE_, "mode=r", "not-there"); return *got ? 1 : 2;
  case MCREATE: { DLiteMeta *t; if (mdecs(p.a, &t)) return 2; return t == M[(int)p.a] ? 1 : 3; }
  case MGET: { DLiteMeta *t = dlite_meta_get(p.a ? M[1]->uuid : URI "Life0"); return !t ? 2 : t == M[(int)p.a] ? 1 : 3; }
  case MDEC: dlite_meta_decref(M[(int)p.a]); return 1;
  case MWRONG: { DLiteProperty q[] = {{"x", dliteInt, 4, NULL, 0, NULL, NULL, NULL}, {"y", dliteInt, 4, NULL, 0, NULL, NULL, NULL}}; DLiteMeta *t = dlite_meta_create(p.a ? URI "Life1" : URI "Life0", "d", 0, NULL, 2, q); return t ? 3 : 2; }
  }
  return 0;
}
static char H[1200];
static void name(Op p) { char *z = H + strlen(H); if (z - H > 1000) return; sprintf(z, "%s%s", *H ? ", " : "", ON[(int)p.op]); z += strlen(z); if (p.op >= MCREATE && p.op != FROMID && p.op < LOADST) sprintf(z, " %d", p.a); else if (p.op == SETR) sprintf(z, " %c %c", 'a'+p.o, p.a < 0 ? '-' : 'a'+p.a); else if (p.op == SETRS) sprintf(z, " %c %c%c", 'a'+p.o, p.a < 0 ? '-' : 'a'+p.a, p.b < 0 ? '-' : 'a'+p.b); else if (p.op != SFREE) sprintf(z, " %c", 'a'+p.o); }
static void check(const S *s)
{
  int o, n = 0, nu, found = 0, k; char **u;
  for (o=0; o<NO; o++) {
    DLiteInstance *i = dlite_instance_has(ID[o], 0), *j = dlite_instance_has(UU[o], 0); int32_t x; DLiteInstance **r;
    if (!!i != (s->rc[o] > 0)) { vh_fail("alive", "%s: '%s' is %s, expected %s", H, ID[o], i ? "found" : "gone", s->rc[o] ? "alive" : "released"); return; }
    if (i != j) { vh_fail("lookup", "%s: lookups of '%s' by id and uuid differ", H, ID[o]); return; }
    if (!i) continue;
    n++;
    if (P[o] && i != P[o]) { vh_fail("lookup", "%s: '%s' is another instance", H, ID[o]); return; }
    P[o] = i;
    if (strcmp(i->uuid, UU[o]) || (o != C ? !i->uri || strcmp(i->uri, ID[o]) : 0) || i->meta != meta_of(o)) { vh_fail("identity", "%s: '%s' has uuid %s uri %s metadata %s", H, ID[o], i->uuid, i->uri, i->meta->uri); return; }
    if ((k = rc_of(i)) != s->rc[o]) { vh_fail("refcount", "%s: '%s' has %d references, expected %d", H, ID[o], k, s->rc[o]); return; }
    x = *(int32_t *)dlite_instance_get_property(i, "x");
    if (x != (s->x[o] == 2 ? 77 : s->x[o])) { vh_fail("value", "%s: '%s' has x=%d", H, ID[o], x); return; }
    if (o == C) continue;
    r = dlite_instance_get_property(i, "r"); if (*r != (s->r[o] < 0 ? NULL : P[(int)s->r[o]] ? P[(int)s->r[o]] : dlite_instance_has(ID[(int)s->r[o]], 0))) { vh_fail("ref", "%s: r of '%s' changed", H, ID[o]); return; }
    r = dlite_instance_get_property(i, "rs"); for (k=0; k<2; k++) if (r[k] != (s->rs[o][k] < 0 ? NULL : dlite_instance_has(ID[(int)s->rs[o][k]], 0))) { vh_fail("ref", "%s: rs[%d] of '%s' changed", H, k, ID[o]); return; }
  }
  for (o=0; o<2; o++) {
    int e = 1 + s->mh[o] + (o ? s->rc[C] > 0 : (s->rc[A] > 0) + (s->rc[B] > 0) + (s->rc[D] > 0));
    k = rc_of((DLiteInstance *)M[o]);
    if (k != e) { vh_fail("metaref", "%s: metadata %d has %d references, expected %d", H, o, k, e); return; }
    if ((DLiteMeta *)dlite_instance_has(M[o]->uri, 0) != M[o]) { vh_fail("meta", "%s: metadata %d not found", H, o); return; }
  }
  u = dlite_istore_get_uuids(&nu); k = 0;
  if (u) { for (k=0; k<nu; k++) { for (o=0; o<NO; o++) if (!strcmp(u[k], UU[o])) found++; free(u[k]); } if (u[nu]) vh_fail("list", "list of uuids is not terminated"); free(u); }
  if (found != n) { vh_fail("list", "%s: %d of our instances listed, %d alive", H, found, n); return; }
  { DLiteStoreIter it = dlite_store_iter(ST); const char *q; int seen[NO] = {0}; while ((q = dlite_store_next(ST, &it))) { for (o=0; o<NO; o++) if (!strcmp(q, UU[o])) { seen[o]++; break; } if (o == NO) vh_fail("store", "%s: unknown uuid in store", H); }
    for (o=0; o<NO; o++) if (seen[o] != (s->st[o] > 0)) { vh_fail("store", "%s: store lists '%s' %d times", H, ID[o], seen[o]); return; } }
}
static void step(S *s, Op p, int ck)
{
  DLiteInstance *got; int e = model(s, p), r, o;
  if (!e) { vh_fail("model", "%s: path left the bound", H); return; }
  r = real(p, &got);
  if (r != e) { vh_fail("result", "%s: %s", H, r == 1 ? "accepted" : r == 2 ? "refused" : "other metadata returned"); return; }
  if (got && P[p.o] && got != P[p.o] && p.op != LOADNONE) { vh_fail("lookup", "%s: returns another instance", H); return; }
  if (got && !P[p.o]) P[p.o] = got;
  for (o=0; o<NO; o++) if (!s->rc[o]) P[o] = NULL;
  if (ck) check(s);
}
static int all(const Op *path, int n)
{
  S s; int i, o; size_t h0 = vh_heap();
  memset(&s, 0, sizeof(s)); memset(s.r, -1, sizeof(s.r)); memset(s.rs, -1, sizeof(s.rs)); memset(P, 0, sizeof(P)); *H = 0; ST = dlite_store_create(); SG = dlite_storage_open("json", FILE_, "mode=r");
  for (i=0; i<n && !vh_failed(); i++) { name(path[i]); if (getenv("DBG")) { FILE *q = fopen("/tmp/dbg","a"); fprintf(q, "%s\n", H); fclose(q); } step(&s, path[i], i == n-1); }
  /* release everything: break cycles, drop handles, free store */
  for (o=0; o<NO && !vh_failed(); o++) if (s.rc[o] && o != C) {
    DLiteInstance *i = dlite_instance_has(ID[o], 0); DLiteInstance *z[2] = {NULL, NULL}; S t; dlite_instance_incref(i); P[o] = i; s.rc[o]++; s.h[o]++; t = s; 
    if (model(&t, (Op){SETR,o,-1,0}) != 1 || dlite_instance_set_property(i, "r", z) || model(&t, (Op){SETRS,o,-1,-1}) != 1 || dlite_instance_set_property(i, "rs", z)) vh_fail("release", "%s: clearing references of '%s' fails", H, ID[o]);
    s = t; { int q; for (q=0; q<NO; q++) if (!s.rc[q]) P[q] = NULL; } dlite_instance_decref(i); s.h[o]--; drop(&s, o); if (!s.rc[o]) P[o] = NULL; }
  if (!vh_failed()) { char *z = H + strlen(H); strcpy(z, " (references cleared)"); check(&s); }
  if (!vh_failed()) { dlite_store_free(ST); ST = dlite_store_create(); for (o=0; o<NO; o++) { while (s.st[o]) { s.st[o]--; drop(&s, o); } } }
  if (!vh_failed()) for (o=0; o<NO; o++) { DLiteInstance *i = P[o]; while (s.h[o]) { s.h[o]--; drop(&s, o); dlite_instance_decref(i); } if (!s.rc[o]) P[o] = NULL; }
  if (!vh_failed()) for (i=0; i<2; i++) while (s.mh[i]) { s.mh[i]--; dlite_meta_decref(M[i]); }
  if (!vh_failed()) { strcat(H, " (all released)"); check(&s); }
  dlite_store_free(ST); dlite_storage_close(SG); err_clear();
  return vh_failed() ? 0 : (int)(vh_heap() - h0);
}
/* ------------------------------------------------------------------ explore */
typedef struct { S s; int parent; unsigned char op; short depth; } Node;
static Node *N; static int nn, ncap;
static void bfs(int maxd)
{
  vh_set seen = {0}; int i, k; S z; memset(&z, 0, sizeof(z)); memset(z.r, -1, sizeof(z.r)); memset(z.rs, -1, sizeof(z.rs));
  ncap = 1 << 16; N = malloc(ncap*sizeof(Node)); N[0].s = z; N[0].parent = -1; N[0].depth = 0; nn = 1; vh_set_add(&seen, vh_hash(&z, sizeof(z), 1));
  for (i=0; i<nn; i++) if (N[i].depth < maxd) for (k=0; k<nops; k++) { S t = N[i].s; if (model(&t, OPS[k]) != 1) continue; if (!vh_set_add(&seen, vh_hash(&t, sizeof(t), 1))) continue;
    if (nn == ncap) { ncap *= 2; N = realloc(N, ncap*sizeof(Node)); } N[nn].s = t; N[nn].parent = i; N[nn].op = k; N[nn].depth = N[i].depth + 1; nn++; }
  vh_set_free(&seen);
}
void vh_setup(void)
{
  FILE *f; int o; dlite_init(); err_set_stream(NULL); warn("x"); err_clear();
  snprintf(FILE_, sizeof(FILE_), "%s/life%d.json", vh_scratch(), (int)getpid());
  for (o=0; o<NO; o++) dlite_get_uuid(UU[o], ID[o]);
  f = fopen(FILE_, "w"); fprintf(f, "{\"%s\": {\"meta\": \"" URI "Life1\", \"dimensions\": {}, \"properties\": {\"x\": 77}}}\n", ID[C]); fclose(f);
  if (mdecs(0, M) || mdecs(1, M+1)) abort(); dlite_meta_decref(M[0]); dlite_meta_decref(M[1]);
  { DLiteProperty p = {"x", dliteInt, 4, NULL, 0, NULL, NULL, NULL}; OTHER = dlite_meta_create(URI "Life2", "d", 0, NULL, 1, &p); }
  { Op w[] = {{LOAD,C,0,0},{CREATE,A,0,0},{LOADNONE,C,0,0},{GET,D,0,0}}; all(w, 4); all(w, 4); }
}
#define BLK 20
void vh_explore(void)
{
  int i, k, d, b; HC = 2; mkops(); bfs(vh_arg("depth", 4));
  vh_count_states(0);
  for (b=0; b<nn; b+=BLK) if (vh_case("states %d-%d", b, b+BLK-1)) { if (vh_fork()) {
    for (i=b; i<nn && i<b+BLK && !vh_failed(); i++) { Op path[40]; int n = N[i].depth; for (d=n, k=i; d>0; k=N[k].parent) path[--d] = OPS[N[k].op];
      vh_count_states(1);
      for (k=0; k<nops && !vh_failed(); k++) { S t = N[i].s; int l; if (!model(&t, OPS[k])) continue; path[n] = OPS[k]; l = all(path, n+1); if (l > 0 && all(path, n+1) > 0 && (l = all(path, n+1)) > 0) vh_fail("leak", "%s leaks %d bytes", H, l); vh_count_transitions(1); } }
    vh_join(); } vh_observef("%d", b); vh_end();
  }
  free(N);
}
