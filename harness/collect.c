/* R02: collections.  The reachable states of a small model (which instance
   each label refers to, which other relations there are) are enumerated
   breadth first; in each state every operation is run on the real library
   after replaying the shortest history leading there, and everything that can
   be observed is compared with the model.  In addition all histories up to a
   depth. */
#include "vh.h"
#include "inst.h"
#include <unistd.h>
#include "dlite-collection.h"
#include "dlite-storage.h"
#include "dlite-storage-plugins.h"
#include "dlite-json.h"
#define LEN(a) ((int)(sizeof(a)/sizeof(*(a))))
enum { NL = 3, NI = 3, NR = 4 };
static const char *LB[NL] = {"a", "b", "label \"c\"/\xc3\xa6"};
static const char *IDS[NI] = {"http://vh.org/i0", "11111111-2222-4333-8444-555555555555", "http://vh.org/subcollection"};
static const char *REL[NR][4] = {{"a", "knows", "b", NULL}, {"a", "knows", "text with \"quotes\"", "xsd:string"}, {"x", "_has-friend", "a", NULL}, {"b", "size", "3", "xsd:int"}};
typedef struct { signed char l[NL], r[NR], via; } S;      /* l: -1 or instance */
enum { ADD, ADDNEW, REM, ADDREL, REMREL, REMPAT, COPY, FILE1, TEXT, URL, NOP };
typedef struct { signed char op, a, b; } Op;
static Op OPS[60]; static int nops;
static DLiteMeta *M; static char F[400], UU[NI][40], H[600];
static DLiteCollection *C; static DLiteInstance *I[NI]; static int gone;
static void mk(int op, int a, int b) { OPS[nops++] = (Op){op, a, b}; }
static const char *opname(Op o)
{
  static char b[100];
  switch (o.op) {
  case ADD: sprintf(b, "add %s=i%d", LB[(int)o.a], o.b); break; case ADDNEW: sprintf(b, "add new %s=i%d", LB[(int)o.a], o.b); break;
  case REM: sprintf(b, "remove %s", LB[(int)o.a]); break; case ADDREL: sprintf(b, "relate %d", o.a); break;
  case REMREL: sprintf(b, "unrelate %d", o.a); break; case REMPAT: sprintf(b, "unrelate pattern %d", o.a); break;
  case COPY: return "copy"; case FILE1: return "save and load"; case TEXT: return "to text and back"; case URL: return "save and load url"; }
  return b;
}
/* ------------------------------------------------------------------ model */
static int model(S *s, Op o)                   /* 0: not in bound, 1 ok, 2 refused */
{
  int i;
  switch (o.op) {
  case ADD: case ADDNEW: if (s->l[(int)o.a] >= 0) return 2; s->l[(int)o.a] = o.b; return 1;
  case REM: if (s->l[(int)o.a] < 0) return 2; s->l[(int)o.a] = -1; return 1;
  case ADDREL: s->r[(int)o.a] = 1; return 1;
  case REMREL: s->r[(int)o.a] = 0; return 1;
  case REMPAT: if (o.a == 0) s->r[0] = s->r[1] = 0; else s->r[2] = 0; return 1;
  case COPY: if (vh_thorough()) s->via = 1; return 1;
  case FILE1: s->via = 2; return 1;
  case TEXT: if (vh_thorough()) s->via = 3; return 1;
  case URL: if (vh_thorough()) s->via = 4; return 1;
  }
  (void)i; return 0;
}
/* ------------------------------------------------------------ observations */
static int cmps(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }
static char *rels(const S *s)                  /* expected relations, sorted */
{
  char *v[30]; int n = 0, k, q; Buf b = {0};
  for (k=0; k<NL; k++) if (s->l[k] >= 0) { if (asprintf(&v[n++], "%s|_is-a|Instance|-", LB[k]) < 0 || asprintf(&v[n++], "%s|_has-uuid|%s|xsd:anyURI", LB[k], UU[(int)s->l[k]]) < 0 || asprintf(&v[n++], "%s|_has-meta|%s|-", LB[k], s->l[k] == 2 ? DLITE_COLLECTION_ENTITY : M->uri) < 0) abort(); }
  for (k=0; k<NR; k++) if (s->r[k]) if (asprintf(&v[n++], "%s|%s|%s|%s", REL[k][0], REL[k][1], REL[k][2], REL[k][3] ? REL[k][3] : "-") < 0) abort();
  qsort(v, n, sizeof(*v), cmps); bufn(&b, "", 0);
  for (q=0; q<n; q++) { bufn(&b, v[q], strlen(v[q])); bufn(&b, "\n", 1); free(v[q]); }
  return b.p;
}
static char *sorted(char **v, int n) { Buf b = {0}; int q; qsort(v, n, sizeof(*v), cmps); bufn(&b, "", 0); for (q=0; q<n; q++) { bufn(&b, v[q], strlen(v[q])); bufn(&b, "\n", 1); free(v[q]); } return b.p; }
static void tostr(char **v, int *n, const DLiteRelation *r) { if (*n < 29 && asprintf(&v[(*n)++], "%s|%s|%s|%s", r->s, r->p, r->o, r->d ? r->d : "-") < 0) abort(); }
static int rc(const S *s, int i) { int k, n = I[i] ? 1 : 0; for (k=0; k<NL; k++) n += s->l[k] == i; return n; }
static int refc(int i) { DLiteInstance *q = dlite_instance_has(UU[i], 0); return q ? q->_refcount : 0; }
static void check(const S *s)
{
  char *want = rels(s), *got, *v[30]; int n, k, i, cnt = 0; DLiteCollectionState st; const DLiteRelation *r; DLiteInstance *q; const DLiteInstance *cq;
  err_clear();
  for (k=0; k<NL; k++) cnt += s->l[k] >= 0;
  VH_CHECK(dlite_collection_count(C) == cnt, "count", "%s: %d instances instead of %d", H, dlite_collection_count(C), cnt);
  /* relations */
  n = 0; dlite_collection_init_state(C, &st); while ((r = dlite_collection_find(C, &st, NULL, NULL, NULL, NULL))) tostr(v, &n, r); 
  dlite_collection_reset_state(&st); k = 0; while ((r = dlite_collection_find(C, &st, NULL, NULL, NULL, NULL))) k++; VH_CHECK(k == n, "reset", "%s: %d relations after reset", H, k); dlite_collection_deinit_state(&st);
  got = sorted(v, n); if (strcmp(got, want)) vh_fail("relations", "%s: %s", H, bufdiff(got, want)); free(got);
  /* as a property */
  { DLiteRelation *p = dlite_instance_get_property((DLiteInstance *)C, "relations"); int m = dlite_instance_get_dimension_size((DLiteInstance *)C, "nrelations"); n = 0;
    if (m && !p) vh_fail("property", "%s: %s", H, err_getmsg()); for (k=0; p && k<m; k++) tostr(v, &n, p+k); got = sorted(v, n); if (strcmp(got, want)) vh_fail("property", "%s: %s", H, bufdiff(got, want)); free(got); }
  /* by label */
  for (k=0; k<NL; k++) {
    VH_CHECK(!!dlite_collection_has(C, LB[k]) == (s->l[k] >= 0), "has", "%s: has %s", H, LB[k]);
    i = s->l[k]; n = i >= 0 ? refc(i) : 0;
    cq = dlite_collection_get(C, LB[k]);
    if (i < 0) { VH_CHECK(!cq && err_geteval(), "get", "%s: absent %s returned", H, LB[k]); err_clear(); }
    else if (!cq || strcmp(cq->uuid, UU[i])) vh_fail("get", "%s: %s gives %s: %s", H, LB[k], cq ? cq->uuid : "nothing", err_getmsg());
    else { VH_CHECK(cq->_refcount == n, "borrowed", "%s: get %s leaves %d references instead of %d", H, LB[k], cq->_refcount, n);
      q = dlite_collection_get_new(C, LB[k], NULL); if (!q || q != cq || q->_refcount != n+1) vh_fail("get_new", "%s: %s", H, LB[k]); else dlite_instance_decref(q); 
      if (i != 2) VH_CHECK(!strcmp(cq->uri ? cq->uri : "-", i == 1 ? "-" : IDS[i]) && *(int32_t *)dlite_instance_get_property(cq, "x") == 10+i, "value", "%s: %s has another value", H, LB[k]); }
    err_clear();
    r = dlite_collection_find_first(C, LB[k], "_has-uuid", NULL, NULL); VH_CHECK(!!r == (i >= 0) && (!r || !strcmp(r->o, UU[i])), "find_first", "%s: %s", H, LB[k]);
    { const char *o = dlite_collection_value(C, LB[k], "_has-uuid", NULL, NULL, NULL, 0); VH_CHECK(i < 0 ? !o : o && !strcmp(o, UU[i]), "valueof", "%s: %s gives %s", H, LB[k], o ? o : "nothing"); err_clear(); }
  }
  VH_CHECK(!dlite_collection_has(C, "nolabel") && !dlite_collection_get(C, "nolabel"), "get", "%s: label never added", H); err_clear();
  /* by id */
  for (i=0; i<NI; i++) {
    int in = 0, form; for (k=0; k<NL; k++) in |= s->l[k] == i;
    for (form=0; form<2; form++) {
      const char *id = form ? IDS[i] : UU[i];
      VH_CHECK(!!dlite_collection_has_id(C, id) == in, "has_id", "%s: has id %s", H, id);
      n = refc(i); cq = dlite_collection_get_id(C, id);
      VH_CHECK(in ? cq && !strcmp(cq->uuid, UU[i]) : !cq, "get_id", "%s: %s", H, id);
      if (cq) { VH_CHECK(cq->_refcount == n+1, "get_id", "%s: get by id leaves %d references instead of %d", H, cq->_refcount, n); while (cq->_refcount > n) dlite_instance_decref((DLiteInstance *)cq); }
    }
    VH_CHECK(refc(i) == rc(s, i), "refcount", "%s: i%d has %d references instead of %d", H, i, refc(i), rc(s, i));
  }
  /* iteration */
  for (k=0; k<2 && !vh_failed(); k++) {
    n = 0; dlite_collection_init_state(C, &st);
    while ((q = k ? dlite_collection_next_new(C, &st) : dlite_collection_next(C, &st))) { if (n < 29) v[n++] = strdup(q->uuid); else break; if (k) dlite_instance_decref(q); }
    dlite_collection_deinit_state(&st); got = sorted(v, n);
    n = 0; for (i=0; i<NL; i++) if (s->l[i] >= 0) v[n++] = strdup(UU[(int)s->l[i]]);
    { char *w = sorted(v, n); if (strcmp(got, w)) vh_fail("iterate", "%s: %s", H, bufdiff(got, w)); free(w); } free(got);
    for (i=0; i<NI; i++) VH_CHECK(refc(i) == rc(s, i), "refcount", "%s: i%d has %d references after iterating", H, i, refc(i));
  }
  /* patterns */
  { static const char *PT[][4] = {{"a", NULL, NULL, NULL}, {NULL, "knows", NULL, NULL}, {NULL, NULL, "b", NULL}, {"a", "knows", NULL, NULL}, {NULL, "_is-a", "Instance", NULL}, {"b", NULL, "3", "xsd:int"}, {NULL, NULL, "3", "xsd:string"}, {"x", "y", "z", NULL}};
    for (k=0; k<LEN(PT); k++) { char *line, *next; int w = 0; n = 0; dlite_collection_init_state(C, &st); while ((r = dlite_collection_find(C, &st, PT[k][0], PT[k][1], PT[k][2], PT[k][3]))) n++; dlite_collection_deinit_state(&st);
      for (line=want; *line; line=next+1) { char f[4][100]; int q, ok = 1; next = strchr(line, '\n'); sscanf(line, "%99[^|]|%99[^|]|%99[^|]|%99[^\n]", f[0], f[1], f[2], f[3]); for (q=0; q<4; q++) if (PT[k][q] && strcmp(PT[k][q], f[q])) ok = 0; w += ok; }
      VH_CHECK(n == w, "find", "%s: pattern %d matches %d relations instead of %d", H, k, n, w); } }
  free(want); err_clear();
}
static void drop_own(void) { int i; for (i=0; i<NI; i++) if (I[i]) { dlite_instance_decref(I[i]); I[i] = NULL; } }
static void make_own(int i) { size_t z[1] = {0}; int32_t x = 10+i; if (I[i]) return; I[i] = i < 2 ? dlite_instance_create(M, NULL, IDS[i]) : dlite_instance_create(dlite_get_collection_entity(), z, IDS[i]); if (i < 2 && I[i]) dlite_instance_set_property(I[i], "x", &x); }
static void apply(S *s, Op o)
{
  int r = 0, w, k, i; char uu[40]; S b = *s; DLiteCollection *c; DLiteStorage *sg; err_clear();
  w = model(s, o);
  switch (o.op) {
  case ADD: make_own(o.b); r = dlite_collection_add(C, LB[(int)o.a], I[(int)o.b]); break;
  case ADDNEW: make_own(o.b); dlite_instance_incref(I[(int)o.b]); r = dlite_collection_add_new(C, LB[(int)o.a], I[(int)o.b]); if (r) dlite_instance_decref(I[(int)o.b]); break;
  case REM: r = dlite_collection_remove(C, LB[(int)o.a]); if (w == 2) { VH_CHECK(r, "remove", "%s: removing absent label succeeds", H); r = 0; w = 1; } break;
  case ADDREL: r = dlite_collection_add_relation(C, REL[(int)o.a][0], REL[(int)o.a][1], REL[(int)o.a][2], REL[(int)o.a][3]); break;
  case REMREL: r = dlite_collection_remove_relations(C, REL[(int)o.a][0], REL[(int)o.a][1], REL[(int)o.a][2], REL[(int)o.a][3]); VH_CHECK(r == b.r[(int)o.a], "unrelate", "%s: returns %d", H, r); r = 0; break;
  case REMPAT: r = o.a == 0 ? dlite_collection_remove_relations(C, "a", "knows", NULL, NULL) : dlite_collection_remove_relations(C, NULL, "_has-friend", NULL, NULL); VH_CHECK(r == (o.a == 0 ? b.r[0] + b.r[1] : b.r[2]), "unrelate", "%s: returns %d", H, r); r = 0; break;
  case COPY:                                    /* the copy takes over */
    c = (DLiteCollection *)dlite_instance_copy((DLiteInstance *)C, NULL);
    if (!c) vh_fail("copy", "%s: %s", H, err_getmsg());
    else { S two = *s; for (i=0; i<NI && !vh_failed(); i++) { int n = 0; for (k=0; k<NL; k++) n += two.l[k] == i; VH_CHECK(refc(i) == rc(s, i) + n, "copy", "%s: i%d has %d references with two collections", H, i, refc(i)); } dlite_collection_decref(C); C = c; }
    break;
  case FILE1: case URL:
    unlink(F); strcpy(uu, C->uuid);
    if (o.op == FILE1) { sg = dlite_storage_open("json", F, "mode=w"); r = sg ? dlite_collection_save(C, sg) : 1; if (sg) r |= dlite_storage_close(sg); }
    else { char u[500]; sprintf(u, "json://%s?mode=w", F); r = dlite_collection_save_url(C, u); }
    if (r) { vh_fail("save", "%s: %s", H, err_getmsg()); break; }
    drop_own(); dlite_collection_decref(C); C = NULL;
    VH_CHECK(!dlite_instance_has(uu, 0), "alive", "%s: collection outlives its last reference", H);
    for (i=0; i<NI; i++) VH_CHECK(!dlite_instance_has(UU[i], 0), "alive", "%s: i%d outlives the collection", H, i);
    if (vh_failed()) break;
    if (o.op == FILE1) { sg = dlite_storage_open("json", F, "mode=r"); C = dlite_collection_load(sg, uu, s->r[0]); if (sg) dlite_storage_close(sg); }
    else { char u[500]; sprintf(u, "json://%s?mode=r#%s", F, uu); C = dlite_collection_load_url(u, s->r[0]); }
    if (!C) vh_fail("load", "%s: %s", H, err_getmsg()); else VH_CHECK(!strcmp(C->uuid, uu), "load", "%s: uuid", H);
    break;
  case TEXT: {
    char *t = dlite_json_aprint((DLiteInstance *)C, 0, 0); strcpy(uu, C->uuid); for (i=0; i<NI; i++) if (s->l[0] == i || s->l[1] == i || s->l[2] == i) make_own(i);
    for (i=0; i<NI; i++) if (!I[i] && dlite_instance_has(UU[i], 0)) I[i] = dlite_instance_get(UU[i]);
    dlite_collection_decref(C); C = t ? (DLiteCollection *)dlite_json_sscan(t, NULL, NULL) : NULL; free(t);
    if (!C) vh_fail("text", "%s: %s", H, err_getmsg()); else VH_CHECK(!strcmp(C->uuid, uu), "text", "%s: uuid", H);
    } break;
  }
  if (o.op <= ADDREL) { if (w == 2) VH_CHECK(r && err_geteval(), "refused", "%s: accepted", H); else VH_CHECK(!r, "failed", "%s: %s", H, err_getmsg()); }
  err_clear();
}
/* owners: with drop, the harness gives up its own references at every step */
static void run(const Op *ops, int n, int drop, int every)
{
  S s; int k, i; memset(&s, 0, sizeof(s)); for (k=0; k<NL; k++) s.l[k] = -1;
  err_clear(); *H = 0; gone = 0; unlink(F); C = dlite_collection_create(NULL); for (i=0; i<NI; i++) I[i] = NULL;
  for (k=0; k<n && !vh_failed(); k++) { snprintf(H + strlen(H), sizeof(H) - strlen(H), "%s%s", *H ? ", " : drop ? "(d) " : "", opname(ops[k])); apply(&s, ops[k]);
    if (drop) drop_own(); if (!vh_failed() && (every || k == n-1)) check(&s); }
  if (C && !vh_failed()) { char uu[40]; strcpy(uu, C->uuid); dlite_collection_decref(C); VH_CHECK(!dlite_instance_has(uu, 0), "alive", "%s: collection outlives its last reference", H); for (i=0; i<NI; i++) { VH_CHECK(refc(i) == !!I[i], "alive", "%s: i%d has %d references after releasing the collection", H, i, refc(i)); } }
  if (!vh_failed()) drop_own();
  err_clear();
}
void vh_setup(void)
{
  DLiteProperty p = {"x", dliteInt, 4, NULL, 0, NULL, NULL, NULL}; int i, a, b; char u[500];
  dlite_init(); err_set_stream(NULL); snprintf(F, sizeof(F), "%s/coll%d.json", vh_scratch(), (int)getpid());
  M = dlite_meta_create("http://vh.org/0.1/Member", NULL, 0, NULL, 1, &p);
  for (i=0; i<NI; i++) dlite_get_uuid(UU[i], IDS[i]);
  snprintf(u, sizeof(u), "json://%s?mode=r", F); dlite_storage_paths_append(u);
  for (a=0; a<NL; a++) for (b=0; b<NI; b++) mk((a + b) & 1 ? ADDNEW : ADD, a, b);
  for (a=0; a<NL; a++) mk(REM, a, 0);
  for (a=0; a<NR; a++) { mk(ADDREL, a, 0); mk(REMREL, a, 0); }
  mk(REMPAT, 0, 0); mk(REMPAT, 1, 0); mk(COPY, 0, 0); mk(FILE1, 0, 0); mk(TEXT, 0, 0); mk(URL, 0, 0);
  warn("x"); err_clear();
}
typedef struct { S s; short from; signed char op, depth; } Node;
void vh_explore(void)
{
  static Node N[12000]; int nn = 1, k, j, drop, depth = vh_arg("depth", 3), a, b; Op ops[40];
  memset(N, 0, sizeof(N)); for (k=0; k<NL; k++) N[0].s.l[k] = -1; N[0].from = -1;
  for (k=0; k<nn; k++) for (j=0; j<nops; j++) { S s = N[k].s; int q; if (!model(&s, OPS[j])) continue; for (q=0; q<nn; q++) if (!memcmp(&N[q].s, &s, sizeof(s))) break; if (q == nn && nn < LEN(N)) { N[nn].s = s; N[nn].from = k; N[nn].op = j; N[nn].depth = N[k].depth+1; nn++; } }
  vh_count_states(nn);
  /* every operation in every state */
  for (k=0; k<nn; k++) for (drop=0; drop<2; drop++) {
    int path[40], d = N[k].depth, q = k, i; if (!vh_thorough() && (k + drop) % 2 && d > 3) continue;
    for (i=d-1; i>=0; i--) { path[i] = N[q].op; q = N[q].from; }
    if (vh_case("state %d drop %d", k, drop)) {
      for (i=0; i<d; i++) ops[i] = OPS[path[i]];
      for (j=0; j<nops && !vh_failed(); j++) { ops[d] = OPS[j]; run(ops, d+1, drop, 0); vh_count_transitions(1); }
      vh_observef("%d", k); vh_end();
    }
  }
  /* all histories */
  for (a=0; a<nops; a++) for (b=0; b<nops; b++) if (vh_case("history %d %d", a, b)) {
    int st[10], i, n; ops[0] = OPS[a]; ops[1] = OPS[b]; run(ops, 2, 0, 1); run(ops, 2, 1, 1);
    for (n=3; n<=depth && !vh_failed(); n++) { memset(st, 0, sizeof(st));
      for (;;) { for (i=2; i<n; i++) ops[i] = OPS[st[i]]; run(ops, n, (a+b+st[2]) & 1, 1); vh_count_transitions(n); if (vh_failed()) break; for (i=n-1; i>=2; i--) { if (++st[i] < nops) break; st[i] = 0; } if (i < 2) break; } }
    vh_observef("%d %d", a, b); vh_end();
  }
  /* members that cannot be found when the collection is read: either it is an error, or nothing is taken from whoever has them later */
  for (a=0; a<8; a++) if (vh_case("missing %d", a)) {
    DLiteCollection *c = dlite_collection_create(NULL); char *t = NULL; DLiteInstance *m2[2]; int n;
    for (k=0; k<2; k++) { make_own(k); dlite_collection_add(c, LB[k], I[k]); }
    t = dlite_json_aprint((DLiteInstance *)c, 0, 0); dlite_collection_decref(c);
    for (k=0; k<2; k++) if (a >> k & 1) { dlite_instance_decref(I[k]); I[k] = NULL; }
    err_clear(); c = (DLiteCollection *)dlite_json_sscan(t, NULL, NULL); n = !c;
    if (!c) VH_CHECK((a & 3) && err_geteval(), "missing", "no collection: %s", err_getmsg());
    err_clear(); for (k=0; k<2; k++) { make_own(k); m2[k] = I[k]; }
    if (c) { if (a & 4) for (k=0; k<2; k++) { const DLiteInstance *q = dlite_collection_get(c, LB[k]); VH_CHECK(q == m2[k], "missing", "get"); VH_CHECK(q->_refcount >= 1, "missing", "refs"); } dlite_collection_decref(c); }
    for (k=0; k<2; k++) VH_CHECK(refc(k) == 1, "missing", "i%d has %d references after the collection is gone", k, refc(k));
    if (!vh_failed()) drop_own(); free(t); err_clear(); vh_observef("%d %d", a, n); vh_end();
  }
  /* casting */
  if (vh_case("casting")) { DLiteCollection *c = dlite_collection_create("cast"); DLiteInstance *i = dlite_instance_create(M, NULL, NULL);
    VH_CHECK(dlite_collection_from_instance((DLiteInstance *)c) == c, "cast", "a collection is refused: %s", err_getmsg()); VH_CHECK(dlite_collection_to_instance(c) == (DLiteInstance *)c, "cast", "to instance"); err_clear();
    VH_CHECK(!dlite_collection_from_instance(i) && err_geteval(), "cast", "something else is accepted"); err_clear(); dlite_instance_decref(i); dlite_collection_decref(c); vh_observef("cast"); vh_end(); }
}
