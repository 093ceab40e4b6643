/* M01: mapping instances.  All sets of up to `nmap` mappings between four (or
   five) metadata with costs from a small set are registered through a plugin
   holding slots that are refilled for each configuration, and mapped from sets
   of available inputs to a target.  The oracle looks for the cheapest tree by
   brute force (without memory), and the mappers themselves report what they
   were given. */
#include "vh.h"
#include "inst.h"
#include <unistd.h>
#include <sys/stat.h>
#include "dlite-mapping.h"
#include "dlite-mapping-plugins.h"
#include "dlite-store.h"
#include "dlite-storage.h"
#include "dlite-json.h"
#define LEN(a) ((int)(sizeof(a)/sizeof(*(a))))
enum { NM=5, NS=6 };
static const char *URI[NM+1] = {"http://vh.org/0.1/M0", "http://vh.org/0.1/M1", "http://vh.org/0.1/M2", "http://vh.org/0.1/M3", "http://vh.org/0.1/M4", "http://vh.org/0.1/None"};
static DLiteMeta *M[NM];
static DLiteMappingPlugin API[NS]; static const char *IN[NS][2];
static struct { int n; void *api[NS]; } TAB;
typedef struct { signed char out, n, in[2], cost; } Map;   /* in: indices of metadata */
static Map CF[NS]; static int NCF, NMETA = 4;

static int ncalls, failat, failhow; static char bad[400];
typedef struct { int64_t v, c; } Val;
static int64_t mix(int api, const int64_t *v, int n) { int64_t h = 1000003*(api+1); int i; for (i=0; i<n; i++) h = h*31 + v[i] + 7; return h; }
static Val *val(const DLiteInstance *i) { return (Val *)((char *)i + i->meta->_propoffsets[0]); }
static void newval(DLiteInstance *i, int64_t v, int64_t c) { dlite_instance_set_property(i, "v", &v); dlite_instance_set_property(i, "c", &c); }
static int64_t getp(const DLiteInstance *i, const char *n) { return *(int64_t *)dlite_instance_get_property(i, n); }
static DLiteInstance *mapper(const DLiteMappingPlugin *api, const DLiteInstance **inst, int n)
{
  int k = (int)((const DLiteMappingPlugin *)api - API), i; int64_t v[2], c = api->cost; DLiteInstance *r; (void)val;
  if (k < 0 || k >= NCF) { snprintf(bad, sizeof(bad), "mapper called with unknown api"); return NULL; }
  if (n != CF[k].n) { snprintf(bad, sizeof(bad), "mapping %d is called with %d inputs", k, n); return NULL; }
  for (i=0; i<n; i++) {
    if (!inst[i]) { snprintf(bad, sizeof(bad), "mapping %d: input %d is NULL", k, i); return NULL; }
    if (inst[i]->_refcount < 1 || inst[i]->_refcount > 100) { snprintf(bad, sizeof(bad), "mapping %d: input %d has refcount %d", k, i, inst[i]->_refcount); return NULL; }
    if (strcmp(inst[i]->meta->uri, URI[CF[k].in[i]])) { snprintf(bad, sizeof(bad), "mapping %d: input %d is a %s", k, i, inst[i]->meta->uri); return NULL; }
    v[i] = getp(inst[i], "v"); c += getp(inst[i], "c");
  }
  if (++ncalls == failat) switch (failhow) {
    case 0: return err(42, "mapper fails"), NULL;
    case 1: return NULL;
    default: return dlite_instance_create(M[CF[k].out ? 0 : 1], NULL, NULL); }
  if (!(r = dlite_instance_create(M[CF[k].out], NULL, NULL))) return NULL;
  newval(r, mix(k, v, n), c); return r;
}
static void setslot(int k)
{
  int i;
  if (k < NCF) { API[k].output_uri = URI[CF[k].out]; API[k].ninput = CF[k].n; API[k].cost = CF[k].cost; for (i=0; i<CF[k].n; i++) IN[k][i] = URI[CF[k].in[i]]; }
  else { API[k].output_uri = "http://vh.org/0.1/Unused"; API[k].ninput = 1; API[k].cost = 1; IN[k][0] = "http://vh.org/0.1/Nothing"; }
}
static char *desc(int avail, int tgt)
{
  static char b[600]; int k, i, n = 0; n += sprintf(b+n, "from {"); for (i=0; i<NM; i++) if (avail >> i & 1) n += sprintf(b+n, "%d", i);
  n += sprintf(b+n, "} to %d with", tgt); for (k=0; k<NCF; k++) { n += sprintf(b+n, " ("); for (i=0; i<CF[k].n; i++) n += sprintf(b+n, "%d", CF[k].in[i]); n += sprintf(b+n, "->%d cost %d)", CF[k].out, CF[k].cost); }
  return b;
}
/* cheapest tree, brute force: no uri is repeated along a branch */
static int best(int u, int avail, int visited)
{
  int k, i, b = -1;
  if (avail >> u & 1) return 0;
  for (k=0; k<NCF; k++) { int c = CF[k].cost; if (CF[k].out != u) continue;
    for (i=0; i<CF[k].n; i++) { int s; if ((visited | 1<<u) >> CF[k].in[i] & 1) break; if ((s = best(CF[k].in[i], avail, visited | 1<<u)) < 0) break; c += s; }
    if (i == CF[k].n && (b < 0 || c < b)) b = c; }
  return b;
}
static int uriidx(const char *u) { int i; for (i=0; u && i<NM; i++) if (!strcmp(u, URI[i])) return i; return -1; }
/* checks mapping tree, returns its cost and the value it should give; builds string */
static int walk(const DLiteMapping *m, int u, int avail, int visited, int64_t *v, Buf *s, int ind, const char *d)
{
  int k, i, c; int64_t iv[2];
  for (i=0; i<ind-1; i++) buff(s, "|   ");
  if (ind) buff(s, "+-- ");
  buff(s, "%s\n", URI[u]);
  if (!m->output_uri || strcmp(m->output_uri, URI[u])) { vh_fail("tree", "%s: a part is for %s instead of %s", d, m->output_uri, URI[u]); return 0; }
  if (visited >> u & 1) { vh_fail("tree", "%s: %s depends on itself", d, URI[u]); return 0; }
  for (k=0; k<NCF && (DLiteMappingPlugin *)m->api != &API[k]; k++) ;
  if (k == NCF) { vh_fail("tree", "%s: a part uses an unknown mapping", d); return 0; }
  if (CF[k].out != u || m->ninput != CF[k].n || strcmp(m->name, API[k].name)) { vh_fail("tree", "%s: a part is not the mapping it uses", d); return 0; }
  c = CF[k].cost;
  for (i=0; i<m->ninput && !vh_failed(); i++) {
    if (!m->input_maps[i] == !m->input_uris[i]) { vh_fail("tree", "%s: an input is both or neither a sub-mapping and an instance", d); return 0; }
    if (m->input_maps[i]) c += walk(m->input_maps[i], CF[k].in[i], avail, visited | 1<<u, &iv[i], s, ind+1, d);
    else { int j, w = uriidx(m->input_uris[i]); if (w != CF[k].in[i] || !(avail >> w & 1)) { vh_fail("tree", "%s: input %d of a part is %s, which is not what it needs or not available", d, i, m->input_uris[i]); return 0; }
      for (j=0; j<ind; j++) buff(s, "|   "); buff(s, "+-- %s\n", URI[w]); iv[i] = 100 + w; }
  }
  if (vh_failed()) return 0;
  *v = mix(k, iv, m->ninput);
  VH_CHECK(m->cost == c, "cost", "%s: a part says it costs %d, it costs %d", d, m->cost, c);
  return c;
}
static DLiteInstance *INST[NM];
char **dlite_istore_get_uuids(int *n);
static int ninst(void) { int n = 0; char **u = dlite_istore_get_uuids(&n); int i; for (i=0; i<n; i++) free(u[i]); free(u); return n; }
char **dlite_istore_get_uuids(int *n);
static void result(DLiteInstance *r, int tgt, int cost, const int64_t *v, int avail, const char *what, const char *d)
{
  int i;
  if (*bad) vh_fail("input", "%s: %s: %s", what, d, bad);
  if (cost < 0) VH_CHECK(!r, "unreachable", "%s: %s: result although the target cannot be reached", what, d);
  else if (!r) vh_fail("reachable", "%s: %s: no result although the target can be reached", what, d);
  if (r && cost >= 0) {
    if (strcmp(r->meta->uri, URI[tgt])) vh_fail("meta", "%s: %s: gives a %s", what, d, r->meta->uri);
    else if (avail >> tgt & 1) { VH_CHECK(r == INST[tgt] && r->_refcount == 2, "trivial", "%s: %s: is not the available instance, or no new reference to it", what, d); }
    else { VH_CHECK(getp(r, "c") == cost, "cheapest", "%s: %s: costs %d instead of %d", what, d, (int)getp(r, "c"), cost); if (v) VH_CHECK(getp(r, "v") == *v, "value", "%s: %s: value is not what the mapping says", what, d);
      VH_CHECK(r->_refcount == 1, "refs", "%s: %s: result has %d references", what, d, r->_refcount); }
  }
  if (r) VH_CHECK(!err_geteval(), "error", "%s: %s: succeeds with error set: %s", what, d, err_getmsg()); else VH_CHECK(err_geteval(), "noerror", "%s: %s: fails without error", what, d);
  if (r && !vh_failed()) dlite_instance_decref(r);
  for (i=0; i<NMETA; i++) VH_CHECK(INST[i]->_refcount == 1, "refs", "%s: %s: input %d has %d references afterwards", what, d, i, INST[i]->_refcount);
  err_clear(); *bad = 0;
}
static int base;
/* one configuration, from avail to tgt; how: 1 also failing mappers */
static void check(int avail, int tgt, int how)
{
  const char *uris[NM], *d; const DLiteInstance *in[NM]; int n = 0, i, cost, calls; DLiteMapping *m; int64_t v = 0; Buf s = {0};
  if (vh_failed()) return;
  for (i=0; i<NCF; i++) setslot(i);
  for (i=0; i<NM; i++) if (avail >> i & 1) { in[n] = INST[i]; uris[n++] = URI[i]; }
  d = desc(avail, tgt); cost = best(tgt, avail, 0); failat = 0; ncalls = 0; *bad = 0; err_clear();
  m = dlite_mapping_create(URI[tgt], uris, n);
  if (cost < 0) { VH_CHECK(!m, "unreachable", "create: %s: mapping although the target cannot be reached", d); VH_CHECK(err_geteval(), "noerror", "create: %s: fails without error", d); err_clear(); }
  else if (!m) vh_fail("reachable", "create: %s: no mapping although the target can be reached: %s", d, err_getmsg());
  else {
    char *str;
    VH_CHECK(!err_geteval(), "error", "create: %s: succeeds with error set: %s", d, err_getmsg());
    if (avail >> tgt & 1) { VH_CHECK(!m->name && m->cost == 0 && !strcmp(m->output_uri, URI[tgt]), "trivial", "%s: mapping is not trivial", d); buff(&s, "%s\n", URI[tgt]); }
    else walk(m, tgt, avail, 0, &v, &s, 0, d);
    VH_CHECK(m->cost == cost, "cheapest", "create: %s: costs %d, the cheapest mapping costs %d", d, m->cost, cost);
    str = dlite_mapping_string(m); VH_CHECK(str && (!s.p || !strcmp(str, s.p)), "string", "%s: described as {%s} instead of {%s}", d, str, s.p); free(str);
  }
  if (m && !vh_failed()) result(dlite_mapping_map(m, in, n), tgt, cost, &v, avail, "map", d);
  calls = ncalls;
  if (!vh_failed()) result(dlite_mapping(URI[tgt], in, n), tgt, cost, NULL, avail, "mapping", d);
  if (how && cost > 0) for (failat=1; failat<=calls && !vh_failed(); failat++) for (failhow=0; failhow<3 && !vh_failed(); failhow++) {
    DLiteInstance *r; int c; ncalls = 0; r = failhow & 1 ? dlite_mapping(URI[tgt], in, n) : dlite_mapping_map(m, in, n);
    VH_CHECK(ncalls == failat, "calls", "%s: %d mappers are called although number %d fails", d, ncalls, failat); c = err_geteval();
    VH_CHECK(!r, "failing", "%s: result although mapper %d fails", d, failat);
    if (failhow == 0 && c != 42) vh_fail("failing", "%s: error from mapper is replaced by %d: %s", d, c, err_getmsg());
    result(r, tgt, -1, NULL, avail, "failing mapper", d); vh_count_transitions(1); }
  if (m && !vh_failed()) dlite_mapping_free(m);
  if (!vh_failed() && (i = ninst()) != base) { vh_fail("leak", "%s: %d instances remain", d, i - base); }
  buf_free(&s); vh_count_transitions(2); vh_count_states(1);
}
/* ------------------------------------------------------------------ casts */
static char F[300];
enum { C_GET, C_LOAD, C_LOADED, C_MEM, C_LOADLOC, NC };
static const char *CN[] = {"get", "load", "load already loaded", "memload", "get by path"};
static void cast(int fun, int from, int tgt, int fail)
{
  char id[60], buf[400], uuid[40]; const char *d = desc(1 << from, tgt); DLiteInstance *i = NULL, *r = NULL; DLiteStorage *s = NULL; int cost = best(tgt, 1 << from, 0), n, was; FILE *f;
  int null = tgt == NM, k; for (k=0; k<NCF; k++) setslot(k);
  if (null) cost = 0; else if (tgt == from) cost = 0; failat = fail; failhow = 1; ncalls = 0; *bad = 0;
  if (fail && cost > 0) cost = -1; else failat = 0;
  sprintf(id, "mapped-%d", from); dlite_get_uuid(uuid, id);
  snprintf(buf, sizeof(buf), "{\"%s\": {\"meta\": \"%s\", \"dimensions\": {}, \"properties\": {\"v\": %d, \"c\": 0}}}", uuid, URI[from], 100 + from);
  f = fopen(F, "w"); fputs(buf, f); fclose(f); err_clear();
  if (fun == C_GET || fun == C_LOADED) { i = dlite_instance_create(M[from], NULL, uuid); newval(i, 100 + from, 0); }
  was = i != NULL; err_clear();
  switch (fun) {
  case C_GET: case C_LOADLOC: r = dlite_instance_get_casted(uuid, null ? NULL : URI[tgt]); break;
  case C_LOAD: case C_LOADED: s = dlite_storage_open("json", F, "mode=r"); r = dlite_instance_load_casted(s, uuid, null ? NULL : URI[tgt]); break;
  case C_MEM: r = dlite_instance_memload("json", (unsigned char *)buf, strlen(buf), uuid, NULL, null ? NULL : URI[tgt]); break;
  }
  if (*bad) vh_fail("input", "%s: %s: %s", CN[fun], d, bad);
  if (cost < 0) { VH_CHECK(!r, "unreachable", "%s: %s: result although it cannot be mapped", CN[fun], d); VH_CHECK(err_geteval(), "noerror", "%s: %s: fails without error", CN[fun], d); }
  else if (!r) vh_fail("reachable", "%s: %s: no result: %s", CN[fun], d, err_getmsg());
  else {
    int t = null ? from : tgt;
    VH_CHECK(!strcmp(r->meta->uri, URI[t]), "meta", "%s: %s: gives a %s", CN[fun], d, r->meta->uri);
    VH_CHECK(getp(r, "c") == cost, "cheapest", "%s: %s: costs %d instead of %d", CN[fun], d, (int)getp(r, "c"), cost);
    if (t == from) VH_CHECK(getp(r, "v") == 100 + from && !strcmp(r->uuid, uuid) && r->_refcount == 1 + was, "value", "%s: %s: is not the instance, or not one reference to it (%d)", CN[fun], d, r->_refcount);
    else VH_CHECK(r->_refcount == 1, "refs", "%s: %s: result has %d references", CN[fun], d, r->_refcount);
    dlite_instance_decref(r);
  }
  if (i) { VH_CHECK(i->_refcount == 1, "refs", "%s: %s: instance has %d references afterwards", CN[fun], d, i->_refcount); dlite_instance_decref(i); }
  if (s) dlite_storage_close(s);
  if ((n = ninst()) != base) vh_fail("leak", "%s: %s: %d instances remain", CN[fun], d, n - base);
  err_clear(); vh_count_transitions(1); unlink(F);
}
void vh_setup(void)
{
  static const char *src = "#include <stdlib.h>\nstruct T { int n; void *a[1]; };\nconst void *get_dlite_mapping_api(void *s, int *iter) {\n"
    "  struct T *t = (struct T *)strtoull(getenv(\"VH_APIS\"), 0, 16); int i = *iter; if (i + 1 < t->n) ++*iter; return t->a[i]; }\n";
  char d[400], c[900], t[40]; FILE *f; int k; DLiteProperty p[2] = {{"v", dliteInt, 8, NULL, 0, NULL, NULL, NULL}, {"c", dliteInt, 8, NULL, 0, NULL, NULL, NULL}};
  static char names[NS][16];
  dlite_init(); err_set_stream(NULL);
  for (k=0; k<NM; k++) { M[k] = dlite_meta_create(URI[k], NULL, 0, NULL, 2, p); INST[k] = dlite_instance_create(M[k], NULL, NULL); newval(INST[k], 100 + k, 0); }
  TAB.n = NS;
  for (k=0; k<NS; k++) { sprintf(names[k], "vh%c", "dafceb"[k]); API[k].name = names[k]; API[k].mapper = mapper; API[k].input_uris = IN[k]; TAB.api[k] = &API[k]; setslot(k); }
  sprintf(t, "%llx", (unsigned long long)(size_t)&TAB); setenv("VH_APIS", t, 1);
  snprintf(d, sizeof(d), "%s/plug", vh_scratch()); mkdir(d, 0777);
  snprintf(c, sizeof(c), "%s/vh.so", d);
  if (access(c, R_OK)) { snprintf(c, sizeof(c), "%s/vh.c", vh_scratch()); f = fopen(c, "w"); fputs(src, f); fclose(f); snprintf(c, sizeof(c), "cc -shared -fPIC -o %s/vh.so %s/vh.c", d, vh_scratch()); if (system(c)) { fprintf(stderr, "cannot build plugin\n"); _exit(3); } }
  dlite_mapping_plugin_path_insert(0, d);
  snprintf(F, sizeof(F), "%s/cast%d.json", vh_scratch(), (int)getpid());
  snprintf(c, sizeof(c), "json://%s?mode=r", F); dlite_storage_paths_append(c);
  warn("x"); err_clear();
  { DLiteMapping *m = dlite_mapping_create(URI[0], NULL, 0); if (m) dlite_mapping_free(m); for (k=0; k<NS; k++) if (!dlite_mapping_plugin_get(API[k].name)) { fprintf(stderr, "plugin not loaded: %s\n", err_getmsg()); _exit(3); } }
  err_clear(); base = ninst();
}
static Map ALL[300]; static int nall;
static void options(int firstout, int zero, int self, const int *costs, int nc)
{
  int o, a, b, c; nall = 0;
  for (o=firstout; o<NMETA; o++) for (c=0; c<nc; c++) {
    if (zero) ALL[nall++] = (Map){o, 0, {0,0}, costs[c]};
    for (a=0; a<NMETA; a++) if (self || a != o) { ALL[nall++] = (Map){o, 1, {a,0}, costs[c]}; for (b=a; b<NMETA; b++) if ((self || b != o) && (b != a || zero)) ALL[nall++] = (Map){o, 2, {(a+o) & 1 ? b : a, (a+o) & 1 ? a : b}, costs[c]}; } }
}
static void rec(int k, int n, int from, const int *av, const int *tg, int nav, int how)
{
  int i, j;
  if (k == n) { for (i=0; i<nav && !vh_failed(); i++) check(av[i], tg[i], how); return; }
  for (j=from; j<nall && !vh_failed(); j++) { CF[k] = ALL[j]; rec(k+1, n, j, av, tg, nav, how); }
}
static void sweep(const char *name, int n, const int *av, const int *tg, int nav, int how)
{
  int i, j, k; size_t h0, h1;
  for (k=NCF=n; k<NS; k++) setslot(k);
  if (n == 1) { if (vh_case("%s 1 mapping", name)) { for (k=NCF=n; k<NS; k++) setslot(k); rec(0, 1, 0, av, tg, nav, how); vh_observef("%s", name); vh_end(); } return; }
  for (i=0; i<nall; i++) for (j=i; j<nall; j++) if (vh_case("%s %d mappings %d %d", name, n, i, j)) {
    for (k=NCF=n; k<NS; k++) setslot(k);
    CF[0] = ALL[i]; CF[1] = ALL[j]; h0 = vh_heap(); rec(2, n, j, av, tg, nav, how); h1 = vh_heap() - h0;
    if (h1 && !vh_failed()) { h0 = vh_heap(); CF[0] = ALL[i]; CF[1] = ALL[j]; rec(2, n, j, av, tg, nav, how); h1 = vh_heap() - h0; }   /* only what grows each time counts */
    VH_CHECK(vh_failed() || !h1, "leak", "%zu bytes remain", h1);
    vh_observef("%s %d %d", name, i, j); vh_end(); }
}
void vh_explore(void)
{
  static const int c3[] = {0, 1, 3}, c2[] = {1, 3}, c1[] = {2}, av[] = {0, 1, 3, 7, 8, 9}, tg[] = {3, 3, 3, 3, 3, 3}, a1[] = {1}, t1[] = {3}, a2[] = {1, 3}, t4[] = {4, 4}; int n, T = vh_thorough(), i, k, f;
  options(0, 1, 1, c3, 3); sweep("all", 1, av, tg, 6, 1); sweep("all", 2, av, tg, 6, 1);
  options(0, 1, 0, c2, 2); sweep("any", 3, av+1, tg, T ? 3 : 1, 1);
  options(1, 0, 0, c3, T ? 3 : 2); sweep("one input", 3, a1, t1, 1, 1);
  options(1, 0, 0, c2, 2); sweep("one input", 4, a1, t1, 1, 0);
  options(1, 0, 0, c1, 1); sweep("equal costs", T ? 6 : 4, a1, t1, 1, T ? 0 : 1);
  if (T) { options(1, 0, 0, c2, 2); sweep("one input", 5, a1, t1, 1, 0); }
  NMETA = 5; options(1, 0, 0, c1, 1); sweep("five metadata", 4, a2, t4, T ? 2 : 1, 1); if (T) { sweep("five metadata", 5, a2, t4, 1, 0); options(1, 0, 0, c2, 2); sweep("five metadata two costs", 4, a1, t4, 1, 0); }
  NMETA = 4;
  /* same metadata twice among the inputs; nothing to map with */
  if (vh_case("bad arguments")) {
    const char *u[3] = {URI[0], URI[1], URI[0]}; const DLiteInstance *in[3] = {INST[0], INST[1], INST[0]}; DLiteInstance *x = dlite_instance_create(M[0], NULL, NULL); DLiteMapping *m;
    NCF = 1; CF[0] = (Map){3, 1, {0,0}, 1}; for (k=0; k<NS; k++) setslot(k); base = ninst();
    for (i=0; i<2; i++) { in[2] = i ? x : INST[0]; failat = 0; *bad = 0; err_clear();
      if (!i) { m = dlite_mapping_create(URI[3], u, 3); VH_CHECK(!m && err_geteval(), "twice", "create: the same metadata twice is accepted"); err_clear(); }
      result(dlite_mapping(URI[3], in, 3), 3, -1, NULL, 0, "mapping", "same metadata twice"); if (vh_failed()) break;
      m = dlite_mapping_create(URI[3], u, 1); result(dlite_mapping_map(m, in, 3), 3, -1, NULL, 0, "map", "same metadata twice"); VH_CHECK(x->_refcount == 1, "refs", "input has %d references", x->_refcount);
      /* instances are not those the mapping was made for */
      result(dlite_mapping_map(m, in+1, 1), 3, -1, NULL, 0, "map", "input missing"); result(dlite_mapping_map(m, in, 0), 3, -1, NULL, 0, "map", "no input");
      result(dlite_mapping_map(m, in, 2), 3, 1, NULL, 1, "map", "unused input"); dlite_mapping_free(m);
      m = dlite_mapping_create(URI[0], u, 1); result(dlite_mapping_map(m, in+1, 1), 0, -1, NULL, 0, "trivial map", "input missing"); dlite_mapping_free(m);
      in[2] = INST[3]; m = dlite_mapping_create(URI[3], u, 1); result(dlite_mapping_map(m, in+2, 1), 3, 0, NULL, 8, "map", "output given"); dlite_mapping_free(m); }
    dlite_instance_decref(x); base = ninst(); vh_end();
  }
  /* casting functions: a small set of chains */
  { static const Map CH[][3] = {{{1,1,{0,0},1},{2,1,{1,0},2},{3,1,{2,0},5}}, {{1,1,{0,0},1},{2,2,{0,1},2},{0,1,{2,0},5}}, {{3,2,{0,1},1},{1,1,{0,0},2},{0,1,{3,0},4}}, {{2,1,{1,0},1},{1,1,{2,0},2},{3,2,{0,0},4}}};
    int c, fail; for (c=0; c<LEN(CH); c++) for (f=0; f<NC; f++) if (vh_case("casting: %s chain %d", CN[f], c)) {
      NCF = 3; for (k=0; k<3; k++) CF[k] = CH[c][k]; for (k=0; k<NS; k++) setslot(k);
      for (i=0; i<4; i++) for (n=0; n<6 && !vh_failed(); n++) for (fail=0; fail<3 && !vh_failed(); fail++) if (n != 4) { int t = n == 5 ? NM : n; if (fail) { int cst; *bad = 0; if (t == NM || t == i) continue; cst = best(t, 1 << i, 0); if (cst <= 0) continue; ncalls = 0; failat = 0; { const DLiteInstance *one = INST[i]; DLiteInstance *r = dlite_mapping(URI[t], &one, 1); if (r) dlite_instance_decref(r); err_clear(); } if (ncalls < fail) continue; }
        cast(f, i, t, fail); }
      vh_observef("%d %d", c, f); vh_end(); } }
}
