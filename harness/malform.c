/* S06: every one-point damage of valid serialised data.  Seeds are documents
   printed by the library and hand-written ones; mutations are every prefix,
   every byte deletion, substitution and doubling, and at token level every
   value, key or container replaced by each of a list of other values, removed
   or doubled.  Every mutant is given to every entry point in a buffer of
   exactly its size; what is loaded must be a sound instance, what is refused
   must leave an error and nothing else behind. */
#include <sys/stat.h>
#include "vh.h"
#include "inst.h"
#include "dlite-json.h"
#include "dlite-bson.h"
#include "dlite-collection.h"
#include "dlite-store.h"
#include "dlite-storage.h"
#include "dlite-misc.h"
#include "utils/jstore.h"
#include "utils/jsmnx.h"
#define LEN(a) ((int)(sizeof(a)/sizeof(*(a))))
static DLiteMeta *M; static DLiteInstance *R; static char *MD, *RD;
#define META "http://vh.org/0.1/Mal"
#define NEWM "http://vh.org/0.1/New"
static char *dumpi(const DLiteInstance *q) { Buf b = {0}; buf_inst(&b, q, 0); return b.p; }
static char *dumpm(const DLiteMeta *q) { Buf b = {0}; buf_meta(&b, q); return b.p; }
static char *seeds[16]; static const char *sn[16]; static int ns;
static unsigned char *bs[8]; static int bl[8]; static const char *bn[8]; static int nb;
static void seed(const char *n, char *s) { sn[ns] = n; seeds[ns++] = s; }
static void bseed(const char *n, const DLiteInstance *q) { size_t l; bs[nb] = dlite_bson_from_instance(q, &l); if (!bs[nb]) { fprintf(stderr, "bson seed %s: %s\n", n, err_getmsg()); abort(); } bl[nb] = l; bn[nb++] = n; }
/* everything the caller may look at */
static uint64_t sig; static int nok, nbad;
static void release(DLiteInstance *q)
{
  int n, ismeta = dlite_instance_is_meta(q);
  /* data may refer to itself: such a cycle is for the user to break */
  if (!ismeta && q->meta == M) { DLiteInstance **rp = dlite_instance_get_property(q, "ref"); if (*rp == q && q->_refcount == 2) { *rp = NULL; q->_refcount--; } }
  char *t = ismeta ? dumpm((DLiteMeta *)q) : dumpi(q); sig = vh_hash(t, strlen(t), sig); free(t);
  if (!strcmp(q->meta->uri, DLITE_COLLECTION_ENTITY) && q->_refcount == 2) { char u[DLITE_UUID_LENGTH+1], *o = NULL; const DLiteRelation *r; DLiteCollectionState st; dlite_collection_init_state((void *)q, &st); while ((r = dlite_collection_find((void *)q, &st, NULL, "_has-uuid", NULL, NULL))) if (dlite_get_uuid(u, r->o) >= 0 && !strcmp(u, q->uuid)) { free(o); o = strdup(r->o); } dlite_collection_deinit_state(&st); if (o) { dlite_collection_remove_relations((void *)q, NULL, "_has-uuid", o, NULL); q->_refcount--; free(o); } }
  t = dlite_json_aprint(q, 0, 0); if (!t) VH_CHECK(err_geteval(), "print", "a loaded instance cannot be printed, without an error"); free(t); err_clear();
  if (q == R || q == (void *)M || !strcmp(q->uri ? q->uri : "", DLITE_ENTITY_SCHEMA) || !strcmp(q->uri ? q->uri : "", DLITE_BASIC_METADATA_SCHEMA) || !strcmp(q->uri ? q->uri : "", DLITE_COLLECTION_ENTITY)) { dlite_instance_decref(q); return; }
  n = q->_refcount; if (ismeta) { VH_CHECK(n == 2, "refs", "loaded metadata has %d references", n); drop_meta((DLiteMeta *)q); } else { VH_CHECK(n == 1, "refs", "a loaded instance has %d references", n); dlite_instance_decref(q); }
}
static void res(const char *what, DLiteInstance *q) { if (q) { nok++; release(q); } else { nbad++; VH_CHECK(err_geteval(), "silent", "%s: nothing is returned and no error is set", what); } err_clear(); }
static const char *IDS[] = {NULL, "obj", "http://vh.org/0.1/New", "one"};
static void entries(const char *doc, int len)
{
  int i, r; JStore *j; DLiteJsonFlag fl = 0;
  /* NUL-terminated */
  char *z = malloc(len + 1); memcpy(z, doc, len); z[len] = 0;
  for (i=0; i<LEN(IDS) && !vh_failed(); i++) { err_clear(); res("sscan", dlite_json_sscan(z, IDS[i], NULL)); }
  err_clear(); res("sscan with meta", dlite_json_sscan(z, NULL, META));
  err_clear(); res("sscan with meta", dlite_json_sscan(z, "obj", META));
  j = jstore_open(); err_clear(); r = jstore_update_from_string(j, z, len); if (r) VH_CHECK(err_geteval(), "silent", "jstore_update_from_string: no error"); else { char *t = jstore_to_string(j); VH_CHECK(t != NULL, "jstore", "cannot be written"); if (t) sig = vh_hash(t, strlen(t), sig); free(t); } jstore_close(j); err_clear();
  free(z);
  /* with a length */
  z = malloc(len ? len : 1); memcpy(z, doc, len);
  for (i=0; i<2; i++) { err_clear(); r = dlite_json_scheck(z, len, IDS[i], &fl); if (r < 0) VH_CHECK(err_geteval(), "silent", "scheck: no error"); sig = vh_hash(&r, sizeof(r), sig); }
  for (i=0; i<2 && len; i++) { DLiteJsonIter *it; const char *p; int l, n = 0; err_clear(); it = dlite_json_iter_create(z, len, i ? META : NULL); if (!it) VH_CHECK(err_geteval(), "silent", "iter_create: no error"); else { while ((p = dlite_json_next(it, &l)) && n++ < 50) VH_CHECK(p >= z && l >= 0 && p + l <= z + len, "outside", "iterator points outside the document"); VH_CHECK(n < 50, "endless", "iterator"); dlite_json_iter_free(it); } err_clear(); }
  j = jstore_open(); err_clear(); r = dlite_jstore_loads(j, z, len);
  if (r < 0) VH_CHECK(err_geteval(), "silent", "jstore_loads: no error");
  else { JStoreIter it; const char *k; char keys[8][64]; int n = 0, m; jstore_iter_init(j, &it); while ((k = jstore_iter_next(&it)) && n < 8) snprintf(keys[n++], 64, "%s", k); jstore_iter_deinit(&it);
    for (m=0; m<n && !vh_failed(); m++) { err_clear(); res("jstore_get", dlite_jstore_get(j, keys[m])); }
    for (i=0; i<2 && !vh_failed(); i++) { DLiteJStoreIter *ji; err_clear(); ji = dlite_jstore_iter_create(j, i ? META : NULL); if (!ji) VH_CHECK(err_geteval(), "silent", "jstore_iter_create: no error"); else { for (m=0; m<50 && dlite_jstore_iter_next(ji); m++); VH_CHECK(m < 50, "endless", "jstore iterator"); dlite_jstore_iter_free(ji); } } }
  jstore_close(j); err_clear();
  { static const char *O[] = {"mode=r", "mode=a", NULL}; for (i=0; i<3 && !vh_failed(); i++) { err_clear(); res("memload", dlite_instance_memload("json", (unsigned char *)z, len, i == 1 ? "obj" : NULL, O[i], NULL)); } }
  free(z);
}
/* a file that cannot be used is refused and left as it is */
static int files; static char F[300], UL[3][320];
static void infile(const char *doc, int len)
{
  int i, n; char *b = malloc(len + 2); FILE *f;
  for (i=0; i<3 && !vh_failed(); i++) {
    if (!(f = fopen(F, "w"))) abort(); fwrite(doc, len, 1, f); fclose(f);
    err_clear(); res(UL[i], dlite_instance_load_url(UL[i]));
    if (!(f = fopen(F, "r"))) { vh_fail("file", "the file is removed when loading %s", UL[i]); break; }
    n = fread(b, 1, len + 2, f); fclose(f);
    VH_CHECK(n == len && !memcmp(b, doc, len), "file", "the file is changed when loading %s", i == 0 ? "without mode" : UL[i] + strlen(UL[i]) - 6);
  }
  free(b); remove(F);
}
static void intact(void)
{
  char *t = dumpm(M); VH_CHECK(!strcmp(t, MD), "meta", "other metadata changed: %s", bufdiff(t, MD)); free(t);
  t = dumpi(R); VH_CHECK(!strcmp(t, RD), "other", "another instance changed: %s", bufdiff(t, RD)); free(t);
  VH_CHECK(R->_refcount == 1 && M->_refcount == 3, "refs", "references: %d to the instance, %d to its metadata", R->_refcount, M->_refcount);
}
static void left(void) { static const char *id[] = {"obj", NEWM, "coll", "tr"}; int i; for (i=0; i<4; i++) if (dlite_instance_has(id[i], 0)) { vh_fail("left", "%s is left in memory", id[i]); } }
static int bson;
static void entb(const unsigned char *d, int len) { unsigned char *z = malloc(len); memcpy(z, d, len); err_clear(); res("bson", dlite_bson_load_instance(z)); free(z); err_clear(); }
static void one(const char *doc, int len)
{
  size_t h0, h1; int k; if (vh_arg("show", 0)) { FILE *f = fopen("/tmp/mutant", "w"); fwrite(doc, len, 1, f); fclose(f); }
  for (k=0; k<3 && !vh_failed(); k++) { h0 = vh_heap(); if (bson) entb((unsigned char *)doc, len); else { entries(doc, len); if (files && !vh_failed()) infile(doc, len); } h1 = vh_heap(); left(); if (vh_failed() || h0 == h1) break; }
  if (!vh_failed()) VH_CHECK(h0 == h1, "leak", "%ld bytes are lost each time", (long)(h1 - h0));
  vh_count_transitions(1);
}
static const char SUB[] = "\"{}[],:\\09-.xn \x01\x80\xff/#";
static const char *REP[] = {"null", "true", "0", "-1", "3", "2147483647", "99999999999999999999", "1e30", "1.5", "\"\"", "\"x\"", "\"\\u0041\"", "\"a \\\"b\"", "\"obj\"", "\"" NEWM "\"", "\"12345678-aaaa-4bbb-8ccc-0123456789ab\"", "[]", "[1]", "[[1, 2], [3]]", "[\"n\"]", "[{}]", "{}", "{\"a\": 1}", "{\"a\": {\"b\": []}}", "{\"name\": \"q\", \"type\": \"int\"}", "nonsense", ""};
/* end of the token at i */
static int tokend(const char *s, int n, int i)
{
  int d = 0, j;
  if (s[i] == '"') { for (j=i+1; j<n && s[j] != '"'; j++) if (s[j] == '\\') j++; return j + 1; }
  if (s[i] == '{' || s[i] == '[') { for (j=i; j<n; j++) { if (s[j] == '"') { j = tokend(s, n, j) - 1; continue; } if (s[j] == '{' || s[j] == '[') d++; if (s[j] == '}' || s[j] == ']') if (!--d) return j + 1; } return n; }
  for (j=i; j<n && !strchr(",]} \n:", s[j]); j++); return j;
}
static char *W;
static void show(const char *m, int n) { if (vh_failed()) vh_trace("mutant: %.*s", n, m); }
static void json_seed(int si)
{
  const char *s = seeds[si]; int n = strlen(s), i, k, j;
  for (i=0; i<=n; i++) if (vh_case("json %s prefix %d", sn[si], i)) { files = 1; sig = nok = nbad = 0; one(s, i); show(s, i); intact(); vh_observef("%d %lx %d %d", i == n, sig, nok, nbad); vh_end(); }
  for (i=0; i<n; i++) if (vh_case("json %s byte %d", sn[si], i)) {
    files = 0; sig = nok = nbad = 0; memcpy(W, s, i); memcpy(W+i, s+i+1, n-i-1); one(W, n-1); show(W, n-1);
    for (k=0; SUB[k] && !vh_failed(); k++) { if (SUB[k] == s[i]) continue; memcpy(W, s, n); W[i] = SUB[k]; one(W, n); show(W, n); }
    if (!vh_failed()) { memcpy(W, s, i+1); memcpy(W+i+1, s+i, n-i); one(W, n+1); show(W, n+1); }
    intact(); vh_observef("%lx %d %d", sig, nok, nbad); vh_end(); }
  for (i=0, j=0; i<n; i=j) {
    int e; if (strchr(" \n,:]}", s[i])) { j = i + 1; continue; }
    e = tokend(s, n, i); j = s[i] == '{' || s[i] == '[' ? i + 1 : e;
    if (vh_case("json %s token %d", sn[si], i)) {
      files = 1; sig = nok = nbad = 0;
      for (k=0; k<LEN(REP) && !vh_failed(); k++) { int l = strlen(REP[k]); memcpy(W, s, i); memcpy(W+i, REP[k], l); memcpy(W+i+l, s+e, n-e); one(W, n-e+i+l); show(W, n-e+i+l); }
      /* without what follows, doubled, wrapped */
      if (!vh_failed()) { int c = e; while (c < n && strchr(" \n,", s[c])) c++; memcpy(W, s, i); memcpy(W+i, s+c, n-c); one(W, n-c+i); show(W, n-c+i); }
      if (!vh_failed()) { memcpy(W, s, e); W[e] = ','; memcpy(W+e+1, s+i, n-i); one(W, n+1+e-i); show(W, n+1+e-i); }
      if (!vh_failed()) { memcpy(W, s, i); W[i] = '['; memcpy(W+i+1, s+i, e-i); W[e+1] = ']'; memcpy(W+e+2, s+e, n-e); one(W, n+2); show(W, n+2); }
      if (!vh_failed() && s[i] == '"') { int c = e; while (c < n && strchr(" \n", s[c])) c++; if (c < n && s[c] == ':') { c++; while (strchr(" \n", s[c])) c++; c = tokend(s, n, c); /* key and value removed; doubled */ { int c2 = c; while (c2 < n && strchr(" \n,", s[c2])) c2++; memcpy(W, s, i); memcpy(W+i, s+c2, n-c2); one(W, n-c2+i); show(W, n-c2+i); } if (!vh_failed()) { memcpy(W, s, c); W[c] = ','; memcpy(W+c+1, s+i, n-i); one(W, n+1+c-i); show(W, n+1+c-i); } } }
      intact(); vh_observef("%lx %d %d", sig, nok, nbad); vh_end(); } }
}
/* two replaced tokens */
static void json_pairs(int si)
{
  static const int R2[] = {0, 2, 3, 5, 9, 10, 13, 14, 16, 19, 20, 23}; static int at[400], en[400];
  const char *s = seeds[si]; int n = strlen(s), i, j, a, b, k, l, nt = 0;
  for (i=0; i<n && nt<400; i=j) { int e; if (strchr(" \n,:]}", s[i])) { j = i + 1; continue; } e = tokend(s, n, i); j = s[i] == '{' || s[i] == '[' ? i + 1 : e; at[nt] = i; en[nt++] = e; }
  for (a=0; a<nt; a++) for (b=a+1; b<nt; b++) {
    if (at[b] < en[a]) continue;
    if (vh_case("json %s tokens %d %d", sn[si], at[a], at[b])) {
      files = 0; sig = nok = nbad = 0;
      for (k=0; k<LEN(R2) && !vh_failed(); k++) for (l=0; l<LEN(R2) && !vh_failed(); l++) { int m = sprintf(W, "%.*s%s%.*s%s%s", at[a], s, REP[R2[k]], at[b] - en[a], s + en[a], REP[R2[l]], s + en[b]); one(W, m); show(W, m); }
      intact(); vh_observef("%lx %d %d", sig, nok, nbad); vh_end(); } }
}
/* urls and option strings */
static void url(const char *z0)
{
  char *z = strdup(z0), *d = NULL, *l = NULL, *o = NULL, *f = NULL, *j; int n = strlen(z0), r, k;
  err_clear(); r = dlite_split_url(z, &d, &l, &o, &f);
  if (r) VH_CHECK(err_geteval(), "silent", "dlite_split_url: no error for %s", z0);
  else { char *p[] = {d, l, o, f}; for (k=0; k<4; k++) VH_CHECK(!p[k] || (p[k] >= z && p[k] + strlen(p[k]) <= z + n), "outside", "part %d of url %s lies outside it", k, z0);
    if (l && !vh_failed()) { char *z2, *d2 = NULL, *l2 = NULL, *o2 = NULL, *f2 = NULL; j = dlite_join_url(d, l, o, f); if (!j) VH_CHECK(err_geteval(), "silent", "dlite_join_url: no error"); else { z2 = strdup(j); if (!dlite_split_url(z2, &d2, &l2, &o2, &f2)) VH_CHECK(!strcmp(l, l2 ? l2 : "?") || !d, "url", "location of %s is %s, after joining and splitting it is %s", z0, l, l2); free(z2); } free(j); } }
  sig = vh_hash(&r, sizeof(r), sig); free(z); err_clear();
}
static void opts(const char *z0)
{
  int fl; for (fl=0; fl<2; fl++) { DLiteOpt o[] = {{'m', "mode", "append", "m"}, {'s', "single", "", "s"}, {'i', "indent", "2", "i"}, {0, NULL, NULL, NULL}}; char *z = strdup(z0); int r, k, n = strlen(z0); err_clear(); r = dlite_option_parse(z, o, fl ? dliteOptStrict : 0); if (r) VH_CHECK(err_geteval(), "silent", "dlite_option_parse: no error for %s", z0); else for (k=0; k<3; k++) { const char *v = o[k].value; size_t len = strlen(v); VH_CHECK(len <= (size_t)n + 8, "outside", "value of option %s of %s", o[k].key, z0); sig = vh_hash(v, len, sig); } sig = vh_hash(&r, sizeof(r), sig); free(z); err_clear(); }
}
static void strings(const char *name, const char *s, const char *alpha, void (*fn)(const char *))
{
  int n = strlen(s), i, j, k, l, na = strlen(alpha); char *w = W; size_t h0, h1;
  for (i=0; i<=n; i++) if (vh_case("%s %s from %d", name, s, i)) {
    sig = 0; fn(s); h0 = vh_heap();
    sprintf(w, "%.*s", i, s); fn(w); sprintf(w, "%s", s + i); fn(w);
    if (i < n) { sprintf(w, "%.*s%s", i, s, s + i + 1); fn(w); for (k=0; k<na; k++) { strcpy(w, s); w[i] = alpha[k]; fn(w); } }
    for (k=0; k<na; k++) { sprintf(w, "%.*s%c%s", i, s, alpha[k], s + i); fn(w); vh_count_transitions(1);
      for (j=i+1; j<n && !vh_failed(); j++) for (l=0; l<na; l++) { char c = w[j]; w[j] = alpha[l]; fn(w); w[j] = c; vh_count_transitions(1); } }
    h1 = vh_heap(); if (!vh_failed()) VH_CHECK(h0 == h1, "leak", "%ld bytes lost", (long)(h1 - h0));
    vh_observef("%lx", sig); vh_end(); }
}
static void bson_seed(int si)
{
  int n = bl[si], i, k; unsigned char *w = (unsigned char *)W; bson = 1;
  /* prefixes as a document of that size: the length is corrected */
  for (i=5; i<=n; i++) if (vh_case("bson %s prefix %d", bn[si], i)) { int t; sig = nok = nbad = 0; for (t=0; t<2 && !vh_failed(); t++) { memcpy(w, bs[si], i); w[0] = i & 255; w[1] = i >> 8; w[2] = w[3] = 0; if (t) w[i-1] = 0; one((char *)w, i); } intact(); vh_observef("%lx %d %d", sig, nok, nbad); vh_end(); }
  for (i=0; i<n; i++) if (vh_case("bson %s byte %d", bn[si], i)) {
    int v, c = bs[si][i], vals[] = {0, 1, 2, 3, 4, 5, 8, 9, 10, 0x10, 0x11, 0x12, 0x13, 0x7f, 0x80, 0xfe, 0xff, c+1, c-1, c^1, c^2, c^4, c^8, c^16, c^32, c^64, c^128, 'a', '0', '"', '{'}; sig = nok = nbad = 0;
    for (k=0; k<LEN(vals) && !vh_failed(); k++) { int claimed; v = vals[k] & 255; if (v == c) continue; memcpy(w, bs[si], n); w[i] = v; claimed = w[0] | w[1] << 8 | w[2] << 16 | (int)((unsigned)w[3] << 24); if (claimed > n) continue; /* the size of the input is what it says */ one((char *)w, n); if (vh_failed()) vh_trace("byte %d: %02x -> %02x", i, c, v); }
    /* removed and doubled, with the size corrected */
    if (!vh_failed() && i >= 4) { memcpy(w, bs[si], i); memcpy(w+i, bs[si]+i+1, n-i-1); w[0] = (n-1) & 255; w[1] = (n-1) >> 8; one((char *)w, n-1); }
    if (!vh_failed() && i >= 4) { memcpy(w, bs[si], i+1); memcpy(w+i+1, bs[si]+i, n-i); w[0] = (n+1) & 255; w[1] = (n+1) >> 8; one((char *)w, n+1); }
    /* four-byte values */
    if (i + 4 <= n && !vh_failed()) { static const int32_t V[] = {0, 1, 2, 4, 5, 6, 100, 0x7fffffff, -1, -5, (int32_t)0x80000000, 0x10000}; for (k=0; k<LEN(V) && !vh_failed(); k++) { int claimed; memcpy(w, bs[si], n); memcpy(w+i, &V[k], 4); claimed = w[0] | w[1] << 8 | w[2] << 16 | (int)((unsigned)w[3] << 24); if (claimed > n) continue; one((char *)w, n); if (vh_failed()) vh_trace("bytes %d..: %d", i, V[k]); } }
    intact(); vh_observef("%lx %d %d", sig, nok, nbad); vh_end(); }
  bson = 0;
}
void vh_setup(void)
{
  DLiteDimension d[2] = {{"n", NULL}, {"m", "another"}}; char *s1[] = {"n"}, *s2[] = {"n", "m+1"}, *s3[] = {"3"}; size_t dims[2] = {2, 1}, i;
  DLiteProperty p[] = {{"i", dliteInt, 4, NULL, 0, NULL, NULL, NULL}, {"b", dliteBool, 1, NULL, 0, NULL, NULL, NULL}, {"u", dliteUInt, 2, NULL, 1, s3, NULL, NULL}, {"f", dliteFloat, 8, NULL, 2, s2, NULL, NULL}, {"s", dliteStringPtr, sizeof(char *), NULL, 0, NULL, NULL, NULL}, {"sa", dliteStringPtr, sizeof(char *), NULL, 1, s1, NULL, NULL}, {"fs", dliteFixString, 4, NULL, 1, s1, NULL, NULL}, {"bl", dliteBlob, 2, NULL, 0, NULL, NULL, NULL}, {"ref", dliteRef, sizeof(void *), META, 0, NULL, NULL, NULL}, {"rel", dliteRelation, sizeof(DLiteRelation), NULL, 1, s1, NULL, NULL}};
  DLiteInstance *q; DLiteCollection *c; char t1[] = "t \"q\"", *s = t1; char *sa[2] = {t1, ""}; double f[4] = {1, -2.5, 1e300, 0}; DLiteRelation rel[2] = {{"s", "p", "o", NULL, NULL}, {"s2", "p2", "o2", "xsd:int", NULL}}; DLiteMeta *nm; char *fix = "ab\0\0cd\0"; uint8_t bl2[2] = {1, 255};
  W = malloc(100000); err_set_stream(NULL); dlite_add_dll_path();
  M = dlite_meta_create(META, "d", 2, d, LEN(p), p); R = dlite_instance_create(M, dims, "one");
  q = dlite_instance_create(M, dims, "obj"); i = 7; dlite_instance_set_property(q, "i", &i); dlite_instance_set_property(q, "s", &s); dlite_instance_set_property(q, "sa", sa); dlite_instance_set_property(q, "f", f); dlite_instance_set_property(q, "ref", &R); dlite_instance_set_property(q, "rel", rel); dlite_instance_set_property(q, "bl", bl2); (void)fix;
  seed("data", dlite_json_aprint(q, 0, dliteJsonSingle)); seed("data urikey", NULL);
  { char *t = dlite_json_aprint(q, 0, dliteJsonSingle | dliteJsonWithUuid); char *m = malloc(strlen(t) * 2 + 200); sprintf(m, "{\"obj\": %s}", t); seeds[ns-1] = m; free(t); }
  bseed("data", q); dlite_instance_decref(q);
  { char *t = strdup("{\"obj\": {\"meta\": \"" META "\", \"dimensions\": {\"n\": 0, \"m\": 0}, \"properties\": {\"i\": 1, \"b\": true, \"u\": [1, 2, 3], \"f\": [], \"s\": null, \"sa\": [], \"fs\": [], \"bl\": \"00ff\", \"ref\": null, \"rel\": []}}, \"other\": {\"meta\": \"" META "\", \"dimensions\": {\"n\": 1, \"m\": 0}, \"properties\": {\"i\": 1, \"b\": false, \"u\": [1, 2, 3], \"f\": [[2]], \"s\": \"y\", \"sa\": [\"x\"], \"fs\": [\"abc\"], \"bl\": \"0102\", \"ref\": null, \"rel\": [[\"a\", \"b\", \"c\"]]}}}"); seed("two", t); }
  { char *t = strdup("{\"uri\": \"" NEWM "\", \"description\": \"new\", \"dimensions\": {\"n\": \"number\"}, \"properties\": {\"x\": {\"type\": \"float64\", \"shape\": [\"n\", \"n+1\"], \"unit\": \"m\", \"description\": \"dd\"}, \"r\": {\"type\": \"ref\", \"$ref\": \"" META "\"}, \"s\": {\"type\": \"string10\"}}}"); seed("meta", t);
    q = dlite_json_sscan(t, NULL, NULL); bseed("meta", q); seed("meta printed", dlite_json_aprint(q, 0, dliteJsonSingle | dliteJsonWithUuid | dliteJsonWithMeta | dliteJsonArrays)); drop_meta((DLiteMeta *)q); }
  seed("meta old", strdup("{\"name\": \"New\", \"version\": \"0.1\", \"namespace\": \"http://vh.org\", \"meta\": \"" DLITE_ENTITY_SCHEMA "\", \"dimensions\": [{\"name\": \"n\", \"description\": \"x\"}], \"properties\": [{\"name\": \"x\", \"type\": \"int\", \"dims\": [\"n\"]}, {\"name\": \"y\", \"type\": \"string\"}]}"));
  c = dlite_collection_create("coll"); dlite_collection_add(c, "one", R); dlite_collection_add_relation(c, "a", "b", "c d", "xsd:string"); seed("collection", dlite_json_aprint((DLiteInstance *)c, 0, dliteJsonSingle)); bseed("collection", (DLiteInstance *)c); dlite_collection_decref(c);
  { DLiteProperty pi = {"i", dliteInt, 4, NULL, 0, NULL, NULL, NULL}; DLiteMeta *m2 = dlite_meta_create("http://vh.org/0.1/Tr", NULL, 0, NULL, 1, &pi); DLiteInstance *o = dlite_instance_create(m2, NULL, "tr0"), *o2; dlite_instance_freeze(o); o2 = dlite_instance_copy(o, "tr"); dlite_instance_set_parent(o2, o); seed("transaction", dlite_json_aprint(o2, 0, dliteJsonSingle)); bseed("transaction", o2); dlite_instance_decref(o2); dlite_instance_decref(o); }
  for (i=0; i<(size_t)ns; i++) if (!seeds[i]) { fprintf(stderr, "seed %s\n", sn[i]); abort(); }
  snprintf(F, sizeof(F), "%s/x", vh_scratch()); mkdir(F, 0777); strcat(F, "/f.json"); sprintf(UL[0], "json://%s", F); sprintf(UL[1], "json://%s?mode=r", F); sprintf(UL[2], "json://%s?mode=a", F);
  MD = dumpm(M); RD = dumpi(R); (void)nm; err_clear();
  for (i=0; i<2; i++) { int k; for (k=0; k<ns; k++) { entries(seeds[k], strlen(seeds[k])); infile(seeds[k], strlen(seeds[k])); } for (k=0; k<nb; k++) entb(bs[k], bl[k]); }
}
void vh_explore(void)
{
  int i;
  for (i=0; i<ns; i++) if (vh_case("json %s unchanged", sn[i])) { sig = nok = nbad = 0; one(seeds[i], strlen(seeds[i])); VH_CHECK(nok >= 2, "plain", "the valid document is refused: %s", seeds[i]); intact(); vh_observef("%lx", sig); vh_end(); }
  for (i=0; i<nb; i++) if (vh_case("bson %s unchanged", bn[i])) { sig = nok = nbad = 0; bson = 1; one((char *)bs[i], bl[i]); bson = 0; VH_CHECK(nok, "plain", "the valid document is refused"); intact(); vh_observef("%lx", sig); vh_end(); }
  for (i=0; i<ns; i++) json_seed(i);
  for (i=0; i<nb; i++) bson_seed(i);
  { static const char *U[] = {"json://a/b.json?mode=r;x=y#id", "json+v://C:/p q.json", "http://u:p@h:8080/p?q=1&r=2#f", "x.json"}; for (i=0; i<LEN(U); i++) strings("url", U[i], ":/?#;+= \x80\\", url); }
  { static const char *O[] = {"mode=r;single=true&indent=4", "m=w;s=;i", "mode=a#x"}; for (i=0; i<LEN(O); i++) strings("options", O[i], "=;&#m \x80%", opts); }
  if (vh_arg("pairs", 0)) for (i=0; i<ns; i++) if (!strcmp(sn[i], "meta old") || !strcmp(sn[i], "transaction") || !strcmp(sn[i], "meta")) json_pairs(i);
}
