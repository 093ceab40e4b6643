/* I01: identity.  Every id is turned into a uuid by the documented table with
   an independent SHA-1; every way of asking gives the same answer. */
#include "vh.h"
#include "inst.h"
#include "dlite-misc.h"
#include "utils/urlsplit.h"
#include "utils/uuid4.h"
#define LEN(a) ((int)(sizeof(a)/sizeof(*(a))))
#define NS "http://onto-ns.com/data"
/* SHA-1 as in FIPS 180 */
static void sha1(const unsigned char *m, size_t n, unsigned char *o)
{
  uint32_t h[5] = {0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0}; size_t i, k, N = (n + 9 + 63) / 64 * 64; unsigned char *b = calloc(1, N);
  memcpy(b, m, n); b[n] = 0x80; for (i=0; i<8; i++) b[N-1-i] = (uint64_t)n * 8 >> 8 * i;
  for (k=0; k<N; k+=64) {
    uint32_t w[80], a = h[0], B = h[1], c = h[2], d = h[3], e = h[4], f, q, t;
    for (i=0; i<16; i++) w[i] = (uint32_t)b[k+4*i] << 24 | b[k+4*i+1] << 16 | b[k+4*i+2] << 8 | b[k+4*i+3];
    for (; i<80; i++) { t = w[i-3] ^ w[i-8] ^ w[i-14] ^ w[i-16]; w[i] = t << 1 | t >> 31; }
    for (i=0; i<80; i++) { if (i < 20) f = (B & c) | (~B & d), q = 0x5A827999; else if (i < 40) f = B ^ c ^ d, q = 0x6ED9EBA1; else if (i < 60) f = (B & c) | (B & d) | (c & d), q = 0x8F1BBCDC; else f = B ^ c ^ d, q = 0xCA62C1D6;
      t = (a << 5 | a >> 27) + f + e + q + w[i]; e = d; d = c; c = B << 30 | B >> 2; B = a; a = t; }
    h[0] += a; h[1] += B; h[2] += c; h[3] += d; h[4] += e;
  }
  for (i=0; i<20; i++) o[i] = h[i/4] >> (24 - 8 * (i % 4));
  free(b);
}
static void uuid5(const char *s, size_t n, char *out)
{
  static const unsigned char dns[16] = {0x6b,0xa7,0xb8,0x10,0x9d,0xad,0x11,0xd1,0x80,0xb4,0x00,0xc0,0x4f,0xd4,0x30,0xc8};
  unsigned char *b = malloc(n + 16), h[20]; int i; char *p = out;
  memcpy(b, dns, 16); memcpy(b + 16, s, n); sha1(b, n + 16, h); free(b);
  h[6] = (h[6] & 15) | 0x50; h[8] = (h[8] & 0x3f) | 0x80;
  for (i=0; i<16; i++) { if (i == 4 || i == 6 || i == 8 || i == 10) *p++ = '-'; p += sprintf(p, "%02x", h[i]); }
}
static int isu(const char *s) { int i; for (i=0; i<36; i++) if (i == 8 || i == 13 || i == 18 || i == 23) { if (s[i] != '-') return 0; } else if (!s[i] || !strchr("0123456789abcdefABCDEF", s[i])) return 0; return 1; }
/* the documented table; returns the type */
static int ref(const char *id, int n, int ns, char *out)
{
  int i;
  if (!id || !n || !*id) return dliteIdRandom;
  if (n > 1 && (id[n-1] == '/' || id[n-1] == '#')) n--;
  if (n == 36 && isu(id)) { for (i=0; i<36; i++) out[i] = tolower(id[i]); out[36] = 0; return dliteIdCopy; }
  if (isurln(id, n)) { if (n > 45 && isu(id + n - 36)) { for (i=0; i<36; i++) out[i] = tolower(id[n-36+i]); out[36] = 0; return dliteIdCopy; } uuid5(id, n, out); return dliteIdHash; }
  if (!ns) uuid5(id, n, out); else { char *t = malloc(n + 100); sprintf(t, NS "/%.*s", n, id); uuid5(t, strlen(t), out); free(t); }
  return dliteIdHash;
}
static uint64_t sig;
static void one(const char *id, int n)
{
  char *z = malloc(n ? n : 1), *s = malloc(n + 1), u[37], w[37], buf[40]; int ns, t, r, deflt = dlite_behavior_get("namespacedID"); size_t m, k;
  if (vh_failed()) { free(z); free(s); return; }
  memcpy(z, id, n); memcpy(s, id, n); s[n] = 0; err_clear();
  for (ns=0; ns<2; ns++) {
    t = ref(z, n, ns, w); memset(u, 'X', 37); r = _dlite_get_uuidn(u, z, n, ns);
    VH_CHECK(r == t, "type", "'%s': type is %d, expected %d", s, r, t);
    if (t == dliteIdRandom) VH_CHECK(isu(u) && !u[36] && u[14] == '4' && strchr("89ab", u[19]), "random", "uuid for no id is %.36s", u);
    else { VH_CHECK(!strcmp(u, w), "uuid", "'%s' (namespacedID=%d): uuid is %.36s, expected %s", s, ns, u, w);
      memset(u, 'X', 37); r = _dlite_get_uuidn(u, w, 36, ns); VH_CHECK(r == dliteIdCopy && !strcmp(u, w), "idempotent", "uuid %s maps to %.36s", w, u); }
    if (ns == deflt) { t = ref(z, n, ns, w); memset(u, 'X', 37); r = dlite_get_uuidn(u, z, n); VH_CHECK(r == t && (t == dliteIdRandom || !strcmp(u, w)), "uuidn", "'%s': dlite_get_uuidn gives %d %.36s", s, r, u);
      if (strlen(s) == (size_t)n) { memset(u, 'X', 37); r = dlite_get_uuid(u, s); VH_CHECK(r == t && (t == dliteIdRandom || !strcmp(u, w)), "get", "'%s': dlite_get_uuid gives %d %.36s", s, r, u); VH_CHECK((r = dlite_idtype(s)) == t, "idtype", "'%s': dlite_idtype gives %d, expected %d", s, r, t); } }
  }
  t = ref(z, n, 1, w); r = dlite_idtypen(z, n); VH_CHECK(r == t, "idtype", "'%s': dlite_idtypen gives %d, expected %d", s, r, t);
  /* the normalised id */
  if (strlen(s) == (size_t)n && !vh_failed()) {
    static const char *B[] = {NULL, "http://ns.org", "http://ns.org/", "http://ns.org/x#"}; int b, len = n; char *e;
    if (n > 1 && strchr("/#", s[n-1])) len--;
    for (b=0; b<4; b++) {
      const char *base = B[b] ? B[b] : NS; e = malloc(n + 100);
      if (!n) *e = 0; else if (isurln(s, len)) sprintf(e, "%.*s", len, s); else sprintf(e, "%s%s%.*s", base, strchr("/#", base[strlen(base)-1]) ? "" : "/", len, s);
      m = strlen(e);
      r = dlite_normalise_id(NULL, 0, s, B[b]); VH_CHECK(r == (int)m, "normal", "'%s': length %d, expected %d", s, r, (int)m);
      for (k=1; k<m+3; k+=(m > 60 ? m/3 : 1)) { char *o = malloc(k); r = dlite_normalise_id(o, k, s, B[b]); VH_CHECK(r == (int)m && strlen(o) == (m < k ? m : k - 1) && !strncmp(o, e, strlen(o)), "normal", "'%s' normalises to '%s', expected '%s'", s, o, e); free(o); }
      { char *o = malloc(m+1); r = dlite_normalise_idn(o, m+1, z, n, B[b]); VH_CHECK(r == (int)m && !strcmp(o, e), "normaln", "'%s' normalises to '%s', expected '%s'", s, o, e);
        /* an id and its normalised id are the same instance */
        /* (a name that ends in a uuid or in more than one slash or hash looks different with the namespace before it) */
        if (!b && n && isurln(o, m) && !strchr("/#", o[m-1]) && (isurln(z, n) || len == 36 || len < 36 || !isu(z + len - 36)) && !vh_failed()) { ref(z, n, 1, w); _dlite_get_uuidn(u, o, m, 1); VH_CHECK(!strcmp(u, w), "same", "'%s' has uuid %s, but its normalised id '%s' has %s", s, w, o, u);
          /* normalising again changes nothing, unless more ends in a slash or hash */
          if (!strchr("/#", o[m-1])) { char *o2 = malloc(m+1); r = dlite_normalise_id(o2, m+1, o, NULL); VH_CHECK(r == (int)m && !strcmp(o2, o), "again", "'%s' normalises to '%s'", o, o2); free(o2); } }
        free(o); }
      free(e);
    }
  }
  (void)buf; sig = vh_hash(w, strlen(w), sig); free(z); free(s); vh_count_transitions(1);
}
static const char A[] = "aF0-/#:?\xc3 h";
static void rec(char *w, int n, int max) { int i; one(w, n); if (n == max) return; for (i=0; A[i]; i++) { w[n] = A[i]; rec(w, n+1, max); } }
static const char *U0 = "0a46cacf-ce65-5b5b-a7d7-ad32deaed748", *U1 = "0A46CACF-CE65-5B5B-A7D7-AD32DEAED748";
static const char *PRE[] = {"", "http://x/", "http://x", "http://example.com/d/", "ftp://a/b#", "http://x/?q=", "urn:uuid:", "x/", "C:/", "a:", "http://x.y/a b/", "http://0/"}, *POST[] = {"", "/", "#", "//", "+", "a", "#/"};
/* metadata uris */
static const char SA[] = "a/.:#";
static void split(const char *s)
{
  sig = vh_hash(s, strlen(s), sig);
  int n = strlen(s), r, ok = 0, i; char *z = malloc(n + 1), *a = NULL, *b = NULL, *c = NULL, *j; const char *p, *q = NULL;
  if (vh_failed()) { free(z); return; }
  strcpy(z, s); err_clear(); r = dlite_split_meta_uri(z, &a, &b, &c);
  /* namespace/version/name with a namespace */
  p = strrchr(s, '/'); if (p) for (q=p-1; q > s && *q != '/'; q--); ok = p && q > s && *q == '/';
  VH_CHECK((r == 0) == ok, "split", "splitting '%s' %s", s, r ? "fails" : "succeeds");
  if (r) { VH_CHECK(err_geteval(), "silent", "no error for '%s'", s); VH_CHECK(!a && !b && !c, "split", "something is assigned"); }
  else { j = dlite_join_meta_uri(a, b, c); VH_CHECK(j && !strcmp(j, s), "join", "'%s' is split and joined to '%s'", s, j ? j : "NULL"); VH_CHECK(!strchr(a, '/') && !strchr(b, '/'), "split", "'%s': name '%s' version '%s'", s, a, b); free(j);
    for (i=0; i<8; i++) { char *o[3] = {NULL, NULL, NULL}, *e[3] = {a, b, c}; int k; r = dlite_split_meta_uri(z, i & 1 ? o : NULL, i & 2 ? o + 1 : NULL, i & 4 ? o + 2 : NULL); VH_CHECK(!r, "split", "only some: fails"); for (k=0; k<3; k++) if (i >> k & 1) { VH_CHECK(o[k] && !strcmp(o[k], e[k]), "split", "part %d", k); free(o[k]); } }
    free(a); free(b); free(c); }
  err_clear(); free(z); vh_count_transitions(1);
}
static void srec(char *w, int n, int max) { int i; w[n] = 0; split(w); if (n == max) return; for (i=0; SA[i]; i++) { w[n] = SA[i]; srec(w, n+1, max); } }
static DLiteMeta *M;
static char *ids[4000]; static int nid;
static void addid(const char *s) { ids[nid++] = strdup(s); }
void vh_setup(void)
{
  DLiteProperty p[] = {{"i", dliteInt, 4, NULL, 0, NULL, NULL, NULL}}; int i, j, k; char w[200];
  err_set_stream(NULL); M = dlite_meta_create("http://vh.org/0.1/Id", NULL, 0, NULL, 1, p);
  for (i=0; i<2; i++) for (j=0; j<LEN(PRE); j++) for (k=0; k<LEN(POST); k++) { snprintf(w, sizeof(w), "%s%s%s", PRE[j], i ? U1 : U0, POST[k]); addid(w); }
  for (j=0; j<LEN(PRE); j++) for (k=0; k<LEN(POST); k++) { snprintf(w, sizeof(w), "%sname%s", PRE[j], POST[k]); addid(w); }
  addid(NS "/name"); addid(NS "/name/"); addid("/"); addid("#"); addid("Name"); addid(NS "/x/name");
  for (i=0; i<nid; i++) { DLiteInstance *q = dlite_instance_create(M, NULL, ids[i]); if (q) dlite_instance_decref(q); err_clear(); }
  split("a/b/c"); 
}
void vh_explore(void)
{
  int i, j, k, max = vh_arg("len", 4); char w[2000];
  for (i=0; A[i]; i++) for (j=0; A[j]; j++) if (vh_case("ids starting with %02x %02x", (unsigned char)A[i], (unsigned char)A[j])) { w[0] = A[i]; if (!j) one(w, 1); w[1] = A[j]; rec(w, 2, max); vh_observef("%lx", sig); vh_end(); }
  if (vh_case("no id")) { char u[37]; one("", 0); one(NULL, 0); VH_CHECK(dlite_get_uuid(u, NULL) == dliteIdRandom && isu(u), "null", "NULL"); VH_CHECK(dlite_idtype(NULL) == dliteIdRandom, "null", "idtype of NULL"); VH_CHECK(dlite_normalise_id(NULL, 0, NULL, NULL) == 0, "null", "normalised NULL"); vh_observef("%lx", sig); vh_end(); }
  for (i=0; i<LEN(PRE); i++) for (j=0; j<37; j++) if (vh_case("uuid %s position %d", PRE[i], j)) {
    static const char V[] = "09afAFgG-/# z\x80+"; int u, q;
    for (u=0; u<2; u++) for (q=0; q<LEN(POST); q++) {
      const char *U = u ? U1 : U0;
      for (k=0; V[k]; k++) { if (j < 36) { sprintf(w, "%s%s%s", PRE[i], U, POST[q]); w[strlen(PRE[i]) + j] = V[k]; one(w, strlen(w)); } sprintf(w, "%s%.*s%c%s%s", PRE[i], j, U, V[k], U + j, POST[q]); one(w, strlen(w)); }
      if (j < 36) { sprintf(w, "%s%.*s%s%s", PRE[i], j, U, U + j + 1, POST[q]); one(w, strlen(w)); }
    }
    vh_observef("%lx", sig); vh_end(); }
  for (i=0; i<LEN(PRE); i++) for (j=0; j<LEN(POST); j++) if (vh_case("long %s..%s", PRE[i], POST[j])) {
    int max2 = vh_arg("long", 340);
    for (k=0; k<max2; k++) { int l = strlen(PRE[i]), m; strcpy(w, PRE[i]); memset(w + l, 'n', k); for (m=0; m<k; m++) w[l+m] = 'a' + (m * 7 + k) % 26; strcpy(w + l + k, POST[j]); one(w, strlen(w)); sprintf(w + l + k, "/%s%s", k & 1 ? U0 : U1, POST[j]); one(w, strlen(w)); }
    vh_observef("%lx", sig); vh_end(); }
  /* instances are found under every id with the same uuid, and no other */
  for (i=0; i<nid; i++) if (vh_case("instance %s", ids[i])) {
    char u[37], v[37]; int t = ref(ids[i], strlen(ids[i]), dlite_behavior_get("namespacedID"), u), t2; DLiteInstance *q, *r; size_t h0 = vh_heap();
    err_clear(); q = dlite_instance_create(M, NULL, ids[i]); if (!q) vh_fail("create", "cannot create: %s", err_getmsg());
    else {
      VH_CHECK(!strcmp(q->uuid, u), "uuid", "uuid of the instance is %s, expected %s", q->uuid, u);
      VH_CHECK(t == dliteIdCopy || (q->uri && !strcmp(q->uri, ids[i])), "uri", "uri is %s", q->uri);
      VH_CHECK(!q->uri || (dlite_get_uuid(v, q->uri) >= 0 && !strcmp(v, u)), "uri", "uri %s has uuid %s", q->uri, v);
      { char *d = dlite_instance_default_uri(q); VH_CHECK(dlite_get_uuid(v, d) == dliteIdCopy && !strcmp(v, u), "default", "default uri %s has uuid %s", d, v); free(d); }
      for (j=0; j<nid && !vh_failed(); j++) { t2 = ref(ids[j], strlen(ids[j]), dlite_behavior_get("namespacedID"), v); r = dlite_instance_has(ids[j], 0); VH_CHECK((r == q) == !strcmp(u, v), "has", "asked for %s: %s", ids[j], r ? "found" : "not found"); (void)t2;
        if (!strcmp(u, v)) { r = dlite_instance_get(ids[j]); VH_CHECK(r == q, "get", "asked for %s", ids[j]); if (r) dlite_instance_decref(r); r = dlite_instance_create(M, NULL, ids[j]); VH_CHECK(r == q, "recreate", "created with %s", ids[j]); if (r) dlite_instance_decref(r); } vh_count_transitions(1); }
      dlite_instance_decref(q); err_clear(); VH_CHECK(!dlite_instance_has(ids[i], 0), "gone", "still there"); VH_CHECK(vh_heap() == h0, "leak", "%ld bytes lost", (long)(vh_heap() - h0));
    }
    vh_observef("%lx", sig); vh_end(); }
  for (i=0; SA[i]; i++) for (j=0; SA[j]; j++) if (vh_case("metadata uri %c%c", SA[i], SA[j])) { w[0] = SA[i]; if (!j) { w[1] = 0; split(w); } w[1] = SA[j]; srec(w, 2, vh_arg("slen", 7)); if (!i && !j) split(""); vh_observef("%lx", sig); vh_end(); }
  { static const char *NA[] = {"", "a", "A b", "x#", "\xc3\xa5", "a.b:c"}, *SP[] = {"", "n", "http://a/b", "/", "//", "a//", "http://x/"}; int ok;
    for (i=0; i<LEN(NA); i++) for (j=0; j<LEN(NA); j++) if (vh_case("join %s %s", NA[i], NA[j])) {
      for (k=0; k<LEN(SP); k++) { char *uri = dlite_join_meta_uri(NA[i], NA[j], SP[k]), *a = NULL, *b = NULL, *c = NULL; sprintf(w, "%s/%s/%s", SP[k], NA[j], NA[i]); VH_CHECK((uri && !strcmp(uri, w)) || (!uri && !*NA[i] && !*NA[j] && !*SP[k]), "join", "joined to %s", uri ? uri : "NULL"); if (!uri || !*SP[k]) { free(uri); continue; }
        ok = !dlite_split_meta_uri(uri, &a, &b, &c); VH_CHECK(ok, "split", "%s cannot be split", uri); if (ok) { VH_CHECK(!strcmp(a, NA[i]) && !strcmp(b, NA[j]) && !strcmp(c, SP[k]), "split", "%s is split into %s, %s, %s", uri, a, b, c); free(a); free(b); free(c); } free(uri); vh_count_transitions(1); }
      vh_observef("%lx", sig); vh_end(); } }
  if (vh_case("random uuids are distinct")) {
    int n = vh_arg("random", 20000); char (*t)[37] = malloc(n * 37); for (i=0; i<n; i++) { VH_CHECK(dlite_get_uuid(t[i], i & 1 ? NULL : "") == dliteIdRandom && isu(t[i]) && t[i][14] == '4' && strchr("89ab", t[i][19]), "random", "%.36s", t[i]); for (k=0; k<36; k++) if (isupper(t[i][k])) vh_fail("random", "upper case: %s", t[i]); if (vh_failed()) break; }
    qsort(t, n, 37, (void *)strcmp); for (i=1; i<n && !vh_failed(); i++) VH_CHECK(strcmp(t[i], t[i-1]), "random", "%s twice", t[i]); free(t); vh_count_transitions(n); vh_observef("%lx", sig); vh_end(); }
}
