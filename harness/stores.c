/* X06 X07 X10: string map + sessions, JSON store, search paths + string lists.
   Every history up to a bound against a plain list / dictionary model. */
#include "vh.h"
#include "config.h"
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <unistd.h>
#include <sys/stat.h>
#include "utils/err.h"
#include "utils/map.h"
#include "utils/session.h"
#include "utils/jstore.h"
#include "utils/strutils.h"
#include "utils/fileutils.h"

void vh_setup(void) { err_set_stream(NULL); }
#define LEN(a) ((int)(sizeof(a)/sizeof(*(a))))
static const char *esc(const char *s)
{
  static char b[4][600]; static int k; char *o = b[k++ & 3]; int m = 0;
  if (!s) return "NULL";
  for (; *s && m < 590; s++)
    if (*s > 31 && *s != 127 && *s != '\\') o[m++] = *s;
    else m += sprintf(o+m, "\\x%02x", (unsigned char)*s);
  o[m] = 0; return o;
}
static char *dup_exact(const char *s, size_t n) { char *p = malloc(n ? n : 1); memcpy(p, s, n); return p; }
static int s_eq(const char *a, const char *b) { return a == b || (a && b && !strcmp(a, b)); }

/* ================================================================= X06 maps */
static unsigned dj(const char *s) { unsigned h = 5381; while (*s) h = ((h<<5)+h) ^ *s++; return h; }
#define NK 6
static char KEYS[NK][8];
/* keys: a plain one, two with the same hash, two in the same small bucket, the empty key */
static void find_keys(void)
{
  int a, b, c, d, n = 0;
  strcpy(KEYS[0], "k"); KEYS[1][0] = 0;
  for (a='a'; a<='z' && !n; a++) for (b='a'; b<='z' && !n; b++) for (c=a+1; c<='z' && !n; c++) for (d='A'; d<='z' && !n; d++) {
    char x[3] = {a,b,0}, y[3] = {c,d,0};
    if (isalpha(d) && dj(x) == dj(y)) { strcpy(KEYS[2], x); strcpy(KEYS[3], y); n = 1; }
  }
  for (n=4, a='a'; n<NK && a<='z'; a++) { char x[3] = {'q',a,0}; if ((dj(x) & 15) == (dj("k") & 15)) strcpy(KEYS[n++], x); }
  while (n < NK) { sprintf(KEYS[n], "zz%d", n); n++; }
}
typedef struct { char c[3]; } Odd;
typedef map_t(Odd) map_odd_t;
static void map_compare(map_odd_t *m, const int *val)
{
  int i, n = 0, left[NK]; map_iter_t it; const char *key;
  for (i=0; i<NK; i++) {
    Odd *p = map_get(m, KEYS[i]);
    VH_CHECK(!p == !val[i] && (!p || p->c[0] == val[i]), "get", "key '%s': got %d, expected %d", KEYS[i], p ? p->c[0] : 0, val[i]);
    left[i] = !!val[i];
  }
  VH_CHECK(!map_get(m, "never-set"), "get", "a key that was never set is found");
  it = map_iter(m);
  while ((key = map_next(m, &it)) && n++ < 50) {
    for (i=0; i<NK && strcmp(KEYS[i], key); i++);
    VH_CHECK(i < NK && left[i], "iterate", "'%s' visited twice or unknown", key);
    if (i < NK) left[i] = 0;
  }
  for (i=0; i<NK; i++) VH_CHECK(!left[i], "iterate", "'%s' not visited", KEYS[i]);
}
static void map_histories(int depth)
{
  int nops = NK*3, o1, o2, i, j; long total = 1, k;
  for (i=2; i<depth; i++) total *= nops;
  for (o1=0; o1<nops; o1++) for (o2=0; o2<nops; o2++)
    if (vh_case("map %d %d ...", o1, o2)) {
      for (k=0; k<total && !vh_failed(); k++) {
        map_odd_t m; int val[NK] = {0}; long r = k; int ops[12];
        ops[0] = o1; ops[1] = o2;
        for (i=2; i<depth; i++, r /= nops) ops[i] = r % nops;
        map_init(&m);
        for (i=0; i<depth; i++) {
          int key = ops[i] / 3, what = ops[i] % 3;
          if (what == 2) { map_remove(&m, KEYS[key]); val[key] = 0; }
          else { Odd v = {{(char)(1+what), 'x', 'y'}}; char *kk = dup_exact(KEYS[key], strlen(KEYS[key])+1);
            VH_CHECK(!map_set(&m, kk, v), "set", "map_set failed"); memset(kk, '#', strlen(kk)); free(kk); val[key] = 1+what; }
        }
        map_compare(&m, val);
        if (vh_failed()) for (j=0; j<depth; j++) vh_trace("%s %s; ", ops[j]%3 == 2 ? "remove" : "set", KEYS[ops[j]/3]);
        map_deinit(&m);
        vh_count_states(1);
      }
      vh_count_transitions(total*depth);
      vh_observef("%d %d", o1, o2); vh_end();
    }
}
static void map_growth(void)
{
  int n, pat;
  for (n=0; n<=140; n++) for (pat=0; pat<4; pat++)
    if (vh_case("map growth n=%d removal=%d", n, pat)) {
      map_double_t m; char *present = calloc(n+1, 1); char key[64]; int i, k, cnt; map_iter_t it; const char *q;
      size_t h0;
      map_init(&m); h0 = vh_heap();
      #define KEY(i) (sprintf(key, "%0*d", 1 + (i) % 23, (i)), key)
      for (i=0; i<n; i++) { VH_CHECK(!map_set(&m, KEY(i), i + 0.5), "set", "set"); present[i] = 1; }
      for (k=0; k<n; k++) {
        i = pat == 0 ? k : pat == 1 ? n-1-k : pat == 2 ? (k*7)%n : (k%2 ? k : -1);
        if (i >= 0) { map_remove(&m, KEY(i)); present[i] = 0; }
        if (k%5 == 4) map_set(&m, KEY(k/2), k/2 + 0.5), present[k/2] = 1;
        if (k == n/2 || k == n-1) {
          for (i=0; i<n; i++) { double *p = map_get(&m, KEY(i)); VH_CHECK(!p == !present[i] && (!p || *p == i + 0.5), "get", "key %d of %d", i, n); }
          for (cnt=0, it = map_iter(&m); (q = map_next(&m, &it)); cnt++) { i = atoi(q); VH_CHECK(i < n && present[i], "iterate", "%s", q); }
          for (i=0; i<n; i++) cnt -= present[i];
          VH_CHECK(!cnt, "iterate", "%d too many or few", cnt);
        }
      }
      map_deinit(&m);
      VH_CHECK(vh_heap() <= h0, "leak", "%zu bytes", vh_heap() - h0);
      free(present);
      vh_observef("%d %d", n, pat); vh_end();
    }
}

/* ================================================================= X06 sessions */
/* tokens: state objects; each registered one is freed exactly once */
static int tok_freed[64], tok_n, reenter; static Session *cur_free;
static void free_tok(void *p)
{
  tok_freed[(int)(size_t)p - 1]++;
  if (reenter && cur_free) {
    VH_CHECK(session_add_state(cur_free, "late", (void *)1, NULL), "late-add", "state added while its session is being freed");
    session_get_state(cur_free, "x");
  }
}
typedef struct { int alive, tok[2], hasfree[2]; } MS;     /* session model */
static const char *SID[] = {"A", "B", ":default-session:"}, *SNAME[] = {"x", "y"};
#define SOPS 24
static const char *SOPNAME[SOPS] = {"create A","create B","free A","free B","free default","default?","default=A","default=B",
  "A.x+","A.y+","B.x+","B.y+","D.x+","D.y+","A.x-","A.y-","B.x-","B.y-","D.x-","D.y-","create A again (must fail)","A.x (static)+","get C (must fail)","remove A.z (must fail)"};
static void session_run(const int *ops, int n)
{
  MS m[3]; Session *p[3] = {0,0,0}; int def = -1 /* which model session is default */, i, j, k; int expect[64]; int statics[64] = {0};
  memset(m, 0, sizeof(m)); memset(tok_freed, 0, sizeof(tok_freed)); tok_n = 0; memset(expect, 0, sizeof(expect));
#define KILL(s) do { for (j=0; j<2; j++) if (m[s].tok[j]) expect[m[s].tok[j]-1] = m[s].hasfree[j]; \
    cur_free = p[s]; session_free(p[s]); cur_free = NULL; memset(&m[s], 0, sizeof(m[s])); p[s] = NULL; if (def == (s)) def = -1; } while (0)
  for (i=0; i<n; i++) {
    int op = ops[i], s, r;
    if (op < 2) { s = op; if (m[s].alive) continue;
      p[s] = session_create(SID[s]); VH_CHECK(p[s] != NULL, "create", "cannot create %s", SID[s]); if (!p[s]) break; m[s].alive = 1; }
    else if (op < 4) { s = op-2; if (!m[s].alive) continue; KILL(s); }
    else if (op == 4) { if (def < 0) continue; s = def; KILL(s); }
    else if (op == 5) { Session *d = session_get_default();
      if (def < 0) { def = 2; m[2].alive = 1; p[2] = d; VH_CHECK(d && d != p[0] && d != p[1], "default", "no new default session"); }
      VH_CHECK(d == p[def], "default", "wrong default session"); }
    else if (op < 8) { s = op-6; if (!m[s].alive) continue; r = session_set_default(p[s]);
      if (def < 0) { VH_CHECK(!r, "set-default", "refused"); def = s; }
      else VH_CHECK(!r == (def == s), "set-default", "%s although %s is default", r ? "refused" : "accepted", SID[def]); }
    else if (op < 20) { s = (op-8)%6/2; k = (op-8)%2; if (s == 2) s = def; if (s < 0 || !m[s].alive) continue;
      if (op < 14) { r = session_add_state(p[s], SNAME[k], (void *)(size_t)(tok_n+1), free_tok);
        VH_CHECK(!r == !m[s].tok[k], "add-state", "%s.%s: status %d", SID[s], SNAME[k], r);
        if (!m[s].tok[k]) { m[s].tok[k] = ++tok_n; m[s].hasfree[k] = 1; } }
      else { r = session_remove_state(p[s], SNAME[k]); VH_CHECK(!r == !!m[s].tok[k], "remove-state", "%s.%s: status %d", SID[s], SNAME[k], r);
        if (m[s].tok[k]) { expect[m[s].tok[k]-1] = m[s].hasfree[k]; m[s].tok[k] = 0; } } }
    else if (op == 20) { if (!m[0].alive) continue; VH_CHECK(!session_create("A"), "create", "second session with the same id"); }
    else if (op == 21) { if (!m[0].alive) continue; r = session_add_state(p[0], "x", (void *)(size_t)(tok_n+1), NULL);
      VH_CHECK(!r == !m[0].tok[0], "add-state", "static"); if (!m[0].tok[0]) { m[0].tok[0] = ++tok_n; m[0].hasfree[0] = 0; } }
    else if (op == 22) VH_CHECK(!session_get("C"), "get", "unknown session found");
    else { if (m[0].alive) VH_CHECK(session_remove_state(p[0], "z"), "remove-state", "unknown state removed"); }
    err_clear();
    /* compare everything observable */
    for (s=0; s<3; s++) {
      Session *q = (s == 2 && def != 2) ? NULL : session_get(SID[s]);
      if (s < 2 || def == 2) VH_CHECK(q == p[s], "get", "session %s", SID[s]);
      if (p[s]) {
        VH_CHECK(!strcmp(session_get_id(p[s]), SID[s]), "id", "session %s says '%s'", SID[s], session_get_id(p[s]));
        for (k=0; k<2; k++) VH_CHECK(session_get_state(p[s], SNAME[k]) == (void *)(size_t)m[s].tok[k], "get-state", "%s.%s", SID[s], SNAME[k]);
      }
    }
    if (def >= 0) VH_CHECK(session_get_default() == p[def], "default", "default is not %s", SID[def]);
    err_clear();
    for (k=0; k<tok_n; k++) VH_CHECK(tok_freed[k] == expect[k], "free-once", "state %d freed %d times, expected %d", k, tok_freed[k], expect[k]);
    if (vh_failed()) { vh_trace("after op %d: ", i); return; }
  }
  for (k=0; k<3; k++) if (p[k]) KILL(k);
  for (k=0; k<tok_n; k++) VH_CHECK(tok_freed[k] == expect[k], "free-once", "state %d freed %d times at the end, expected %d", k, tok_freed[k], expect[k]);
  err_clear();
}
static void session_histories(int depth)
{
  int o1, o2, i; long total = 1, k;
  for (i=2; i<depth; i++) total *= SOPS;
  for (reenter=0; reenter<2; reenter++)
    for (o1=0; o1<SOPS; o1++) for (o2=0; o2<SOPS; o2++)
      if (vh_case("session re=%d '%s' '%s' ...", reenter, SOPNAME[o1], SOPNAME[o2])) {
        size_t h0 = 0; int ops[12];
        for (k=0; k<total && !vh_failed(); k++) {
          long r = k;
          ops[0] = o1; ops[1] = o2; for (i=2; i<depth; i++, r /= SOPS) ops[i] = r % SOPS;
          session_run(ops, depth);
          vh_count_states(1);
          if (k == 0) h0 = vh_heap();
          if (vh_failed()) for (i=0; i<depth; i++) vh_trace("%s; ", SOPNAME[ops[i]]);
        }
        if (!vh_failed()) VH_CHECK(vh_heap() <= h0 + 4096, "leak", "%zu bytes over %ld histories", vh_heap() - h0, total);
        vh_count_transitions(total*depth);
        vh_observef("%d %d", o1, o2); vh_end();
      }
}

/* ================================================================= X07 */
/* tiny strict JSON reader (independent of jsmn): object of key -> raw value */
typedef struct { char key[8][64]; char val[8][128]; int n; } Doc;
static const char *ws(const char *p) { while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') p++; return p; }
static const char *jstr(const char *p, char *out)          /* NULL on error */
{
  int n = 0;
  if (*p++ != '"') return NULL;
  while (*p != '"') {
    unsigned char c = *p++;
    if (c < 32) return NULL;
    if (c == '\\') {
      c = *p++;
      switch (c) {
      case '"': case '\\': case '/': break;
      case 'b': c = '\b'; break; case 'f': c = '\f'; break; case 'n': c = '\n'; break; case 'r': c = '\r'; break; case 't': c = '\t'; break;
      case 'u': { char h[5] = {0}; int i; unsigned v; for (i=0; i<4; i++) { if (!isxdigit((unsigned char)p[i])) return NULL; h[i] = p[i]; }
        v = strtoul(h, NULL, 16); p += 4; if (v > 127) { if (out) out[n++] = 0xc0 | v>>6; c = 0x80 | (v&63); } else c = v; break; }
      default: return NULL;
      }
    }
    if (out && n < 60) out[n++] = c; else n++;
  }
  if (out) out[n] = 0;
  return p+1;
}
static const char *jval(const char *p)
{
  p = ws(p);
  if (*p == '"') return jstr(p, NULL);
  if (*p == '{' || *p == '[') {
    char o = *p; p = ws(p+1);
    if (*p == (o == '{' ? '}' : ']')) return p+1;
    for (;;) {
      if (o == '{') { if (!(p = jstr(ws(p), NULL))) return NULL; p = ws(p); if (*p++ != ':') return NULL; }
      if (!(p = jval(p))) return NULL;
      p = ws(p);
      if (*p == ',') { p++; continue; }
      return *p == (o == '{' ? '}' : ']') ? p+1 : NULL;
    }
  }
  if (!strncmp(p, "true", 4) || !strncmp(p, "null", 4)) return p+4;
  if (!strncmp(p, "false", 5)) return p+5;
  { const char *q = p; if (*q == '-') q++; if (!isdigit((unsigned char)*q)) return NULL;
    if (*q == '0') q++; else while (isdigit((unsigned char)*q)) q++;
    if (*q == '.') { q++; if (!isdigit((unsigned char)*q)) return NULL; while (isdigit((unsigned char)*q)) q++; }
    if (*q == 'e' || *q == 'E') { q++; if (*q == '+' || *q == '-') q++; if (!isdigit((unsigned char)*q)) return NULL; while (isdigit((unsigned char)*q)) q++; }
    return q; }
}
static int jdoc(const char *p, Doc *d)
{
  d->n = 0; p = ws(p);
  if (*p++ != '{') return 0;
  p = ws(p);
  if (*p == '}') return !*ws(p+1);
  for (;;) {
    const char *v;
    if (d->n >= 8 || !(p = jstr(ws(p), d->key[d->n]))) return 0;
    p = ws(p); if (*p++ != ':') return 0;
    v = ws(p); if (!(p = jval(v))) return 0;
    snprintf(d->val[d->n], 128, "%.*s", (int)(p - v), v); d->n++;
    p = ws(p);
    if (*p == ',') { p++; continue; }
    return *p == '}' && !*ws(p+1);
  }
}
static const char *JK[] = {"a", "k\"\\\n\x01" "e", "", "\xc3\xa9/b"}, *JV[] = {"1", "\"s\\\"q\"", "{\"a\": [1, 2, {\"}\": null}]}", "[]", "-0.5e3"};
static const char *JDOC[] = {"{}", "{\"a\":true}", " { \"\" : \"x\" , \"a\" : {\"b\":1,\"c\":[{},[]]},\"\\u00e9\\/b\":null}\n",
  "{\"k\\\"\\\\\\n\\u0001e\": [\"\\\"\", 2], \"a\": 3, \"a\": 4}", "{\"a\":[", "", "[1]", "nul"};
/* expected effect of a document: key index -> raw value; -1 terminated; NULL: error */
typedef struct { int k; const char *v; } KV;
static const KV JEFF[][5] = { {{-1}}, {{0,"true"},{-1}}, {{2,"\"x\""},{0,"{\"b\":1,\"c\":[{},[]]}"},{3,"null"},{-1}}, {{1,"[\"\\\"\", 2]"},{0,"4"},{-1}} };
#define NJK 4
typedef struct { char *v[NJK]; char *lab[NJK]; int labstale[NJK]; } JM;
static void mset(JM *m, int k, const char *v) { free(m->v[k]); m->v[k] = v ? strdup(v) : NULL; }
static void jcompare(JStore *js, JM *m, const char *what)
{
  int i, n = 0, left[NJK]; JStoreIter it; const char *key, *one; char *s; Doc d; int single = -1;
  for (i=0; i<NJK; i++) { if (m->v[i]) { n++; single = i; } left[i] = !!m->v[i];
    VH_CHECK(s_eq(jstore_get(js, JK[i]), m->v[i]), "get", "%s: '%s': got %s, expected %s", what, esc(JK[i]), esc(jstore_get(js, JK[i])), esc(m->v[i]));
    if (!m->labstale[i]) VH_CHECK(s_eq(jstore_get_label(js, JK[i]), m->lab[i]), "label", "%s: '%s': label %s, expected %s", what, esc(JK[i]), esc(jstore_get_label(js, JK[i])), esc(m->lab[i])); }
  VH_CHECK(jstore_count(js) == n, "count", "%s: %d, expected %d", what, jstore_count(js), n);
  one = jstore_get_single_key(js);
  VH_CHECK(n == 1 ? one && !strcmp(one, JK[single]) : !one, "single-key", "%s: %s", what, esc(one));
  jstore_iter_init(js, &it);
  while ((key = jstore_iter_next(&it))) { for (i=0; i<NJK && strcmp(JK[i], key); i++); VH_CHECK(i<NJK && left[i], "iterate", "%s: '%s' twice or unknown", what, esc(key)); if (i<NJK) left[i] = 0; }
  jstore_iter_deinit(&it);
  for (i=0; i<NJK; i++) VH_CHECK(!left[i], "iterate", "%s: '%s' not visited", what, esc(JK[i]));
  s = jstore_to_string(js);
  VH_CHECK(s && jdoc(s, &d) && d.n == n, "valid-json", "%s: %s", what, esc(s));
  if (s && !vh_failed()) for (i=0; i<d.n; i++) {
    int k; for (k=0; k<NJK && strcmp(JK[k], d.key[i]); k++);
    VH_CHECK(k<NJK && m->v[k] && !strcmp(m->v[k], d.val[i]), "to-string", "%s: key '%s' value %s", what, esc(d.key[i]), esc(d.val[i]));
  }
  free(s);
}
#define JOPS (NJK*4 + NJK + 8 + 4 + 3)
static void jop(JStore **pjs, JM *m, int op, const char *file)
{
  JStore *js = *pjs; int i, r;
  if (op < NJK*4) { int k = op/4, how = op%4; const char *v = JV[(k + how*2) % 5];
    if (how == 0) r = jstore_add(js, JK[k], v);
    else if (how == 1) { char kb[64], vb[128]; snprintf(kb, sizeof kb, "%s+", JK[k]); snprintf(vb, sizeof vb, "%s,7", v);
      r = *JK[k] ? jstore_addn(js, kb, strlen(JK[k]), vb, strlen(v)) : jstore_addn(js, JK[k], 0, v, 0); }
    else if (how == 2) r = jstore_addstolen(js, JK[k], strdup(v));
    else r = jstore_addn(js, JK[k], 0, v, strlen(v));
    vh_trace("add%d('%s') ", how, esc(JK[k]));
    VH_CHECK(!r, "add", "status %d", r); mset(m, k, v); return; }
  op -= NJK*4;
  if (op < NJK) { vh_trace("remove('%s') ", esc(JK[op])); r = jstore_remove(js, JK[op]); VH_CHECK(!r == !!m->v[op], "remove", "status %d", r);
    if (m->v[op] && m->lab[op]) m->labstale[op] = 1;
    mset(m, op, NULL); return; }
  op -= NJK;
  if (op < 8) { char *b = dup_exact(JDOC[op], strlen(JDOC[op])); vh_trace("update(%s) ", esc(JDOC[op]));
    /* the text need not be terminated */
    if (op >= 4) { free(b); b = strdup(JDOC[op]); }
    r = jstore_update_from_string(js, b, strlen(JDOC[op])); free(b);
    VH_CHECK(!r == (op < 4), "update", "status %d for %s", r, esc(JDOC[op]));
    if (op < 4) for (i=0; JEFF[op][i].k >= 0; i++) mset(m, JEFF[op][i].k, JEFF[op][i].v);
    err_clear(); return; }
  op -= 8;
  if (op == 0) { JStore *o = jstore_open(); JM om; memset(&om, 0, sizeof om); vh_trace("update(other) ");
    for (i=0; i<NJK; i+=2) { jstore_add(o, JK[i], JV[i]); mset(&om, i, JV[i]); mset(m, i, JV[i]); }
    VH_CHECK(!jstore_update(js, o), "update", "status");
    jcompare(o, &om, "source of update"); jstore_close(o); for (i=0; i<NJK; i++) mset(&om, i, NULL); return; }
  if (op == 1) { char *s = jstore_to_string(js); JStore *n = jstore_open(); vh_trace("string round trip ");
    VH_CHECK(!jstore_update_from_string(n, s, strlen(s)), "reload", "cannot read own output: %s", esc(s)); free(s); jstore_close(js); *pjs = n;
    for (i=0; i<NJK; i++) { free(m->lab[i]); m->lab[i] = NULL; m->labstale[i] = 0; } return; }
  if (op == 2) { JStore *n = jstore_open(); vh_trace("file round trip ");
    VH_CHECK(!jstore_to_file(js, file), "save", "status"); VH_CHECK(!jstore_update_from_file(n, file), "reload", "cannot read own file");
    jstore_close(js); *pjs = n; for (i=0; i<NJK; i++) { free(m->lab[i]); m->lab[i] = NULL; m->labstale[i] = 0; } return; }
  if (op == 3) { FILE *fp = fopen(file, "w"); JStore *n; JM fm; vh_trace("update_file "); fputs(JDOC[2], fp); fclose(fp); memset(&fm, 0, sizeof fm);
    for (i=0; JEFF[2][i].k >= 0; i++) mset(&fm, JEFF[2][i].k, JEFF[2][i].v);
    for (i=0; i<NJK; i++) if (m->v[i]) mset(&fm, i, m->v[i]);
    VH_CHECK(!jstore_update_file(js, file), "update-file", "status"); n = jstore_open();
    VH_CHECK(!jstore_update_from_file(n, file), "reload", "updated file"); jcompare(n, &fm, "updated file"); jstore_close(n);
    for (i=0; i<NJK; i++) mset(&fm, i, NULL); return; }
  op -= 4;
  { int k = op; const char *l = op == 0 ? "lab" : op == 1 ? "" : "other"; vh_trace("label('%s') ", esc(JK[k]));
    r = op == 0 ? jstore_set_label(js, JK[k], l) : op == 1 ? jstore_set_labeln(js, JK[k], "zz", 0) : jstore_set_labeln(js, JK[k], "otherxyz", 5);
    VH_CHECK(!r, "label", "status %d", r); free(m->lab[k]); m->lab[k] = strdup(l); m->labstale[k] = 0; }
}
static void jrun(const int *ops, int n, const char *file)
{
  JStore *js = jstore_open(); JM m; int i; memset(&m, 0, sizeof m);
  for (i=0; i<n; i++) jop(&js, &m, ops[i], file);
  jcompare(js, &m, "final");
  jstore_close(js); for (i=0; i<NJK; i++) { mset(&m, i, NULL); free(m.lab[i]); }
}
static void x07(int depth)
{
  char file[600]; int o1, o2, i; long total = 1, k;
  snprintf(file, sizeof file, "%s/js.json", vh_scratch());
  for (i=2; i<depth; i++) total *= JOPS;
  for (o1=0; o1<JOPS; o1++) for (o2=0; o2<JOPS; o2++)
    if (vh_case("jstore %d %d ...", o1, o2)) {
      for (k=0; k<total && !vh_failed(); k++) { int ops[12]; long r = k; size_t h0, h1;
        ops[0] = o1; ops[1] = o2; for (i=2; i<depth; i++, r /= JOPS) ops[i] = r % JOPS;
        jrun(ops, depth, file);
        if (k % 37 == 0) { h0 = vh_heap(); jrun(ops, depth, file); h1 = vh_heap(); if (h1 > h0) { jrun(ops, depth, file); VH_CHECK(vh_heap() <= h1, "leak", "%zu bytes", vh_heap()-h1); } }
        vh_count_states(1); if (vh_failed()) vh_trace("(history %ld)", k);
      }
      vh_count_transitions(total*depth);
      vh_observef("%d %d", o1, o2); vh_end();
    }
  /* many keys: everything survives growth, saving and reloading */
  for (k=0; k<=80; k++) if (vh_case("jstore %ld keys", k)) {
    JStore *js = jstore_open(), *n = jstore_open(); char key[32], val[300];
    for (i=0; i<k; i++) { sprintf(key, "k\t%d", i); sprintf(val, "\"%0*d\"", i*3+1, i); jstore_add(js, key, val); }
    for (i=0; i<k; i+=3) { sprintf(key, "k\t%d", i); jstore_remove(js, key); }
    VH_CHECK(!jstore_to_file(js, file) && !jstore_update_from_file(n, file), "reload", "file round trip");
    VH_CHECK(jstore_count(n) == k - (k+2)/3, "count", "%d", jstore_count(n));
    for (i=0; i<k; i++) { const char *v; sprintf(key, "k\t%d", i); sprintf(val, "\"%0*d\"", i*3+1, i); v = jstore_get(n, key); VH_CHECK(i%3 ? v && !strcmp(v, val) : !v, "get", "key %d", i); }
    jstore_close(js); jstore_close(n); vh_observef("%ld", k); vh_end();
  }
}

/* ================================================================= X10 */
#define PMAX 40
typedef struct { char *p[PMAX]; int n; } PM;
static void m_ins(PM *m, const char *s, int i) { int j; for (j=m->n; j>i; j--) m->p[j] = m->p[j-1]; m->p[i] = strdup(s); m->n++; }
static void m_del(PM *m, int i) { free(m->p[i]); for (; i<m->n-1; i++) m->p[i] = m->p[i+1]; m->n--; }
static int m_find(PM *m, const char *s) { int i; for (i=0; i<m->n; i++) if (!strcmp(m->p[i], s)) return i; return -1; }
static void m_clear(PM *m) { while (m->n) m_del(m, m->n-1); }
/* insert before n, moving an already present path: resulting index or -1 */
static int m_insert(PM *m, const char *s, int n)
{
  int i;
  if (n < -m->n || n > m->n) return -1;
  if (n < 0) n += m->n;
  if ((i = m_find(m, s)) >= 0) { if (i == n || (n == m->n && i == m->n-1)) return i; m_del(m, i); if (n > i) n--; }
  m_ins(m, s, n); return n;
}
/* given and as it should be stored */
static const char *PT[][2] = { {"/a","/a"}, {"/b","/b"}, {"c/d","c/d"}, {"/e//f///g","/e/f/g"}, {"h\\i","h/i"} };
#define NPT 5
static void pcompare(FUPaths *P, PM *m)
{
  int i; const char **q = fu_paths_get(P); char *s, want[2000] = "";
  VH_CHECK((int)P->n == m->n, "count", "%d paths, expected %d", (int)P->n, m->n);
  VH_CHECK(m->n ? q != NULL : q == NULL, "get", "NULL-ness of an %s list", m->n ? "non-empty" : "empty");
  if (q) for (i=0; i<=m->n && i <= (int)P->n; i++)
    VH_CHECK(i < m->n ? q[i] && !strcmp(q[i], m->p[i]) : !q[i], "order", "position %d: %s, expected %s", i, esc(q[i]), i < m->n ? m->p[i] : "NULL");
  for (i=0; i<NPT; i++) VH_CHECK(fu_paths_index(P, PT[i][1]) == m_find(m, PT[i][1]), "index", "%s: %d, expected %d", PT[i][1], fu_paths_index(P, PT[i][1]), m_find(m, PT[i][1]));
  for (i=0; i<m->n; i++) { strcat(want, m->p[i]); if (i < m->n-1) strcat(want, ":"); }
  s = fu_paths_string(P); VH_CHECK(s && !strcmp(s, want), "string", "'%s', expected '%s'", esc(s), want); free(s);
}
#define POPS (NPT*7 + NPT + 3 + 6 + NPT)
static void pop_(FUPaths *P, PM *m, int op)
{
  int r, w, k, n;
  if (op < NPT*7) { k = op/7; n = op%7 - 3; vh_trace("insert('%s',%d) ", PT[k][0], n); w = m_insert(m, PT[k][1], n); r = fu_paths_insert(P, PT[k][0], n); VH_CHECK(r == w, "insert", "%s at %d: %d, expected %d", PT[k][0], n, r, w); return; }
  op -= NPT*7;
  if (op < NPT) { char b[64]; sprintf(b, "%s/zz", PT[op][0]); vh_trace("appendn('%s') ", PT[op][0]); w = m_insert(m, PT[op][1], m->n); r = op%2 ? fu_paths_append(P, PT[op][0]) : fu_paths_appendn(P, b, strlen(PT[op][0])); VH_CHECK(r == w, "append", "%s: %d, expected %d", PT[op][0], r, w); return; }
  op -= NPT;
  if (op == 0) { vh_trace("extend('/b:/q') "); m_insert(m, "/b", m->n); w = m_insert(m, "/q", m->n); r = fu_paths_extend(P, "/b:/q", ":"); VH_CHECK(r == w, "extend", "%d, expected %d", r, w); return; }
  if (op == 1) { vh_trace("extend_prefix('/p','x:/a::h') "); m_insert(m, "/p/x", m->n); m_insert(m, "/a", m->n); w = m_insert(m, "/p/h", m->n); r = fu_paths_extend_prefix(P, "/p", "x:/a::h", ":"); VH_CHECK(r == w, "extend", "%d, expected %d", r, w); return; }
  if (op == 2) { vh_trace("extend(NULL) "); r = fu_paths_extend(P, NULL, ":"); VH_CHECK(r == 0, "extend", "%d", r); return; }
  op -= 3;
  if (op < 6) { n = op - 3; vh_trace("remove_index(%d) ", n); w = n >= -m->n && n < m->n; if (w) m_del(m, n < 0 ? n + m->n : n); r = fu_paths_remove_index(P, n); VH_CHECK(!r == w, "remove-index", "%d: status %d", n, r); return; }
  op -= 6;
  vh_trace("remove('%s') ", PT[op][1]); w = m_find(m, PT[op][1]); if (w >= 0) m_del(m, w); r = fu_paths_remove(P, PT[op][1]); VH_CHECK(!r == (w >= 0), "remove", "%s: status %d", PT[op][1], r);
}
static void x10_histories(int depth)
{
  int o1, o2, i; long total = 1, k;
  for (i=2; i<depth; i++) total *= POPS;
  for (o1=0; o1<POPS; o1++) for (o2=0; o2<POPS; o2++)
    if (vh_case("paths %d %d ...", o1, o2)) { size_t h0 = 0;
      for (k=0; k<total && !vh_failed(); k++) { FUPaths P; PM m; int ops[12]; long r = k; m.n = 0;
        ops[0] = o1; ops[1] = o2; for (i=2; i<depth; i++, r /= POPS) ops[i] = r % POPS;
        fu_paths_init(&P, NULL);
        for (i=0; i<depth; i++) pop_(&P, &m, ops[i]);
        pcompare(&P, &m); fu_paths_deinit(&P); m_clear(&m); err_clear();
        if (!k) h0 = vh_heap();
        vh_count_states(1); if (vh_failed()) vh_trace("(history %ld)", k);
      }
      VH_CHECK(vh_heap() <= h0 + 4096, "leak", "%zu bytes", vh_heap()-h0);
      vh_count_transitions(total*depth); vh_observef("%d %d", o1, o2); vh_end();
    }
  for (k=0; k<=36; k++) for (i=0; i<3; i++) if (vh_case("paths grow %ld %d", k, i)) {     /* past the allocation chunk */
    FUPaths P; PM m; int j; char b[32]; m.n = 0; fu_paths_init(&P, NULL);
    for (j=0; j<k; j++) { sprintf(b, "/n%d", j); m_insert(&m, b, i == 0 ? m.n : i == 1 ? 0 : m.n/2); fu_paths_insert(&P, b, i == 0 ? (int)P.n : i == 1 ? 0 : (int)P.n/2); pcompare(&P, &m); }
    while (m.n) { m_del(&m, m.n/2); fu_paths_remove_index(&P, P.n/2); pcompare(&P, &m); }
    fu_paths_deinit(&P); vh_observef("%ld %d", k, i); vh_end(); }
}
/* string lists */
static void x10_strlst(int depth)
{
  static const char *S[] = {"a", "", "ccc"}; enum { N = 3*9 + 3 + 9 + 9 }; int o1, i; long total = 1, k;
  for (i=1; i<depth; i++) total *= N;
  for (o1=0; o1<N; o1++) if (vh_case("strlst %d ...", o1)) { size_t h0 = 0;
    for (k=0; k<total && !vh_failed(); k++) { char **L = NULL; size_t n = 0; PM m; long r = k; int ops[12], j; m.n = 0;
      ops[0] = o1; for (i=1; i<depth; i++, r /= N) ops[i] = r % N;
      for (i=0; i<depth; i++) { int op = ops[i];
        if (op < 27) { int at = op%9 - 4, pos = at < 0 ? at + m.n : at; if (pos < 0 || pos > m.n) pos = m.n; m_ins(&m, S[op/9], pos); L = strlst_insert(L, &n, S[op/9], at); VH_CHECK(L != NULL, "strlst-insert", "failed"); }
        else if (op < 30) { m_ins(&m, S[op-27], m.n); L = strlst_append(L, &n, S[op-27]); }
        else if (!L) continue;
        else { int pop = op >= 39, at = (op-30)%9 - 4, pos = at < 0 ? at + m.n : at, ok = pos >= 0 && pos < m.n; char *w = ok ? strdup(m.p[pos]) : NULL;
          if (ok) m_del(&m, pos);
          if (pop) { char *s = strlst_pop(L, at); VH_CHECK(s_eq(s, w), "strlst-pop", "pop(%d): %s, expected %s", at, esc(s), esc(w)); free(s); }
          else { int st = strlst_remove(L, at); VH_CHECK(!st == ok, "strlst-remove", "remove(%d): %d", at, st); }
          free(w); }
        if (L) for (j=-6; j<=6; j++) { int pos = j < 0 ? j + m.n : j; const char *w = pos >= 0 && pos < m.n ? m.p[pos] : NULL; VH_CHECK(s_eq(strlst_get(L, j), w), "strlst-get", "get(%d) of %d: %s, expected %s", j, m.n, esc(strlst_get(L, j)), esc(w)); }
        VH_CHECK((int)strlst_count(L) == m.n, "strlst-count", "%d, expected %d", (int)strlst_count(L), m.n);
        if (L) VH_CHECK(n > (size_t)m.n, "strlst-size", "%d items in %d", m.n, (int)n);
      }
      strlst_free(L); m_clear(&m); if (!k) h0 = vh_heap(); vh_count_states(1);
    }
    VH_CHECK(vh_heap() <= h0 + 4096, "leak", "%zu", vh_heap()-h0);
    vh_count_transitions(total*depth); vh_observef("%d", o1); vh_end(); }
  for (i=0; i<=100; i++) if (vh_case("strlst grow %d", i)) { char **L = NULL; size_t n = 0; int j; char b[16];
    for (j=0; j<i; j++) { sprintf(b, "%d", j); L = strlst_append(L, &n, b); }
    for (j=0; j<i; j++) VH_CHECK(atoi(strlst_get(L, j)) == j, "strlst-get", "%d", j);
    VH_CHECK((int)strlst_count(L) == i, "strlst-count", "%d", i); strlst_free(L); vh_observef("%d", i); vh_end(); }
}
/* file lookup over directories */
static char base[512];
static void touch(const char *rel) { char b[700]; FILE *f; snprintf(b, sizeof b, "%s/%s", base, rel); f = fopen(b, "w"); if (f) fclose(f); }
static int cmpstr(const void *a, const void *b) { return strcmp(*(char **)a, *(char **)b); }
/* directories (0..4) and the names in them */
static const char *DN[] = {"d1", "d2", "empty", "nope", "d3"};
static const char *DF[5][5] = { {"f.txt","g.txt","x.c",0}, {"f.txt","h.txt",0}, {0}, {0}, {"f.txt","sub",0} };
static const char *PATN[] = {"*.txt", "f.txt", "g*", "*.c", "zz", "[fg].txt"};
static int pmatch(const char *p, const char *s)      /* independent matcher for the six patterns */
{
  size_t n = strlen(s);
  if (!strcmp(p, "*.txt")) return n >= 4 && !strcmp(s+n-4, ".txt");
  if (!strcmp(p, "g*")) return *s == 'g';
  if (!strcmp(p, "*.c")) return n >= 2 && !strcmp(s+n-2, ".c");
  if (!strcmp(p, "[fg].txt")) return (*s == 'f' || *s == 'g') && !strcmp(s+1, ".txt");
  return !strcmp(p, s);
}
static void x10_lookup(void)
{
  int a, b, c, k, mut, style;
  snprintf(base, sizeof base, "%s/look", vh_scratch());
  for (a=0; a<5; a++) for (b=-1; b<5; b++) for (c=-1; c<5; c++) {
    if ((b < 0 && c >= 0) || a == b || a == c || (b >= 0 && b == c)) continue;
    for (k=0; k<LEN(PATN); k++) for (mut=0; mut<3; mut++) for (style=0; style<3; style++) {
      int dirs[3], nd = 0, i, j, n; FUPaths P; FUIter *it; const char *q; char buf[700]; char *want[20], *got[20]; int nw = 0, ng = 0, bound[4];
      if (!vh_case("lookup %d,%d,%d pattern '%s' mut=%d style=%d", a, b, c, PATN[k], mut, style)) continue;
      mkdir(base, 0755);
      for (i=0; i<5; i++) if (i != 3) { snprintf(buf, sizeof buf, "%s/%s", base, DN[i]); mkdir(buf, 0755); for (j=0; DF[i][j]; j++) { snprintf(buf, sizeof buf, "%s/%s", DN[i], DF[i][j]); if (strcmp(DF[i][j], "sub")) touch(buf); else { snprintf(buf, sizeof buf, "%s/%s/sub", base, DN[i]); mkdir(buf, 0755); } } }
      dirs[nd++] = a; if (b >= 0) dirs[nd++] = b; if (c >= 0) dirs[nd++] = c;
      fu_paths_init(&P, NULL);
      if (style == 2 && chdir(base)) style = 0;
      for (i=0; i<nd; i++) { if (style == 1) snprintf(buf, sizeof buf, "file://%s/%s", base, DN[dirs[i]]); else if (style == 2) snprintf(buf, sizeof buf, "%s", DN[dirs[i]]); else snprintf(buf, sizeof buf, "%s/%s", base, DN[dirs[i]]);
        if (style == 1) { free((char *)0); }
        fu_paths_append(&P, buf); }
      if (style == 1) { /* a path with a url must be stored untouched to be usable */
        VH_CHECK(P.n == (size_t)nd, "count", "%d urls stored as %d paths", nd, (int)P.n); }
      bound[0] = 0;
      for (i=0; i<nd; i++) { for (j=0; DF[dirs[i]][j]; j++) if (pmatch(PATN[k], DF[dirs[i]][j])) {
          if (style == 2) snprintf(buf, sizeof buf, "%s/%s", DN[dirs[i]], DF[dirs[i]][j]); else snprintf(buf, sizeof buf, "%s/%s/%s", base, DN[dirs[i]], DF[dirs[i]][j]); want[nw++] = strdup(buf); }
        bound[i+1] = nw; }
      it = fu_startmatch(PATN[k], &P);
      VH_CHECK(it != NULL, "start", "no iterator"); if (!it) { vh_end(); continue; }
      while ((q = fu_nextmatch(it)) && ng < 19) {
        got[ng++] = strdup(q);
        VH_CHECK(!access(q, F_OK), "match", "'%s' does not exist", esc(q));
        if (mut == 1) fu_paths_insert(&P, "/new", 0);      /* iteration is not affected by changes */
        if (mut == 2 && P.n) fu_paths_remove_index(&P, 0);
      }
      VH_CHECK(!fu_nextmatch(it), "end", "iterator restarts");
      fu_endmatch(it);
      VH_CHECK(ng == nw, "match", "%d matches, expected %d", ng, nw);
      if (ng == nw) for (i=0; i<nd; i++) { n = bound[i+1]-bound[i]; qsort(want+bound[i], n, sizeof(char *), cmpstr); qsort(got+bound[i], n, sizeof(char *), cmpstr);
        for (j=bound[i]; j<bound[i+1]; j++) VH_CHECK(!strcmp(want[j], got[j]), "order", "match %d is %s, expected %s", j, esc(got[j]), esc(want[j])); }
      fu_paths_deinit(&P);
      /* mixed directories and glob patterns */
      if (mut == 0 && style == 0) { int g2 = 0, w2 = 0; int pat; 
        for (pat=0; pat<2; pat++) {
          fu_paths_init(&P, NULL); g2 = w2 = 0;
          for (i=0; i<nd; i++) { snprintf(buf, sizeof buf, "%s/%s%s", base, DN[dirs[i]], i%2 ? "/*.txt" : ""); fu_paths_append(&P, buf);
            for (j=0; DF[dirs[i]][j]; j++) if ((!(i%2) || pmatch("*.txt", DF[dirs[i]][j])) && (!pat || pmatch(PATN[k], DF[dirs[i]][j]))) w2++; }
          it = fu_pathsiter_init(&P, pat ? PATN[k] : NULL);
          VH_CHECK(it != NULL, "start", "no iterator");
          while (it && (q = fu_pathsiter_next(it)) && g2 < 40) { g2++; VH_CHECK(!access(q, F_OK), "match", "'%s' does not exist", esc(q)); VH_CHECK(!pat || pmatch(PATN[k], strrchr(q, '/')+1), "match", "'%s' does not match", esc(q)); }
          VH_CHECK(g2 == w2, "match", "mixed iteration: %d, expected %d", g2, w2);
          if (it) fu_pathsiter_deinit(it);
          fu_paths_deinit(&P); } }
      while (nw) free(want[--nw]); while (ng) free(got[--ng]);
      err_clear(); vh_observef("%d %d %d %d", a, b, c, k); vh_end();
    }
  }
}
/* path strings */
static void x10_strings(void)
{
  static const char *C[] = {"a", "b.c", "/r", "", "..", "C:\\x", "x/y"}; static const char A[] = "a./b"; int n, i, j, k; 
  for (n=1; n<=3; n++) for (i=0; i<7*7*7; i++) { const char *c[3] = {C[i%7], C[i/7%7], C[i/49]}; char want[100] = ""; char *s; int st = 0;
    if ((n < 3 && i/49) || (n < 2 && i/7)) continue;
    if (!vh_case("join %d: '%s' '%s' '%s'", n, c[0], c[1], c[2])) continue;
    for (k=1; k<n; k++) if (c[k][0] == '/' || strchr(c[k], ':')) st = k;
    for (k=st; k<n; k++) { strcat(want, c[k]); if (k < n-1) strcat(want, "/"); }
    s = fu_join(c[0], n > 1 ? c[1] : NULL, n > 2 ? c[2] : NULL, NULL); VH_CHECK(s && !strcmp(s, want), "join", "'%s', expected '%s'", esc(s), want); free(s);
    for (j=0; want[j]; j++) if (want[j] == '/') want[j] = 1; 
    s = fu_join_sep('|', c[0], n > 1 ? c[1] : NULL, n > 2 ? c[2] : NULL, NULL); for (j=0; s && s[j]; j++) if (s[j] == '|' || s[j] == '/') s[j] = 1;
    VH_CHECK(s && !strcmp(s, want), "join", "other separator"); free(s); vh_observef("%d %d", n, i); vh_end(); }
  for (n=0; n<=(vh_thorough() ? 7 : 6); n++) { long tot = 1L << 2*n, t; 
    if (vh_case("path strings of length %d", n)) { for (t=0; t<tot && !vh_failed(); t++) { char b[10]; char *d, *f, *m; const char *e, *ls, *dot; char *x;
      for (i=0; i<n; i++) b[i] = A[t >> 2*i & 3]; b[n] = 0; x = dup_exact(b, n+1);
      d = fu_dirname(x); f = fu_basename(x); m = fu_stem(x); e = fu_fileext(x);
      ls = strrchr(b, '/'); 
      VH_CHECK(!strcmp(f, ls ? ls+1 : b), "basename", "'%s' -> '%s'", b, f);
      { char w[10]; strcpy(w, b); if (!ls) *w = 0; else w[ls == b ? 1 : ls-b] = 0; VH_CHECK(!strcmp(d, w), "dirname", "'%s' -> '%s'", b, d); }
      dot = strrchr(f, '.'); VH_CHECK(!strcmp(e, dot ? dot+1 : ""), "fileext", "'%s' -> '%s'", b, e);
      { char w[10]; strcpy(w, f); if (dot && dot[1]) w[dot-f] = 0; VH_CHECK(!strcmp(m, w), "stem", "'%s' -> '%s', expected '%s'", b, m, w); }
      free(x); free(d); free(f); free(m); vh_count_states(1); }
    vh_observef("%d", n); vh_end(); } }
  { static const char B[] = "aC:;/\\"; int sep, nb = 6;
    for (n=0; n<=(vh_thorough() ? 7 : 6); n++) for (sep=0; sep<3; sep++) if (vh_case("path lists of length %d, separator %d", n, sep)) { long tot = 1, t; for (i=0; i<n; i++) tot *= nb;
      for (t=0; t<tot && !vh_failed(); t++) { static const char *SEP[] = {NULL, ":", ";:"}; char b[10], *x, *end = NULL; const char *p; long r = t; int pos = 0, cnt = 0; 
        for (i=0; i<n; i++, r /= nb) b[i] = B[r % nb]; b[n] = 0; x = dup_exact(b, n+1);
        while ((p = fu_nextpath(x, &end, SEP[sep])) && cnt++ < 20) {
          int st, en;
          /* reference token: skip separators, then up to the next separator */
          st = pos;
          while (b[st] && strchr(SEP[sep] ? SEP[sep] : ";:", b[st])) st++;
          en = st;
          if (SEP[sep]) while (b[en] && !strchr(SEP[sep], b[en])) en++;
          else { int url = 0; while (isalpha((unsigned char)b[st+url])) url++;
            if (isalpha((unsigned char)b[st]) && b[st+1] == ':') en = st+2;        /* drive */
            else if (url && b[st+url] == ':' && b[st+url+1] == '/' && b[st+url+2] == '/' && isalpha((unsigned char)b[st+url+3])) en = st+url+3;
            if (en > st && memchr(b+st, ';', en-st)) en = st;
            while (b[en] && b[en] != ':' && b[en] != ';') en++; }
          VH_CHECK(p - x == st && end - x == en, "nextpath", "'%s' (separator %s): path %d is [%d,%d), expected [%d,%d)", esc(b), SEP[sep] ? SEP[sep] : "default", cnt, (int)(p-x), (int)(end-x), st, en);
          if (vh_failed()) break;
          pos = en + 1;
        }
        VH_CHECK(cnt < 20, "nextpath", "'%s' does not end", esc(b));
        { /* conversions: bounded output is a prefix of the full one, idempotent, no doubled separators outside urls */
          int w; for (w=0; w<2; w++) { char *full = w ? fu_winpath(x, NULL, 0, SEP[sep]) : fu_unixpath(x, NULL, 0, SEP[sep]); size_t L; int z;
            VH_CHECK(full != NULL, "convert", "'%s'", esc(b)); if (!full) continue; L = strlen(full);
            VH_CHECK(L <= 2*(size_t)n + 1, "convert", "'%s' -> '%s'", esc(b), esc(full));
            { int drive = 0, u; for (u=1; u<n; u++) if (b[u] == ':' && isalpha((unsigned char)b[u-1])) drive = 1; if (!drive) VH_CHECK(!strstr(full, w ? "\\\\" : "//") && !strchr(full, w ? '/' : '\\'), "convert", "'%s' -> '%s'", esc(b), esc(full)); }
            for (z=1; z<=(int)L+1; z++) { char *o = malloc(z), *q; memset(o, '#', z); q = w ? fu_winpath(x, o, z, SEP[sep]) : fu_unixpath(x, o, z, SEP[sep]);
              VH_CHECK(q == o && memchr(o, 0, z) && !strncmp(o, full, strlen(o)) && ((int)strlen(o) == z-1 || z > (int)L), "convert-size", "'%s' in %d bytes", esc(b), z); free(o); }
            free(full); } 
          err_clear(); }
        free(x); vh_count_states(1); }
      vh_observef("%d %d", n, sep); vh_end(); } }
  { /* initial paths from the environment */
    static const char *E[][5] = { {"/a:/b","/a","/b",0}, {"/a::/b","/a","/b",0}, {"/a:/a:/c//d","/a","/c/d",0}, {"/b","/b",0} };
    for (i=0; i<LEN(E); i++) if (vh_case("environment '%s'", E[i][0])) { FUPaths P; setenv("VH_PATHS", E[i][0], 1); fu_paths_init(&P, "VH_PATHS");
      for (j=0; E[i][j+1]; j++) VH_CHECK(j < (int)P.n && !strcmp(P.paths[j], E[i][j+1]), "environment", "path %d", j);
      VH_CHECK((int)P.n == j, "environment", "%d paths", (int)P.n); fu_paths_deinit(&P); vh_observef("%d", i); vh_end(); } }
}

void vh_explore(void)
{
  int t = vh_thorough();
  switch (vh_arg("part", 6)) {
  case 6: find_keys(); map_histories(t ? 6 : 5); map_growth(); session_histories(t ? 5 : 4); break;
  case 7: x07(t ? 4 : 3); break;
  case 10: x10_histories(t ? 4 : 3); x10_strlst(t ? 4 : 3); x10_lookup(); x10_strings(); break;
  }
}
