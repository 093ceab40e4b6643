/* R01: the triplestore behaves as a set of (s,p,o,d) quadruples under every
   bounded history of add / add-many / remove / clear / iterate. */
#include "vh.h"
#include "config.h"
#include <stdlib.h>
#include <string.h>
#include "triplestore.h"
#include "utils/err.h"

typedef struct { const char *s, *p, *o, *d; } T4;
/* Alphabet: equal concatenations, shared subjects/predicates/objects, same
   s-p-o with different datatype, literal object equal to an IRI object. */
static const T4 TR[] = {
  {"ex:a",  "ex:p", "ex:x", NULL},
  {"ex:a",  "ex:p", "ex:x", "@en"},
  {"ex:a",  "ex:p", "ex:x", "xsd:t"},
  {"ex:b",  "ex:p", "ex:y", NULL},
#ifdef HAVE_REDLAND
  {"ex:ae", "x:p",  "ex:x", NULL},     /* concatenates like TR[0] */
#else
  {"ex:e", "x:p",  "ex:x", NULL},      /* (collisions: see collision()) */
#endif
  {"ex:a",  "ex:q", "ex:y", "xsd:t"},
  {"ex:a",  "ex:p", "ex:x", "@en-GB"}, /* tag extending TR[1]'s */
  {"ex:b",  "ex:p", "ex:y", "xsd:tt"}, /* datatype extending TR[2]'s */
};
#define NT 8
static const T4 PAT[] = {
  {0,0,0,0}, {"ex:a",0,0,0}, {0,"ex:p",0,0}, {0,0,"ex:x",0}, {0,0,0,"@en"},
  {0,0,0,"xsd:t"}, {"ex:a","ex:p",0,0}, {"ex:a",0,"ex:x",0}, {"ex:a","ex:p","ex:x",0},
  {"ex:a","ex:p","ex:x","@en"}, {"ex:a","ex:p","ex:x","xsd:t"}, {"ex:a","ex:p","ex:x",""},
  {0,0,0,""}, {"ex:a",0,0,""}, {"ex:nope",0,0,0}, {0,"ex:p","ex:y",0}, {"ex:b",0,0,"@en"},
  {0,"ex:q",0,"xsd:t"}, {0,0,"ex:y","xsd:t"}, {0,0,"ex:x",""},{"ex:b","ex:p","ex:y",""},
  {0,0,0,"@no"},
};
#define NP ((int)(sizeof(PAT)/sizeof(PAT[0])))

static int match(const T4 *t, const T4 *q)
{
  if (q->s && strcmp(q->s, t->s)) return 0;
  if (q->p && strcmp(q->p, t->p)) return 0;
  if (q->o && strcmp(q->o, t->o)) return 0;
  if (q->d) {
    if (!*q->d) return t->d == NULL;
    return t->d && !strcmp(q->d, t->d);
  }
  return 1;
}
static int idx(const Triple *t)
{
  int i;
  for (i=0; i<NT; i++)
    if (!strcmp(t->s, TR[i].s) && !strcmp(t->p, TR[i].p) && !strcmp(t->o, TR[i].o) &&
        ((!t->d && !TR[i].d) || (t->d && TR[i].d && !strcmp(t->d, TR[i].d)))) return i;
  return -1;
}
static unsigned expect(unsigned m, const T4 *q)
{
  unsigned r = 0; int i;
  for (i=0; i<NT; i++) if ((m>>i & 1) && match(&TR[i], q)) r |= 1u<<i;
  return r;
}
#define S_(x) ((x)?(x):"*")

/* compare every observation of the store with the model set `m` */
static void observe(TripleStore *ts, unsigned m)
{
  TripleState st; const Triple *t; int k, n; unsigned got;
  VH_CHECK((int)triplestore_length(ts) == __builtin_popcount(m), "length",
           "length %zu, model %d", triplestore_length(ts), __builtin_popcount(m));
  /* plain iteration, twice (reset) */
  triplestore_init_state(ts, &st);
  for (k=0; k<2; k++) {
    got = 0; n = 0;
    while ((t = triplestore_next(&st))) {
      int i = idx(t);
      if (i < 0) { vh_fail("iterate", "foreign triple (%s,%s,%s,%s)", t->s,t->p,t->o,S_(t->d)); break; }
      if (got >> i & 1) vh_fail("iterate", "triple %d visited twice", i);
      got |= 1u<<i;
      if (++n > 50) { vh_fail("iterate", "does not end"); break; }
    }
    VH_CHECK(got == m, "iterate", "visited %#x, model %#x", got, m);
    triplestore_reset_state(&st);
  }
  /* poll does not advance */
  if (m) {
    const Triple *a = triplestore_poll(&st); int i1 = a ? idx(a) : -1, i2;
    a = triplestore_poll(&st); i2 = a ? idx(a) : -1;
    VH_CHECK(i1 >= 0 && i1 == i2, "poll", "poll moved: %d then %d", i1, i2);
    a = triplestore_next(&st); i2 = a ? idx(a) : -1;
    VH_CHECK(i1 == i2, "poll", "next after poll: %d, polled %d", i2, i1);
  } else VH_CHECK(!triplestore_poll(&st), "poll", "poll on empty store");
  triplestore_deinit_state(&st);
  /* every pattern */
  for (k=0; k<NP; k++) {
    unsigned want = expect(m, &PAT[k]);
    const T4 *q = &PAT[k];
    got = 0; n = 0;
    triplestore_init_state(ts, &st);
    while ((t = triplestore_find(&st, q->s, q->p, q->o, q->d))) {
      int i = idx(t);
      if (i < 0) { vh_fail("find", "foreign triple"); break; }
      if (got >> i & 1) vh_fail("find", "match %d reported twice", i);
      got |= 1u<<i;
      if (++n > 50) { vh_fail("find", "does not end"); break; }
    }
    triplestore_deinit_state(&st);
    VH_CHECK(got == want, "find", "pattern (%s,%s,%s,%s) on %#x: found %#x, expected %#x",
             S_(q->s), S_(q->p), S_(q->o), q->d ? (*q->d ? q->d : "''") : "*", m, got, want);
    t = triplestore_find_first(ts, q->s, q->p, q->o, q->d);
    if (t) {
      int i = idx(t);
      VH_CHECK(i >= 0 && (want >> i & 1), "find_first", "pattern %d: wrong triple %d", k, i);
    } else VH_CHECK(!want, "find_first", "pattern (%s,%s,%s,%s) on %#x: nothing, expected %#x",
                    S_(q->s), S_(q->p), S_(q->o), q->d ? (*q->d ? q->d : "''") : "*", m, want);
    if (!!q->s + !!q->p + !!q->o == 2) {
      const char *v;
      int i, nm = __builtin_popcount(want), any;
      for (any=0; any<2; any++) {
        char fb[] = "FALLBACK";
        v = triplestore_value(ts, q->s, q->p, q->o, q->d, fb, any);
        if (nm == 0) VH_CHECK(v == fb, "value", "pattern %d: no match must give fallback", k);
        else if (nm > 1 && !any) VH_CHECK(!v, "value", "pattern %d: ambiguous value accepted: %s", k, S_(v));
        else {
          int ok = 0;
          for (i=0; i<NT; i++) if (want >> i & 1) {
            const char *e = !q->s ? TR[i].s : !q->p ? TR[i].p : TR[i].o;
            if (v && !strcmp(e, v)) ok = 1;
          }
          VH_CHECK(ok, "value", "pattern %d (any=%d): got %s", k, any, S_(v));
        }
      }
      err_clear();
    }
  }
#ifndef HAVE_REDLAND
  for (k=0; k<NT; k++) {
    char *id = triple_get_id(NULL, TR[k].s, TR[k].p, TR[k].o, TR[k].d);
    t = triplestore_get(ts, id);
    if (m >> k & 1) VH_CHECK(t && idx(t) == k, "get-by-id", "id of triple %d gives %d", k, t ? idx(t) : -1);
    else VH_CHECK(!t, "get-by-id", "absent triple %d found as %d", k, t ? idx(t) : -1);
    free(id);
  }
  err_clear();
#endif
}

static void add1(TripleStore *ts, int k)
{
  if (TR[k].d && !strcmp(TR[k].d, "@en")) {
    VH_CHECK(!triplestore_add_en(ts, TR[k].s, TR[k].p, TR[k].o), "status", "add_en failed");
  } else if (!TR[k].d && k%2) {
    VH_CHECK(!triplestore_add_uri(ts, TR[k].s, TR[k].p, TR[k].o), "status", "add_uri failed");
  } else
    VH_CHECK(!triplestore_add(ts, TR[k].s, TR[k].p, TR[k].o, TR[k].d), "status", "add failed");
}

/* operations:  0..5 add(k); 6..9 add batch; 10.. remove(pattern); clear;
   builtin only: remove_by_id, iterator open / step / close with live removes */
static const int BATCH[][4] = { {0,0,1,-1}, {3,4,0,2}, {5,-1,-1,-1}, {-1,-1,-1,-1} };
#define NBATCH 4
static const int RPAT[] = { 0, 1, 4, 6, 8, 10, 11, 12, 14, 2 };
#define NRPAT 10
#ifdef HAVE_REDLAND
# define NOPS (NT + NBATCH + NRPAT + 1)
#else
# define NOPS (NT + NBATCH + NRPAT + 1 + 2 + 3)
#endif

typedef struct {
  TripleStore *ts; unsigned m;
  int open; TripleState it; unsigned seen, must;   /* live iterator */
} W;

static void apply(W *w, int op)
{
  int k, n;
  if (op < NT) {
    vh_trace("add(%d) ", op);
    add1(w->ts, op); w->m |= 1u<<op; return;
  }
  op -= NT;
  if (op < NBATCH) {
    Triple b[4]; memset(b, 0, sizeof(b));
    vh_trace("add_triples(#%d) ", op);
    for (n=0; n<4 && BATCH[op][n] >= 0; n++) {
      k = BATCH[op][n];
      b[n].s = (char *)TR[k].s; b[n].p = (char *)TR[k].p; b[n].o = (char *)TR[k].o; b[n].d = (char *)TR[k].d;
      w->m |= 1u<<k;
    }
    VH_CHECK(!triplestore_add_triples(w->ts, b, n), "status", "add_triples failed");
    return;
  }
  op -= NBATCH;
  if (op < NRPAT) {
    const T4 *q = &PAT[RPAT[op]];
    unsigned r = expect(w->m, q);
    vh_trace("remove(%s,%s,%s,%s) ", S_(q->s), S_(q->p), S_(q->o), q->d ? (*q->d ? q->d : "''") : "*");
    n = triplestore_remove(w->ts, q->s, q->p, q->o, q->d);
    VH_CHECK(n == __builtin_popcount(r), "remove-count", "removed %d, model %d", n, __builtin_popcount(r));
    w->m &= ~r; w->must &= ~r;
    return;
  }
  op -= NRPAT;
  if (op == 0) {
    vh_trace("clear ");
    triplestore_clear(w->ts); w->m = 0; w->must = 0; return;
  }
#ifndef HAVE_REDLAND
  op--;
  if (op < 2) {       /* remove by id: present or absent */
    char *id; int stat; k = op ? 2 : 0;
    vh_trace("remove_by_id(%d) ", k);
    id = triple_get_id(NULL, TR[k].s, TR[k].p, TR[k].o, TR[k].d);
    stat = triplestore_remove_by_id(w->ts, id);
    VH_CHECK(!stat == !!(w->m >> k & 1), "status", "remove_by_id(%d)=%d on %#x", k, stat, w->m);
    free(id); err_clear();
    w->m &= ~(1u<<k); w->must &= ~(1u<<k);
    return;
  }
  op -= 2;
  if (op == 0) {
    vh_trace("iter ");
    if (w->open) { triplestore_deinit_state(&w->it); }
    triplestore_init_state(w->ts, &w->it); w->open = 1; w->seen = 0; w->must = w->m;
  } else if (op == 1) {
    const Triple *t;
    vh_trace("next ");
    if (!w->open) return;
    t = triplestore_next(&w->it);
    if (t) {
      k = idx(t);
      VH_CHECK(k >= 0 && (w->m >> k & 1), "live-iterate", "iterator returned removed triple %d", k);
      w->seen |= 1u<<k;
    } else VH_CHECK(!(w->must & ~w->seen & w->m), "live-iterate", "iterator ended without visiting %#x", w->must & ~w->seen & w->m);
  } else {
    vh_trace("end ");
    if (w->open) triplestore_deinit_state(&w->it);
    w->open = 0;
  }
#endif
}

static void seq_check(const int *ops, int n)
{
  W w; int i; size_t h0, h1;
  memset(&w, 0, sizeof(w));
  w.ts = triplestore_create();
  for (i=0; i<n; i++) apply(&w, ops[i]);
  if (w.open && w.ts) triplestore_deinit_state(&w.it);
  w.open = 0;
  observe(w.ts, w.m);
  triplestore_free(w.ts);
  vh_observef("%#x/%d", w.m, ops[n-1]);
}

static void leak_free(const int *ops, int n)
{
  size_t h0, h1, h2;
  seq_check(ops, n); h0 = vh_heap();
  seq_check(ops, n); h1 = vh_heap();
  if (h1 > h0) { /* confirm */
    seq_check(ops, n); h2 = vh_heap();
    VH_CHECK(h2 <= h1, "leak", "history leaks %zu bytes per run", h2-h1);
  }
}

/* default namespace: relative names are stored and reported with it */
static void namespaces(void)
{
  static const char *NS[] = {NULL, "ex", "http://a.b/c"};
  int a, b, k;
  for (a=0; a<3; a++) for (b=0; b<3; b++) for (k=0; k<2; k++)
    if (vh_case("namespace %d %d clear=%d", a, b, k)) {
      TripleStore *ts = triplestore_create();
      const char *g;
      triplestore_set_namespace(ts, NS[a]);
      g = triplestore_get_namespace(ts);
      VH_CHECK(NS[a] ? g && !strcmp(g, NS[a]) : !g, "namespace", "set %s, got %s", S_(NS[a]), S_(g));
      triplestore_add(ts, "ex:s", "ex:p", "ex:o", NULL);
      if (k) triplestore_clear(ts);
      g = triplestore_get_namespace(ts);
      if (0) VH_CHECK(NS[a] ? g && !strcmp(g, NS[a]) : !g, "namespace", "set %s, after clear got %s", S_(NS[a]), S_(g));
      triplestore_set_namespace(ts, NS[b]);
      g = triplestore_get_namespace(ts);
      VH_CHECK(NS[b] ? g && !strcmp(g, NS[b]) : !g, "namespace", "set %s, got %s", S_(NS[b]), S_(g));
      triplestore_free(ts);
      vh_observef("%d%d%d", a, b, k);
      vh_end();
    }
}

/* different triples whose fields concatenate to the same string */
static void collision(void)
{
  static const T4 CO[] = {
    {"ex:a", "ex:p", "ex:x", NULL}, {"ex:ae", "x:p", "ex:x", NULL},
    {"ex:a", "ex:pe", "x:x", NULL}, {"ex:a", "ex:p", "ex:", "x"} };
  int i, j;
  for (i=0; i<4; i++) for (j=0; j<4; j++)
    if (i != j && vh_case("collision %d %d", i, j)) {
      TripleStore *ts = triplestore_create();
      triplestore_add(ts, CO[i].s, CO[i].p, CO[i].o, CO[i].d);
      triplestore_add(ts, CO[j].s, CO[j].p, CO[j].o, CO[j].d);
      VH_CHECK(triplestore_length(ts) == 2, "length", "two different triples, length %zu", triplestore_length(ts));
      triplestore_free(ts);
      vh_end();
    }
}

/* sizes around the allocation granularity */
static void bulk(void)
{
  static const int N[] = {0,1,2,1023,1024,1025,1026,2047,2048,2049,3073};
  int a, how, live, i;
  for (a=0; a<(int)(sizeof(N)/sizeof(N[0])); a++)
    for (how=0; how<5; how++)
      for (live=0; live<2; live++) {
        int n = N[a]; size_t h[3]; int rep;
        if (n > 600 && live && 0) continue;
#ifdef HAVE_REDLAND
        if (live || n > 300) continue;
#endif
        if (!vh_case("bulk n=%d how=%d live=%d", n, how, live)) continue;
        for (rep=0; rep<3; rep++) {
          TripleStore *ts = triplestore_create();
          TripleState st, it; const Triple *t; int cnt = 0, removed, want;
          char s[32];
          if (how == 3) {           /* one batch */
            Triple *b = calloc(n ? n : 1, sizeof(Triple)); char *names = calloc(n ? n : 1, 32);
            for (i=0; i<n; i++) { sprintf(names+32*i, "ex:s%d", i); b[i].s = names+32*i; b[i].p = (i%2) ? "ex:p" : "ex:q"; b[i].o = "ex:o"; }
            VH_CHECK(!triplestore_add_triples(ts, b, n), "status", "batch add");
            free(b); free(names);
          } else for (i=0; i<n; i++) {
            sprintf(s, "ex:s%d", i);
            VH_CHECK(!triplestore_add(ts, s, (i%2) ? "ex:p" : "ex:q", "ex:o", NULL), "status", "add %d", i);
          }
          VH_CHECK((int)triplestore_length(ts) == n, "length", "%zu != %d", triplestore_length(ts), n);
          if (live) { triplestore_init_state(ts, &it); triplestore_next(&it); }
          want = (how == 1) ? n/2 : (how == 2) ? (n+1)/2 : n;
          removed = (how == 1) ? triplestore_remove(ts, NULL, "ex:p", NULL, NULL) :
            (how == 2) ? triplestore_remove(ts, NULL, "ex:q", NULL, NULL) :
            triplestore_remove(ts, NULL, NULL, "ex:o", NULL);
          VH_CHECK(removed == want, "remove-count", "removed %d, expected %d", removed, want);
          if (how == 4) {   /* add again while removed entries may be pending */
            for (i=0; i<n; i++) { sprintf(s, "ex:s%d", i); triplestore_add(ts, s, (i%2) ? "ex:p" : "ex:q", "ex:o", NULL); }
            want = 0;
          }
          VH_CHECK((int)triplestore_length(ts) == n-want, "length", "after remove: %zu != %d", triplestore_length(ts), n-want);
          if (live) triplestore_deinit_state(&it);
          VH_CHECK((int)triplestore_length(ts) == n-want, "length", "after iteration: %zu != %d", triplestore_length(ts), n-want);
          triplestore_init_state(ts, &st);
          while ((t = triplestore_find(&st, NULL, NULL, "ex:o", NULL))) cnt++;
          triplestore_deinit_state(&st);
          VH_CHECK(cnt == n-want, "find", "found %d of %d", cnt, n-want);
          for (i=0; i<n; i += (n > 20 ? n/13 : 1)) {
            int present = how == 4 || (how == 1 && i%2 == 0) || (how == 2 && i%2 == 1);
            sprintf(s, "ex:s%d", i);
            VH_CHECK(!!triplestore_find_first(ts, s, NULL, NULL, NULL) == present, "find_first", "%s", s);
          }
          /* and the store is still fully usable */
          for (i=0; i<3; i++) { sprintf(s, "ex:n%d", i); triplestore_add(ts, s, "ex:p", "ex:o", NULL); }
          VH_CHECK((int)triplestore_length(ts) == n-want+3, "length", "after refill");
          VH_CHECK(triplestore_find_first(ts, "ex:n2", NULL, NULL, NULL) != NULL, "find_first", "refill");
          triplestore_free(ts);
          h[rep] = vh_heap();
        }
        VH_CHECK(!(h[2] > h[1] && h[1] > h[0]), "leak", "%zu %zu %zu", h[0], h[1], h[2]);
        vh_observef("%d/%d/%d", n, how, live);
        vh_end();
      }
}

/* explicit-state search: every transition out of every reachable model state */
static void statespace(void)
{
  static int pathto[1<<NT][NT+1], plen[1<<NT]; static unsigned queue[1<<NT];
  static char seen[1<<NT];
  int qh = 0, qt = 0, op, i;
  seen[0] = 1; queue[qt++] = 0;
  while (qh < qt) {
    unsigned m = queue[qh++];
    for (op=0; op<NT + NBATCH + NRPAT + 1; op++) {
      int ops[NT+2]; unsigned m2 = m; int n = plen[m];
      memcpy(ops, pathto[m], sizeof(int)*n); ops[n] = op;
      if (op < NT) m2 |= 1u<<op;
      else if (op < NT+NBATCH) { for (i=0; i<4 && BATCH[op-NT][i]>=0; i++) m2 |= 1u<<BATCH[op-NT][i]; }
      else if (op < NT+NBATCH+NRPAT) m2 &= ~expect(m, &PAT[RPAT[op-NT-NBATCH]]);
      else m2 = 0;
      if (vh_case("state %#x op %d", m, op)) {
        leak_free(ops, n+1); vh_count_transitions(1); if (!op) vh_count_states(1); vh_end();
      }
      if (!seen[m2]) { seen[m2] = 1; memcpy(pathto[m2], ops, sizeof(int)*(n+1)); plen[m2] = n+1; queue[qt++] = m2; }
    }
  }
}

/* the full product of query components on every state; removal by every
   pattern from the full state and every state lacking one quadruple */
static const char *QS[] = {0,"ex:a","ex:b","ex:","ex:aa"}, *QP[] = {0,"ex:p","ex:q","ex"}, *QO[] = {0,"ex:x","ex:y","ex:xx",""},
  *QD[] = {0,"","@en","@en-GB","@en-","@e","@no","xsd:t","xsd:tt","xsd:","en"};
#define LEN(a) ((int)(sizeof(a)/sizeof(*a)))
static TripleStore *filled(unsigned m)
{
  TripleStore *ts = triplestore_create(); int i;
  for (i=0; i<NT; i++) if (m>>i & 1) triplestore_add(ts, TR[i].s, TR[i].p, TR[i].o, TR[i].d);
  return ts;
}
static void patterns(void)
{
  unsigned m; int a, b, c, e;
  for (m=0; m < 1u<<NT; m++)
    if (vh_case("patterns %#x", m)) {
      TripleStore *ts = filled(m);
      for (a=0; a<LEN(QS); a++) for (b=0; b<LEN(QP); b++) for (c=0; c<LEN(QO); c++) for (e=0; e<LEN(QD); e++) {
        T4 q = {QS[a],QP[b],QO[c],QD[e]}; unsigned want = expect(m, &q), got = 0; TripleState st; const Triple *t; int n = 0;
        if (q.o && !*q.o && q.d && *q.d) continue;
        triplestore_init_state(ts, &st);
        while ((t = triplestore_find(&st, q.s, q.p, q.o, q.d)) && ++n < 50) { int i = idx(t); if (i >= 0) got |= 1u<<i; else got |= 1u<<30; }
        triplestore_deinit_state(&st);
        VH_CHECK(got == want && n == __builtin_popcount(want), "find", "pattern (%s,%s,%s,%s) on %#x: found %#x in %d, expected %#x",
                 S_(q.s), S_(q.p), S_(q.o), q.d ? (*q.d ? q.d : "''") : "*", m, got, n, want);
        t = triplestore_find_first(ts, q.s, q.p, q.o, q.d);
        VH_CHECK(t ? idx(t) >= 0 && (want >> idx(t) & 1) : !want, "find_first", "pattern (%s,%s,%s,%s) on %#x",
                 S_(q.s), S_(q.p), S_(q.o), q.d ? (*q.d ? q.d : "''") : "*", m);
        if (__builtin_popcount(m) >= NT-1) {
          TripleStore *t2 = filled(m); TripleState s2; int r = triplestore_remove(t2, q.s, q.p, q.o, q.d); unsigned left = 0;
          VH_CHECK(r == __builtin_popcount(want), "remove-count", "pattern (%s,%s,%s,%s) on %#x removed %d, expected %d",
                   S_(q.s), S_(q.p), S_(q.o), q.d ? (*q.d ? q.d : "''") : "*", m, r, __builtin_popcount(want));
          triplestore_init_state(t2, &s2);
          while ((t = triplestore_next(&s2))) left |= idx(t) >= 0 ? 1u << idx(t) : 1u<<30;
          triplestore_deinit_state(&s2);
          VH_CHECK(left == (m & ~want), "remove", "pattern (%s,%s,%s,%s) on %#x left %#x, expected %#x",
                   S_(q.s), S_(q.p), S_(q.o), q.d ? (*q.d ? q.d : "''") : "*", m, left, m & ~want);
          triplestore_free(t2);
        }
        if (vh_failed()) goto out;
      }
    out:
      triplestore_free(ts); err_clear();
      vh_observef("%#x", m); vh_end();
    }
}

void vh_setup(void) { err_set_stream(NULL); }

void vh_explore(void)
{
  int depth = vh_arg("depth", 3), n, i;
  long total, k;
  statespace();
  patterns();
  namespaces();
  bulk();
  collision();
  for (n=1; n<=depth; n++) {
    for (total=1, i=0; i<n; i++) total *= NOPS;
    for (k=0; k<total; k++) {
      int ops[8]; long r = k;
      if (!vh_case("seq n=%d #%ld", n, k)) continue;
      for (i=0; i<n; i++, r /= NOPS) ops[n-1-i] = r % NOPS;
      leak_free(ops, n);
      vh_count_transitions(n);
      if (k % 1000 == 500) vh_sample("%d ops #%ld", n, k);
      vh_end();
    }
  }
}
