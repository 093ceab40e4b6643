/* I04: transactions.  All histories of edits, snapshots, pushes, pulls and
   tampering up to a bound, against a list of values. */
#include "vh.h"
#include "inst.h"
#include <unistd.h>
#include <sys/stat.h>
#include "dlite-storage.h"
#include "dlite-storage-plugins.h"
#include "dlite-json.h"
#include "dlite-bson.h"
#define LEN(a) ((int)(sizeof(a)/sizeof(*(a))))
#define URI "http://onto-ns.com/meta/0.1/"
#define MAXD 8
typedef struct { char *v; int tampered; char uuid[40]; } L;            /* level of the chain: value */
typedef struct { L l[MAXD]; int d, mem, frozen, x, n; } S;        /* l[0]: inst itself; d: number of ancestors; mem: ancestors in memory */
static DLiteMeta *M; static DLiteInstance *I, *F; static DLiteStorage *SG; static char H[600], FILE_[300];
static char *dump(const DLiteInstance *i) { Buf b = {0}; buf_inst(&b, i, DUMP_NOURI|DUMP_NOUUID); return b.p; }
static void mk(void)
{
  DLiteDimension d = {"n", NULL}; char *sh[] = {"n"}; DLiteProperty p[] = {{"x", dliteInt, 4, NULL, 0, NULL, NULL, NULL}, {"s", dliteStringPtr, sizeof(char *), NULL, 0, NULL, NULL, NULL}, {"a", dliteFixString, 20, NULL, 1, sh, NULL, NULL}, {"f", dliteFloat, 8, NULL, 1, sh, NULL, NULL}};
  M = dlite_meta_create(URI "Tr", "d", 1, &d, 4, p);
}
enum { SETX, SETA, ASSIGN, SCAN, RESIZE, SNAP, FREEZE, GET1, GET2, PUSH0, PUSH1, PULL1, PULL2, TAMPER1, TAMPER2, PARENT, COPYBACK, JSON, BSON, NOP };
static const char *ON[] = {"set x", "set a", "assign f", "scan s", "resize", "snapshot", "freeze", "get 1", "get 2", "push 0", "push 1", "pull 1", "pull 2", "tamper 1", "tamper 2", "set parent", "continue from copy", "json copy", "bson copy"};
static const int MUT = 5;                       /* operations below are refused on frozen instances */
static int mutate(DLiteInstance *i, int op, int k)
{
  char s[2][20] = {"", ""}; double f[2] = {k, -k}; int dd[1]; int32_t x = k; sprintf(s[0], "a%d", k); sprintf(s[1], "b%d", k);
  switch (op) {
  case SETX: return dlite_instance_set_property(i, "x", &x);
  case SETA: return dlite_instance_set_property(i, "a", s);
  case ASSIGN: return dlite_instance_assign_property(i, "f", 'C', f);
  case SCAN: { char q[20]; sprintf(q, "\"s%d\"", k); return dlite_instance_scan_property(q, i, "s", 0) < 0; }
  case RESIZE: dd[0] = 3 - dlite_instance_get_dimension_size(i, "n"); return dlite_instance_set_dimension_sizes(i, dd);
  }
  return 1;
}
static void shift(S *s) { int k; for (k=s->d; k>=0; k--) s->l[k+1] = s->l[k]; s->d++; s->l[0].v = strdup(s->l[1].v); s->l[1].tampered = 0; }
static DLiteInstance *level(int k) { const DLiteInstance *p = I; while (k-- > 0 && p) p = p->_parent ? p->_parent->parent : NULL; return (DLiteInstance *)p; }
static void sync0(S *s) { free(s->l[0].v); s->l[0].v = dump(I); }
static char *chain(void) { Buf b = {0}; const DLiteInstance *p; for (p=I; p; p = p->_parent ? p->_parent->parent : NULL) { buf_inst(&b, p, 0); buff(&b, "%d %s\n", dlite_instance_is_frozen(p) != 0, p->_parent ? p->_parent->uuid : "-"); } return b.p; }
/* returns 0 if not applicable */
static int apply(S *s, int op, int ctr)
{
  char *before = dump(I), *all = chain(); int r = 0, k; DLiteInstance *c = NULL; err_clear();
  if (op <= RESIZE) {
    r = mutate(I, op, ctr);
    if (s->frozen) { VH_CHECK(r && err_geteval(), "frozen", "%s: accepted on a frozen instance", H); }
    else { VH_CHECK(!r, "edit", "%s: fails: %s", H, err_getmsg()); sync0(s); }
  } else if (op == SNAP) {
    if (s->d >= MAXD-2) r = -1;
    else if (s->frozen) { r = dlite_instance_snapshot(I); VH_CHECK(r && err_geteval(), "frozen", "%s: accepted on a frozen instance", H); }
    else { r = dlite_instance_snapshot(I); VH_CHECK(!r, "snapshot", "%s: %s", H, err_getmsg()); if (!r) { const DLiteInstance *q; const char *ID = I->uri ? I->uri : I->uuid; shift(s); s->mem++; q = level(1); if (!q || !I->_parent || strcmp(I->_parent->uuid, q->uuid) || !dlite_instance_is_frozen(q)) vh_fail("snapshot", "%s: parent is not a frozen snapshot", H); else strcpy(s->l[1].uuid, q->uuid);
        if (q && (!q->uri || strncmp(q->uri, ID, strlen(ID)) || strncmp(q->uri + strlen(ID), "#snapshot-", 10) || strlen(q->uri) != strlen(ID) + 22)) vh_fail("snapshot", "%s: uri of snapshot is %s", H, q->uri); r = 0; } }
  } else if (op == FREEZE) { if (s->frozen) r = -1; else { dlite_instance_freeze(I); s->frozen = 1; } }
  else if (op == GET1 || op == GET2 || op == PULL1 || op == PULL2) {
    const DLiteInstance *q; k = op == GET1 || op == PULL1 ? 1 : 2;
    q = op >= PULL1 ? dlite_instance_pull_snapshot(I, SG, k) : dlite_instance_get_snapshot(I, k);
    if (k > s->d) VH_CHECK(!q && err_geteval(), "get", "%s: there are only %d snapshots", H, s->d);
    else if (!q) vh_fail("get", "%s: %s", H, err_getmsg());
    else { char *v = dump(q); if (strcmp(v, s->l[k].v)) vh_fail("get", "%s: %s", H, bufdiff(v, s->l[k].v)); if (strcmp(q->uuid, s->l[k].uuid)) vh_fail("get", "%s: wrong snapshot %s", H, q->uri); VH_CHECK(dlite_instance_is_frozen(q), "get", "%s: mutable snapshot", H); VH_CHECK(q->_refcount == 1 + !strcmp(q->uuid, F->uuid), "get", "%s: snapshot has %d references", H, q->_refcount); free(v); if (s->mem < k) s->mem = k; }
  } else if (op == PUSH0 || op == PUSH1) {
    k = op - PUSH0; r = dlite_instance_push_snapshot(I, SG, k); VH_CHECK(!r, "push", "%s: returns %d: %s", H, r, err_getmsg());
    if (s->mem > k) s->mem = k;
    r = 0;
  } else if (op == TAMPER1 || op == TAMPER2) {
    k = op == TAMPER1 ? 1 : 2; c = level(k); if (s->mem < k || s->l[k].tampered) r = -1;
    else { ++*(int32_t *)dlite_instance_get_property(c, "x"); free(s->l[k].v); s->l[k].v = dump(c); s->l[k].tampered = 1; } c = NULL;
  } else if (op == PARENT) {
    r = dlite_instance_set_parent(I, F);
    if (s->frozen) VH_CHECK(r, "frozen", "%s: parent of frozen instance replaced", H);
    else { VH_CHECK(!r, "parent", "%s: %s", H, err_getmsg()); for (k=1; k<=s->d; k++) { free(s->l[k].v); s->l[k].v = NULL; s->l[k].tampered = 0; } s->d = s->mem = 1; s->l[1].v = dump(F); strcpy(s->l[1].uuid, F->uuid); }
    r = 0;
  } else if (op == COPYBACK) {                  /* a copy of the instance takes its place: same chain, mutable */
    c = dlite_instance_copy(I, NULL); if (!c) vh_fail("copy", "%s: %s", H, err_getmsg()); else { dlite_instance_decref(I); I = c; s->frozen = 0; }
  } else {                                      /* so does one made through JSON or BSON, but ancestors must be looked up */
    char uu[40], *old = strdup(I->uri ? I->uri : ""); unsigned char *t = NULL; size_t sz; strcpy(uu, I->uuid);
    /* ancestors must be in storage to be found later */
    r = dlite_instance_push_snapshot(I, SG, 0); VH_CHECK(!r, "push", "%s: returns %d", H, r);
    if (op == JSON) t = (unsigned char *)dlite_json_aprint(I, 0, 0); else t = dlite_bson_from_instance(I, &sz);
    if (!t) vh_fail("serialise", "%s: %s", H, err_getmsg());
    else { dlite_instance_decref(I); I = op == JSON ? dlite_json_sscan((char *)t, NULL, NULL) : dlite_bson_load_instance(t); free(t);
      if (!I) { vh_fail("serialise", "%s: reading back: %s", H, err_getmsg()); I = dlite_instance_create(M, (size_t[]){1}, NULL); } else VH_CHECK(!strcmp(I->uuid, uu), "serialise", "%s: uuid", H);
      s->frozen = 0; s->mem = 0; }
    free(old); r = 0;
  }
  if (r != -1) {
    char *now = dump(I); if (strcmp(now, s->l[0].v)) vh_fail("value", "%s: %s", H, bufdiff(now, s->l[0].v)); free(now);
    if (s->frozen && op != FREEZE && (op <= RESIZE || op == SNAP || op == PARENT)) { now = chain(); if (strcmp(now, all)) vh_fail("frozen", "%s: refused but changes the chain: %s", H, bufdiff(now, all)); free(now); }
  }
  free(before); free(all);
  return r != -1;
}
static void final(S *s)
{
  int k, bad = 0, r; const DLiteInstance *q;
  VH_CHECK(dlite_instance_has_parent(I) == (s->d > 0), "parent", "%s: has_parent", H);
  VH_CHECK(!!dlite_instance_is_frozen(I) == s->frozen, "frozen", "%s: is_frozen", H);
  for (k=1; k<=s->d; k++) bad |= s->l[k].tampered;
  r = dlite_instance_verify_transaction(I);
  VH_CHECK(!!r == bad, "verify", "%s: verification returns %d (%s), %s", H, r, err_getmsg(), bad ? "one ancestor was changed" : "nothing was changed");
  err_clear();
  for (k=0; k<=s->d && !vh_failed(); k++) { char *v; q = dlite_instance_get_snapshot(I, k); if (!q) { vh_fail("get", "%s: snapshot %d of %d: %s", H, k, s->d, err_getmsg()); return; } v = dump(q); if (strcmp(v, s->l[k].v)) vh_fail("history", "%s: snapshot %d: %s", H, k, bufdiff(v, s->l[k].v)); free(v);
    if (k) { VH_CHECK(dlite_instance_is_frozen(q), "history", "%s: snapshot %d is mutable", H, k); VH_CHECK(!strcmp(q->uuid, s->l[k].uuid), "history", "%s: snapshot %d is another one", H, k);
      VH_CHECK(!dlite_instance_verify_hash(level(k-1), NULL, 0) == !s->l[k].tampered, "verify", "%s: parent of snapshot %d", H, k-1); { uint8_t h[DLITE_HASH_SIZE]; dlite_instance_get_hash(q, h, DLITE_HASH_SIZE); VH_CHECK(!memcmp(h, level(k-1)->_parent->hash, DLITE_HASH_SIZE) == !s->l[k].tampered, "verify", "%s: stored hash of snapshot %d", H, k); VH_CHECK(!dlite_instance_verify_hash(q, h, 0), "verify", "%s: own hash", H); h[k % 32] ^= 1; VH_CHECK(dlite_instance_verify_hash(q, h, 0), "verify", "%s: wrong hash accepted", H); } }
    if (k == s->d) VH_CHECK(!dlite_instance_has_parent(q), "history", "%s: snapshot %d has a parent", H, k); err_clear(); }
  VH_CHECK(!dlite_instance_get_snapshot(I, s->d + 1) && !dlite_instance_get_snapshot(I, -1) && !dlite_instance_pull_snapshot(I, SG, -1) && !dlite_instance_pull_snapshot(I, SG, s->d+1), "get", "%s: non-existing snapshots", H);
  if (!bad) VH_CHECK(!dlite_instance_verify_transaction(I), "verify", "%s: verification fails after looking up the history", H);
  err_clear();
}
static int run(const int *ops, int n)
{
  S s; int i, k, ok = 1; size_t d1[1] = {1}; int32_t x = 42;
  memset(&s, 0, sizeof(s)); strcpy(H, "");
  unlink(FILE_); err_clear();
  SG = dlite_storage_open("json", FILE_, "mode=a"); if (!SG) { vh_fail("storage", "%s", err_getmsg()); return 0; }
  SG->flags |= dliteTransaction;                /* no bundled driver sets it */
  I = dlite_instance_create(M, d1, "trans"); F = dlite_instance_create(M, d1, "foreign"); dlite_instance_set_property(F, "x", &x); dlite_instance_freeze(F); s.l[0].v = dump(I);
  for (i=0; i<n && ok && !vh_failed(); i++) { sprintf(H + strlen(H), "%s%s", *H ? ", " : "", ON[ops[i]]); ok = apply(&s, ops[i], i+1); }
  if (ok && !vh_failed()) final(&s);
  dlite_instance_decref(I); dlite_instance_decref(F);
  dlite_storage_close(SG); err_clear();
  for (k=0; k<=s.d; k++) free(s.l[k].v);
  return ok;
}
void vh_setup(void) { dlite_init(); err_set_stream(NULL); snprintf(FILE_, sizeof(FILE_), "%s/tr%d.json", vh_scratch(), (int)getpid()); mk(); warn("x"); err_clear(); }
void vh_explore(void)
{
  int depth = vh_arg("depth", 4), a, b, ops[10], st[10];
  /* storages that do not support transactions refuse */
  if (vh_case("no transactions")) { DLiteStorage *q = dlite_storage_open("json", FILE_, "mode=w"); DLiteInstance *i = dlite_instance_create(M, (size_t[]){1}, NULL); if (!q || !i) vh_fail("open", "?"); else { int k; for (k=0; k<3; k++) { VH_CHECK(dlite_instance_push_snapshot(i, q, k) && !dlite_instance_pull_snapshot(i, q, k), "transactions", "push or pull accepted"); dlite_instance_snapshot(i); }
      { DLiteInstance *j = dlite_instance_create(M, (size_t[]){1}, NULL); VH_CHECK(dlite_instance_set_parent(i, j), "parent", "mutable parent accepted"); dlite_instance_decref(j); } }
    if (i) dlite_instance_decref(i); if (q) dlite_storage_close(q); unlink(FILE_); vh_observef("ok"); vh_end(); }
  for (a=0; a<NOP; a++) for (b=-1; b<NOP; b++)
    if (vh_case("%s, %s, ...", ON[a], b < 0 ? "" : ON[b])) {
      long cnt = 0; int i, n; size_t h0 = 0;
      ops[0] = a; ops[1] = b;
      if (b < 0) { run(ops, 1); cnt = 1; }
      else if (run(ops, 2) && !vh_failed()) { run(ops, 2); h0 = vh_heap(); 
        for (n=3; n<=depth && !vh_failed(); n++) {
          memset(st, 0, sizeof(st));
          for (;;) { for (i=2; i<n; i++) ops[i] = st[i]; run(ops, n); cnt++; if (vh_failed()) break; for (i=n-1; i>=2; i--) { if (++st[i] < NOP) break; st[i] = 0; } if (i < 2) break; }
        }
        if (!vh_failed()) VH_CHECK(vh_heap() <= h0 + 2000, "leak", "%ld histories leak %ld bytes", cnt, (long)(vh_heap() - h0)); }
      vh_count_transitions(cnt*depth); vh_observef("%d %d %ld", a, b, cnt); vh_end();
    }
}
