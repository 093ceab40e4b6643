/* I05: the hash of an instance is a function of its content, and an injective
   one over everything enumerated.  Each case collects pairs (independent dump,
   hash); at its end no two pairs may agree in one part and differ in the
   other.  Contents that agree when written one after another without
   separators are told apart by tag "concat". */
#define vh_setup rt_setup
#define vh_explore rt_explore
#include "roundtrip.c"
#undef vh_setup
#undef vh_explore
#include "dlite-collection.h"
#include "dlite-storage.h"

typedef struct { char *d, *c; uint8_t h[64]; } Pair;
static Pair *P; static int np, pcap;
/* everything that identifies content, strings without any separators */
static void flat_prop(Buf *b, const DLiteProperty *p)
{
  int k;
  if (p->name) bufn(b, p->name, strlen(p->name));
  buff(b, "(%d/%zu)", p->type, p->size); if (p->ref) bufn(b, p->ref, strlen(p->ref)); buff(b, "(%d)", p->ndims);
  for (k=0; k<p->ndims; k++) bufn(b, p->shape[k], strlen(p->shape[k]));
  if (p->unit) bufn(b, p->unit, strlen(p->unit)); if (p->description) bufn(b, p->description, strlen(p->description));
}
static void flat(Buf *b, const DLiteInstance *i)
{
  size_t k, n, j; int q;
  if (i->_parent) { buff(b, "%s", i->_parent->uuid); for (k=0; k<DLITE_HASH_SIZE; k++) buff(b, "%02x", i->_parent->hash[k]); }
  bufn(b, i->meta->uri, strlen(i->meta->uri));
  for (k=0; k<i->meta->_ndimensions; k++) buff(b, "<%zu>", (size_t)DLITE_DIM(i, k));
  for (k=0; k<i->meta->_nproperties; k++) {
    const DLiteProperty *p = &i->meta->_properties[k]; const char *v = (char *)i + i->meta->_propoffsets[k];
    for (n=1, q=0; q<p->ndims; q++) n *= DLITE_PROP_DIM(i, k, q);
    if (p->ndims) v = *(char **)v;
    for (j=0; j<n; j++, v += p->size) switch (p->type) {
      case dliteStringPtr: if (*(char **)v) bufn(b, *(char **)v, strlen(*(char **)v)); break;
      case dliteRef: if (*(DLiteInstance **)v) bufn(b, (*(DLiteInstance **)v)->uuid, 36); break;
      case dliteDimension: { DLiteDimension *d = (void *)v; if (d->name) bufn(b, d->name, strlen(d->name)); if (d->description) bufn(b, d->description, strlen(d->description)); } break;
      case dliteProperty: flat_prop(b, (void *)v); break;
      case dliteRelation: { DLiteRelation *r = (void *)v; if (r->s) bufn(b, r->s, strlen(r->s)); if (r->p) bufn(b, r->p, strlen(r->p)); if (r->o) bufn(b, r->o, strlen(r->o)); if (r->d) bufn(b, r->d, strlen(r->d)); } break;
      default: buf_value(b, v, p->type, p->size); }
  }
}
static char *content(const DLiteInstance *i)
{
  Buf b = {0}; buf_inst(&b, i, DUMP_NOURI | DUMP_NOUUID);
  if (i->_parent) buff(&b, "parent=%s", i->_parent->uuid);
  return b.p;
}
static void note_as(const DLiteInstance *i, char *d, char *c, const char *what)
{
  uint8_t h[64+8]; int k; static const int sz[] = {32, 48, 64};
  if (np == pcap) P = realloc(P, (pcap = 2*pcap+64)*sizeof(Pair));
  P[np].d = d; P[np].c = c;
  memset(h, 0xA5, sizeof(h));
  if (dlite_instance_get_hash(i, P[np].h, 32)) vh_fail("error", "%s: %s", what, err_getmsg());
  for (k=0; k<3; k++) { memset(h, 0xA5, sizeof(h)); if (dlite_instance_get_hash(i, h, sz[k])) vh_fail("error", "%s: size %d: %s", what, sz[k], err_getmsg()); VH_CHECK(h[sz[k]] == 0xA5, "size", "%s: writes more than %d bytes", what, sz[k]); if (!k) VH_CHECK(!memcmp(h, P[np].h, 32), "twice", "%s: hash differs the second time", what); }
  np++;
}
static void note(const DLiteInstance *i, const char *what) { Buf c = {0}; flat(&c, i); if (!c.p) bufn(&c, "", 0); note_as(i, content(i), c.p, what); vh_count_transitions(1); }
static int bydump(const void *a, const void *b) { return strcmp(((Pair *)a)->d, ((Pair *)b)->d); }
static int byhash(const void *a, const void *b) { return memcmp(((Pair *)a)->h, ((Pair *)b)->h, 32); }
static void finish(void)
{
  int i, nd = 0, shown = 0, j;
  qsort(P, np, sizeof(*P), bydump);
  for (i=0; i<np; i++) { nd += !i || strcmp(P[i].d, P[i-1].d); if (i && !strcmp(P[i].d, P[i-1].d) && memcmp(P[i].h, P[i-1].h, 32) && !shown++) vh_fail("differs", "same content gives different hashes: {%.600s} %02x%02x %02x%02x", P[i].d, P[i-1].h[0], P[i-1].h[1], P[i].h[0], P[i].h[1]); }
  qsort(P, np, sizeof(*P), byhash); shown = 0;
  for (i=0; i<np; i=j) for (j=i+1; j<np && !memcmp(P[i].h, P[j].h, 32); j++) if (strcmp(P[i].d, P[j].d)) {
    int cc = strcmp(P[i].c, P[j].c); if ((cc && shown & 1) || (!cc && shown & 2)) continue;
    shown |= cc ? 1 : 2; vh_fail(cc ? "collision" : "concat", "different contents have the same hash: %s", bufdiff(P[i].d, P[j].d)); }
  vh_observef("%d contents", nd); vh_count_states(nd);
  for (i=0; i<np; i++) { free(P[i].d); free(P[i].c); }
  np = 0;
}
static char *elem(DLiteInstance *i, int pn, size_t k) { const DLiteProperty *p = &i->meta->_properties[pn]; char *v = (char *)i + i->meta->_propoffsets[pn]; if (p->ndims) v = *(char **)v; return v + k*p->size; }
static void copies(DLiteInstance *i, const char *what, int all)
{
  DLiteInstance *c; uint8_t a[32], b[32]; int k; static const char *on[] = {"copy", "json", "bson"};
  for (k=0; k<3; k++) {
    char *s; unsigned char *t; size_t sz; char uu[40]; strcpy(uu, i->uuid);
    err_clear(); c = NULL;
    if (k && !all) continue;
    dlite_instance_get_hash(i, a, 32);
    if (k == 0) c = dlite_instance_copy(i, NULL);
    if (k == 1) { s = dlite_json_aprint(i, 0, 0); dlite_instance_incref((DLiteInstance *)i->meta); if (s) { char *q = strstr(s, i->uuid); if (q) memcpy(q, "01234567", 8); c = dlite_json_sscan(s, NULL, NULL); free(s); } dlite_meta_decref((DLiteMeta *)i->meta); }
    if (k == 2) { t = dlite_bson_from_instance(i, &sz); if (!t) { err_clear(); continue; } { size_t p; for (p=0; p+36<=sz; p++) if (!memcmp(t+p, i->uuid, 36)) { memcpy(t+p, "01234567", 8); break; } } c = dlite_bson_load_instance(t); free(t); }
    if (!c) { if (k < 2) vh_fail("copy", "%s: %s: %s", what, on[k], err_getmsg()); err_clear(); continue; }
    VH_CHECK(strcmp(c->uuid, uu), "copy", "%s: %s is the same instance", what, on[k]);
    dlite_instance_get_hash(c, b, 32); VH_CHECK(!memcmp(a, b, 32), "copy", "%s: hash of %s copy differs", what, on[k]);
    note(c, what); dlite_instance_decref(c);
  }
}
/* save, forget, load */
static void saveload(const TY *t, DLiteMeta *m, DLiteInstance **i, const char *drv, const char *what)
{
  char f[400]; uint8_t a[32], b[32]; char uu[40]; (void)t; (void)m;
  sprintf(f, "%s/h.%s", vh_scratch(), drv); unlink(f); err_clear();
  if (dlite_instance_save_loc(drv, f, "mode=w", *i)) { if (!strcmp(drv, "json")) vh_fail("save", "%s: %s", what, err_getmsg()); err_clear(); return; }
  dlite_instance_get_hash(*i, a, 32); strcpy(uu, (*i)->uuid); dlite_instance_decref(*i);
  *i = dlite_instance_load_loc(drv, f, "mode=r", uu); unlink(f);
  if (!*i) { vh_fail("load", "%s: %s: %s", what, drv, err_getmsg()); return; }
  dlite_instance_get_hash(*i, b, 32); VH_CHECK(!memcmp(a, b, 32), "saved", "%s: hash differs after saving to and loading from %s", what, drv);
  note(*i, what);
}
static const size_t SHP[][3] = {{1,1,1}, {0,1,1}, {1,1,1}, {2,1,1}, {3,1,1}, {1,2,1}, {2,2,1}, {2,3,1}, {3,2,1}, {2,1,3}, {2,2,2}};
static const int SND[] = {0,1,1,1,1,2,2,2,2,3,3};
void vh_setup(void) { dlite_init(); rt_setup(); warn("x"); err_clear(); }
void vh_explore(void)
{
  int t, sh, a, b, k; DLiteInstance *i; DLiteMeta *m;
  /* every element set to every value, in every shape */
  for (t=0; t<NTY; t++) for (sh=0; sh<N(SND); sh++) if (vh_case("elements %s shape %d", TYS[t].tn, sh)) {
    const TY *T = &TYS[t]; size_t n=1, e; int v, save; char w[200];
    mkthings(); m = mkmeta(T, SND[sh]); i = mkinst(m, T, SND[sh], SHP[sh], 0, NULL);
    if (!i) vh_fail("create", "%s", err_getmsg());
    else {
      for (k=0; k<SND[sh]; k++) n *= SHP[sh][k];
      note(i, "start"); copies(i, "start", 1); saveload(T, m, &i, "json", "start");
      for (e=0; i && e<n && !vh_failed(); e++) for (v=0; v<T->nval; v++) {
        char *p = elem(i, 1, e), *old = calloc(1, T->size); sprintf(w, "element %zu = %d", e, v);
        dlite_type_copy(old, p, T->t, T->size);
        dlite_type_clear(p, T->t, T->size); setvalue(T, p, v); note(i, w); copies(i, w, e == 0 || vh_thorough());
        if (e+1 < n) { char *tmp = malloc(T->size); memcpy(tmp, p, T->size); memcpy(p, p + T->size, T->size); memcpy(p + T->size, tmp, T->size); note(i, "swapped"); memcpy(tmp, p, T->size); memcpy(p, p + T->size, T->size); memcpy(p + T->size, tmp, T->size); free(tmp); }
        dlite_type_copy(p, old, T->t, T->size); note(i, "restored"); dlite_type_clear(old, T->t, T->size); free(old);
      }
      for (save=0; i && save<2 && !vh_failed(); save++) { saveload(T, m, &i, save ? "json" : "hdf5", "end"); }
      /* the properties before and after */
      if (i) { *(bool *)elem(i, 0, 0) = 0; note(i, "before"); free(*(char **)elem(i, 2, 0)); *(char **)elem(i, 2, 0) = strdup("END"); note(i, "after"); *(bool *)elem(i, 0, 0) = 1; note(i, "after"); dlite_instance_decref(i); }
    }
    drop_meta(m); finish(); vh_end();
  }
  /* two elements, all pairs of values */
  for (t=0; t<NTY; t++) if (vh_case("pairs %s", TYS[t].tn)) {
    const TY *T = &TYS[t]; char w[60];
    mkthings(); m = mkmeta(T, 1); i = mkinst(m, T, 1, SHP[3], 0, NULL);
    for (a=0; i && a<T->nval; a++) for (b=0; b<T->nval; b++) { char *p = elem(i, 1, 0); dlite_type_clear(p, T->t, T->size); setvalue(T, p, a); p = elem(i, 1, 1); dlite_type_clear(p, T->t, T->size); setvalue(T, p, b); sprintf(w, "%d, %d", a, b); note(i, w); }
    if (i) dlite_instance_decref(i);
    drop_meta(m); finish(); vh_end();
  }
  /* one type against another, and one metadata against another: same bytes, other metadata; same numbers of elements, other dimensions */
  if (vh_case("metadata and dimensions")) {
    char uri[100]; static char *sh[] = {"L", "M"}; DLiteDimension d[2] = {{"L", NULL}, {"M", NULL}}; int perm, nn; size_t L[2]; mkthings();
    for (k=0; k<4; k++) for (t=4; t<NTY; t+=4) for (perm=0; perm<2; perm++) {
      DLiteProperty p = {"x", TYS[t].t, TYS[t].size, TYS[t].t == dliteRef ? TURI : NULL, 2, sh, NULL, NULL}; char *sh2[] = {sh[perm], sh[1-perm]}; p.shape = sh2;
      sprintf(uri, "http://vh.org/0.%d/H%d%c", k, t, perm ? 'b' : 'a'); m = dlite_meta_create(uri, NULL, 2, d, 1, &p);
      if (!m) { vh_fail("meta", "%s", err_getmsg()); continue; }
      for (nn=0; nn<25; nn++) { L[0] = nn % 5; L[1] = nn / 5; i = dlite_instance_create(m, L, NULL); if (!i) vh_fail("create", "%s", err_getmsg()); else { note(i, uri); dlite_instance_decref(i); } }
      drop_meta(m);
    }
    finish(); vh_end();
  }
  /* parents: which one, and what it contained */
  if (vh_case("parents")) {
    DLiteInstance *pa[6]; const TY *T = &TYS[3];
    m = mkmeta(T, 1);
    for (k=0; k<6; k++) { char id[50]; sprintf(id, "http://vh.org/parent%d", k); pa[k] = mkinst(m, T, 1, SHP[2 + k % 2], k / 4, id); dlite_instance_freeze(pa[k]); }
    for (a=0; a<3; a++) for (k=-1; k<6; k++) { i = mkinst(m, T, 1, SHP[3], a, NULL); if (k >= 0) VH_CHECK(!dlite_instance_set_parent(i, pa[k]), "parent", "%s", err_getmsg()); note(i, "child"); dlite_instance_decref(i); }
    for (k=0; k<6; k++) note(pa[k], "parent");
    for (k=0; k<6; k++) dlite_instance_decref(pa[k]);
    drop_meta(m); finish(); vh_end();
  }
  /* same parent uuid, parent with other content: the hash differs */
  if (vh_case("content of parent")) {
    const TY *T = &TYS[3]; int v; uint8_t h[9][32];
    m = mkmeta(T, 0);
    for (v=0; v<9; v++) { DLiteInstance *p = mkinst(m, T, 0, SHP[0], v, "the parent"); dlite_instance_freeze(p); i = mkinst(m, T, 0, SHP[0], 0, NULL); dlite_instance_set_parent(i, p); dlite_instance_get_hash(i, h[v], 32); for (k=0; k<v; k++) VH_CHECK(memcmp(h[k], h[v], 32), "parent", "parents with values %d and %d", k, v); dlite_instance_decref(i); dlite_instance_decref(p); }
    vh_observef("11"); dlite_meta_decref(m); vh_end();
  }
  /* bytes that are not part of the value */
  if (vh_case("unused bytes")) {
    DLiteProperty p[2] = {{"s", dliteFixString, 8, NULL, 0, NULL, NULL, NULL}, {"f", dliteFloat, sizeof(long double), NULL, 0, NULL, NULL, NULL}};
    char s1[8] = "ab", s2[8] = "ab\0xyzw"; unsigned char f[16];
    m = dlite_meta_create("http://vh.org/0.1/Unused", NULL, 0, NULL, 2, p); i = dlite_instance_create(m, NULL, NULL);
    for (a=0; a<2; a++) for (b=0; b<2; b++) { long double x = 1.25L; memset(f, b ? 0x77 : 0, 16); memcpy(f, &x, 10); dlite_instance_set_property(i, "s", a ? s2 : s1); dlite_instance_set_property(i, "f", f); note(i, "set"); copies(i, "set", 1); }
    dlite_instance_decref(i); drop_meta(m); finish(); vh_end();
  }
  /* sizes: 32, 48 and 64 bytes, others are refused and nothing is written */
  if (vh_case("sizes")) {
    uint8_t h[600]; size_t q; DLiteCollection *c = dlite_collection_create(NULL); int coll;
    m = mkmeta(&TYS[3], 0); i = mkinst(m, &TYS[3], 0, SHP[0], 1, NULL);
    for (coll=0; coll<2; coll++) for (k=-70; k<=520; k++) { int r; if (k == 32 || k == 48 || k == 64) continue; memset(h, 0x5A, sizeof(h)); err_clear(); r = dlite_instance_get_hash(coll ? (DLiteInstance *)c : i, h, k); VH_CHECK(r && err_geteval(), "size", "size %d accepted", k); for (q=0; q<sizeof(h); q++) if (h[q] != 0x5A) { vh_fail("size", "size %d refused, but hash written", k); break; } }
    err_clear(); dlite_instance_decref(i); dlite_collection_decref(c); drop_meta(m); vh_observef("591"); vh_end();
  }
  /* metadata: everything that describes it counts */
  for (a=0; a<4; a++) if (vh_case("metadata content %d", a)) {
    static const char *S[] = {NULL, "", "a", "b", "ab"}; static char *shx[] = {"n", "m", "n+1", "m+1"}; int ds, pd, un, ty, nm, nd, sh2; DLiteDimension d[2];
    for (ds=0; ds<5; ds++) for (pd=0; pd<5; pd++) for (un=0; un<5; un++) for (ty=0; ty<(a ? 3 : 6); ty++) for (nm=0; nm<2; nm++) for (nd=0; nd<3; nd++) for (sh2=0; sh2<(nd ? 4 : 1); sh2++) {
      static const int TT[] = {3, 4, 9, 13, 18, 19}; char *shape[2]; DLiteProperty p[2]; char uri[50] = "http://vh.org/0.1/MC"; memset(p, 0, sizeof(p));
      d[0].name = a & 1 ? "n" : "k"; d[0].description = (char *)S[ds]; d[1].name = "m"; d[1].description = a & 2 ? "q" : NULL;
      if (!(a & 1)) { if (sh2 != 1 && sh2 != 3 && nd) continue; }
      shape[0] = shx[sh2]; shape[1] = "m";
      p[0].name = nm ? "x" : "xx"; p[0].type = TYS[TT[ty]].t; p[0].size = TYS[TT[ty]].size; p[0].ref = p[0].type == dliteRef ? TURI : NULL; p[0].ndims = nd; p[0].shape = nd ? shape : NULL; p[0].unit = (char *)S[un]; p[0].description = (char *)S[pd];
      p[1].name = "y"; p[1].type = dliteBool; p[1].size = sizeof(bool);
      m = dlite_meta_create(uri, a & 2 ? "about" : NULL, 2, d, 2, p); if (!m) { vh_fail("meta", "%s", err_getmsg()); break; }
      note((DLiteInstance *)m, "metadata"); k = drop_meta(m); VH_CHECK(k == 2, "meta", "%d references", k);
    }
    finish(); vh_end();
  }
  /* collections: a function of the relations and the labelled instances, in whatever order they came */
  for (a=0; a<2; a++) if (vh_case("collections %d", a)) {
    static const char *TR[][4] = {{"a", "p", "o", NULL}, {"a", "p", "o", "d"}, {"b", "p", "o", NULL}, {"a", "q", "o", NULL}, {"a", "p", "r", NULL}, {"a", "p", "o", "e"}, {"a", "p", "od", NULL}, {"ap", "p", "o", NULL}};
    int set, v; DLiteInstance *in[2]; m = mkmeta(&TYS[3], 0);
    if (a == 0) for (set=0; set<256; set++) for (v=0; v<3; v++) {
      DLiteCollection *c = dlite_collection_create(NULL); int q; Buf d = {0}, f = {0};
      for (k=0; k<8; k++) { q = v == 1 ? 7-k : v == 2 ? (k*3) % 8 : k; if (v == 2 && !(set >> q & 1)) { dlite_collection_add_relation(c, TR[q][0], TR[q][1], TR[q][2], TR[q][3]); dlite_collection_remove_relations(c, TR[q][0], TR[q][1], TR[q][2], TR[q][3] ? TR[q][3] : NULL); } }
      for (k=0; k<8; k++) { q = v == 1 ? 7-k : v == 2 ? (k*3) % 8 : k; if (set >> q & 1) dlite_collection_add_relation(c, TR[q][0], TR[q][1], TR[q][2], TR[q][3]); }
      buff(&d, "%d", set); { static const int order[] = {0, 1, 5, 6, 4, 3, 7, 2}; for (k=0; k<8; k++) if (set >> order[k] & 1) for (q=0; q<4; q++) if (TR[order[k]][q]) buff(&f, "%s", TR[order[k]][q]); if (!f.p) bufn(&f, "", 0); }
      note_as((DLiteInstance *)c, d.p, f.p, "collection"); dlite_collection_decref(c);
    }
    else for (v=0; v<9; v++) for (k=0; k<9; k++) for (set=0; set<16; set++) {
      DLiteCollection *c = dlite_collection_create(NULL); Buf d = {0};
      in[0] = mkinst(m, &TYS[3], 0, SHP[0], v, "http://vh.org/in0"); in[1] = mkinst(m, &TYS[3], 0, SHP[0], k, "http://vh.org/in1");
      if (set & 8) { if (set & 2) dlite_collection_add(c, "B", in[1]); if (set & 1) dlite_collection_add(c, "A", in[0]); }
      else { if (set & 1) dlite_collection_add(c, "A", in[0]); if (set & 2) dlite_collection_add(c, "B", in[1]); }
      if (set & 4) dlite_collection_add(c, "C", in[0]);
      buff(&d, "%d", set & 7); if (set & 5) buff(&d, " v0=%d", v); if (set & 2) buff(&d, " v1=%d", k);
      note_as((DLiteInstance *)c, d.p, strdup(d.p), "collection"); dlite_collection_decref(c);
      for (b=0; b<2; b++) { VH_CHECK(in[b]->_refcount == 1, "refcount", "hashing a collection leaves %d references to a labelled instance", in[b]->_refcount); while (in[b]->_refcount > 1) dlite_instance_decref(in[b]); dlite_instance_decref(in[b]); }
    }
    drop_meta(m); finish(); vh_end();
  }
  (void)json_case;
}
