/* I03: array properties follow their dimensions.  All histories of resizing
   and assigning up to a bound, against flat vectors. */
#include "vh.h"
#include "inst.h"
#include <limits.h>
#define LEN(a) ((int)(sizeof(a)/sizeof(*(a))))
#define URI "http://onto-ns.com/meta/0.1/"
static const struct { DLiteType t; size_t s; } TY[] = {
  {dliteInt,4},{dliteStringPtr,8},{dliteFloat,8},{dliteBlob,3},{dliteFixString,5},{dliteRef,8},{dliteBool,1},{dliteUInt,2},{dliteDimension,sizeof(DLiteDimension)},{dliteProperty,sizeof(DLiteProperty)},{dliteRelation,sizeof(DLiteRelation)},{dliteInt,8},{dliteFloat,16},
};
/* shapes over dimensions n and m */
typedef struct Sh { int nd; const char *e[3]; } Sh;
static const Sh SH[] = {{1,{"n"}},{2,{"n","m"}},{1,{"n*m"}},{2,{"m","n"}},{1,{"n+1"}},{1,{"2*m-n"}},{2,{"2","n"}},{3,{"n","2","m"}},{0,{NULL}},{1,{"m"}},{2,{"n+m","2"}},{2,{"n","n"}}};
static int ev(int s, int j, int n, int m)
{
  switch (s) { case 0: return n; case 1: return j ? m : n; case 2: return n*m; case 3: return j ? n : m; case 4: return n+1; case 5: return 2*m-n; case 6: return j ? n : 2; case 7: return j == 0 ? n : j == 1 ? 2 : m; case 9: return m; case 10: return j ? 2 : n+m; case 11: return n; }
  return 0;
}
enum { ZERO=0, ANY=-1 };
typedef struct MP { int ty, sh, dims[3], n, *v; } MP;       /* v: element number, ZERO or ANY */
static DLiteInstance *REF[4];
static DLiteMeta *mkref(void) { static DLiteMeta *m; DLiteProperty p = {"x", dliteInt, 4, NULL, 0, NULL, NULL, NULL}; if (!m) m = dlite_meta_create(URI "RRef", NULL, 0, NULL, 1, &p); return m; }
static void refs(void) { int i; char id[20]; for (i=0; i<4; i++) { sprintf(id, "ref-%d", i); REF[i] = dlite_instance_create(mkref(), NULL, id); } }
/* makes element k (k > 0) of type ty at p; pointers stay owned by the caller */
static char SB[64][40];
static void mkval(int ty, int k, char *p)
{
  char *s = SB[k % 64];
  memset(p, 0, TY[ty].s); sprintf(s, "value number %d", k);
  switch (TY[ty].t) {
  case dliteInt: case dliteUInt: if (TY[ty].s == 2) *(uint16_t *)p = 7*k; else if (TY[ty].s == 4) *(int32_t *)p = -3*k; else *(int64_t *)p = ((int64_t)k << 33) - 1; break;
  case dliteFloat: if (TY[ty].s == 8) *(double *)p = k + 0.25; else *(long double *)p = k + 0.125L; break;
  case dliteBool: *(bool *)p = 1; break;
  case dliteBlob: p[0] = k; p[1] = 0; p[2] = ~k; break;
  case dliteFixString: snprintf(p, 5, "s%d", k % 1000); break;
  case dliteStringPtr: *(char **)p = s; break;
  case dliteRef: *(DLiteInstance **)p = REF[k % 4]; break;
  case dliteDimension: ((DLiteDimension *)p)->name = s; ((DLiteDimension *)p)->description = k % 2 ? s : NULL; break;
  case dliteProperty: ((DLiteProperty *)p)->name = s; ((DLiteProperty *)p)->type = dliteInt; ((DLiteProperty *)p)->size = 4; ((DLiteProperty *)p)->unit = k % 2 ? s : NULL; break;
  case dliteRelation: ((DLiteRelation *)p)->s = s; ((DLiteRelation *)p)->p = "p"; ((DLiteRelation *)p)->o = "o"; break;
  default: abort();
  }
}
static void dumpval(Buf *b, int ty, const void *p) { buf_value(b, p, TY[ty].t, TY[ty].s); }
static void m_dims(MP *P, int np, int n, int m, int dims[][3], int *neg) { int i, j; *neg = 0; for (i=0; i<np; i++) for (j=0; j<SH[P[i].sh].nd; j++) if ((dims[i][j] = ev(P[i].sh, j, n, m)) < 0) *neg = 1; }
static void m_resize(MP *p, const int *d)
{
  int nd = SH[p->sh].nd, j, n = 1, inner = 0, *v; for (j=0; j<nd; j++) { n *= d[j]; if (j && d[j] != p->dims[j]) inner = 1; }
  if (!nd) return;
  v = malloc((n+1)*sizeof(int));
  for (j=0; j<n; j++) v[j] = inner ? ANY : j < p->n ? p->v[j] : ZERO;
  free(p->v); p->v = v; p->n = n; for (j=0; j<nd; j++) p->dims[j] = d[j];
}
static char H[500];
static void check(DLiteInstance *inst, MP *P, int np, int N, int M)
{
  static char zero[64]; int i, j, k;
  int nn = dlite_instance_get_dimension_size_by_index(inst, 0), mm = dlite_instance_get_dimension_size_by_index(inst, 1);
  if (nn != N || mm != M) { vh_fail("dims", "%s: dimensions %dx%d, expected %dx%d", H, nn, mm, N, M); return; }
  if (dlite_instance_get_dimension_size(inst, "n") != N || dlite_instance_get_dimension_size(inst, "m") != M) { vh_fail("dims", "%s: dimensions by name differ", H); return; }
  for (i=0; i<np; i++) {
    char nm[10]; int nd = SH[P[i].sh].nd; size_t *d; char *data; Buf a = {0}, b = {0};
    sprintf(nm, "p%d", i);
    if (dlite_instance_get_property_ndims_by_index(inst, i) != nd || dlite_instance_get_property_ndims(inst, nm) != nd) { vh_fail("shape", "%s: %s ndims", H, nm); return; }
    d = dlite_instance_get_property_dims_by_index(inst, i);
    for (j=0; j<nd; j++) if ((int)d[j] != P[i].dims[j] || dlite_instance_get_property_shape_by_index(inst, i, j) != P[i].dims[j] || (int)dlite_instance_get_property_dimssize(inst, nm, j) != P[i].dims[j]) { vh_fail("shape", "%s: extent %d of %s is %d, expected %d", H, j, nm, (int)d[j], P[i].dims[j]); free(d); return; }
    free(d);
    if (nd && !P[i].n) { if ((data = dlite_instance_get_property(inst, nm))) { vh_fail("empty", "%s: %s is empty but has data", H, nm); return; } continue; }
    if (!(data = dlite_instance_get_property(inst, nm)) || data != dlite_instance_get_property_by_index(inst, i)) { vh_fail("data", "%s: %s has no data", H, nm); return; }
    for (k=0; k<P[i].n; k++) {
      char ex[64]; int e = P[i].v[k], any = e == ANY;
      a.n = b.n = 0; bufn(&a, "", 0); bufn(&b, "", 0);
      dumpval(&a, P[i].ty, data + k*TY[P[i].ty].s);    /* also touches every allocated byte */
      if (any) continue;
      if (e) mkval(P[i].ty, e, ex); dumpval(&b, P[i].ty, e ? ex : zero);
      if (strcmp(a.p, b.p)) { vh_fail("value", "%s: element %d of %s (%s) is %s, expected %s", H, k, nm, e ? "set" : "new", a.p, b.p); break; }
    }
    free(a.p); free(b.p);
    if (vh_failed()) return;
    { DLiteArray *arr = dlite_instance_get_property_array(inst, nm, 'C'); int one = nd ? 0 : 1;
      if (!arr || arr->data != data || arr->ndims != (nd ? nd : 1) || (one ? arr->shape[0] != 1 : 0)) vh_fail("array", "%s: array of %s", H, nm);
      else for (j=0; j<nd; j++) if ((int)arr->shape[j] != P[i].dims[j]) vh_fail("array", "%s: array of %s extent %d", H, nm, j);
      if (arr) dlite_array_free(arr); }
  }
}
static void assign(DLiteInstance *inst, MP *P, int i, int how, int *ctr)
{
  int n = SH[P[i].sh].nd ? P[i].n : 1, k, r; size_t s = TY[P[i].ty].s; char *buf = malloc(n*s + 1), nm[10]; int k0 = *ctr;
  sprintf(nm, "p%d", i);
  for (k=0; k<n; k++) { mkval(P[i].ty, k0+k+1, buf + k*s); P[i].v[k] = k0+k+1; }
  *ctr += n;
  r = how == 0 ? dlite_instance_set_property(inst, nm, buf) : how == 1 ? dlite_instance_set_property_by_index(inst, i, buf) : dlite_instance_assign_property(inst, nm, 'C', buf);
  VH_CHECK(!r, "set", "%s: assigning %s fails: %s", H, nm, err_getmsg());
  free(buf);
}
static void readback(DLiteInstance *inst, MP *P, int i)
{
  int n = SH[P[i].sh].nd ? P[i].n : 1, k; size_t s = TY[P[i].ty].s; char *buf = calloc(n + 1, s), *data = dlite_instance_get_property_by_index(inst, i); char nm[10]; int r;
  sprintf(nm, "p%d", i);
  r = dlite_instance_copy_property(inst, nm, 'C', buf);
  VH_CHECK(!r, "copy", "%s: reading %s fails: %s", H, nm, err_getmsg());
  for (k=0; k<n && !r; k++) { Buf a = {0}, b = {0}; dumpval(&a, P[i].ty, data + k*s); dumpval(&b, P[i].ty, buf + k*s); VH_CHECK(!strcmp(a.p, b.p), "copy", "%s: copied element %d of %s is %s, not %s", H, k, nm, b.p, a.p); free(a.p); free(b.p); }
  for (k=0; k<n; k++) dlite_type_clear(buf + k*s, TY[P[i].ty].t, s);
  free(buf);
}
/* operations: 0-24 resize both to (-1..3)^2, 25-28 by name, 29.. assign, then refused ones */
#define NSZ 25
static void run(DLiteMeta *meta, MP *P0, int np, int N, int M, const int *ops, int nops)
{
  size_t d0[2] = {N, M}; DLiteInstance *inst; MP P[3]; int i, j, o, ctr = 0, neg, dims[3][3];
  sprintf(H, "start %dx%d", N, M);
  memcpy(P, P0, sizeof(MP)*np);
  for (i=0; i<np; i++) P[i].v = NULL, P[i].n = 0;
  m_dims(P, np, N, M, dims, &neg); err_clear();
  inst = dlite_instance_create(meta, d0, NULL);
  if (neg) { VH_CHECK(!inst && err_geteval(), "create", "created with a negative extent"); err_clear(); if (inst) dlite_instance_decref(inst); return; }
  if (!inst) { vh_fail("create", "%s: creation fails: %s", H, err_getmsg()); return; }
  for (i=0; i<np; i++) { int nd = SH[P[i].sh].nd; for (j=0; j<nd; j++) P[i].dims[j] = -1; if (nd) { P[i].dims[1] = dims[i][1]; P[i].dims[2] = dims[i][2]; m_resize(&P[i], dims[i]); } else { P[i].v = calloc(1, sizeof(int)); P[i].n = 1; } }
  check(inst, P, np, N, M);
  for (o=0; o<nops && !vh_failed(); o++) {
    int op = ops[o], r, a, b; char *z = H + strlen(H);
    err_clear();
    if (op < NSZ + 8) {
      int dd[2] = {-1, -1};
      if (op < NSZ) { dd[0] = op/5 - 1; dd[1] = op%5 - 1; sprintf(z, ", resize %d,%d", dd[0], dd[1]); r = dlite_instance_set_dimension_sizes(inst, dd); }
      else { a = (op - NSZ) & 1; b = ((op - NSZ) >> 1) + 0; dd[a] = b; sprintf(z, ", set %c=%d", a ? 'm' : 'n', b); r = b & 1 ? dlite_instance_set_dimension_size(inst, a ? "m" : "n", b) : dlite_instance_set_dimension_size_by_index(inst, a, b); }
      a = dd[0] < 0 ? N : dd[0]; b = dd[1] < 0 ? M : dd[1];
      m_dims(P, np, a, b, dims, &neg);
      VH_CHECK(!!r == neg, "resize", "%s: returns %d", H, r);
      if (neg) VH_CHECK(err_geteval(), "resize", "%s: no error set", H);
      else { N = a; M = b; for (i=0; i<np; i++) m_resize(&P[i], dims[i]); }
    } else if (op < NSZ + 8 + 9) {
      int k = op - NSZ - 8; i = k % 3; if (i >= np) { *z = 0; continue; }
      if (SH[P[i].sh].nd && !P[i].n && k/3 == 2) { *z = 0; continue; }
      sprintf(z, ", assign p%d", i); assign(inst, P, i, k/3, &ctr); if (!SH[P[i].sh].nd || P[i].n) readback(inst, P, i);
    } else {
      int k = op - NSZ - 17; long buf[8] = {0}; r = 1; sprintf(z, ", refused %d", k);
      switch (k) {
      case 0: r = dlite_instance_set_dimension_size(inst, "nope", 2); break;
      case 1: r = dlite_instance_set_dimension_size_by_index(inst, 2, 2); break;
      case 2: r = dlite_instance_set_dimension_size_by_index(inst, 77, 1); break;
      case 3: r = dlite_instance_set_property(inst, "nope", buf); break;
      case 4: r = dlite_instance_set_property_by_index(inst, np, buf); break;
      case 5: r = dlite_instance_get_property(inst, "nope") ? 0 : 1; break;
      case 6: r = dlite_instance_get_property_by_index(inst, np) ? 0 : 1; break;
      case 7: r = dlite_instance_get_dimension_size(inst, "p0") == -1; break;
      case 8: r = (int)dlite_instance_get_dimension_size_by_index(inst, 2) < 0; break;
      case 9: r = dlite_instance_get_property_ndims_by_index(inst, np) < 0; break;
      case 10: r = dlite_instance_get_property_shape_by_index(inst, 0, 3) < 0 && dlite_instance_get_property_shape_by_index(inst, np+3, 0) < 0; break;
      case 11: r = dlite_instance_get_property_dims_by_index(inst, np) == NULL; break;
      case 12: r = dlite_meta_get_property_by_index(meta, np) == NULL && dlite_meta_get_dimension_by_index(meta, 2) == NULL; break;
      case 13: r = !dlite_instance_has_property(inst, "n") && !dlite_instance_has_dimension(inst, "p0") && dlite_instance_has_property(inst, "p0") && dlite_instance_has_dimension(inst, "m") && err(1, "x"); break;
      case 14: r = dlite_instance_set_dimension_size_by_index(inst, 0, (size_t)INT_MAX + 1 + 1); break;
      }
      VH_CHECK(r && err_geteval(), "refuse", "%s: not refused (%d) or no error", H, r);
    }
    err_clear();
    if (!vh_failed()) check(inst, P, np, N, M);
  }
  /* a copy has the same contents */
  if (!vh_failed()) { DLiteInstance *c = dlite_instance_copy(inst, NULL); strcat(H, ", copy"); if (!c) vh_fail("copy", "%s: fails: %s", H, err_getmsg()); else { check(c, P, np, N, M); dlite_instance_decref(c); } }
  for (i=0; i<np; i++) free(P[i].v);
  dlite_instance_decref(inst);
}
static DLiteMeta *mkmeta(const char *uri, MP *P, int np)
{
  DLiteDimension d[2] = {{"n", NULL}, {"m", NULL}}; DLiteProperty p[3]; char nm[3][8]; char *sh[3][3]; int i, j;
  memset(p, 0, sizeof p);
  for (i=0; i<np; i++) { sprintf(nm[i], "p%d", i); p[i].name = nm[i]; p[i].type = TY[P[i].ty].t; p[i].size = TY[P[i].ty].s; p[i].ref = p[i].type == dliteRef ? URI "RRef" : NULL; p[i].ndims = SH[P[i].sh].nd; for (j=0; j<p[i].ndims; j++) sh[i][j] = (char *)SH[P[i].sh].e[j]; p[i].shape = p[i].ndims ? sh[i] : NULL; }
  return dlite_meta_create(uri, NULL, 2, d, np, p);
}
void vh_setup(void) { dlite_init(); err_set_stream(NULL); refs(); dlite_type_get_dtype("int"); }
void vh_explore(void)
{
  int ty, sh, sh2, i, NOP = NSZ + 8 + 9 + 15, o1, o2, o3; static const int ST[][2] = {{0,0},{2,1},{1,2},{3,3},{0,2},{2,0}};
  for (sh=0; sh<LEN(SH); sh++) for (ty=0; ty<LEN(TY); ty++) for (i=0; i<LEN(ST); i++)
    if ((vh_thorough() || i == (sh + ty) % 6 || i == (sh + ty + 3) % 6) && vh_case("type %d/%d shape %s,%s start %dx%d", TY[ty].t, (int)TY[ty].s, SH[sh].nd ? SH[sh].e[0] : "", SH[sh].nd > 1 ? SH[sh].e[1] : "", ST[i][0], ST[i][1])) {
      MP P[3] = {{ty, sh}, {1, (sh+1) % LEN(SH)}, {(ty+3) % LEN(TY), (sh+5) % LEN(SH)}}; int np = 1 + (sh + ty) % 3, ops[4]; char uri[80]; DLiteMeta *m; long cnt = 0; size_t h0 = 0, h1;
      sprintf(uri, URI "Rsz%d_%d_%d", sh, ty, i); m = mkmeta(uri, P, np);
      if (!m) { vh_fail("meta", "%s: %s", uri, err_getmsg()); vh_end(); continue; }
      run(m, P, np, ST[i][0], ST[i][1], ops, 0); h0 = vh_heap();
      for (o1=0; o1<NOP && !vh_failed(); o1++) { ops[0] = o1; for (o2=0; o2<NOP && !vh_failed(); o2++) { ops[1] = o2;
        if (vh_thorough() || (o1 >= NSZ+8 && o1 < NSZ+17)) for (o3=0; o3<NSZ+17 && !vh_failed(); o3 += vh_thorough() ? 3 : o3 < NSZ ? 7 : 3) { ops[2] = o3; run(m, P, np, ST[i][0], ST[i][1], ops, 3); cnt++; }
        else { run(m, P, np, ST[i][0], ST[i][1], ops, 2); cnt++; } } }
      h1 = vh_heap(); if (!vh_failed()) VH_CHECK(h1 <= h0 + 1500, "leak", "%ld histories leave %ld bytes", cnt, (long)(h1 - h0));
      dlite_meta_decref(m); vh_observef("%s %ld", uri, cnt); vh_count_transitions(cnt*3); vh_end();
    }
  (void)sh2;
}
