/* A01: array views against a nested-list model: every view carries the list of
   the base elements it must show, in order. */
#include "vh.h"
#include "utils/err.h"
#include "dlite.h"
#include "dlite-arrays.h"
void *dlite_array_vindex(const DLiteArray *arr, ...);
#define MAXE 130
typedef struct View { int nd, shape[4], n, el[MAXE]; } View;
static int prod(const View *v) { int i, p = 1; for (i=0; i<v->nd; i++) p *= v->shape[i]; return p; }
static const struct { DLiteType t; int s; } TY[] = {{dliteInt,4},{dliteUInt,1},{dliteFloat,8},{dliteFixString,3},{dliteBlob,5},{dliteInt,2},{dliteFloat,16},{dliteBool,1}};
static int ESZ; static DLiteType ETY; static char *B1, *B2; static int NB;
static char hist[400];

static void setup_base(int n, int ty)
{
  int i, j; NB = n; ESZ = TY[ty].s; ETY = TY[ty].t;
  B1 = malloc(n*ESZ); B2 = malloc(n*ESZ);
  for (i=0; i<n; i++) for (j=0; j<ESZ; j++) B1[i*ESZ+j] = B2[i*ESZ+j] = ESZ == 1 ? i : j == 0 ? i % 100 : j == 1 ? i / 100 + 1 : 0;
}
static void drop_base(void) { free(B1); free(B2); }

/* model of one slice: limits counted from the back if negative, clamped;
   decreasing ranges go start-1, ..., stop */
static void m_slice(View *o, const View *v, const int *start, const int *stop, const int *step)
{
  int lst[4][12], i, k, idx[4] = {0}, pos;
  o->nd = v->nd; o->n = 0;
  for (i=0; i<v->nd; i++) {
    int n = v->shape[i], d = step ? step[i] : 1, a = start ? start[i] : d > 0 ? 0 : n, b = stop ? stop[i] : d > 0 ? n : 0;
    if (a < 0) a += n; if (a < 0) a = 0; if (a > n) a = n;
    if (b < 0) b += n; if (b < 0) b = 0; if (b > n) b = n;
    o->shape[i] = 0;
    if (d > 0) for (k=a; k<b; k+=d) lst[i][o->shape[i]++] = k; else for (k=a-1; k>=b; k+=d) lst[i][o->shape[i]++] = k;
  }
  if (!prod(o)) return;
  for (;;) {
    for (pos=i=0; i<v->nd; i++) pos = pos*v->shape[i] + lst[i][idx[i]];
    o->el[o->n++] = v->el[pos];
    for (i=v->nd-1; i>=0; i--) { if (++idx[i] < o->shape[i]) break; idx[i] = 0; }
    if (i < 0) break;
  }
}
static void m_transpose(View *o, const View *v)
{
  int i, k, idx[4] = {0}, pos, st[4];
  o->nd = v->nd; o->n = 0;
  for (i=0; i<v->nd; i++) o->shape[i] = v->shape[v->nd-1-i];
  for (i=v->nd-1, k=1; i>=0; i--) { st[v->nd-1-i] = k; k *= v->shape[i]; }
  if (!prod(o)) return;
  for (;;) {
    for (pos=i=0; i<v->nd; i++) pos += idx[i]*st[i];
    o->el[o->n++] = v->el[pos];
    for (i=o->nd-1; i>=0; i--) { if (++idx[i] < o->shape[i]) break; idx[i] = 0; }
    if (i < 0) break;
  }
}
#define BAD(tag, ...) do { char m_[500]; snprintf(m_, sizeof m_, __VA_ARGS__); vh_fail(tag, "%s: %s", hist, m_); return; } while (0)
static int consecutive(const View *v) { int i; for (i=1; i<v->n; i++) if (v->el[i] != v->el[i-1]+1) return 0; return 1; }
static void check_view(DLiteArray *a, DLiteArray *b, const View *v, int deep)
{
  DLiteArrayIter it; int i, k, idx[4] = {0}, r; char *p; int big = 1;
  if (!a || !b) BAD("refused", "operation failed: %s", err_getmsg());
  if (a->ndims != v->nd || a->type != ETY || (int)a->size != ESZ) BAD("shape", "ndims %d, expected %d", a->ndims, v->nd);
  for (i=0; i<v->nd; i++) { if ((int)a->shape[i] != v->shape[i]) BAD("shape", "extent %d is %d, expected %d", i, (int)a->shape[i], v->shape[i]); if (v->shape[i] < 2) big = 0; }
  if (dlite_array_iter_init(&it, a)) BAD("iter", "iterator fails");
  for (k=0; (p = dlite_array_iter_next(&it)); k++) {
    if (k >= v->n) BAD("iter", "iterates over more than %d elements", v->n);
    if (p != B1 + v->el[k]*ESZ) BAD("element", "element %d visited is base element %g, expected %d", k, (p-B1)*1.0/ESZ, v->el[k]);
    for (i=0; i<v->nd; i++) if (it.ind[i] != idx[i]) BAD("iter", "index %d of element %d is %d", i, k, it.ind[i]);
    if (dlite_array_index(a, idx) != p) BAD("index", "element %d indexed differs", k);
    if (dlite_array_vindex(a, idx[0], idx[1], idx[2], idx[3]) != p) BAD("index", "element %d indexed by arguments differs", k);
    for (i=v->nd-1; i>=0; i--) { if (++idx[i] < v->shape[i]) break; idx[i] = 0; }
  }
  if (k != v->n) BAD("iter", "visits %d elements, expected %d", k, v->n);
  for (i=0; i<2; i++) if (dlite_array_iter_next(&it)) BAD("iter", "iteration continues after the end");
  dlite_array_iter_deinit(&it);
  r = dlite_array_is_continuous(a);
  if (r && !consecutive(v)) BAD("continuous", "reported continuous");
  if (!r && big && consecutive(v)) BAD("continuous", "not reported continuous");
  if (r && v->nd && v->n && dlite_array_size(a) != (size_t)v->n*ESZ) BAD("size", "size %d, expected %d", (int)dlite_array_size(a), v->n*ESZ);
  if (!dlite_array_compare(a, b) || !dlite_array_compare(a, a)) BAD("compare", "differs from the same view of a copy");
  if (deep) {
    char *in = calloc(NB+1, 1), *data, *q; DLiteArray *c; size_t shp[4];
    for (i=0; i<v->n; i++) in[v->el[i]] = 1;
    for (i=0; i<NB; i++) {
      B2[i*ESZ+ESZ-1] ^= 0x40;
      if (dlite_array_compare(a, b) == in[i]) { free(in); BAD("compare", "changing base element %d, which is %s the view: compare gives %d", i, in[i] ? "in" : "outside", !in[i] ? 0 : 1); }
      B2[i*ESZ+ESZ-1] ^= 0x40;
    }
    free(in);
    /* reshape */
    { static const int R[][4] = {{1}, {2,1,-1}, {2,-1,1}, {3,1,-1,1}, {2,2,-1}, {2,-1,2}, {3,2,1,-1}, {2,3,-1}, {0}}; int j, m, ok;
      for (j=0; j<9; j++) {
        View w; w.nd = R[j][0]; m = 1; for (i=0; i<w.nd; i++) { w.shape[i] = w.nd == 1 ? v->n : R[j][i+1]; if (w.shape[i] > 0) m *= w.shape[i]; }
        if (w.nd > 1) for (i=0; i<w.nd; i++) if (w.shape[i] < 0) w.shape[i] = v->n / m;
        ok = prod(&w) == v->n && r;
        for (i=0; i<w.nd; i++) shp[i] = w.shape[i];
        c = dlite_array_reshape(a, w.nd, shp);
        if (!!c != ok) BAD("reshape", "reshape %d of %d elements (%s) %s", j, v->n, r ? "continuous" : "not continuous", c ? "accepted" : "refused");
        if (c) { if (c->ndims != w.nd || c->data != a->data || c->type != a->type || c->size != a->size || !dlite_array_is_continuous(c)) BAD("reshape", "wrong result");
          for (i=0; i<w.nd; i++) if ((int)c->shape[i] != w.shape[i]) BAD("reshape", "wrong extent");
          { DLiteArrayIter i2; dlite_array_iter_init(&i2, c); for (k=0; (p = dlite_array_iter_next(&i2)); k++) if (k >= v->n || p != B1 + v->el[k]*ESZ) BAD("reshape", "wrong element %d", k); dlite_array_iter_deinit(&i2); if (k != v->n) BAD("reshape", "%d elements", k); }
          dlite_array_free(c); }
      }
      err_clear();
    }
    /* a continuous copy */
    for (i=0; i<v->nd; i++) shp[i] = a->shape[i];
    c = dlite_array_create(a->data, a->type, a->size, a->ndims, shp); for (i=0; i<v->nd; i++) c->strides[i] = a->strides[i];
    if (!(data = dlite_array_make_continuous(c))) BAD("copy", "make_continuous fails");
    if (c->data != data || !dlite_array_is_continuous(c)) BAD("copy", "array not updated");
    for (i=0; i<v->n; i++) if (memcmp(data + i*ESZ, B1 + v->el[i]*ESZ, ESZ)) BAD("copy", "element %d of the continuous copy differs", i);
    for (i=0; i<v->nd; i++) if ((int)c->shape[i] != v->shape[i]) BAD("copy", "shape changed");
    for (i=0; i<NB; i++) if (memcmp(B1 + i*ESZ, B2 + i*ESZ, ESZ)) BAD("copy", "source changed");
    free(data); dlite_array_free(c);
  }
}
static DLiteArray *base(char *data, int nd, const int *shape) { size_t s[4]; int i; for (i=0; i<nd; i++) s[i] = shape[i]; return dlite_array_create(data, ETY, ESZ, nd, s); }
static void vbase(View *v, int nd, const int *shape) { int i; v->nd = nd; for (i=0; i<nd; i++) v->shape[i] = shape[i]; v->n = prod(v); for (i=0; i<v->n; i++) v->el[i] = i; }

/* one dimension: all limits and steps, twice */
static void rank1(void)
{
  int n, t = 0, s1, s2, M = vh_thorough() ? 7 : 5;
  for (n=0; n<=M; n++) for (s1=-n-3; s1<=n+2; s1++) for (s2=-n-3; s2<=n+2; s2++)
    if (vh_case("rank 1 extent %d slice %d %d", n, s1, s2)) {
      int d, *a1 = s1 == -n-3 ? NULL : &s1, *a2 = s2 == -n-3 ? NULL : &s2, u1, u2, e; long cnt = 0;
      setup_base(n, (t++) % 8);
      for (d=-4; d<=4 && !vh_failed(); d++) {
        View v, w, x; DLiteArray *a, *b, *a2v, *b2v; int dd = d ? d : 0, *pd = d == 4 ? NULL : &dd; int D = d == 4 ? 1 : d;
        a = base(B1, 1, &n); b = base(B2, 1, &n); vbase(&v, 1, &n);
        snprintf(hist, sizeof hist, "[%d] slice %s%d:%s%d:%d", n, a1 ? "" : "none", s1, a2 ? "" : "none", s2, D);
        a2v = dlite_array_slice(a, a1, a2, pd); b2v = dlite_array_slice(b, a1, a2, pd);
        if (d == 0) { if (a2v || b2v || !err_geteval()) vh_fail("step", "%s: zero step accepted", hist); err_clear(); dlite_array_free(a); dlite_array_free(b); continue; }
        m_slice(&w, &v, a1, a2, pd); check_view(a2v, b2v, &w, 1); cnt++;
        if (!vh_failed()) { int m = w.n;
          for (u1=-m-1; u1<=m+1; u1++) for (u2=-m-1; u2<=m+1; u2++) for (e=-3; e<=3 && !vh_failed(); e++) if (e) {
            DLiteArray *c1 = dlite_array_slice(a2v, &u1, &u2, &e), *c2 = dlite_array_slice(b2v, &u1, &u2, &e);
            snprintf(hist, sizeof hist, "[%d] slice %s%d:%s%d:%d then %d:%d:%d", n, a1 ? "" : "none", s1, a2 ? "" : "none", s2, D, u1, u2, e);
            m_slice(&x, &w, &u1, &u2, &e); check_view(c1, c2, &x, e == -2); dlite_array_free(c1); dlite_array_free(c2); cnt++;
          } }
        dlite_array_free(a2v); dlite_array_free(b2v); dlite_array_free(a); dlite_array_free(b);
      }
      drop_base(); vh_observef("%d %d %d %ld", n, s1, s2, cnt); vh_count_transitions(cnt); vh_end();
    }
}
/* two dimensions: all pairs of slices from a reduced set, then the transpose
   and a slice of it */
static void rank2(void)
{
  static const int ST[] = {1, 2, -1, -2, 3, -3}; int n, m, i, t = 0, M = 4;
  for (n=0; n<=M; n++) for (m=0; m<=M; m++) for (i=0; i<36; i++) if (vh_case("rank 2 shape %dx%d steps %d %d", n, m, ST[i/6], ST[i%6])) {
    int sh[2] = {n, m}, a0, a1, b0, b1, nulls; long cnt = 0; int step[2] = {ST[i/6], ST[i%6]};
    setup_base(n*m, (t++) % 8);
    for (nulls=0; nulls<4; nulls++)
    for (a0=-2; a0<=n; a0++) for (a1=-1; a1<=m; a1++) for (b0=-1; b0<=n; b0++) for (b1=-2; b1<=m && !vh_failed(); b1++) {
      int start[2] = {a0, a1}, stop[2] = {b0, b1}, k; View v, w, x, y; DLiteArray *a, *b, *s, *s2, *tr, *tr2, *q, *q2;
      int *ps = nulls & 1 ? NULL : start, *pe = nulls & 2 ? NULL : stop;
      if (!ps && (a0 != 0 || a1 != 0)) continue; if (!pe && (b0 != 0 || b1 != 0)) continue;
      a = base(B1, 2, sh); b = base(B2, 2, sh); vbase(&v, 2, sh);
      snprintf(hist, sizeof hist, "[%d][%d] slice %s%d,%d : %s%d,%d : %d,%d", n, m, ps ? "" : "none", a0, a1, pe ? "" : "none", b0, b1, step[0], step[1]);
      s = dlite_array_slice(a, ps, pe, step); s2 = dlite_array_slice(b, ps, pe, step);
      m_slice(&w, &v, ps, pe, step); check_view(s, s2, &w, i % 7 == 0 || nulls);
      if (!vh_failed()) {
        tr = dlite_array_transpose(s); tr2 = dlite_array_transpose(s2); m_transpose(&x, &w);
        strcat(hist, " transposed"); check_view(tr, tr2, &x, i % 7 == 0);
        for (k=0; k<4 && !vh_failed(); k++) { static const int S3[4][2] = {{1,1},{-1,1},{2,-1},{1,-2}}; int st[2] = {0, 1}, en[2] = {9, 9}; int e[2] = {S3[k][0], S3[k][1]}; int *p0 = k & 1 ? st : NULL, *p1 = NULL;
          if (k == 1) st[0] = 9, st[1] = 0;
          q = dlite_array_slice(tr, p0, p1, e); q2 = dlite_array_slice(tr2, p0, p1, e); m_slice(&y, &x, p0, p1, e); { char *z = hist + strlen(hist); sprintf(z, " then sliced %d", k); check_view(q, q2, &y, 0); *z = 0; } dlite_array_free(q); dlite_array_free(q2); cnt++; (void)en; }
        dlite_array_free(tr); dlite_array_free(tr2);
      }
      dlite_array_free(s); dlite_array_free(s2); dlite_array_free(a); dlite_array_free(b); cnt += 2;
    }
    drop_base(); vh_observef("%d %d %d %ld", n, m, i, cnt); vh_count_transitions(cnt); vh_end();
  }
}
/* three (and four) dimensions: sequences of operations on one dimension */
static void rankn_rec(DLiteArray *a, DLiteArray *b, const View *v, int depth, long *cnt)
{
  static const int OP[][3] = {{1,9,1},{0,-1,1},{0,9,2},{9,0,-1},{-1,0,-1},{9,0,-2},{0,0,1},{1,2,1},{9,1,-3},{-2,9,1}};
  int nop = (int)(sizeof OP/sizeof *OP)*v->nd + 1, o, i; char *z = hist + strlen(hist);
  if (!depth) return;
  for (o=0; o<nop && !vh_failed(); o++) {
    View w; DLiteArray *x, *y;
    if (o == nop-1) { x = dlite_array_transpose(a); y = dlite_array_transpose(b); m_transpose(&w, v); sprintf(z, " transpose"); }
    else {
      int dim = o % v->nd, k = o / v->nd, st[4], en[4], e[4];
      for (i=0; i<v->nd; i++) { st[i] = 0; en[i] = v->shape[i]; e[i] = 1; }
      st[dim] = OP[k][0]; en[dim] = OP[k][1]; e[dim] = OP[k][2];
      x = dlite_array_slice(a, st, en, e); y = dlite_array_slice(b, st, en, e); m_slice(&w, v, st, en, e); sprintf(z, " slice dim %d %d:%d:%d", dim, st[dim], en[dim], e[dim]);
    }
    check_view(x, y, &w, depth == 2); ++*cnt;
    if (!vh_failed()) rankn_rec(x, y, &w, depth-1, cnt);
    dlite_array_free(x); dlite_array_free(y); *z = 0;
  }
}
static void rankn(void)
{
  int nd, k, i, t = 0;
  for (nd=0; nd<=4; nd++) { int lim = nd < 4 ? 4 : 3, total = 1; for (i=0; i<nd; i++) total *= lim;
    for (k=0; k<total; k++) { int sh[4], r = k; long cnt = 0; for (i=0; i<nd; i++, r /= lim) sh[i] = nd < 4 ? r % lim : 1 + r % lim;
      if (vh_case("rank %d shape %d %d %d %d", nd, nd > 0 ? sh[0] : 0, nd > 1 ? sh[1] : 0, nd > 2 ? sh[2] : 0, nd > 3 ? sh[3] : 0)) {
        View v; DLiteArray *a, *b; vbase(&v, nd, sh); setup_base(v.n, (t++) % 8); a = base(B1, nd, sh); b = base(B2, nd, sh);
        snprintf(hist, sizeof hist, "shape %d", k);
        check_view(a, b, &v, 1); if (nd && !vh_failed()) rankn_rec(a, b, &v, vh_thorough() ? 4 : nd == 4 ? 2 : 3, &cnt);
        { size_t s[4]; View w; DLiteArray *f, *f2; for (i=0; i<nd; i++) s[i] = sh[i];
          f = dlite_array_create_order(B1, ETY, ESZ, nd, s, 'F'); f2 = dlite_array_create_order(B2, ETY, ESZ, nd, s, 'F'); m_transpose(&w, &v); if (nd) { strcpy(hist, "F order"); check_view(f, f2, &w, 1); } dlite_array_free(f); dlite_array_free(f2);
          f = dlite_array_create_order(B1, ETY, ESZ, nd, s, 'C'); f2 = dlite_array_create_order(B2, ETY, ESZ, nd, s, 'C'); strcpy(hist, "C order"); check_view(f, f2, &v, 1); dlite_array_free(f); dlite_array_free(f2);
          err_clear(); f = dlite_array_create_order(B1, ETY, ESZ, nd, s, 'x'); VH_CHECK(!f && err_geteval(), "order", "order 'x' accepted"); err_clear(); }
        /* printed elements in order */
        if (v.n && ETY == dliteInt) { char *buf = NULL; size_t sz; FILE *fp = open_memstream(&buf, &sz); char *q; int e = 0, d = 0, maxd = 0;
          dlite_array_printf(fp, a, -1, -1); fclose(fp);
          for (q=buf; *q; ) { if (*q == '[') { d++; q++; if (d > maxd) maxd = d; } else if (*q == ']') { d--; q++; } else if (*q == ' ' || *q == '\n') q++; else { long val = strtol(q, &q, 10); long want = e < v.n ? (ESZ == 1 ? v.el[e] : v.el[e] % 100 + 256*(v.el[e]/100 + 1)) : -1; if (val != want) { vh_fail("print", "element %d printed as %ld, expected %ld", e, val, want); break; } e++; } }
          VH_CHECK(e == v.n && d == 0 && maxd == nd, "print", "%d elements, %d unclosed brackets, depth %d", e, d, maxd); free(buf); }
        dlite_array_free(a); dlite_array_free(b); drop_base(); vh_observef("%d %d %ld", nd, k, cnt); vh_count_transitions(cnt); vh_end();
      } } }
}
void vh_setup(void) { err_set_stream(NULL); }
void vh_explore(void) { rankn(); rank1(); rank2(); }
