/* S01/S02/S03: write data or metadata in every layout and format, read it
   back where nothing of it is left in memory, compare with an independent
   dump of what was written.  --part=1 JSON data, 2 HDF5/BSON data,
   3 metadata. */
#include "vh.h"
#include "inst.h"
#include <math.h>
#include <float.h>
#include <unistd.h>
#include "dlite-bson.h"
#include "dlite-json.h"

static int part;
void vh_setup(void) { err_set_stream(NULL); part = vh_arg("part", 1); }

/* ---------------------------------------------------------------- values */
typedef struct { const char *tn; DLiteType t; size_t size; int nval; } TY;
static const int64_t IV[] = {0, 1, -1, INT8_MAX, INT8_MIN, INT16_MAX, INT16_MIN, INT32_MAX, INT32_MIN, INT64_MAX, INT64_MIN};
static const uint64_t UV[] = {0, 1, UINT8_MAX, UINT16_MAX, UINT32_MAX, UINT64_MAX, 1ULL<<63};
static const double FV[] = {0.0, -0.0, 1.5, -3.14159265358979312, DBL_MAX, DBL_MIN, 4.9406564584124654e-324, 0.1, 1e22, -123456789.123456789};
static const char *SV[] = {"", "a", " lead and trail ", "quote\"in", "back\\slash", "nl\ntab\tret\r", "\x01\x1f\x7f", "\xc3\xa6\xe2\x82\xac\xf0\x9f\x98\x80",
                           "null", "[1,2]", "{\"a\": 1}", "\\u0041\\n", "/slash", "'", "#", ",", "\b\f", "true", "12",
                           "a long string a long string a long string a long string a long string a long string a long string a long string a long string a long string"};
#define N(a) ((int)(sizeof(a)/sizeof((a)[0])))
static const TY TYS[] = {
  {"bool", dliteBool, sizeof(bool), 2}, {"int8", dliteInt, 1, N(IV)}, {"int16", dliteInt, 2, N(IV)}, {"int32", dliteInt, 4, N(IV)}, {"int64", dliteInt, 8, N(IV)},
  {"uint8", dliteUInt, 1, N(UV)}, {"uint16", dliteUInt, 2, N(UV)}, {"uint32", dliteUInt, 4, N(UV)}, {"uint64", dliteUInt, 8, N(UV)},
  {"float32", dliteFloat, 4, N(FV)}, {"float64", dliteFloat, 8, N(FV)}, {"longdouble", dliteFloat, sizeof(long double), N(FV)},
  {"blob1", dliteBlob, 1, 3}, {"blob3", dliteBlob, 3, 3}, {"blob17", dliteBlob, 17, 3},
  {"string1", dliteFixString, 2, N(SV)}, {"string9", dliteFixString, 10, N(SV)}, {"string40", dliteFixString, 41, N(SV)},
  {"string", dliteStringPtr, sizeof(char *), N(SV)+1},
  {"ref", dliteRef, sizeof(void *), 3}, {"dimension", dliteDimension, sizeof(DLiteDimension), N(SV)}, {"property", dliteProperty, sizeof(DLiteProperty), 8},
  {"relation", dliteRelation, sizeof(DLiteRelation), N(SV)},
};
#define NTY N(TYS)
/* Referenced instances, owned by the reader and writer */
#define TURI "http://vh.org/0.1/Thing"
static DLiteInstance *things[2];
static int mkthings(void)
{
  static const char *ids[] = {"00000000-0000-4000-8000-000000000001", "http://vh.org/thing#1"};
  DLiteProperty p = {"x", dliteInt, 4, NULL, 0, NULL, NULL, NULL}; int i;
  DLiteMeta *m = dlite_meta_create(TURI, NULL, 0, NULL, 1, &p);
  for (i=0; m && i<2; i++) things[i] = dlite_instance_create(m, NULL, ids[i]);
  if (m) dlite_meta_decref(m);
  return m && things[0] && things[1] ? 0 : 1;
}
/* `zero` bytes at v are set to value number i */
static void setvalue(const TY *t, char *v, int i)
{
  size_t k; i %= t->nval;
  switch (t->t) {
  case dliteBool: *(bool *)v = i; break;
  case dliteInt: { int64_t x = IV[i];
      if (t->size == 1) { *(int8_t *)v = x; } else if (t->size == 2) { *(int16_t *)v = x; } else if (t->size == 4) { *(int32_t *)v = x; } else *(int64_t *)v = x; } break;
  case dliteUInt: { uint64_t x = UV[i];
      if (t->size == 1) { *(uint8_t *)v = x; } else if (t->size == 2) { *(uint16_t *)v = x; } else if (t->size == 4) { *(uint32_t *)v = x; } else *(uint64_t *)v = x; } break;
  case dliteFloat: if (t->size == 4) { float f = FV[i] > FLT_MAX ? FLT_MAX : FV[i] < 1e-40 && FV[i] > 0 ? 1.4e-45f : (float)FV[i]; *(float *)v = f; }
    else if (t->size == 8) *(double *)v = FV[i];
    else { long double f = i == 4 ? LDBL_MAX : i == 5 ? LDBL_MIN : i == 3 ? 3.14159265358979323846264338327950288L : FV[i]; memcpy(v, &f, 10); }
    break;
  case dliteBlob: for (k=0; k<t->size; k++) v[k] = i == 0 ? 0 : i == 1 ? (char)0xff : (char)(k*37+1); break;
  case dliteFixString: memset(v, 0, t->size);
    { size_t L = strlen(SV[i]); if (L > t->size-1) { L = t->size-1; while (L && (SV[i][L] & 0xC0) == 0x80) L--; } memcpy(v, SV[i], L); } break;
  case dliteStringPtr: *(char **)v = i == N(SV) ? NULL : strdup(SV[i]); break;
  case dliteRef: *(DLiteInstance **)v = i ? things[i-1] : NULL; if (i) dlite_instance_incref(things[i-1]); break;
  case dliteDimension: { DLiteDimension *d = (void *)v; char nm[16]; sprintf(nm, "d%d", i); d->name = strdup(nm); d->description = i % 3 ? strdup(SV[i]) : NULL; } break;
  case dliteProperty: { DLiteProperty *p = (void *)v; static const char *tn[] = {"int32","string","float64","blob5","string12","bool","ref","uint8"}; char nm[16];
      memset(p, 0, sizeof(*p)); sprintf(nm, "p%d", i); p->name = strdup(nm);
      dlite_type_set_dtype_and_size(tn[i], &p->type, &p->size);
      if (p->type == dliteRef) p->ref = strdup(TURI);
      if (i % 3) { p->ndims = i % 3; p->shape = calloc(2, sizeof(char *)); p->shape[0] = strdup("n"); if (i % 3 == 2) p->shape[1] = strdup("n+1"); }
      if (i & 1) p->unit = strdup(SV[(i*3) % N(SV)]); if (i & 2) p->description = strdup(SV[(i*5) % N(SV)]); } break;
  case dliteRelation: { DLiteRelation *r = (void *)v; r->s = strdup(SV[i]); r->p = strdup(i & 1 ? "http://x.org/p#q" : ":p"); r->o = strdup(SV[(i+7) % N(SV)]); r->d = i % 3 == 0 ? NULL : strdup(i % 3 == 1 ? "@en" : "xsd:int"); } break;
  default: break;
  }
}

/* a metadata with one property of type `t` and `nd` dims, extra int property */
#define MURI "http://vh.org/0.1/Data"
static DLiteMeta *mkmeta(const TY *t, int nd)
{
  static char *dn[] = {"L", "M", "N"}; int k;
  DLiteDimension dims[3]; DLiteProperty p[3];
  memset(p, 0, sizeof(p));
  for (k=0; k<nd; k++) { dims[k].name = dn[k]; dims[k].description = k ? "d" : NULL; }
  p[0].name = "before"; p[0].type = dliteBool; p[0].size = sizeof(bool);
  p[1].name = "value"; p[1].type = t->t; p[1].size = t->size; p[1].ndims = nd; p[1].shape = nd ? dn : NULL;
  if (t->t == dliteRef) p[1].ref = TURI;
  p[2].name = "after"; p[2].type = dliteStringPtr; p[2].size = sizeof(char *);
  return dlite_meta_create(MURI, "test", nd, nd ? dims : NULL, 3, p);
}
static DLiteInstance *mkinst(const DLiteMeta *m, const TY *t, int nd, const size_t *shape, int off, const char *id)
{
  DLiteInstance *inst = dlite_instance_create(m, shape, id); size_t n=1, i; char *v; int k;
  if (!inst) return NULL;
  for (k=0; k<nd; k++) n *= shape[k];
  *(bool *)((char *)inst + m->_propoffsets[0]) = 1;
  v = (char *)inst + m->_propoffsets[1]; if (nd) v = *(char **)v;
  for (i=0; i<n; i++) setvalue(t, v + i*t->size, off + (int)i);
  *(char **)((char *)inst + m->_propoffsets[2]) = strdup("end");
  return inst;
}

/* ------------------------------------------------------------- layouts */
static const char *IDS[] = {NULL, "http://vh.org/data#1", "00000000-1111-4222-8333-444444444444", "plain id with \"q\\\" and \xc3\xa6", "http://vh.org/data/"};
enum { STR=0, FILEIO, FILEURL };
static const struct { int flags; const char *opts; } LAY[] = {
  {0, "mode=w"}, {dliteJsonSingle, "mode=w;single=true"}, {dliteJsonWithUuid, "mode=w;single=false;with-uuid=true"},
  {dliteJsonWithMeta, "mode=w;with-meta=1"}, {dliteJsonUriKey, "mode=w;uri-key=true"}, {dliteJsonCompactRel, "mode=w;arrays=1"},
  {dliteJsonSingle | dliteJsonWithUuid, "mode=w;single=1;with-uuid=1"}, {dliteJsonSingle | dliteJsonCompactRel | dliteJsonWithMeta, "mode=w;single=yes;with-meta=yes;uri-key=yes"},
  {dliteJsonUriKey | dliteJsonWithUuid, "mode=a;uri-key=true;with-uuid=true"}, {dliteJsonArrays, "mode=a"},
  {dliteJsonNoParent, "mode=w;compact=false"},
};
#define NLAY N(LAY)
static int isnonfinite(const TY *t, int off) { (void)t; (void)off; return 0; }

/* write `inst` with layout l, via string (how=0) or file. */
static char *fname(void) { static char f[600]; snprintf(f, sizeof(f), "%s/rt.json", vh_scratch()); return f; }
static char *text;
static int write_json(DLiteInstance *inst, int how, int l)
{
  if (how == 0) {
    free(text); text = dlite_json_aprint(inst, l % 3, LAY[l].flags);
    if (text) {  /* sprint to exact and short buffers agrees */
      int n = (int)strlen(text); char *b = malloc(n+1);
      int m = dlite_json_sprint(b, n+1, inst, l % 3, LAY[l].flags);
      VH_CHECK(m == n && !strcmp(b, text), "sprint", "dlite_json_sprint() gives %d bytes, dlite_json_aprint() %d", m, n);
      free(b);
    }
    return text ? 0 : 1;
  }
  unlink(fname());
  if (how == 1) return dlite_instance_save_loc("json", fname(), LAY[l].opts, inst);
  { char url[1200]; snprintf(url, sizeof(url), "json://%s?%s", fname(), LAY[l].opts); return dlite_instance_save_url(url, inst); }
}
static DLiteInstance *read_json(const char *id, const char *uuid, int how, int l, int rid)
{
  const char *q = rid == 0 ? NULL : rid == 1 ? uuid : id;
  (void)l;
  if (how == 0) return dlite_json_sscan(text, q, rid == 1 ? MURI : NULL);
  if (how == 1) return dlite_instance_load_loc("json", fname(), "mode=r", q);
  { char url[1200]; snprintf(url, sizeof(url), "json://%s?mode=r%s%s", fname(), q ? "#" : "", q ? q : ""); return dlite_instance_load_url(url); }
}
static void json_case(const TY *t, int nd, const size_t *shape, int off, int l, int how, int idn, int fresh)
{
  DLiteMeta *m; DLiteInstance *inst, *got; Buf want={0}, have={0}; int rid, r; char uuid[40]; DLiteInstance *keep=NULL;
  if (!vh_case("%s nd=%d %zux%zux%zu off=%d layout=%d how=%d id=%d fresh=%d", t->tn, nd, shape[0], shape[1], shape[2], off, l, how, idn, fresh)) return;
  (void)keep;
  if (fresh) {
    char df[700]; FILE *fp; snprintf(df, sizeof(df), "%s/dump", vh_scratch()); unlink(df);
    if (vh_fork()) {
      mkthings(); m = mkmeta(t, nd); inst = m ? mkinst(m, t, nd, shape, off, IDS[idn]) : NULL;
      if (inst) { buf_inst(&want, inst, 0); r = write_json(inst, how ? how : 1, l);
        VH_CHECK(!r || t->size == 16, "write", "writing failed: %s", err_getmsg());
        if (!r && (fp = fopen(df, "w"))) { fwrite(inst->uuid, 1, 36, fp); fwrite(want.p, 1, want.n, fp); fclose(fp); } }
      else vh_fail("create", "cannot create");
      vh_join();
    }
    if (vh_fork()) {
      static char b[65536]; size_t n=0; mkthings(); m = mkmeta(t, nd);
      fp = fopen(df, "r"); if (fp) { n = fread(b, 1, sizeof(b)-1, fp); fclose(fp); }
      b[n] = 0; memcpy(uuid, b, 36); uuid[36] = 0;
      if (n) { got = read_json(IDS[idn], uuid, how ? how : 1, l, 1);
        if (!got) vh_fail("read", "reading failed: %s", err_getmsg());
        else { buf_inst(&have, got, 0); VH_CHECK(!strcmp(have.p, b+36), "differs", "%s", bufdiff(have.p, b+36)); } }
      vh_join();
    }
    vh_observef("%s/%d", t->tn, nd); vh_count_states(2); vh_count_transitions(2); vh_end();
    return;
  }
  if (!things[0] && mkthings()) { vh_fail("things", "cannot create"); vh_end(); return; }
  m = mkmeta(t, nd);
  inst = m ? mkinst(m, t, nd, shape, off, IDS[idn]) : NULL;
  if (!inst) { vh_fail("create", "cannot create: %s", err_getmsg()); vh_end(); return; }
  buf_inst(&want, inst, 0); strcpy(uuid, inst->uuid);
  r = write_json(inst, how, l);
  /* long double cannot be expressed as JSON here: refused, never altered */
  VH_CHECK(!r || t->size == 16, "write", "writing failed: %s", err_getmsg());
  dlite_instance_decref(inst);
  if (!r) {
    VH_CHECK(!dlite_instance_has(uuid, 0), "alive", "instance still alive");
    for (rid=0; rid<3; rid++) {
      if (rid == 2 && (!IDS[idn] || how == 2)) continue;
      got = read_json(IDS[idn], uuid, how, l, rid);
      if (!got) { vh_fail("read", "reading by %s failed: %s", rid == 0 ? "no id" : rid == 1 ? "uuid" : "id", err_getmsg()); continue; }
      have.n = 0; buf_inst(&have, got, 0);
      VH_CHECK(!strcmp(have.p, want.p), "differs", "by %d: %s", rid, bufdiff(have.p, want.p));
      vh_trace("%.300s", have.p);
      while (got->_refcount > 1) { vh_fail("refs", "loaded instance has %d references", got->_refcount); break; }
      dlite_instance_decref(got);
      if (dlite_instance_has(uuid, 0)) { vh_fail("alive", "instance still alive after read %d", rid); break; }
    }
  }
  r = drop_meta(m);
  VH_CHECK(r == 2, "meta-refs", "%d references to metadata", r);
  VH_CHECK(!dlite_instance_has(MURI, 0), "meta-alive", "metadata still alive");
  vh_observef("%s/%d/%zu%zu%zu/%d", t->tn, nd, shape[0], shape[1], shape[2], l);
  vh_count_states(1); vh_count_transitions(3);
  buf_free(&want); buf_free(&have); err_clear(); vh_end();
}
static void json_data(void)
{
  int i, nd, c, off, l, how, idn; size_t sh[3];
  for (i=0; i<NTY; i++) {
    const TY *t = &TYS[i]; const size_t z[3] = {0,0,0};
    /* every value x layout x medium, scalar */
    for (off=0; off<t->nval; off++) for (l=0; l<NLAY; l++) for (how=0; how<3; how++) for (idn=0; idn<N(IDS); idn++) {
      if (!vh_thorough() && idn != (off + l + how) % N(IDS)) continue;
      json_case(t, 0, z, off, l, how, idn, 0);
    }
    /* every shape */
    for (nd=1; nd<=3; nd++) {
      int maxc = nd == 1 ? 4 : nd == 2 ? 16 : 64;
      for (c=0; c<maxc; c++) {
        sh[0] = c % 4; sh[1] = nd > 1 ? c/4 % 4 : 0; sh[2] = nd > 2 ? c/16 : 0;
        for (l=0; l<NLAY; l++) for (how=0; how<3; how++) {
          if (!vh_thorough() && ((c + l + how + nd) % 5)) continue;
          json_case(t, nd, sh, c, l, how, (c + l) % N(IDS), 0);
        }
      }
    }
    /* separate processes */
    for (nd=0; nd<=3; nd++) for (l=0; l<NLAY; l++) for (how=1; how<3; how++) {
      if (!vh_thorough() && (nd + l + how) % 4) continue;
      sh[0] = nd > 0 ? 2 : 0; sh[1] = nd > 1 ? 3 : 0; sh[2] = nd > 2 ? 1 : 0;
      json_case(t, nd, sh, nd, l, how, 1 + (nd + l) % (N(IDS)-1), 1);
    }
  }
}

/* ------------------------------------------------------------- hdf5, bson */
static void bin_case(const TY *t, int nd, const size_t *shape, int off, int fmt, int idn)
{
  DLiteMeta *m; DLiteInstance *inst, *got; Buf want={0}, have={0}; int r; char uuid[40]; unsigned char *doc=NULL; size_t dsize=0; size_t n=1; int k;
  char fn[600];
  if (!vh_case("%s %s nd=%d %zux%zux%zu off=%d id=%d", fmt ? "bson" : "hdf5", t->tn, nd, shape[0], shape[1], shape[2], off, idn)) return;
  snprintf(fn, sizeof(fn), "%s/rt.h5", vh_scratch()); unlink(fn);
  for (k=0; k<nd; k++) n *= shape[k];
  if (!things[0] && mkthings()) { vh_fail("things", "cannot create"); vh_end(); return; }
  m = mkmeta(t, nd);
  inst = m ? mkinst(m, t, nd, shape, off, IDS[idn]) : NULL;
  if (!inst) { vh_fail("create", "cannot create: %s", err_getmsg()); vh_end(); return; }
  buf_inst(&want, inst, DUMP_NOURI); strcpy(uuid, inst->uuid);
  if (fmt == 0) r = dlite_instance_save_loc("hdf5", fn, "mode=w", inst);
  else { doc = dlite_bson_from_instance(inst, &dsize); r = doc ? 0 : 1; }
  dlite_instance_decref(inst);
  VH_CHECK(!dlite_instance_has(uuid, 0), "alive", "instance still alive");
  if (r) {
    /* refusal is legitimate only for types the format lacks */
    int lacks = fmt == 0 ? (t->t >= dliteRef || t->size == 16) : t->t == dliteProperty || t->t == dliteRelation || t->t == dliteDimension || (t->t == dliteFloat && t->size > 8);
    if (t->t == dliteRef) lacks = fmt == 0 || lacks;
    if (t->t == dliteStringPtr) { int x; for (x=0; x<(int)n; x++) if ((off + x) % t->nval == N(SV)) lacks = 1; }   /* NULL string */
    VH_CHECK(lacks, "refused", "cannot be written: %s", err_getmsg());
    VH_CHECK(err_geteval(), "silent", "refused without an error");
  } else {
    got = fmt == 0 ? dlite_instance_load_loc("hdf5", fn, "mode=r", uuid) : dlite_bson_load_instance(doc);
    if (!got) vh_fail("read", "reading failed: %s", err_getmsg());
    else {
      buf_inst(&have, got, DUMP_NOURI);
      VH_CHECK(!strcmp(have.p, want.p), "differs", "%s", bufdiff(have.p, want.p));
      if (fmt == 1) VH_CHECK((got->uri == NULL) == (IDS[idn] == NULL || dlite_isuuid(IDS[idn])), "uri", "uri is %s", got->uri);
      dlite_instance_decref(got);
      VH_CHECK(!dlite_instance_has(uuid, 0), "alive", "instance still alive after reading");
    }
  }
  free(doc);
  r = drop_meta(m);
  VH_CHECK(r == 2, "meta-refs", "%d references to metadata", r);
  VH_CHECK(!dlite_instance_has(MURI, 0), "meta-alive", "metadata still alive");
  vh_observef("%s/%d/%d/%d", t->tn, nd, fmt, r); vh_count_states(1); vh_count_transitions(2);
  buf_free(&want); buf_free(&have); err_clear(); vh_end();
}
static void bin_data(void)
{
  int i, nd, c, off, fmt, idn; size_t sh[3];
  for (fmt=0; fmt<2; fmt++) for (i=0; i<NTY; i++) {
    const TY *t = &TYS[i]; const size_t z[3] = {0,0,0};
    for (off=0; off<t->nval; off++) for (idn=0; idn<N(IDS); idn++) bin_case(t, 0, z, off, fmt, idn);
    for (nd=1; nd<=3; nd++) {
      int maxc = nd == 1 ? 4 : nd == 2 ? 16 : 64;
      for (c=0; c<maxc; c++) {
        sh[0] = c % 4; sh[1] = nd > 1 ? c/4 % 4 : 0; sh[2] = nd > 2 ? c/16 : 0;
        for (off=0; off<(vh_thorough() ? t->nval : 2); off++) bin_case(t, nd, sh, vh_thorough() ? off : c + 5*off, fmt, (c + off) % N(IDS));
      }
    }
  }
}

/* ------------------------------------------------------------- metadata */
static const char *EXPR[] = {"L", "M", "L+1", "2*M", "3", "L*M-1", "(L+2)*3", "L/2"};
static const char *DS[] = {NULL, "", "descr", "quote\"in", "back\\slash", "nl\ntab\t", "\xc3\xa6\xe2\x82\xac", "{\"a\": [1]}", "\x01", "null"};
static const char *METAURI[] = {"http://vh.org/1.2/My", "http://vh.org/a/b/0.1-beta/My_3", "http://vh.org/1.0/\xc3\xa6"};
static const char *PT[] = {"bool","int8","int32","uint64","float32","double","blob7","string","string5","ref","dimension","property","relation","blob1"};
typedef struct { int nd, np, ti[3], ex[3], di, ui, uri, dd, pname; } MS;
static DLiteMeta *mkmeta2(const MS *s)
{
  static char *dn[] = {"L", "M"}; static char *pn[2][3] = {{"a", "b_2", "C"}, {"name", "properties", "type"}}; int k;
  DLiteDimension dims[2]; DLiteProperty p[3]; char *sh[3][3];
  memset(p, 0, sizeof(p));
  for (k=0; k<s->nd; k++) { dims[k].name = dn[k]; dims[k].description = (char *)DS[(s->dd + k) % N(DS)]; }
  for (k=0; k<s->np; k++) {
    p[k].name = pn[s->pname][k]; dlite_type_set_dtype_and_size(PT[s->ti[k]], &p[k].type, &p[k].size);
    p[k].unit = (char *)DS[(s->ui + k) % N(DS)]; p[k].description = (char *)DS[(s->di + k) % N(DS)];
    if (p[k].type == dliteRef) p[k].ref = TURI;
    p[k].shape = sh[k];
    if (s->nd && s->ex[k]) { int e = s->ex[k] - 1; p[k].ndims = 1 + e % 3; int q; for (q=0; q<p[k].ndims; q++) { sh[k][q] = (char *)EXPR[(e + q) % N(EXPR)]; if (s->nd < 2 && strchr(sh[k][q], 'M')) sh[k][q] = "L"; } }
    if (!p[k].ndims) p[k].shape = NULL;
  }
  return dlite_meta_create(METAURI[s->uri], DS[s->di], s->nd, s->nd ? dims : NULL, s->np, s->np ? p : NULL);
}
static const int MLAY[] = {0, dliteJsonSingle, dliteJsonWithUuid, dliteJsonWithMeta, dliteJsonArrays, dliteJsonArrays | dliteJsonSingle, dliteJsonArrays | dliteJsonSingle | dliteJsonWithUuid | dliteJsonWithMeta, dliteJsonUriKey, dliteJsonUriKey | dliteJsonSingle};
static const struct { const char *drv, *opts; } MST[] = {
  {"json", "mode=w"}, {"json", "mode=w;single=0"}, {"json", "mode=w;arrays=1"}, {"json", "mode=w;with-uuid=1;with-meta=1"}, {"json", "mode=a"}, {"json", "mode=w;single=no;uri-key=yes"}, {"json", "mode=w;single=true;with-uuid=yes;arrays=yes"}, {"hdf5", "mode=w"}};
static void meta_case(const MS *s, int lay)
{
  DLiteMeta *m, *got=NULL; Buf want={0}, have={0}; int r=0, rid; char *txt=NULL; char uuid[40]; unsigned char *doc=NULL; size_t dsize; char fn[600];
  int nl = N(MLAY), nf = N(MST);
  if (!vh_case("meta nd=%d np=%d types=%d,%d,%d shapes=%d,%d,%d texts=%d,%d,%d names=%d uri=%d layout=%d", s->nd, s->np, s->ti[0], s->ti[1], s->ti[2], s->ex[0], s->ex[1], s->ex[2], s->di, s->ui, s->dd, s->pname, s->uri, lay)) return;
  snprintf(fn, sizeof(fn), "%s/rtm", vh_scratch()); unlink(fn);
  if (!(m = mkmeta2(s))) { vh_fail("create", "cannot create: %s", err_getmsg()); vh_end(); return; }
  buf_meta(&want, m); strcpy(uuid, m->uuid);
  if (lay < nl) r = (txt = dlite_json_aprint((DLiteInstance *)m, 0, MLAY[lay])) == NULL;
  else if (lay < nl + nf) r = dlite_instance_save_loc(MST[lay-nl].drv, fn, MST[lay-nl].opts, (DLiteInstance *)m);
  else r = (doc = dlite_bson_from_instance((DLiteInstance *)m, &dsize)) == NULL;
  if (lay < nl) {   /* printing into buffers of any size agrees and never overflows */
    int n = (int)strlen(txt), z, step = n > 200 && !vh_thorough() ? 37 : 7;
    for (z=1; z<=n+1; z+=step) { char *b = malloc(z); int w = dlite_json_sprint(b, z, (DLiteInstance *)m, 0, MLAY[lay]);
      if (w != n || strncmp(b, txt, z-1) || b[z-1 < n ? z-1 : n]) { vh_fail("truncation", "buffer size %d: returned %d, full size %d", z, w, n); free(b); break; }
      free(b); }
  }
  drop_meta(m);
  VH_CHECK(!dlite_instance_has(uuid, 0), "alive", "metadata still alive");
  if (r) {    /* HDF5 cannot hold metadata; it has to say so */
    VH_CHECK(err_geteval(), "silent", "refused without an error");
    if (lay != nl + nf - 1) vh_fail("write", "writing failed: %s", err_getmsg());
  }
  for (rid=0; rid<3 && !r && !vh_failed(); rid++) {
    const char *id = rid == 0 ? NULL : rid == 1 ? METAURI[s->uri] : uuid;
    if (lay == nl + nf - 1 && rid == 0) continue;   /* hdf5 needs an id */
    if (lay < nl) got = (DLiteMeta *)dlite_json_sscan(txt, id, NULL);
    else if (lay < nl + nf) got = (DLiteMeta *)dlite_instance_load_loc(MST[lay-nl].drv, fn, "mode=r", id);
    else got = (DLiteMeta *)dlite_bson_load_instance(doc);
    if (!got) { vh_fail("read", "reading by %s failed: %s", id ? id : "(no id)", err_getmsg()); continue; }
    have.n = 0; buf_meta(&have, got);
    VH_CHECK(!strcmp(have.p, want.p), "differs", "%s", bufdiff(have.p, want.p));
    /* usable: metadata layout is derived from the content */
    { size_t dims[2] = {2, 3}; DLiteInstance *x = dlite_instance_create(got, dims, NULL); VH_CHECK(x, "unusable", "cannot create an instance: %s", err_getmsg()); if (x) dlite_instance_decref(x); }
    { int n = drop_meta(got); VH_CHECK(n == 2, "meta-refs", "%d references to loaded metadata", n); }
    VH_CHECK(!dlite_instance_has(uuid, 0), "alive", "metadata still alive after reading");
  }
  free(txt); free(doc);
  vh_observef("%d/%d/%d/%s", s->nd, s->np, lay, want.p); vh_count_states(1); vh_count_transitions(3);
  buf_free(&want); buf_free(&have); err_clear(); vh_end();
}
static void metas(void)
{
  MS s; int lay, nlay = N(MLAY) + N(MST) + 1, a, b, c, cnt=0;
  for (s.nd=0; s.nd<=2; s.nd++) for (s.np=0; s.np<=3; s.np++) {
    int nex = s.nd ? N(EXPR)+1 : 1;
    for (a=0; a<(s.np > 0 ? N(PT) : 1); a++) for (b=0; b<(s.np > 0 ? nex : 1); b++) for (c=0; c<N(DS); c++) {
      int k; for (k=0; k<3; k++) { s.ti[k] = (a + 3*k) % N(PT); s.ex[k] = (b + 2*k) % nex; }
      s.di = c; s.ui = (c + b) % N(DS); s.dd = (c + a) % N(DS); s.uri = (a + b + c) % N(METAURI); s.pname = (a + b) & 1;
      for (lay=0; lay<nlay; lay++) {
        cnt++;
        if (!vh_thorough() && s.np > 1 && (a + b + c + lay) % 4) continue;
        meta_case(&s, lay);
      }
    }
  }
}

void vh_explore(void)
{
  (void)isnonfinite;
  switch (part) { case 1: json_data(); break; case 2: bin_data(); break; case 3: metas(); break; }
}
