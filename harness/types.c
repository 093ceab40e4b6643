/* T01/T02/T03/A02: type names, value printing/scanning, casts, strided copies.
   --part=1..4 selects what is explored. */
#include "vh.h"
#include "config.h"
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <math.h>
#include <float.h>
#include <stdbool.h>
#include "dlite.h"
#include "dlite-type.h"
#include "dlite-macros.h"
#include "utils/err.h"
#include "utils/boolean.h"
#include "utils/floats.h"

static int part;
void vh_setup(void) { err_set_stream(NULL); part = vh_arg("part", 1); }

/* ------------------------------------------------------------------ T01 */
typedef struct { const char *name; DLiteType t; size_t size, align; const char *cdecl_; } TN;
static const TN CANON[] = {
  {"bool", dliteBool, sizeof(bool), _Alignof(bool), "bool x"},
  {"int8", dliteInt, 1, 1, "int8_t x"}, {"int16", dliteInt, 2, 2, "int16_t x"},
  {"int32", dliteInt, 4, 4, "int32_t x"}, {"int64", dliteInt, 8, 8, "int64_t x"},
  {"uint8", dliteUInt, 1, 1, "uint8_t x"}, {"uint16", dliteUInt, 2, 2, "uint16_t x"},
  {"uint32", dliteUInt, 4, 4, "uint32_t x"}, {"uint64", dliteUInt, 8, 8, "uint64_t x"},
  {"float32", dliteFloat, 4, 4, "float32_t x"}, {"float64", dliteFloat, 8, 8, "float64_t x"},
#ifdef HAVE_FLOAT128
  {"float128", dliteFloat, 16, _Alignof(float128_t), "float128_t x"},
#endif
  {"string", dliteStringPtr, sizeof(char *), 8, "char *x"},
  {"ref", dliteRef, sizeof(void *), 8, "DLiteInstance *x"},
  {"dimension", dliteDimension, sizeof(DLiteDimension), 8, "DLiteDimension x"},
  {"property", dliteProperty, sizeof(DLiteProperty), 8, "DLiteProperty x"},
  {"relation", dliteRelation, sizeof(DLiteRelation), 8, "DLiteRelation x"},
};
#define NCANON ((int)(sizeof(CANON)/sizeof(CANON[0])))
static const struct { const char *name; int same; } ALIAS[] = {
  {"int", 4}, {"integer", 4}, {"uint", 8}, {"float", 10}, {"single", 9}, {"double", 10},
  {"str", -1}, {"longdouble", -2},
};
/* independent reading of the type-name rules.  1: accepted */
static int oracle(const char *s, DLiteType *t, size_t *size)
{
  size_t a=0, n; int i; char w[80];
  if (strlen(s) >= sizeof(w)) return 0;
  while (isalpha((unsigned char)s[a])) a++;
  n = a;
  while (isdigit((unsigned char)s[n])) n++;
  if (isalpha((unsigned char)s[n]) || s[n] == '_' || a == 0) return 0;
  memcpy(w, s, n); w[n] = 0;
  for (i=0; i<NCANON; i++) if (!strcmp(w, CANON[i].name)) { *t = CANON[i].t; *size = CANON[i].size; return 1; }
  for (i=0; i<(int)(sizeof(ALIAS)/sizeof(ALIAS[0])); i++) if (!strcmp(w, ALIAS[i].name)) {
    if (ALIAS[i].same == -1) { *t = dliteStringPtr; *size = sizeof(char *); }
    else if (ALIAS[i].same == -2) { *t = dliteFloat; *size = sizeof(long double); }
    else { *t = CANON[ALIAS[i].same].t; *size = CANON[ALIAS[i].same].size; }
    return 1;
  }
#ifdef HAVE_FLOAT80
  if (!strcmp(w, "float80")) { *t = dliteFloat; *size = 10; return 1; }
#endif
  if (n == a) return 0;
  if (a == 4 && !strncmp(w, "blob", 4)) { *t = dliteBlob; *size = strtoul(w+4, NULL, 10); return 1; }
  if (a == 6 && !strncmp(w, "string", 6)) { *t = dliteFixString; *size = strtoul(w+6, NULL, 10) + 1; return 1; }
  if (a == 3 && !strncmp(w, "str", 3)) { *t = dliteFixString; *size = strtoul(w+3, NULL, 10) + 1; return 1; }
  return 0;
}
static void name_case(const char *s)
{
  DLiteType t=99, t0=99; size_t z=777, z0=777; int r, want;
  if (!vh_case("name '%s'", s)) return;
  want = oracle(s, &t0, &z0);
  r = dlite_type_set_dtype_and_size(s, &t, &z);
  if (want) VH_CHECK(!r && t == t0 && z == z0, "accept", "'%s': status %d type %d size %zu, expected %d %zu", s, r, t, z, t0, z0);
  else VH_CHECK(r, "reject", "'%s' accepted as type %d size %zu", s, t, z);
  if (want && !r) { char b[64]; DLiteType t1=99; size_t z1=777;
    VH_CHECK(!dlite_type_set_typename(t, z, b, sizeof(b)) && !dlite_type_set_dtype_and_size(b, &t1, &z1) && t1 == t && z1 == z,
             "canonical", "'%s' has canonical name '%s', which does not denote the same type", s, b); }
  VH_CHECK(dlite_is_type(s) == (want != 0), "is_type", "'%s'", s);
  err_clear();
  vh_observef("%d %d %zu", r, t0, z0);
  vh_count_states(1); vh_count_transitions(1);
  vh_end();
}
static void names(void)
{
  static const char alpha[] = "abdefgilnorstuxz0123468_- ";
  char seeds[64][24]; int ns=0, i, j, k; size_t n, m;
  static const size_t SZ[] = {0,1,2,3,7,8,9,10,15,16,17,99,100,1000,65536};
  for (i=0; i<NCANON; i++) {
    const TN *c = &CANON[i];
    if (vh_case("canonical %s", c->name)) {
      char buf[64]; DLiteType t; size_t z;
      VH_CHECK(!dlite_type_set_typename(c->t, c->size, buf, sizeof(buf)) && !strcmp(buf, c->name), "name", "%s -> %s", c->name, buf);
      VH_CHECK(!dlite_type_set_dtype_and_size(buf, &t, &z) && t == c->t && z == c->size, "back", "%s", buf);
      VH_CHECK(dlite_type_get_alignment(c->t, c->size) == c->align, "align", "%s: %zu", c->name, dlite_type_get_alignment(c->t, c->size));
      VH_CHECK(dlite_type_set_cdecl(c->t, c->size, "x", 0, buf, sizeof(buf), 0) == (int)strlen(c->cdecl_) && !strcmp(buf, c->cdecl_), "cdecl", "%s: %s", c->name, buf);
      vh_observef("%s", c->name); vh_end();
    }
    for (m=0; m<48; m++) if (vh_case("padding %s at %zu", c->name, m)) {
      size_t p = dlite_type_padding_at(c->t, c->size, m); size_t o;
      VH_CHECK(p < c->align && (m+p) % c->align == 0, "padding", "%s at %zu: %zu", c->name, m, p);
      for (n=0; n<20; n++) {
        o = dlite_type_get_member_offset(m, n, c->t, c->size);
        VH_CHECK(o >= m+n && o < m+n+c->align && o % c->align == 0, "offset", "%s prev %zu+%zu: %zu", c->name, m, n, o);
      }
      vh_end();
    }
  }
  for (i=0; i<(int)(sizeof(SZ)/sizeof(SZ[0])); i++) for (k=0; k<2; k++)
    if (vh_case("sized %d %zu", k, SZ[i])) {
      char buf[64], ex[64]; DLiteType t, t0 = k ? dliteFixString : dliteBlob; size_t z, z0 = SZ[i] + k;
      snprintf(ex, sizeof(ex), "%s%zu", k ? "string" : "blob", SZ[i]);
      VH_CHECK(!dlite_type_set_typename(t0, z0, buf, sizeof(buf)) && !strcmp(buf, ex), "name", "%s != %s", buf, ex);
      VH_CHECK(!dlite_type_set_dtype_and_size(buf, &t, &z) && t == t0 && z == z0, "back", "%s", buf);
      VH_CHECK(dlite_type_get_alignment(t0, z0) == 1, "align", "%s", ex);
      vh_observef("%s", ex); vh_end();
    }
  /* invalid enum values and sizes */
  for (i=-3; i<20; i++) if (vh_case("dtype number %d", i)) {
    const char *a = dlite_type_get_dtypename(i), *b = dlite_type_get_enum_name(i); char buf[64];
    VH_CHECK(!!a == (i >= 0 && i <= dliteRelation) && !!b == !!a, "range", "%d", i);
    if (a) VH_CHECK((int)dlite_type_get_dtype(a) == i, "dtypename", "%s", a);
    else VH_CHECK(dlite_type_set_typename(i, 8, buf, sizeof(buf)), "range", "typename for %d", i);
    err_clear(); vh_end();
  }
  /* mutations of every canonical name and alias */
  for (i=0; i<NCANON; i++) strcpy(seeds[ns++], CANON[i].name);
  for (i=0; i<(int)(sizeof(ALIAS)/sizeof(ALIAS[0])); i++) strcpy(seeds[ns++], ALIAS[i].name);
  strcpy(seeds[ns++], "blob3"); strcpy(seeds[ns++], "blob"); strcpy(seeds[ns++], "string12");
  strcpy(seeds[ns++], "str7"); strcpy(seeds[ns++], "");
  for (i=0; i<ns; i++) {
    char b[64], s[64]; strcpy(s, seeds[i]); n = strlen(s);
    name_case(s);
    for (m=1; m<n; m++) { memcpy(b, s, m); b[m] = 0; name_case(b); }
    for (m=0; m<n; m++) { strcpy(b, s); memmove(b+m, b+m+1, n-m); name_case(b); }
    for (j=0; alpha[j]; j++) {
      for (m=0; m<n; m++) { strcpy(b, s); b[m] = alpha[j]; name_case(b); }
      for (m=0; m<=n; m++) { strcpy(b, s); memmove(b+m+1, b+m, n-m+1); b[m] = alpha[j]; name_case(b); }
    }
  }
}

/* ------------------------------------------------------------ value alphabets */
typedef struct { DLiteType t; size_t size; union { bool b; int8_t i8; int16_t i16; int32_t i32; int64_t i64;
  uint8_t u8; uint16_t u16; uint32_t u32; uint64_t u64; float f; double d; long double ld; char *s; unsigned char raw[40]; } v; } V;
static V vals[4000]; static int nvals;
static V *nv(DLiteType t, size_t size) { V *v = &vals[nvals++]; memset(v, 0, sizeof(*v)); v->t = t; v->size = size; return v; }
static const char *STR[] = { "", "a", "abc", "0", "17", "-5", "3.5", "\"", "\\", "a\"b", "a\\b", "\\\"", "\\\\", "\"\"", "a\\", "\\n",
  "a b", " a", "a ", "\t", "\n", "a\nb", "\xc3\xa6", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "null", "true", "{}", "[1, 2]", "a,b", "\x01", "\x1f", "\x7f",
  "%s%d", "abcdefghijklmnopqrstuvwxyz0123456789", "\\u0041", "/", "\\t", "\b\f\r", NULL };
static const char *FSTR[] = { "", "a", "abcdefg", "\"", "a\\b", "\"\\\"", "\xc3\xa6\xc3\xb8\xc3\xa5", "a\nb", " x ", "\\", "abcdef\\", "null", NULL };
static void make_values(void)
{
  static const int64_t I[] = {0,1,-1,7,8,9,10,-10,100,127,-128,128,-129,255,256,32767,-32768,32768,65535,65536,1000000,
    2147483647LL,-2147483648LL,2147483648LL,4294967295LL,4294967296LL,9007199254740993LL,9223372036854775807LL,-9223372036854775807LL-1};
  static const double D[] = {0,-0.0,1,-1,0.5,-2.5,3.14,0.1,1.0/3,2.0/3,100000,1e6,1234567,123456789,0.30000000000000004,1e-5,1e21,1e22,1e100,-1e-100,
    16777216,16777217,9007199254740991.0,9007199254740993.0,DBL_MAX,DBL_MIN,4.9e-324,FLT_MAX,FLT_MIN,1.4e-45,127,255,65535,2147483647,4294967295.0,
    DBL_EPSILON, 1+DBL_EPSILON, INFINITY, -INFINITY, NAN, 9.99999e5, 9.999995e5, 123456.7};
  int i, j;
  nv(dliteBool, sizeof(bool))->v.b = 0; nv(dliteBool, sizeof(bool))->v.b = 1;
  for (i=0; i<(int)(sizeof(I)/sizeof(I[0])); i++) {
    int64_t x = I[i];
    if (x == (int8_t)x) nv(dliteInt, 1)->v.i8 = x;
    if (x == (int16_t)x) nv(dliteInt, 2)->v.i16 = x;
    if (x == (int32_t)x) nv(dliteInt, 4)->v.i32 = x;
    nv(dliteInt, 8)->v.i64 = x;
    if (x >= 0) {
      if (x <= 255) nv(dliteUInt, 1)->v.u8 = x;
      if (x <= 65535) nv(dliteUInt, 2)->v.u16 = x;
      if (x <= 4294967295LL) nv(dliteUInt, 4)->v.u32 = x;
      nv(dliteUInt, 8)->v.u64 = x;
    }
  }
  nv(dliteUInt, 8)->v.u64 = 9223372036854775808ULL; nv(dliteUInt, 8)->v.u64 = 18446744073709551615ULL;
  nv(dliteUInt, 8)->v.u64 = 18446744073709551614ULL;
  for (i=0; i<(int)(sizeof(D)/sizeof(D[0])); i++) {
    if ((double)(float)D[i] == D[i] || D[i] != D[i] || fabs(D[i]) < 1e30) nv(dliteFloat, 4)->v.f = D[i];
    nv(dliteFloat, 8)->v.d = D[i];
#ifdef HAVE_FLOAT128
    nv(dliteFloat, 16)->v.ld = D[i];
#endif
  }
#ifdef HAVE_FLOAT128
  nv(dliteFloat, 16)->v.ld = 1.0L/3; nv(dliteFloat, 16)->v.ld = LDBL_MAX; nv(dliteFloat, 16)->v.ld = LDBL_EPSILON + 1;
#endif
  for (i=0; STR[i]; i++) nv(dliteStringPtr, sizeof(char *))->v.s = (char *)STR[i];
  for (j=8; j<=9; j++) for (i=0; FSTR[i]; i++) if (strlen(FSTR[i]) < (size_t)j) strcpy((char *)nv(dliteFixString, j)->v.raw, FSTR[i]);
  { V *v; static const int BS[] = {1,2,3,4,8,16,20}; int b, k, z;
    for (b=0; b<7; b++) for (k=0; k<5; k++) { v = nv(dliteBlob, BS[b]);
      for (z=0; z<BS[b]; z++) v->v.raw[z] = k == 0 ? 0 : k == 1 ? 0xff : k == 2 ? z+1 : k == 3 ? 0x80>>(z%8) : (z*37+'"')&255; } }
}
static const char *show(const V *v)
{
  static char b[400]; int n; size_t i;
  if (v->t == dliteStringPtr || v->t == dliteFixString) {
    const char *s = v->t == dliteStringPtr ? v->v.s : (char *)v->v.raw;
    n = snprintf(b, sizeof(b), "%s%zu:", v->t == dliteStringPtr ? "str" : "fix", v->size);
    for (; *s && n < 380; s++) n += snprintf(b+n, sizeof(b)-n, (*s < 33 || *s == 127) ? "<%02x>" : "%c", (*s < 33 || *s == 127) ? (unsigned char)*s : *s);
  } else { n = snprintf(b, sizeof(b), "%s%zu:", dlite_type_get_dtypename(v->t), v->size*8);
    for (i=0; i<v->size && i < 20; i++) n += snprintf(b+n, sizeof(b)-n, "%02x", v->v.raw[i]); }
  return b;
}
static int same(const V *v, const void *p)
{
  switch (v->t) {
  case dliteStringPtr: return *(char **)p && !strcmp(v->v.s, *(char **)p);
  case dliteFixString: return !strcmp((char *)v->v.raw, p);
  case dliteFloat:
    if (v->size == 4) return v->v.f == *(float *)p ? signbit(v->v.f) == signbit(*(float *)p) : v->v.f != v->v.f && *(float *)p != *(float *)p;
    if (v->size == 8) return v->v.d == *(double *)p ? signbit(v->v.d) == signbit(*(double *)p) : v->v.d != v->v.d && *(double *)p != *(double *)p;
    { long double q; memcpy(&q, p, sizeof(q)); return v->v.ld == q || (v->v.ld != v->v.ld && q != q); }
  default: return !memcmp(v->v.raw, p, v->size);
  }
}

/* ------------------------------------------------------------------ T02 */
static void printscan(void)
{
  static const struct { int f; const char *n; } FL[] = { {dliteFlagRaw, "raw"}, {dliteFlagQuoted, "quoted"}, {0, "default"} };
  int i, f, m, m2, n, lead, pr;
  for (i=0; i<nvals; i++) for (f=0; f<3; f++) for (pr=0; pr<2; pr++) {
    const V *v = &vals[i]; char *full; size_t h0, h1;
    if (!vh_case("%s flags=%s width=%d", show(v), FL[f].n, pr ? -1 : 0)) continue;
    int width = pr ? -1 : 0, prec = v->t == dliteFloat ? -3 : -2;
    h0 = vh_heap();
    m = dlite_type_print(NULL, 0, &v->v, v->t, v->size, width, prec, FL[f].f);
    VH_CHECK(m >= 0, "print", "returns %d", m);
    if (vh_failed()) { vh_end(); continue; }
    full = malloc(m+1);
    m2 = dlite_type_print(full, m+1, &v->v, v->t, v->size, width, prec, FL[f].f);
    VH_CHECK(m2 == m, "length", "%d with full buffer, %d with none", m2, m);
    VH_CHECK((int)strlen(full) == m, "length", "text '%s' has length %zu, reported %d", full, strlen(full), m);
    for (n=1; n<=m+2 && n<70; n++) {
      char *b = malloc(n);            /* sanitizer guards the byte after */
      memset(b, 'Z', n);
      m2 = dlite_type_print(b, n, &v->v, v->t, v->size, width, prec, FL[f].f);
      VH_CHECK(m2 == m, "length", "buffer %d: returned %d, needed %d", n, m2, m);
      VH_CHECK(memchr(b, 0, n) != NULL, "terminated", "buffer %d not terminated", n);
      if (memchr(b, 0, n)) VH_CHECK((int)strlen(b) == (n <= m ? n-1 : m) && !strncmp(b, full, strlen(b)), "prefix", "buffer %d: '%s' is not the prefix of '%s'", n, b, full);
      free(b);
    }
    /* aprint at a position inside a growing buffer */
    for (n=0; n<4; n++) {
      char *b = NULL; size_t bn = 0; size_t pos = n;
      if (n) { b = malloc(n); bn = n; memset(b, '#', n); }
      m2 = dlite_type_aprint(&b, &bn, pos, &v->v, v->t, v->size, width, prec, FL[f].f);
      VH_CHECK(m2 == m && b && !strcmp(b+pos, full), "aprint", "pos %d: '%s'", n, b ? b+pos : "NULL");
      { int q; for (q=0; q<n; q++) VH_CHECK(b[q] == '#', "aprint", "byte %d before pos changed", q); }
      free(b);
    }
    for (lead=0; lead<3; lead++) {
      static const char *LEAD[] = {"", " ", "\t  "};
      int q = FL[f].f & dliteFlagQuoted, isstr = v->t == dliteStringPtr || v->t == dliteFixString;
      char *src; char dst[40] __attribute__((aligned(16))); int c;
      if (lead && (isstr || v->t == dliteBlob) && !q) continue;   /* blanks are content of raw text */
      if (v->t == dliteBool && FL[f].f == 0 && lead) continue;
      src = malloc(strlen(LEAD[lead]) + m + 4);
      sprintf(src, "%s%s%s", LEAD[lead], full, q ? " ,x" : "");
      memset(dst, 0, sizeof(dst));
      if (isstr && v->t == dliteFixString && !q && strlen((char *)v->v.raw) == v->size-1) { }
      c = dlite_type_scan(src, -1, dst, v->t, v->size, FL[f].f);
      VH_CHECK(c >= 0, "scan", "'%s' gives status %d: %s", src, c, err_getmsg());
      if (c >= 0) {
        VH_CHECK(same(v, dst), "roundtrip", "printed '%s' scans to a different value", full);
        VH_CHECK(c == (int)strlen(LEAD[lead]) + m, "consumed", "'%s': consumed %d of %zu", src, c, strlen(LEAD[lead]) + m);
      }
      if (v->t == dliteStringPtr) free(*(char **)dst);
      free(src);
    }
    free(full); err_clear();
    h1 = vh_heap();
    VH_CHECK(h1 <= h0 + 4096, "leak", "%zu -> %zu", h0, h1);
    vh_observef("%s/%d/%d", show(v), f, m);
    vh_count_states(1); vh_count_transitions(4+n);
    vh_end();
  }
  /* precision limits strings */
  for (i=0; i<nvals; i++) for (n=1; n<8; n++) {
    const V *v = &vals[i];
    if (v->t != dliteStringPtr && v->t != dliteFixString) continue;
    if (!vh_case("%s prec=%d", show(v), n)) continue;
    { const char *s = v->t == dliteStringPtr ? v->v.s : (char *)v->v.raw; char b[64], ex[64]; int l = strlen(s);
      snprintf(ex, sizeof(ex), "%.*s", n, s); if (l > n) l = n;
      m = dlite_type_print(b, sizeof(b), &v->v, v->t, v->size, 0, n, dliteFlagRaw);
      VH_CHECK(m == l && !strcmp(b, ex), "precision", "'%s' != '%s'", b, ex); }
    vh_end();
  }
}

/* ------------------------------------------------------------------ T03 */
static int isnum(DLiteType t) { return t == dliteInt || t == dliteUInt || t == dliteFloat || t == dliteBool; }
static long double num(const V *v)
{
  switch (v->t) {
  case dliteBool: return v->v.b;
  case dliteInt: return v->size == 1 ? v->v.i8 : v->size == 2 ? v->v.i16 : v->size == 4 ? v->v.i32 : v->v.i64;
  case dliteUInt: return v->size == 1 ? v->v.u8 : v->size == 2 ? v->v.u16 : v->size == 4 ? v->v.u32 : v->v.u64;
  case dliteFloat: return v->size == 4 ? v->v.f : v->size == 8 ? v->v.d : v->v.ld;
  default: return 0;
  }
}
/* expected destination for numeric x; 0 if not representable (no claim) */
static int expected(long double x, DLiteType t, size_t size, V *e)
{
  memset(e, 0, sizeof(*e)); e->t = t; e->size = size;
  switch (t) {
  case dliteBool: e->v.b = x != 0; return 1;
  case dliteInt: { long double lim = ldexpl(1, size*8-1); if (!(x > -lim-1 && x < lim)) return 0;
    { int64_t y = (int64_t)x; if (size == 1) e->v.i8 = y; else if (size == 2) e->v.i16 = y; else if (size == 4) e->v.i32 = y; else e->v.i64 = y; } return 1; }
  case dliteUInt: { long double lim = ldexpl(1, size*8); if (!(x > -1 && x < lim)) return 0; if (x < 0) return 0;
    { uint64_t y = (uint64_t)x; if (size == 1) e->v.u8 = y; else if (size == 2) e->v.u16 = y; else if (size == 4) e->v.u32 = y; else e->v.u64 = y; } return 1; }
  case dliteFloat: if (size == 4) e->v.f = x; else if (size == 8) e->v.d = x; else e->v.ld = x;
    if (size == 4 && isinf(e->v.f) != isinf(x)) return 0;
    return 1;
  default: return 0;
  }
}
static void casts(void)
{
  static const struct { DLiteType t; size_t size; } DT[] = {
    {dliteBool, 1}, {dliteInt, 1}, {dliteInt, 2}, {dliteInt, 4}, {dliteInt, 8}, {dliteUInt, 1}, {dliteUInt, 2}, {dliteUInt, 4}, {dliteUInt, 8},
    {dliteFloat, 4}, {dliteFloat, 8},
#ifdef HAVE_FLOAT128
    {dliteFloat, 16},
#endif
    {dliteFixString, 2}, {dliteFixString, 9}, {dliteFixString, 48}, {dliteStringPtr, 8}, {dliteBlob, 1}, {dliteBlob, 3}, {dliteBlob, 8}, {dliteBlob, 20} };
  int i, j, k;
  for (i=0; i<nvals; i++) for (j=0; j<(int)(sizeof(DT)/sizeof(DT[0])); j++) {
    const V *v = &vals[i]; V src, e; unsigned char *dst; size_t dsz = DT[j].size; char tn[40]; int r; const char *s = NULL;
    dlite_type_set_typename(DT[j].t, dsz, tn, sizeof(tn));
    if (!vh_case("%s -> %s", show(v), tn)) continue;
    src = *v; dst = aligned_alloc(16, (dsz + 15) / 16 * 16); 
    /* exact-size guarded destination; prefilled */
    free(dst); dst = malloc(dsz);
    memset(dst, DT[j].t == dliteStringPtr ? 0 : 0x5a, dsz);
    if (DT[j].t == dliteFixString) memset(dst, 0, dsz);
    if (src.t == dliteStringPtr) s = src.v.s = strdup(v->v.s);
    if (src.t == dliteFixString) s = (char *)src.v.raw;
    r = dlite_type_copy_cast(dst, DT[j].t, dsz, &src.v, src.t, src.size);
    /* source untouched */
    if (src.t == dliteStringPtr) VH_CHECK(src.v.s == s && !strcmp(s, v->v.s), "source", "source changed");
    else VH_CHECK(!memcmp(src.v.raw, v->v.raw, src.size), "source", "source changed by the conversion");
    if (src.t == DT[j].t && src.size == dsz) {
      VH_CHECK(!r, "status", "identity cast failed: %s", err_getmsg());
      VH_CHECK(same(v, dst), "value", "identity cast changes value");
    } else if (isnum(src.t) && isnum(DT[j].t)) {
      if (expected(num(v), DT[j].t, dsz, &e)) {
        VH_CHECK(!r, "status", "cast of representable value failed: %s", err_getmsg());
        VH_CHECK(same(&e, dst), "value", "wrong value");
      } else if (DT[j].t == dliteUInt && num(v) <= -1) VH_CHECK(r, "status", "negative value cast to unsigned");
    } else if (isnum(src.t) && (DT[j].t == dliteStringPtr || DT[j].t == dliteFixString)) {
      char b[100]; int n = dlite_type_print(b, sizeof(b), &v->v, v->t, v->size, 0, -3, 0);
      const char *g = DT[j].t == dliteStringPtr ? *(char **)dst : (char *)dst;
      VH_CHECK(!r, "status", "to string failed");
      if (!r) {
        if (DT[j].t == dliteFixString) { VH_CHECK(memchr(g, 0, dsz) != NULL, "terminated", "fixstring"); if (n < (int)dsz) VH_CHECK(!strcmp(g, b), "value", "'%s' != '%s'", g, b); }
        else VH_CHECK(!strcmp(g, b), "value", "'%s' != '%s'", g, b);
      }
    } else if (s && isnum(DT[j].t)) {
      char *end; long double x = strtold(s, &end);
      if (DT[j].t == dliteBool) VH_CHECK(!r && *(bool *)dst == (*s != 0), "value", "'%s' to bool", s);
      else if (*s && !*end && strspn(s, "0123456789-.") == strlen(s) && expected(x, DT[j].t, dsz, &e) && (x == (int64_t)x || DT[j].t == dliteFloat)) {
        VH_CHECK(!r, "status", "cast of '%s' failed", s);
        VH_CHECK(same(&e, dst), "value", "wrong value for '%s'", s);
      } else if (*end) VH_CHECK(r, "status", "'%s' accepted as number", s);
      else if (DT[j].t == dliteUInt && x < 0) VH_CHECK(r, "status", "negative '%s' cast to unsigned", s);
    } else if (s && (DT[j].t == dliteStringPtr || DT[j].t == dliteFixString)) {
      const char *g = DT[j].t == dliteStringPtr ? *(char **)dst : (char *)dst;
      VH_CHECK(!r, "status", "string to string failed");
      if (DT[j].t == dliteFixString) { VH_CHECK(memchr(g, 0, dsz) != NULL, "terminated", "fixstring"); if (strlen(s) < dsz) VH_CHECK(!strcmp(g, s), "value", "'%s' != '%s'", g, s);
        else VH_CHECK(!strncmp(g, s, dsz-1), "value", "truncation '%s'", g); }
      else VH_CHECK(!strcmp(g, s), "value", "'%s' != '%s'", g, s);
    } else if (DT[j].t == dliteBlob) {
      const unsigned char *b = s ? (unsigned char *)s : v->v.raw; size_t n = s ? strlen(s) : v->size;
      VH_CHECK(!r, "status", "to blob failed");
      for (k=0; k<(int)dsz; k++) VH_CHECK(dst[k] == (k < (int)n ? b[k] : 0), "value", "byte %d", k);
    } else if (src.t == dliteBlob && (DT[j].t == dliteStringPtr || DT[j].t == dliteFixString)) {
      char hex[100]; const char *g = DT[j].t == dliteStringPtr ? *(char **)dst : (char *)dst;
      for (k=0; k<(int)v->size; k++) sprintf(hex+2*k, "%02x", v->v.raw[k]);
      VH_CHECK(!r, "status", "blob to string failed");
      if (DT[j].t == dliteFixString) { VH_CHECK(memchr(g, 0, dsz) != NULL, "terminated", "fixstring"); if (strlen(hex) < dsz) VH_CHECK(!strcmp(g, hex), "value", "%s", g); }
      else VH_CHECK(!strcmp(g, hex), "value", "%s", g);
    }
    if (DT[j].t == dliteStringPtr) free(*(char **)dst);
    if (src.t == dliteStringPtr) free(src.v.s);
    free(dst); err_clear();
    vh_observef("%d/%s/%s", r, tn, show(v));
    vh_count_states(1); vh_count_transitions(1);
    vh_end();
  }
}

/* ------------------------------------------------------------------ A02 */
static int castcalls;
static int countcast(void *dest, DLiteType dt, size_t ds, const void *src, DLiteType st, size_t ss)
{ castcalls++; return dlite_type_copy_cast(dest, dt, ds, src, st, ss); }
/* layout: permutation of axes (which axis is fastest) plus padding */
static void layout(int nd, const size_t *dims, int perm, int pad, size_t esz, int *strides, size_t *total)
{
  static const int P[6][3] = {{2,1,0},{0,1,2},{1,2,0},{2,0,1},{0,2,1},{1,0,2}};
  int k; size_t s = esz;
  if (pad == 2) s = 2*esz;     /* gap between elements */
  for (k=0; k<3; k++) {
    int a = P[perm][k];
    if (a >= nd) continue;
    strides[a] = s; s *= dims[a];
    if (pad == 1) s += esz;    /* gap after every row */
  }
  *total = s + esz;
}
static void ndcast(void)
{
  static const struct { DLiteType st; size_t ss; DLiteType dt; size_t ds; } TY[] = {
    {dliteInt, 4, dliteInt, 4}, {dliteInt, 4, dliteFloat, 8}, {dliteFloat, 8, dliteInt, 2}, {dliteStringPtr, 8, dliteStringPtr, 8},
    {dliteInt, 2, dliteStringPtr, 8}, {dliteFixString, 4, dliteFixString, 4}, {dliteBlob, 3, dliteBlob, 3} };
  int nd, a, b, sp, dp, spad, dpad, t, fn, maxd = vh_thorough() ? 4 : 3;
  for (nd=0; nd<=3; nd++) {
    int ncomb = 1; for (a=0; a<nd; a++) ncomb *= maxd+1;
    for (a=0; a<ncomb; a++) for (t=0; t<7; t++)
      for (sp=-1; sp<6; sp++) for (dp=-1; dp<6; dp++) for (spad=0; spad<3; spad++) for (dpad=0; dpad<3; dpad++) for (fn=0; fn<2; fn++) {
        size_t dims[3] = {1,1,1}, N=1, st, dt, i; int ss[3] = {0}, ds[3] = {0}, k, x = a, r;
        if ((sp < 0 && spad) || (dp < 0 && dpad)) continue;
        if (nd < 3 && (sp > 1 || dp > 1)) continue;
        if (nd < 2 && (sp > 0 || dp > 0)) continue;
        if (nd == 0 && (sp >= 0 || dp >= 0)) continue;
        if (nd == 3 && t > 1 && !vh_thorough() && (sp > 2 || dp > 2)) continue;
        if (fn && (spad || dpad)) continue;
        for (k=0; k<nd; k++) { dims[k] = x % (maxd+1); x /= maxd+1; N *= dims[k]; }
        if (!vh_case("nd=%d dims=%zu,%zu,%zu type=%d src=%d/%d dst=%d/%d fn=%d", nd, dims[0], dims[1], dims[2], t, sp, spad, dp, dpad, fn)) continue;
        layout(nd, dims, sp < 0 ? 0 : sp, spad, TY[t].ss, ss, &st);
        layout(nd, dims, dp < 0 ? 0 : dp, dpad, TY[t].ds, ds, &dt);
        if (sp < 0) { /* C-contiguous by default */ size_t q = TY[t].ss; for (k=nd-1; k>=0; k--) { ss[k] = q; q *= dims[k]; } }
        if (dp < 0) { size_t q = TY[t].ds; for (k=nd-1; k>=0; k--) { ds[k] = q; q *= dims[k]; } }
        unsigned char *src = calloc(1, st), *dst = malloc(dt), *touched = calloc(1, dt);
        int isstr = TY[t].dt == dliteStringPtr; memset(dst, isstr ? 0 : 0xEE, dt);
        for (i=0; i<N; i++) {     /* fill by index */
          size_t q = i, off = 0; for (k=nd-1; k>=0; k--) { off += ss[k]*(q % dims[k]); q /= dims[k]; }
          char tx[16]; sprintf(tx, "%c%zu", 'a'+(int)(i%3), i % 100);
          switch (TY[t].st) {
          case dliteInt: if (TY[t].ss == 4) *(int32_t *)(src+off) = 100+i; else *(int16_t *)(src+off) = 100+i; break;
          case dliteFloat: *(double *)(src+off) = 100+i; break;
          case dliteStringPtr: *(char **)(src+off) = strdup(tx); break;
          case dliteFixString: strcpy((char *)src+off, tx); break;
          default: src[off] = i; src[off+1] = i+1; src[off+2] = 7; }
        }
        castcalls = 0; size_t h0 = vh_heap();
        r = dlite_type_ndcast(nd, dst, TY[t].dt, TY[t].ds, dims, dp < 0 ? NULL : ds, src, TY[t].st, TY[t].ss, dims, sp < 0 ? NULL : ss, fn ? countcast : NULL);
        VH_CHECK(!r, "status", "returned %d", r);
        for (i=0; i<N && !vh_failed(); i++) {
          size_t q = i, off = 0, so = 0; int ok; for (k=nd-1; k>=0; k--) { off += ds[k]*(q % dims[k]); so += ss[k]*(q % dims[k]); q /= dims[k]; }
          char tx[16]; sprintf(tx, "%c%zu", 'a'+(int)(i%3), i % 100);
          memset(touched+off, 1, TY[t].ds);
          switch (TY[t].dt) {
          case dliteInt: ok = TY[t].ds == 4 ? *(int32_t *)(dst+off) == 100+(int)i : *(int16_t *)(dst+off) == 100+(int)i; break;
          case dliteFloat: ok = *(double *)(dst+off) == 100+(int)i; break;
          case dliteStringPtr: if (TY[t].st == dliteInt) sprintf(tx, "%d", 100+(int)i);
            ok = *(char **)(dst+off) && !strcmp(tx, *(char **)(dst+off));
            if (TY[t].st == dliteStringPtr) VH_CHECK(*(char **)(dst+off) != *(char **)(src+so), "alias", "element %zu shares the source's string", i);
            break;
          case dliteFixString: ok = !strcmp(tx, (char *)dst+off); break;
          default: ok = dst[off] == (i&255) && dst[off+1] == ((i+1)&255) && dst[off+2] == 7; }
          VH_CHECK(ok, "element", "element %zu", i);
        }
        for (i=0; i<dt && !vh_failed(); i++) if (!touched[i]) VH_CHECK(dst[i] == (isstr ? 0 : 0xEE), "overwrite", "byte %zu outside the array changed", i);
        if (!vh_failed()) for (i=0; i<N; i++) {
          size_t q = i, off = 0, so = 0; for (k=nd-1; k>=0; k--) { off += ds[k]*(q % dims[k]); so += ss[k]*(q % dims[k]); q /= dims[k]; }
          if (TY[t].dt == dliteStringPtr) free(*(char **)(dst+off));
          if (TY[t].st == dliteStringPtr) free(*(char **)(src+so));
        }
        if (!vh_failed()) { size_t own = 0; for (i=0; i<N; i++) if (TY[t].st == dliteStringPtr) own = 1;
          if (!own && TY[t].dt != dliteStringPtr) VH_CHECK(vh_heap() == h0, "leak", "%ld bytes lost", (long)(vh_heap() - h0)); }
        free(src); free(dst); free(touched); err_clear();
        vh_observef("%d/%zu/%d", nd, N, t); vh_count_states(1); vh_count_transitions(N);
        vh_end();
      }
  }
  /* incompatible shapes are refused */
  for (a=0; a<5; a++) for (b=0; b<5; b++) if (a != b && vh_case("size mismatch %d %d", a, b)) {
    int32_t s[5] = {0}, d[5] = {0}; size_t x = a, y = b;
    VH_CHECK(dlite_type_ndcast(1, d, dliteInt, 4, &y, NULL, s, dliteInt, 4, &x, NULL, NULL), "mismatch", "accepted");
    err_clear(); vh_end();
  }
}

void vh_explore(void)
{
  if (!nvals) make_values();
  switch (part) { case 1: names(); break; case 2: printscan(); break; case 3: casts(); break; case 4: ndcast(); break; }
}
