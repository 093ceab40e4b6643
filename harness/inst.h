/* Independent textual dump of instances (walks the memory layout itself and
   never calls the library's printing code), plus small helpers. */
#ifndef INST_H
#define INST_H
#include "config.h"
#include <stdlib.h>
#include <string.h>
#include <stdbool.h>
#include <stdarg.h>
#include "dlite.h"
#include "dlite-type.h"
#include "dlite-macros.h"
#include "utils/err.h"
#include "utils/boolean.h"
#include "utils/floats.h"

typedef struct { char *p; size_t n, cap; } Buf;
static void bufn(Buf *b, const char *s, size_t n)
{
  if (b->n + n + 1 > b->cap) { b->cap = 2*(b->n + n) + 64; b->p = realloc(b->p, b->cap); }
  if (n) memcpy(b->p + b->n, s, n);
  b->n += n; b->p[b->n] = 0;
}
static __attribute__((unused)) void buff(Buf *b, const char *fmt, ...)
{
  char t[512]; va_list ap; int n; va_start(ap, fmt); n = vsnprintf(t, sizeof(t), fmt, ap); va_end(ap);
  bufn(b, t, n < (int)sizeof(t) ? n : (int)sizeof(t)-1);
}
static void bufs(Buf *b, const char *s)
{
  const char *q;
  if (!s) { bufn(b, "NULL", 4); return; }
  bufn(b, "\"", 1);
  for (q=s; *q; q++) {
    unsigned char c = *q;
    if (c < 32 || c > 126 || c == '"' || c == '\\') { char t[8]; sprintf(t, "\\x%02x", c); bufn(b, t, 4); }
    else bufn(b, q, 1);
  }
  bufn(b, "\"", 1);
}
static void buf_prop(Buf *b, const DLiteProperty *p)
{
  int k;
  bufs(b, p->name); buff(b, ":%d/%zu ref=", p->type, p->size); bufs(b, p->ref); buff(b, " ndims=%d [", p->ndims);
  for (k=0; k<p->ndims; k++) { bufs(b, p->shape[k]); buff(b, ","); }
  buff(b, "] unit="); bufs(b, p->unit); buff(b, " descr="); bufs(b, p->description);
}
static void buf_value(Buf *b, const void *v, DLiteType t, size_t size)
{
  size_t i;
  switch (t) {
  case dliteBool: case dliteInt: case dliteUInt: case dliteBlob:
    for (i=0; i<size; i++) buff(b, "%02x", ((const unsigned char *)v)[i]);
    break;
  case dliteFloat:
    for (i=0; i<(size == 16 ? 10 : size); i++) buff(b, "%02x", ((const unsigned char *)v)[i]);
    break;
  case dliteFixString: bufs(b, v); break;
  case dliteStringPtr: bufs(b, *(char **)v); break;
  case dliteRef: { DLiteInstance *r = *(DLiteInstance **)v; bufs(b, r ? r->uuid : NULL); } break;
  case dliteDimension: { const DLiteDimension *d = v; bufs(b, d->name); buff(b, "/"); bufs(b, d->description); } break;
  case dliteProperty: buf_prop(b, v); break;
  case dliteRelation: { const DLiteRelation *r = v; bufs(b, r->s); buff(b, " "); bufs(b, r->p); buff(b, " "); bufs(b, r->o); buff(b, " "); bufs(b, r->d); } break;
  default: buff(b, "?%d", t);
  }
}
/* flags for dump */
enum { DUMP_NOURI=1, DUMP_NOUUID=2 };
static __attribute__((unused)) void buf_inst(Buf *b, const DLiteInstance *inst, int flags)
{
  size_t i, n, k;
  if (!inst) { buff(b, "(null)"); return; }
  if (!(flags & DUMP_NOUUID)) buff(b, "uuid=%s\n", inst->uuid);
  if (!(flags & DUMP_NOURI)) { buff(b, "uri="); bufs(b, inst->uri); buff(b, "\n"); }
  buff(b, "meta="); bufs(b, inst->meta->uri); buff(b, "\n");
  for (i=0; i<inst->meta->_ndimensions; i++) {
    buff(b, "dim "); bufs(b, inst->meta->_dimensions[i].name); buff(b, "=%zu\n", (size_t)DLITE_DIM(inst, i));
  }
  for (i=0; i<inst->meta->_nproperties; i++) {
    const DLiteProperty *p = &inst->meta->_properties[i];
    const char *v = (const char *)inst + inst->meta->_propoffsets[i];
    n = 1;
    buff(b, "prop "); bufs(b, p->name);
    for (k=0; k<(size_t)p->ndims; k++) { size_t d = DLITE_PROP_DIM(inst, i, k); buff(b, "[%zu]", d); n *= d; }
    buff(b, " =");
    if (p->ndims) v = *(char **)v;
    if (!v && n) { buff(b, " MISSING\n"); continue; }
    for (k=0; k<n; k++) { buff(b, " "); buf_value(b, v + k*p->size, p->type, p->size); }
    buff(b, "\n");
  }
}
static __attribute__((unused)) void buf_meta(Buf *b, const DLiteMeta *m)
{
  size_t i;
  if (!m) { buff(b, "(null)"); return; }
  buff(b, "uuid=%s\nuri=", m->uuid); bufs(b, m->uri); buff(b, "\nmeta="); bufs(b, m->meta->uri);
  buff(b, "\ndescr="); { char **d = (char **)dlite_instance_get_property((DLiteInstance *)m, "description"); bufs(b, d ? *d : NULL); }
  buff(b, "\nnd=%zu np=%zu\n", m->_ndimensions, m->_nproperties);
  for (i=0; i<m->_ndimensions; i++) { buff(b, "dim "); bufs(b, m->_dimensions[i].name); buff(b, "/"); bufs(b, m->_dimensions[i].description); buff(b, "\n"); }
  for (i=0; i<m->_nproperties; i++) { buff(b, "prop "); buf_prop(b, &m->_properties[i]); buff(b, "\n"); }
}
/* The store keeps its own reference to metadata: with no instances and one
   caller, the count is 2.  Removes the metadata; returns its count before. */
static __attribute__((unused)) int drop_meta(DLiteMeta *m)
{
  int n = m->_refcount, i;
  for (i=0; i<n; i++) dlite_meta_decref(m);
  return n;
}
static __attribute__((unused)) void buf_free(Buf *b) { free(b->p); memset(b, 0, sizeof(*b)); }
/* first differing line of two dumps, for messages */
static __attribute__((unused)) const char *bufdiff(const char *a, const char *b)
{
  static char out[900]; size_t i=0, l=0;
  if (!a) a = ""; if (!b) b = "";
  while (a[i] && a[i] == b[i]) { if (a[i] == '\n') l = i+1; i++; }
  snprintf(out, sizeof(out), "got {%.*s} expected {%.*s}", (int)(strcspn(a+l, "\n") < 400 ? strcspn(a+l, "\n") : 400), a+l,
           (int)(strcspn(b+l, "\n") < 400 ? strcspn(b+l, "\n") : 400), b+l);
  return out;
}
#endif
