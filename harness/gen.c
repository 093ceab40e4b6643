/* X08: template engine and code generation.  Every token sequence / short
   string up to a bound against a direct evaluator; generated C headers are
   compiled and their layout compared with the real instances. */
#include "vh.h"
#include "inst.h"
#include <ctype.h>
#include <unistd.h>
#include <sys/wait.h>
#include "utils/tgen.h"
#include "utils/strutils.h"
#include "dlite-codegen.h"

#define LEN(a) ((int)(sizeof(a)/sizeof(*(a))))
static char *exact(const char *s, size_t n) { char *p = malloc(n+1); memcpy(p, s, n); p[n] = 0; return p; }
static char *cut(const char *s, size_t n) { char *p = malloc(n ? n : 1); memcpy(p, s, n); return p; }
static const char *sh(const char *s)
{
  static char b[4][900]; static int k; char *o = b[k++ & 3]; int m = 0;
  if (!s) return "NULL";
  for (; *s && m < 880; s++) if (*s == '\n') m += sprintf(o+m, "\\n"); else if (*s == '\\') m += sprintf(o+m, "\\\\"); else if ((unsigned char)*s < 32) m += sprintf(o+m, "\\x%02x", *s); else o[m++] = *s;
  o[m] = 0; return o;
}

/* ------------------------------------------------------ case conversion */
static int ws(int c) { return c && strchr(" \f\n\r\t\v", c) != NULL; }
static int sepc(int c) { return c && strchr(" _-\f\n\r\t\v", c) != NULL; }
/* returns 0 if the conversion must fail */
static int model_case(char *o, const char *s, int n, int mode)
{
  int i, a = 0, m = 0;
  switch (mode) {
  case 's': memcpy(o, s, n); m = n; break;
  case 'c': for (i=0; i<n; i++) o[m++] = tolower(s[i]); break;
  case 'C': for (i=0; i<n; i++) o[m++] = toupper(s[i]); break;
  case 'T': for (i=0; i<n; i++) o[m++] = i ? tolower(s[i]) : toupper(s[i]); break;
  default:
    while (n > 0 && mode != 'm' && mode != 'M' && ws(s[n-1])) n--;
    while (a < n && ws(s[a])) a++;
    if (mode == 'u' || mode == 'U') {
      for (i=a; i<n; i++) {
        int prev = i > a ? s[i-1] : 0, insep = sepc(s[i]), psep = !prev || sepc(prev);
        if (!psep && (insep || isupper(s[i]))) o[m++] = '_';
        if (!insep) o[m++] = mode == 'u' ? tolower(s[i]) : toupper(s[i]);
      }
    } else if (mode == 'm' || mode == 'M') {
      for (i=a; i<n; i++) {
        if (i == a) o[m++] = mode == 'M' ? toupper(s[i]) : tolower(s[i]);
        else if (!sepc(s[i])) o[m++] = sepc(s[i-1]) || !isalpha(s[i-1]) ? toupper(s[i]) : s[i];
      }
    } else {
      if (a == n) { if (mode == 'I') return 0; o[m++] = '_'; }
      for (i=a; i<n; i++) {
        int ok = s[i] == '_' || (i == a ? isalpha(s[i]) : isalnum(s[i]));
        if (!ok && mode == 'I' && (i == a || !(s[i] == '-' || ws(s[i])))) return 0;
        o[m++] = ok ? s[i] : '_';
      }
    }
  }
  o[m] = 0; return 1;
}
static void cases(void)
{
  static const char A[] = "aB_- 1+", M[] = "scCuUmMiIT"; int len, i, m, pre, L = vh_thorough() ? 6 : 5;
  for (len=0; len<=L; len++) for (m=0; m<10; m++)
    if (vh_case("case conversion '%c' length %d", M[m], len)) {
      long total = 1, k; for (i=0; i<len; i++) total *= 7;
      for (k=0; k<total && !vh_failed(); k++) {
        char s[10], want[64]; long r = k; int full, ok, n;
        for (i=0; i<len; i++, r /= 7) s[i] = A[r % 7];
        s[len] = 0;
        for (full=0; full<2; full++) {
          /* whole string; first n bytes of a longer one */
          char *in = full ? exact(s, len) : cut(s, len); char *got;
          if (!full && !len) { free(in); continue; }
          ok = model_case(want, s, len, M[m]);
          if (!full && len && ws(s[0])) { for (i=0; i<len && ws(s[i]); i++); if (i == len) { free(in); continue; } }
          got = tgen_convert_case(in, full ? -1 : len, M[m]);
          VH_CHECK(!!got == ok && (!ok || !strcmp(got, want)), "case", "'%s' as '%c'%s gives %s, expected %s", s, M[m], full ? "" : " (bounded)", got ? got : "failure", ok ? want : "failure");
          free(got); err_clear();
          if (!full) for (pre=0; pre<2; pre++) {
            TGenBuf e; tgen_buf_init(&e); if (pre) tgen_buf_append(&e, "xY", 2);    /* nothing of a string that is there */
            if (strchr("scCT", M[m]) && (tgen_buf_append_case(&e, in, 0, M[m]), 1)) VH_CHECK(tgen_buf_length(&e) == 2*(size_t)pre && !strncmp(tgen_buf_get(&e), pre ? "xY" : "", pre*2), "append-case", "0 bytes of '%s' as '%c' appended: '%s'", s, M[m], tgen_buf_get(&e));
            tgen_buf_deinit(&e); err_clear();
            TGenBuf b; tgen_buf_init(&b);
            if (pre) tgen_buf_append(&b, "xY", 2);
            n = tgen_buf_append_case(&b, in, len, M[m]);
            VH_CHECK((n >= 0) == ok, "append-case", "'%s' as '%c' appended: %d", s, M[m], n);
            if (ok) VH_CHECK(!strncmp(tgen_buf_get(&b), pre ? "xY" : "", pre*2) && !strcmp(tgen_buf_get(&b) + 2*pre, want) && tgen_buf_length(&b) == strlen(want) + 2*pre, "append-case", "'%s' as '%c' appended to '%s': '%s'", s, M[m], pre ? "xY" : "", tgen_buf_get(&b));
            tgen_buf_deinit(&b); err_clear();
          }
          free(in);
        }
        if (strchr("scCT", M[m])) { char *t = exact(s, len); model_case(want, s, len, M[m]); VH_CHECK(!tgen_setcase(t, -1, M[m]) && !strcmp(t, want), "setcase", "'%s' as '%c' gives '%s'", s, M[m], t);
          if (len > 1) { strcpy(t, s); model_case(want, s, len-1, M[m]); VH_CHECK(!tgen_setcase(t, len-1, M[m]) && !strncmp(t, want, len-1) && t[len-1] == s[len-1], "setcase", "bounded '%s' as '%c' gives '%s'", s, M[m], t); }
          free(t); }
      }
      vh_count_transitions(total*2); vh_observef("%c%d%ld", M[m], len, total); vh_end();
    }
}

/* ------------------------------------------------------------- templates */
/* environment: variables and their values */
typedef struct Env { char name[24][12]; char *val[24]; int n; struct Env *up; } Env;
static void eset1(Env *e, const char *k, const char *v) { int i; for (i=0; i<e->n && strcmp(e->name[i], k); i++); if (i == e->n) { strcpy(e->name[i], k); e->n++; } else free(e->val[i]); e->val[i] = strdup(v); }
static void eset(Env *e, const char *k, const char *v) { for (; e; e = e->up) eset1(e, k, v); }
static const char *eget(Env *e, const char *k) { int i; for (i=0; i<e->n; i++) if (!strcmp(e->name[i], k)) return e->val[i]; return NULL; }
static void ecopy(Env *d, Env *s) { int i; memset(d, 0, sizeof *d); for (i=0; i<s->n; i++) eset1(d, s->name[i], s->val[i]); d->up = s; }
static void efree(Env *e) { int i; for (i=0; i<e->n; i++) free(e->val[i]); e->n = 0; }
static void out(Buf *b, const char *s) { bufn(b, s, strlen(s)); }

/* the abstract tokens; text() is what goes into the template, eval() its meaning */
static char LONGV[301];
typedef struct Tok { const char *text; int op; const char *a; int w, p, left; } Tok;
enum { LIT, VAR, FMTV, DEF, SET, ALIGN, LOOP, LOOP2, SUBT, SUBD, ERR };
static const Tok T[] = {
  {"a", LIT, "a"}, {"{x}", VAR, "x"}, {"{e}", VAR, "e"}, {"{e%s}", FMTV, "e", -1, -1}, {"{x%C}", FMTV, "x", 'C', -1}, {"{x%-6.1s}", FMTV, "x", 6, 1, 1}, {"{x%4s}|", FMTV, "x|", 4, -1},
  {"{long%s}", FMTV, "long", -1, -1}, {"{long}", VAR, "long"}, {"{long%u}", FMTV, "long", 'c', -1}, {"{{", LIT, "{"}, {"}}", LIT, "}"}, {"\\n", LIT, "\n"}, {"\\.", LIT, ""}, {"\n", LIT, "\n"},
  {"{@5}", ALIGN, NULL, 5}, {"{@1}", ALIGN, NULL, 1}, {"{@0}", ALIGN, NULL, 0}, {"{: note }", LIT, ""}, {"{x?}", DEF, "x"}, {"{nope?}", DEF, "nope"}, {"{x=B}", SET, "x\0B"}, {"{new=q{y}\\.}", SET, "new\0q2"}, {"{new}", VAR, "new"},
  {"{L:i={i}{, }\\.}", LOOP, "i={i}{, }"}, {"{L:<{L:{i}\\.}>}", LOOP2, NULL}, {"{L:}", LIT, ""}, {"{f:t{x}\\.}", SUBT, "t"}, {"{d}", SUBD, NULL}, {"{f}", ERR}, {"{nope}", ERR}, {"{@error:stop}", ERR}, {"{x%y}", ERR}, {"{f:o{{p}}q}", LIT, "o{p}q"}, {"{f:{{}", LIT, "{"}, {"{f:b}}\\.}", LIT, "b}"}, {"{x:ignored {{ }", VAR, "x"}, {"{p}", VAR, "p"}, {"{x:ignored {y} }", VAR, "x"},
  {"{L:{acc={acc}{i}\\.}\\.}", LOOP, "acc"}, {"{acc}", VAR, "acc"},
};
static int fcopy(TGenBuf *s, const char *t, int len, TGenSubs *subs, void *ctx) { return tgen_append(s, t, len, subs, ctx); }
static int floop(TGenBuf *s, const char *t, int len, TGenSubs *subs, void *ctx)
{
  TGenSubs sub; int i, r = 0;
  if (tgen_subs_copy(&sub, subs)) return 1;
  sub.parent = subs;
  for (i=0; i<3 && !r; i++) { tgen_subs_set_fmt(&sub, "i", NULL, "%d", i); tgen_subs_set(&sub, ", ", i < 2 ? ", " : "", NULL); r = tgen_append(s, t, len, &sub, ctx); }
  tgen_subs_deinit(&sub);
  return r;
}
static void mkenv(Env *e, TGenSubs *s)
{
  memset(LONGV, 'z', 300); LONGV[300] = 0;
  memset(e, 0, sizeof *e);
  eset1(e, "x", "Vw"); eset1(e, "y", "2"); eset1(e, "e", ""); eset1(e, "long", LONGV); eset1(e, "p", "100%d{x}"); eset1(e, "acc", "");
  tgen_subs_init(s);
  { int i; for (i=0; i<e->n; i++) tgen_subs_set(s, e->name[i], e->val[i], NULL); }
  tgen_subs_set(s, "L", NULL, floop); tgen_subs_set(s, "f", NULL, fcopy); tgen_subs_set(s, "d", "<{y}>", fcopy);
}
static int column(const Buf *b) { int c = 0; size_t i = b->n; while (i > 0 && b->p[i-1] != '\n') { i--; c++; } return c; }
static int eval_tok(Buf *b, const Tok *t, Env *e)
{
  int i, j; const char *v; char tmp[700];
  switch (t->op) {
  case LIT: out(b, t->a); return 1;
  case VAR: if (!(v = eget(e, t->a))) return 0; out(b, v); return 1;
  case FMTV:
    { char name[20]; int pipe; strcpy(name, t->a); pipe = name[strlen(name)-1] == '|'; if (pipe) name[strlen(name)-1] = 0;
      if (!(v = eget(e, name))) return 0;
      if (t->w == 'C') for (i=0; v[i]; i++) tmp[i] = toupper(v[i]), tmp[i+1] = 0; else if (t->w == 'c') for (i=0; v[i]; i++) tmp[i] = tolower(v[i]), tmp[i+1] = 0; else strcpy(tmp, v);
      if (t->w != 'C' && t->w != 'c') { if (t->p >= 0 && (int)strlen(tmp) > t->p) tmp[t->p] = 0;
        if (t->w > 0) { j = t->w - (int)strlen(tmp); if (!t->left) for (i=0; i<j; i++) out(b, " "); out(b, tmp); if (t->left) for (i=0; i<j; i++) out(b, " "); } else out(b, tmp); }
      else out(b, tmp);
      if (pipe) out(b, "|");
      return 1; }
  case DEF: out(b, eget(e, t->a) ? "1" : "0"); return 1;
  case SET: eset(e, t->a, t->a + strlen(t->a) + 1); return 1;
  case ALIGN: while (column(b) < t->w) out(b, " "); return 1;
  case LOOP:
    { Env l; ecopy(&l, e);
      for (i=0; i<3; i++) { sprintf(tmp, "%d", i); eset1(&l, "i", tmp);
        if (!strcmp(t->a, "acc")) { sprintf(tmp, "%s%d", eget(&l, "acc"), i); eset(&l, "acc", tmp); }
        else { out(b, "i="); out(b, tmp); if (i < 2) out(b, ", "); } }
      efree(&l); return 1; }
  case LOOP2: for (i=0; i<3; i++) out(b, "<012>"); return 1;
  case SUBT: out(b, "t"); out(b, eget(e, "x")); return 1;
  case SUBD: out(b, "<"); out(b, eget(e, "y")); out(b, ">"); return 1;
  }
  return 0;
}
static void run_seq(const int *seq, int n)
{
  Env e; TGenSubs s; Buf tm = {0}, w = {0}; int i, ok = 1; char *got, *t;
  mkenv(&e, &s);
  for (i=0; i<n; i++) {
    const Tok *k = &T[seq[i]];
    /* two literal braces meeting another brace change the tokens: separate them */
    if (i && strchr("{}", k->text[0]) && tm.p[tm.n-1] == k->text[0]) { out(&tm, "."); if (ok) out(&w, "."); }
    out(&tm, k->text);
    if (ok) ok = eval_tok(&w, k, &e);
  }
  t = exact(tm.p ? tm.p : "", tm.n);
  err_clear();
  got = tgen(t, &s, NULL);
  VH_CHECK(!!got == ok && (!ok || !strcmp(got, w.p ? w.p : "")), "expand", "template '%s' gives %s, expected %s", sh(t), got ? sh(got) : "failure", ok ? sh(w.p ? w.p : "") : "failure");
  if (!got) VH_CHECK(err_geteval(), "silent", "template '%s' fails without an error", sh(t));
  if (got && ok) { const TGenSub *x = tgen_subs_get(&s, "x"), *a = tgen_subs_get(&s, "acc"); VH_CHECK(x && a && !strcmp(x->repl, eget(&e, "x")) && !strcmp(a->repl, eget(&e, "acc")), "variables", "template '%s' leaves x='%s' acc='%s'", sh(t), x ? x->repl : "?", a ? a->repl : "?"); }
  if (got) vh_observef("%.200s", got);
  free(got); free(t); free(tm.p); free(w.p); efree(&e); tgen_subs_deinit(&s);
}
static void templates(void)
{
  int N = LEN(T), a, b, i, seq[4], D = vh_thorough() ? 4 : 3; long k, total;
  for (a=-1; a<N; a++) for (b=-1; b<N; b++) {
    if (a < 0 && b >= 0) continue;
    if (vh_case("template '%s' '%s' ...", a < 0 ? "" : sh(T[a].text), b < 0 ? "" : sh(T[b].text))) {
      if (b < 0) { seq[0] = a; run_seq(seq, a >= 0); }
      else {
        seq[0] = a; seq[1] = b; run_seq(seq, 2);
        for (total=N, i=3; i<D; i++) total *= N;
        for (k=0; k<total && !vh_failed(); k++) { seq[2] = k % N; run_seq(seq, 3); if (D > 3) { seq[3] = k / N; run_seq(seq, 4); } }
      }
      vh_count_transitions(N); vh_end();
    }
  }
}

/* conditionals: {text, value}: 1 true, 0 false, -1 error */
static const struct { const char *t; int v; } C[] = {
  {"1", 1}, {"0", 0}, {"", 0}, {"{x?} ", 1}, {"{nope?} ", 0}, {"'a'", 1}, {"''", 0}, {"\"a\"", 1}, {"\"{e}\"", 0}, {"'a'='a'", 1}, {"'a'='b'", 0}, {"\"a\" = \"a\"", 1}, {"'a' ! \"b\"", 1}, {"\"a\"!'a'", 0},
  {"'{x}' = 'Vw'", 1}, {"\"{x}\"=\"Vwx\"", 0}, {"2>1", 1}, {"1 = {y} ", 0}, {"{y} = 2", 1}, {"1&0", 0}, {"(1|0)&1", 1}, {"'a'='a'='a'", -1}, {"x+", -1}, {"'a", -1}, {"{nope} ", -1}, {"'a'<'b'", -1}, {"'a' 'b'", -1},
};
static const char *BODY[] = {"A", "", "{x}", "{L:{i}\\.}", "{{b}}", "{y=7}{y}"};
static const char *BVAL[] = {"A", "", "Vw", "012", "{b}", "7"};
static void cond_one(const char *t, const char *want, int ok)
{
  Env e; TGenSubs s; char *in = exact(t, strlen(t)), *got;
  mkenv(&e, &s); err_clear();
  got = tgen(in, &s, NULL);
  VH_CHECK(!!got == ok && (!ok || !strcmp(got, want)), "conditional", "'%s' gives %s, expected %s", sh(t), got ? sh(got) : "failure", ok ? want : "failure");
  if (!got) VH_CHECK(err_geteval(), "silent", "'%s' fails without an error", sh(t));
  if (got) vh_observef("%s", got);
  free(got); free(in); efree(&e); tgen_subs_deinit(&s);
}
static void conditionals(void)
{
  int c0, c1, c2, b, el, n; char t[400], w[200];
  for (c0=0; c0<LEN(C); c0++) for (b=0; b<LEN(BODY); b++)
    if (vh_case("if '%s' body '%s'", C[c0].t, BODY[b])) {
      for (n=0; n<3; n++) for (c1=0; c1 < (n ? LEN(C) : 1); c1++) for (c2=0; c2 < (n > 1 ? LEN(C) : 1); c2++) for (el=0; el<2; el++) {
        int ok = 1, sel = -1, m;
        m = sprintf(t, "<{@if:%s}%s", C[c0].t, BODY[b]);
        if (n > 0) m += sprintf(t+m, "{@elif:%s}B{x}", C[c1].t);
        if (n > 1) m += sprintf(t+m, "{@elif:%s}C", C[c2].t);
        if (el) m += sprintf(t+m, "{@else}D");
        sprintf(t+m, "{@endif}>");
        if (C[c0].v < 0) ok = 0; else if (C[c0].v) sel = 0;
        else if (n > 0) { if (C[c1].v < 0) ok = 0; else if (C[c1].v) sel = 1; else if (n > 1) { if (C[c2].v < 0) ok = 0; else if (C[c2].v) sel = 2; else if (el) sel = 3; } else if (el) sel = 3; }
        else if (el) sel = 3;
        sprintf(w, "<%s>", sel == 0 ? BVAL[b] : sel == 1 ? "BVw" : sel == 2 ? "C" : sel == 3 ? "D" : "");
        cond_one(t, w, ok);
        if (vh_failed()) break;
      }
      vh_count_transitions(1500); vh_end();
    }
  /* conditionals inside each other, in loops and one after the other */
  for (c0=0; c0<5; c0++) for (c1=0; c1<5; c1++) if (vh_case("if inside '%s' '%s'", C[c0].t, C[c1].t)) {
    int v0 = C[c0].v, v1 = C[c1].v, k;
    for (k=0; k<8; k++) {
      const char *i0 = C[c0].t, *i1 = C[c1].t;
      switch (k) {
      case 0: sprintf(t, "{@if:%s}a{@if:%s}b{@endif}c{@endif}d", i0, i1); sprintf(w, "%sd", v0 ? v1 ? "abc" : "ac" : ""); break;
      case 1: sprintf(t, "{@if:%s}a{@if:%s}b{@else}B{@endif}c{@else}e{@endif}d", i0, i1); sprintf(w, "%sd", v0 ? v1 ? "abc" : "aBc" : "e"); break;
      case 2: sprintf(t, "{@if:%s}a{@else}e{@if:%s}b{@endif}c{@endif}d", i0, i1); sprintf(w, "%sd", v0 ? "a" : v1 ? "ebc" : "ec"); break;
      case 3: sprintf(t, "{@if:%s}a{@endif}{@if:%s}b{@endif}d", i0, i1); sprintf(w, "%s%sd", v0 ? "a" : "", v1 ? "b" : ""); break;
      case 4: sprintf(t, "{L:{@if:{i}=1}x{@else}-{@endif}\\.}{@if:%s}%s{@endif}", i0, i1[0] ? "q" : ""); sprintf(w, "-x-%s", v0 ? i1[0] ? "q" : "" : ""); break;
      case 5: sprintf(t, "{@if:%s}{L:{@if:%s}x{i}{@endif}\\.}{@else}n{@endif}", i0, i1); sprintf(w, "%s", v0 ? v1 ? "x0x1x2" : "" : "n"); break;
      case 6: sprintf(t, "{@if:%s}a{@elif:%s}b{@if:%s}c{@elif:1}z{@endif}{@endif}", i0, i1, i0); sprintf(w, "%s", v0 ? "a" : v1 ? "bz" : ""); break;
      default: sprintf(t, "{@if:%s}a{}b{@endif}{@if:%s}{: note }{x?}{@endif}", i0, i1); sprintf(w, "%s%s", v0 ? "ab" : "", v1 ? "1" : ""); break;
      }
      if (k == 7) { int m = 0; m = sprintf(t, "{@if:%s}a{: c }b{@endif}{@if:%s}{x?}{@endif}", i0, i1); (void)m; }
      cond_one(t, w, 1);
    }
    vh_count_transitions(8); vh_end();
  }
}

/* every short string: a result or an error, nothing else */
static void robust(void)
{
  static const char A[] = "{}@xf%:\\=?'1"; int NA = LEN(A)-1, len, i, a, b, p, L = vh_thorough() ? 6 : 5;
  static const char *P[] = {"", "{@if:1}", "{@if:", "{f:", "{x%", "{L:{x}", "{@if:0}a{@el", "{@if:'"}; static const char *S[] = {"", "{@endif}", "}a{@endif}", "}", "s}", "}", "se}b{@endif}", "'}a{@endif}"};
  for (p=0; p<LEN(P); p++) for (a=0; a<NA; a++) for (b=0; b<NA; b++)
    if (vh_case("string '%s' '%c%c...' '%s'", P[p], A[a], A[b], S[p])) {
      int D = (p ? L-1 : L) - 2;
      for (len=0; len<=D; len++) {
        long total = 1, k; for (i=0; i<len; i++) total *= NA;
        for (k=0; k<total && !vh_failed(); k++) {
          char t[80]; long r = k; int m = sprintf(t, "%s%c%c", P[p], A[a], A[b]); TGenSubs s; Env e; char *in, *got;
          for (i=0; i<len; i++, r /= NA) t[m++] = A[r % NA];
          strcpy(t+m, S[p]);
          if (strstr(t, "{f:") == NULL && 0) continue;
          in = exact(t, strlen(t)); mkenv(&e, &s); err_clear();
          vh_trace("template '%s'", t);
          got = tgen(in, &s, NULL);
          if (!got) VH_CHECK(err_geteval(), "silent", "'%s' fails without an error", t);
          else if (!p && k % 5 == 0) vh_observef("%s", got);
          free(got);
          free(in); efree(&e); tgen_subs_deinit(&s);
        }
        vh_count_transitions(total);
      }
      vh_end();
    }
}

/* --------------------------------------------------- buffers, variables */
static void buffers(void)
{
  static const int L[] = {0, 1, 2, 62, 63, 64, 65, 100, 126, 127, 128, 129, 130, 200, 510, 511, 512, 513, 1023, 1024, 1025, 3000};
  static char big[4000]; int i, j, k, n, esc; memset(big, 'q', sizeof big - 1);
  for (i=0; i<LEN(L); i++) for (esc=0; esc<2; esc++)
    if (vh_case("buffer pieces of %d escapes=%d", L[i], esc)) {
      tgen_convert_escape_sequences = esc;
      for (j=0; j<LEN(L); j++) for (k=0; k<4; k++) {
        TGenBuf b; Buf w = {0}; char *in = cut(big, L[i]), *in2 = exact(big, L[j]); int r;
        tgen_buf_init(&b);
        r = tgen_buf_append(&b, in, L[i]); VH_CHECK(r == L[i], "append", "append of %d returns %d", L[i], r); bufn(&w, big, L[i]);
        if (k == 0) { r = tgen_buf_append(&b, in2, -1); bufn(&w, big, L[j]); }
        else if (k == 1) { r = tgen_buf_append_fmt(&b, "%s", in2); bufn(&w, big, L[j]); }
        else if (k == 2) { r = tgen_buf_append_fmt(&b, "<%.*s>", L[j], in2); bufn(&w, "<", 1); bufn(&w, big, L[j]); bufn(&w, ">", 1); }
        else { tgen_buf_append_case(&b, in2, -1, 'C'); for (n=0; n<L[j]; n++) bufn(&w, "Q", 1); if (tgen_buf_get(&b)) { for (n=0; n<L[i]; n++) if (tgen_buf_get(&b)[n] != 'q') break; VH_CHECK(n == L[i], "append-case", "appending %d changed the first %d", L[j], L[i]); } }
        VH_CHECK(r >= 0, "append", "append of %d after %d fails (kind %d)", L[j], L[i], k);
        VH_CHECK(tgen_buf_length(&b) == w.n && (!w.n || !strcmp(tgen_buf_get(&b), w.p)), "append", "%d then %d (kind %d): %zu bytes, expected %zu", L[i], L[j], k, tgen_buf_length(&b), w.n);
        n = tgen_buf_unappend(&b, L[j]); VH_CHECK((size_t)n == ((size_t)L[j] < w.n ? (size_t)L[j] : w.n) && tgen_buf_length(&b) == w.n - n && strlen(tgen_buf_get(&b)) == w.n - n, "unappend", "unappend %d of %zu returns %d", L[j], w.n, n);
        if (j & 1) tgen_buf_deinit(&b); else free(tgen_buf_steal(&b));
        VH_CHECK(!b.buf && !b.pos && !b.size, "reset", "buffer not reset");
        free(in); free(in2); free(w.p); err_clear();
      }
      { TGenSubs s; TGenSubs s2; const TGenSub *x; char *in = exact(big, L[i]);
        tgen_subs_init(&s);
        for (j=0; j<LEN(L); j++) {
          char *v = exact(big, L[j]);
          VH_CHECK(!tgen_subs_set(&s, "v", v, NULL), "subs", "set fails"); x = tgen_subs_get(&s, "v"); VH_CHECK(x && !strcmp(x->repl, v), "subs", "value of %d bytes", L[j]);
          VH_CHECK(!tgen_subs_set_fmt(&s, "w", NULL, "%s", v), "subs", "set_fmt of %d bytes fails", L[j]); x = tgen_subs_get(&s, "w"); VH_CHECK(x && x->repl && !strcmp(x->repl, v), "subs", "set_fmt of %d bytes stored %zu", L[j], x && x->repl ? strlen(x->repl) : 0);
          VH_CHECK(!tgen_subs_setn_fmt(&s, "www", 2, NULL, "%s%s", in, v), "subs", "setn_fmt of %d bytes fails", L[i]+L[j]); x = tgen_subs_get(&s, "ww"); VH_CHECK(x && x->repl && strlen(x->repl) == (size_t)(L[i]+L[j]), "subs", "setn_fmt of %d bytes", L[i]+L[j]);
          /* from its own value; to a function and back */
          x = tgen_subs_get(&s, "v"); VH_CHECK(!tgen_subs_set(&s, "v", x->repl, NULL) && !strcmp(tgen_subs_get(&s, "v")->repl, v), "subs", "set to its own value");
          VH_CHECK(!tgen_subs_set(&s, "v", NULL, fcopy) && tgen_subs_get(&s, "v")->func == fcopy && !tgen_subs_get(&s, "v")->repl, "subs", "set to a function");
          VH_CHECK(!tgen_subs_set(&s, "v", v, NULL) && !tgen_subs_get(&s, "v")->func && !strcmp(tgen_subs_get(&s, "v")->repl, v), "subs", "set back");
          if (j % 2) tgen_subs_set(&s, "v", NULL, fcopy);
          free(v); err_clear();
        }
        VH_CHECK(!tgen_subs_copy(&s2, &s) && s2.nsubs == s.nsubs && tgen_subs_get(&s2, "ww") && strlen(tgen_subs_get(&s2, "ww")->repl) == strlen(tgen_subs_get(&s, "ww")->repl), "subs", "copy");
        tgen_subs_deinit(&s2);
        for (j=0; j<L[i] && j<600; j++) { char k2[20]; sprintf(k2, "k%d", j); tgen_subs_setn(&s, k2, -1, k2, NULL); }
        for (j=0; j<L[i] && j<600; j++) { char k2[20]; sprintf(k2, "k%dzz", j); x = tgen_subs_getn(&s, k2, strlen(k2)-2); VH_CHECK(x && !strncmp(x->repl, k2, strlen(x->repl)) && strlen(x->repl) == strlen(k2)-2, "subs", "variable %d of %d", j, L[i]); }
        tgen_subs_deinit(&s); free(in); }
      tgen_convert_escape_sequences = 1; vh_observef("%d %d", L[i], esc); vh_count_transitions(LEN(L)*6); vh_end();
    }
  if (vh_case("alignment")) {
    static const char *pre[] = {"", "a", "abc", "abcdef", "\n", "a\n", "a\nb", "a\nbcd", "abcdef\n\n", "\nabcdefgh"};
    for (i=0; i<LEN(pre); i++) for (n=0; n<12; n++) for (k=0; k<2; k++) {
      TGenBuf b; Buf w = {0}; int r, c;
      tgen_buf_init(&b); if (*pre[i] || k) tgen_buf_append(&b, pre[i], -1); bufn(&w, pre[i], strlen(pre[i]));
      c = column(&w); c = n > c ? n-c : 0; for (j=0; j<c; j++) bufn(&w, "#", 1);
      r = tgen_buf_calign(&b, '#', n);
      VH_CHECK(r == c && tgen_buf_length(&b) == w.n && !strcmp(tgen_buf_get(&b) ? tgen_buf_get(&b) : "", w.p), "align", "'%s' to %d: '%s' (%d), expected '%s' (%d)", sh(pre[i]), n, sh(tgen_buf_get(&b)), r, sh(w.p), c);
      tgen_buf_deinit(&b); free(w.p);
    }
    vh_observef("align"); vh_end();
  }
  if (vh_case("template files")) {
    static const int F[] = {0, 1, 100, 4095, 4096, 4097, 8191, 8192, 8193}; char path[600], *got; FILE *fp; static char data[9000];
    for (i=0; i<8999; i++) data[i] = 'a' + i % 26;
    snprintf(path, sizeof path, "%s/t.txt", vh_scratch());
    for (i=0; i<LEN(F); i++) { fp = fopen(path, "wb"); fwrite(data, 1, F[i], fp); fclose(fp);
      got = tgen_readfile(path); VH_CHECK(got && strlen(got) == (size_t)F[i] && !memcmp(got, data, F[i]), "readfile", "file of %d bytes", F[i]); free(got); }
    VH_CHECK(!tgen_readfile("/nonexisting/file"), "readfile", "missing file"); err_clear(); vh_observef("files"); vh_end();
  }
  if (vh_case("escapes")) {
    static const char E[] = "\\anrtvbf.\n\rx"; int NE = LEN(E)-1, m; long total, kk;
    for (n=0; n<=4; n++) { for (total=1, i=0; i<n; i++) total *= NE;
      for (kk=0; kk<total; kk++) { char s[8], o[8], w[8]; long r = kk; char *in; int g; for (i=0; i<n; i++, r /= NE) s[i] = E[r % NE];
        for (i=m=0; i<n; i++) if (s[i] != '\\' || i+1 == n) w[m++] = s[i]; else { static const char f[] = "abfnrtv\\", tt[] = "\a\b\f\n\r\t\v\\"; const char *q; i++;
          if (s[i] == '.' || s[i] == '\n') continue; if (s[i] == '\r') { if (i+1 < n && s[i+1] == '\n') i++; continue; } q = s[i] ? strchr(f, s[i]) : NULL; w[m++] = q ? tt[q-f] : s[i]; }
        in = cut(s, n); g = tgen_escaped_copy(o, in, n); VH_CHECK(g == m && !memcmp(o, w, m), "escape", "'%.*s' gives %d bytes, expected %d", n, sh(exact(s, n)), g, m); free(in);
        if (vh_failed()) goto end; } }
   end: vh_observef("escapes"); vh_count_transitions(20000); vh_end();
  }
}

/* --------------------------------------------------------- code generation */
static const struct { DLiteType t; size_t s; const char *fmt; } TY[] = {
  {dliteBool,sizeof(bool),""},{dliteInt,1,""},{dliteInt,2,""},{dliteInt,4,""},{dliteInt,8,""},{dliteUInt,1,""},{dliteUInt,2,""},{dliteUInt,4,""},{dliteUInt,8,""},
  {dliteFloat,4,""},{dliteFloat,8,""},{dliteFloat,16,""},{dliteBlob,1,""},{dliteBlob,7,""},{dliteBlob,16,""},{dliteFixString,1,""},{dliteFixString,5,""},{dliteFixString,12,""},{dliteStringPtr,sizeof(char*),""},{dliteRef,sizeof(void*),""},
  {dliteDimension,sizeof(DLiteDimension),""},{dliteProperty,sizeof(DLiteProperty),""},{dliteRelation,sizeof(DLiteRelation),""},
};
static const char *DESC[] = {"", "Plain.", NULL, "two words: 100% {x} done", "a\\\\b"};
/* np properties starting with type t0; names of length nl */
static DLiteMeta *mk(const char *uri, int nd, int np, int t0, int nl, int di, int rank)
{
  DLiteDimension d[3]; DLiteProperty p[8]; static char pn[8][140], dn[3][20]; static char *shape[8][3]; int i, j; DLiteMeta *m;
  for (i=0; i<nd; i++) { sprintf(dn[i], "n%d", i); d[i].name = dn[i]; d[i].description = (char *)DESC[(di+i) % LEN(DESC)]; }
  memset(p, 0, sizeof p);
  for (i=0; i<np; i++) {
    int k = (t0 + i) % LEN(TY);
    for (j=0; j<nl; j++) pn[i][j] = 'a' + (i+j) % 26;
    sprintf(pn[i]+nl, "_%d", i);
    p[i].name = pn[i]; p[i].type = TY[k].t; p[i].size = TY[k].s; p[i].ref = TY[k].t == dliteRef ? "http://onto-ns.com/meta/0.1/Some" : NULL;
    p[i].unit = (i & 1) ? "m/s" : NULL; p[i].description = (char *)DESC[(di+i+1) % LEN(DESC)];
    p[i].ndims = nd ? (rank+i) % 3 : 0;
    for (j=0; j<p[i].ndims; j++) { static char *sx[] = {"n0", "n0+1", "2*n0"}; shape[i][j] = sx[(i+j) % 3]; }
    p[i].shape = p[i].ndims ? shape[i] : NULL;
  }
  m = dlite_meta_create(uri, DESC[di], nd, nd ? d : NULL, np, np ? p : NULL);
  return m;
}
/* what the engine makes of a value (escapes are converted when appended) */
static void val(Buf *b, const char *s) { char *t = malloc(strlen(s)+1); int n = tgen_escaped_copy(t, s, -1); bufn(b, t, n); free(t); }
static void listing(void)
{
  int nd, np, di, rank, t0, k = 0;
  for (nd=0; nd<3; nd++) for (np=0; np<4; np++) for (di=0; di<LEN(DESC); di++) for (rank=0; rank<3; rank++)
    if (vh_case("codegen lists nd=%d np=%d descr=%d rank=%d", nd, np, di, rank)) {
      for (t0=0; t0<LEN(TY); t0++) {
        char uri[100]; DLiteMeta *m; char *got; Buf w = {0}; int i, j;
        sprintf(uri, "http://onto-ns.com/meta/0.1/Gen%d%d%d%d%d", nd, np, di, rank, t0);
        if (!(m = mk(uri, nd, np, t0, 1 + t0 % 3, di, rank))) { vh_fail("create", "cannot create %s", uri); break; }
        got = dlite_codegen("{name}|{version}|{namespace}|{uri}|{uuid}|{descr}|{_ndimensions},{_nproperties}|D:{list_dimensions:{dim.i}={dim.name}({dim.descr}){, }\\.}|P:{list_properties:{prop.i}={prop.name}:{prop.typename}/{prop.type}/{prop.size}/{prop.ndims}/{prop.unit}/{prop.descr}[{prop.shape:{dim.name}{,}\\.}]{,}\n}|O:{opt}", (DLiteInstance *)m, "opt=val;z=");
        buff(&w, "Gen%d%d%d%d%d|0.1|http://onto-ns.com/meta|%s|%s|", nd, np, di, rank, t0, m->uri, m->uuid);
        val(&w, DESC[di] ? DESC[di] : "");
        buff(&w, "|%d,%d|D:", nd, np);
        for (i=0; i<nd; i++) { const char *d = DESC[(di+i) % LEN(DESC)]; buff(&w, "%d=n%d(", i, i); val(&w, d ? d : ""); buff(&w, ")%s", i < nd-1 ? ", " : ""); }
        buff(&w, "|P:");
        for (i=0; i<np; i++) { DLiteProperty *p = &m->_properties[i]; char tn[32]; const char *d = DESC[(di+i+1) % LEN(DESC)]; dlite_type_set_typename(p->type, p->size, tn, sizeof tn);
          buff(&w, "%d=%s:%s/%s/%zu/%d/%s/", i, p->name, tn, dlite_type_get_dtypename(p->type), p->size, p->ndims, (i & 1) ? "m/s" : ""); val(&w, d ? d : ""); buff(&w, "[");
          for (j=0; j<p->ndims; j++) { val(&w, p->shape[j]); if (j < p->ndims-1) buff(&w, ","); }
          buff(&w, "]%s\n", i < np-1 ? "," : ""); }
        buff(&w, "|O:val");
        VH_CHECK(got && !strcmp(got, w.p), "codegen", "%s: got\n%s\nexpected\n%s", uri, got ? got : err_getmsg(), w.p);
        if (got) vh_observef("%s", got);
        free(got); free(w.p); k++; dlite_meta_decref(m); err_clear();
        if (vh_failed()) break;
      }
      vh_count_transitions(LEN(TY)); vh_end();
    }
}
static int sh_ok(const char *cmd) { int s = system(cmd); return WIFEXITED(s) && WEXITSTATUS(s) == 0; }
/* the generated header, compiled, has the layout of real instances */
static void headers(void)
{
  int nd, np, nl, t0, native, rank; static const int NL[] = {1, 20, 41, 58, 61, 70, 120};
  for (native=0; native<2; native++) for (nd=0; nd<3; nd++) for (np=0; np<4; np++) for (rank=0; rank<2; rank++)
    if ((!native || (np == 3 && rank)) && vh_case("header nd=%d np=%d rank=%d native=%d", nd, np, rank, native)) {
      char dir[500], path[600], cmd[2500]; FILE *c; char *tfile, *tmpl, *hdr; int ok, i, n = 0, k;
      DLiteMeta *ms[400];
      snprintf(dir, sizeof dir, "%s/h", vh_scratch()); snprintf(cmd, sizeof cmd, "rm -rf %s && mkdir %s", dir, dir); if (!sh_ok(cmd)) abort();
      fu_paths_append(dlite_codegen_path_get(), VREPO "/tools/templates");
      tfile = dlite_codegen_template_file("c-header"); tmpl = tfile ? tgen_readfile(tfile) : NULL;
      if (!tmpl) { vh_fail("template", "no c-header template: %s", err_getmsg()); vh_end(); continue; }
      dlite_codegen_set_native_typenames(native);
      snprintf(path, sizeof path, "%s/main.c", dir); c = fopen(path, "w");
      fprintf(c, "#define HAVE_DLITE\n#include <stdio.h>\n#include <stddef.h>\n#include <stdbool.h>\n#include \"dlite.h\"\n");
      for (nl=0; nl<(np ? LEN(NL) : 1); nl++) for (t0=0; t0<(np ? LEN(TY) : 1); t0++) {
        char uri[100]; DLiteMeta *m;
        if (nl > 1 && t0 % 4 != nl % 4) continue;      /* long names: a quarter of the types each */
        sprintf(uri, "http://onto-ns.com/meta/0.1/Hdr%d%d%d%d_%d_%d", native, nd, np, rank, nl, t0);
        if (!(m = mk(uri, nd, np, t0, NL[nl], t0 % 2, rank))) { vh_fail("create", "cannot create %s", uri); continue; }
        if (!(hdr = dlite_codegen(tmpl, (DLiteInstance *)m, NULL))) { vh_fail("codegen", "%s: %s", uri, err_getmsg()); continue; }
        snprintf(path, sizeof path, "%s/h%d.h", dir, n); { FILE *h = fopen(path, "w"); fputs(hdr, h); fclose(h); } free(hdr);
        fprintf(c, "#include \"h%d.h\"\n", n); ms[n++] = m;
      }
      fprintf(c, "int main(void) {\n");
      for (k=0; k<n; k++) {
        DLiteMeta *m = ms[k]; char *mn, *mx; dlite_split_meta_uri(m->uri, &mn, NULL, NULL); mx = tgen_convert_case(mn, -1, 'M');
        fprintf(c, "  printf(\"%%zu\", (size_t)0);\n");
        for (i=0; i<nd; i++) fprintf(c, "  printf(\" %%zu\", offsetof(%s, n%d));\n", mx, i);
        for (i=0; i<np; i++) fprintf(c, "  printf(\" %%zu/%%zu\", offsetof(%s, %s), sizeof(((%s *)0)->%s%s));\n", mx, m->_properties[i].name, mx, m->_properties[i].name, m->_properties[i].ndims ? "[0]" : "");
        fprintf(c, "  printf(\" %%zu\\n\", offsetof(%s, __propdims));\n", mx);
        free(mn); free(mx);
      }
      fprintf(c, "  return 0;\n}\n"); fclose(c);
      snprintf(cmd, sizeof cmd, "cd %s && gcc -w -I%s/src -I%s/src/utils %s main.c -o prog > log 2>&1 && ASAN_OPTIONS= ./prog > out", dir, VREPO, VREPO, VINC);
      ok = sh_ok(cmd);
      if (!ok) { char log[700] = ""; FILE *f; snprintf(path, sizeof path, "%s/log", dir); if (0) ; if ((f = fopen(path, "r"))) { int z = fread(log, 1, 690, f); log[z > 0 ? z : 0] = 0; fclose(f); } vh_fail("compile", "the generated header does not compile:\n%s", log); }
      else {
        FILE *f; char line[2000]; snprintf(path, sizeof path, "%s/out", dir); f = fopen(path, "r");
        for (k=0; k<n; k++) {
          DLiteMeta *m = ms[k]; Buf w = {0};
          buff(&w, "0");
          for (i=0; i<nd; i++) buff(&w, " %zu", m->_dimoffset + i*sizeof(size_t));
          for (i=0; i<np; i++) buff(&w, " %zu/%zu", m->_propoffsets[i], m->_properties[i].size);
          buff(&w, " %zu\n", m->_propdimsoffset);
          if (!fgets(line, sizeof line, f)) line[0] = 0;
          VH_CHECK(!strcmp(line, w.p), "layout", "%s: struct layout '%s', instance layout '%s'", m->uri, line, w.p);
          vh_observef("%s", line); free(w.p);
        }
        fclose(f);
      }
      for (k=0; k<n; k++) dlite_meta_decref(ms[k]);
      free(tfile); free(tmpl); snprintf(cmd, sizeof cmd, "rm -rf %s", dir); sh_ok(cmd); dlite_codegen_set_native_typenames(0);
      vh_count_transitions(n); vh_end();
    }
}
/* bad input gives an error */
static void codegen_errors(void)
{
  static const char *O[] = {"a", "a=1;b", "=1", "a=1;;b=2", "a=1&b=2", "", NULL, "long=%s"}; int i;
  if (vh_case("codegen options")) {
    DLiteMeta *m = mk("http://onto-ns.com/meta/0.1/Opt", 1, 1, 3, 2, 1, 0);
    for (i=0; i<LEN(O); i++) { char *got; err_clear(); got = dlite_codegen("{a?}{b?}", (DLiteInstance *)m, O[i]);
      static const char *W[] = {NULL, NULL, "00", NULL, "11", "00", "00", "00"};
      VH_CHECK(!!got == !!W[i] && (!got || !strcmp(got, W[i])), "options", "options '%s' give %s", O[i] ? O[i] : "NULL", got ? got : "failure"); free(got); }
    { static const char *B[] = {"{nope}", "{list_properties}", "{", "{prop.name}", "{list_properties:{nope}}", "{list_dimensions:{@error:x}}"};
      for (i=0; i<LEN(B); i++) { char *got; err_clear(); got = dlite_codegen(B[i], (DLiteInstance *)m, NULL); VH_CHECK(!got && err_geteval(), "errors", "template '%s' gives '%s'", B[i], got ? got : ""); free(got); } }
    { size_t h0, h1; int j; char *v = malloc(300); memset(v, 'v', 299); v[299] = 0; memcpy(v, "a=", 2);
      char *got = dlite_codegen("{a}", (DLiteInstance *)m, v); VH_CHECK(got && !strcmp(got, v+2), "options", "option value of 297 bytes gives %zu bytes", got ? strlen(got) : 0); free(got); free(v);
      err_clear();
      h0 = vh_heap(); for (j=0; j<20; j++) { free(dlite_codegen("{nope}", (DLiteInstance *)m, NULL)); free(dlite_codegen("a", (DLiteInstance *)m, "bad")); free(dlite_codegen("{a}{name}", (DLiteInstance *)m, "a=1")); err_clear(); } h1 = vh_heap();
      VH_CHECK(h1 <= h0, "leak", "60 calls leave %zd bytes", (ssize_t)(h1 - h0)); }
    dlite_meta_decref(m); err_clear(); vh_observef("options"); vh_count_transitions(20); vh_end();
  }
}
void vh_setup(void) { dlite_init(); err_set_stream(NULL); }
void vh_explore(void) { cases(); templates(); conditionals(); robust(); buffers(); listing(); headers(); codegen_errors(); }
