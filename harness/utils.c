/* X01 X02 X03 X04 X05 X09 X11: expression evaluator, globs, quoting/encoding,
   urls/options, unicode, digests, semantic versions.  --part selects. */
#include "vh.h"
#include "config.h"
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <limits.h>
#include "utils/err.h"
#include "utils/infixcalc.h"
#include "utils/globmatch.h"
#include "utils/strutils.h"
#include "utils/uri_encode.h"
#include "utils/urlsplit.h"
#include "utils/unicode.h"
#include "utils/jsmnx.h"
#include "utils/sha1.h"
#include "utils/sha3.h"
#include "utils/md5.h"
#include "dlite.h"
#include "dlite-misc.h"

void vh_setup(void) { err_set_stream(NULL); }

/* printable form of arbitrary bytes (4 rotating buffers) */
static const char *esc(const char *s, long n)
{
  static char b[4][600]; static int k; char *o = b[k++ & 3]; int m = 0; long i;
  if (!s) return "NULL";
  if (n < 0) n = strlen(s);
  for (i=0; i<n && m < 590; i++)
    if (s[i] > 31 && s[i] != 127 && s[i] != '\\') o[m++] = s[i];
    else m += sprintf(o+m, "\\x%02x", (unsigned char)s[i]);
  o[m] = 0; return o;
}
/* exact-size heap copy, so that the sanitizer sees any overread */
static char *dup_exact(const char *s, size_t n) { char *p = malloc(n ? n : 1); memcpy(p, s, n); return p; }
static char *dup_str(const char *s) { return dup_exact(s, strlen(s) + 1); }

/* ================================================================= X01 */
/* independent evaluator: precedence climbing in 64 bits */
typedef struct { int k; long v; char op; const char *txt; } Tok;   /* k: 0 value 1 operator 2 unknown */
static const Tok TOKS[] = {
  {0,0,0,"0"},{0,1,0,"1"},{0,2,0,"2"},{0,3,0,"N"},{0,-2,0,"_m"},{2,0,0,"Nx"},{1,0,'(',"("},{1,0,')',")"},
  {1,0,'|',"|"},{1,0,'&',"&"},{1,0,'=',"="},{1,0,'!',"!"},{1,0,'<',"<"},{1,0,'>',">"},
  {1,0,'+',"+"},{1,0,'-',"-"},{1,0,'*',"*"},{1,0,'/',"/"},{1,0,'%',"%"},{1,0,'^',"^"},
};
#define NTOK ((int)(sizeof(TOKS)/sizeof(TOKS[0])))
static const int *tq; static int tn, tp, t_bad, t_div, t_skip;
static int prec(char c) { switch (c) { case '|': return 1; case '&': return 2; case '=': return 3; case '!': return 4;
  case '<': case '>': return 5; case '+': case '-': return 6; case '*': case '/': case '%': return 7; case '^': return 8; } return 0; }
static long chk(__int128 v) { if (v > INT_MAX || v < INT_MIN) { t_skip = 1; return 0; } return (long)v; }
static long expr(int minp)
{
  long a, b; const Tok *t;
  if (tp >= tn) { t_bad = 1; return 0; }
  t = TOKS + tq[tp++];
  if (t->k == 2) { t_bad = 1; return 0; }
  if (t->k == 0) a = t->v;
  else if (t->op == '(') { a = expr(1); if (t_bad) return 0; if (tp >= tn || TOKS[tq[tp]].op != ')') { t_bad = 1; return 0; } tp++; }
  else { t_bad = 1; return 0; }
  while (!t_bad && tp < tn) {
    char o; int p;
    t = TOKS + tq[tp];
    if (t->k != 1 || t->op == '(') { t_bad = 1; return 0; }
    o = t->op; p = prec(o);
    if (p < minp || o == ')') return a;
    tp++; b = expr(p+1); if (t_bad) return 0;
    switch (o) {
    case '|': a = a || b; break; case '&': a = a && b; break; case '=': a = a == b; break; case '!': a = a != b; break;
    case '<': a = a < b; break; case '>': a = a > b; break;
    case '+': a = chk((__int128)a + b); break; case '-': a = chk((__int128)a - b); break; case '*': a = chk((__int128)a * b); break;
    case '/': if (!b) { t_div = 1; b = 1; } a = chk(a / b); break;
    case '%': if (!b) { t_div = 1; b = 1; } a = a % b; break;
    case '^': if (b < 0) t_skip = 1; else { __int128 v = 1; long i; for (i=0; i<b && i<70; i++) { v *= a; if (v > INT_MAX || v < INT_MIN) { t_skip = 1; v = 0; break; } } a = (long)v; } break;
    }
  }
  return a;
}
static const InfixCalcVariable VARS[] = { {"Nxy", 77}, {"N", 3}, {"_m", -2}, {"x", 9} };
static long n_eval, n_ok;
static void x01_one(const int *q, int n, int style)
{
  char s[80]; int i, m = 0, v; long want; char e[200]; char *h, *he;
  for (i=0; i<n; i++) {
    int word = TOKS[q[i]].k != 1, pw = i && TOKS[q[i-1]].k != 1;
    if (style ? (word && pw) : i > 0) s[m++] = style == 2 ? '\t' : ' ';
    m += sprintf(s+m, "%s", TOKS[q[i]].txt);
  }
  s[m] = 0;
  tq = q; tn = n; tp = 0; t_bad = t_div = t_skip = 0;
  want = expr(1);
  if (!t_bad && tp != tn) t_bad = 1;
  h = dup_str(s); he = malloc(64); memset(he, 'x', 64);
  v = infixcalc(h, VARS, 4, he, 64);
  n_eval++;
  if (t_bad) VH_CHECK(he[0] && v == INT_MIN, "ill-formed", "'%s' accepted with value %d", s, v);
  else if (t_skip) ;
  else if (t_div) VH_CHECK(he[0] && v == INT_MIN, "div-zero", "'%s' gives %d", s, v);
  else { n_ok++; VH_CHECK(!he[0] && v == want, "value", "'%s' gives %d (%s), expected %ld", s, v, he, want); }
  if (n <= 3) {
    static const char *NAMES[] = {"N", "Nx", "_m", "x", "m", "Nxy"};
    int k, j, w;
    int v2 = infixcalc(h, VARS, 4, NULL, 0);
    VH_CHECK(v2 == v, "noerr", "'%s' gives %d without an error buffer and %d with", s, v2, v);
    for (k=0; k<6; k++) {
      for (w=j=0; j<n; j++) if (!strcmp(TOKS[q[j]].txt, NAMES[k])) w = 1;
      VH_CHECK(!!infixcalc_depend(h, NAMES[k]) == w, "depend", "depend('%s','%s') is not %d", s, NAMES[k], w);
    }
  }
  free(h); free(he);
}
static void x01_rec(int *q, int n, int max, int style)
{
  int i;
  if (n >= 1) x01_one(q, n, style);
  if (n == max) return;
  for (i=0; i<NTOK; i++) { q[n] = i; x01_rec(q, n+1, max, style); }
}
static void x01(void)
{
  int max = vh_thorough() ? 6 : 5, i, j, q[8], st; char b[8];
  static const struct { const char *s; int ok; int v; } LIT[] = {
    {"010",1,8}, {"0x1F",1,31}, {"0xff+1",1,256}, {"2147483647",1,2147483647}, {" 7 ",1,7}, {"\t( 2 )\n",1,2}, {"2N",0,0}, {"N2",0,0},
    {"",0,0}, {" ",0,0}, {"((((((((((1))))))))))",1,1}, {"2^3^2",1,64}, {"10-4-3",1,3}, {"100/10/5",1,2}, {"7%4%2",1,1}, {"1.5",0,0}, {"1,2",0,0},
    {"x",1,9}, {"Nxy",1,77}, {"Nxy-N",1,74}, {"y",0,0}, {"1$",0,0}, {"$",0,0}, {"1+(2",0,0}, {"1+2)",0,0}, {")",0,0}, {"1)",0,0}, {"(1))",0,0},
    {"-2147483647-1",0,0}, {"(0-2147483647-1)/(0-1)*0",1,0}, {"(0-2147483647-1)%(0-1)",1,0}, {"1/0",0,0}, {"1%0",0,0}, {"0&(1/0)",0,0}, {"N/(N-3)",0,0},
  };
  for (i=0; i<(int)(sizeof(LIT)/sizeof(LIT[0])); i++) if (vh_case("literal '%s'", esc(LIT[i].s, -1))) {
    char e[100]; char *h = dup_str(LIT[i].s); int v = infixcalc(h, VARS, 4, e, sizeof(e));
    if (LIT[i].ok) VH_CHECK(!e[0] && v == LIT[i].v, "value", "gives %d (%s), expected %d", v, e, LIT[i].v);
    else VH_CHECK(e[0] && v == INT_MIN, "ill-formed", "accepted with value %d", v);
    vh_observef("%s %d", LIT[i].s, v);
    free(h); vh_end();
  }
  /* long chains: deep stacks, more than one allocation chunk */
  for (i=1; i<200; i += 9) if (vh_case("chain of %d", i)) {
    char *h = malloc(8*i + 40); int m = 0, v; char e[100];
    for (j=0; j<i; j++) m += sprintf(h+m, "(%d+", j);
    m += sprintf(h+m, "0"); for (j=0; j<i; j++) m += sprintf(h+m, ")");
    v = infixcalc(h, NULL, 0, e, sizeof(e));
    VH_CHECK(!e[0] && v == i*(i-1)/2, "value", "nested sum of %d gives %d (%s)", i, v, e);
    vh_observef("%d", v); free(h); vh_end();
  }
  /* every error buffer size */
  for (i=0; i<70; i++) if (vh_case("error buffer of %d bytes", i)) {
    char *he = malloc(i ? i : 1); memset(he, 'x', i ? i : 1);
    infixcalc("N + unknown", VARS, 4, he, i);
    if (i) VH_CHECK(memchr(he, 0, i), "errbuf", "message not terminated");
    else VH_CHECK(he[0] == 'x', "errbuf", "written to empty buffer");
    vh_observef("%d %c", i, he[0]); free(he); vh_end();
  }
  for (st=0; st<3; st++)
    for (i=0; i<NTOK; i++) for (j=-1; j<NTOK; j++) if (vh_case("style %d prefix '%s' '%s'", st, TOKS[i].txt, j<0 ? "" : TOKS[j].txt)) {
      q[0] = i; n_eval = n_ok = 0;
      if (j < 0) x01_one(q, 1, st);
      else { q[1] = j; x01_rec(q, 2, st ? 4 : max, st); }
      vh_count_transitions(n_eval);
      vh_observef("%d %d %ld %ld", i, j, n_eval, n_ok); vh_end();
    }
}

/* ================================================================= X02 */
/* 1 match, 0 no match, -1 pattern with no documented meaning */
static int g_wf(const char *p)
{
  while (*p) {
    if (*p == '\\') { if (!p[1]) return 0; p += 2; continue; }
    if (*p == '[') {
      p++; if (*p == '^') p++;
      if (!*p || *p == ']') return 0;
      while (*p && *p != ']') { if (*p == '\\') return 0; p++; }
      if (!*p) return 0;
    }
    p++;
  }
  return 1;
}
static int g_match(const char *p, const char *s)
{
  const unsigned char *u = (const unsigned char *)s;
  if (!*p) return !*s;
  if (*p == '*') { for (;; s++) { if (g_match(p+1, s)) return 1; if (!*s) return 0; } }
  if (!*s) return 0;
  if (*p == '?') return g_match(p+1, s+1);
  if (*p == '\\') return p[1] == *s && g_match(p+2, s+1);
  if (*p == '[') {
    int neg = 0, in = 0; const unsigned char *q = (const unsigned char *)p + 1;
    if (*q == '^') { neg = 1; q++; }
    while (*q != ']') {
      if (q[1] == '-' && q[2] && q[2] != ']') { if (*q <= *u && *u <= q[2]) in = 1; q += 3; }
      else { if (*q == *u) in = 1; q++; }
    }
    return (in != neg) && g_match((const char *)q+1, s+1);
  }
  return *p == *s && g_match(p+1, s+1);
}
static char **g_str; static int g_nstr;
static void g_all(const char *alpha, int max, char *buf, int n, void (*f)(const char *))
{
  const char *c; buf[n] = 0; f(buf);
  if (n == max) return;
  for (c=alpha; *c; c++) { buf[n] = *c; g_all(alpha, max, buf, n+1, f); }
  buf[n] = 0;
}
static void g_add(const char *s) { g_str = realloc(g_str, (g_nstr+1)*sizeof(char *)); g_str[g_nstr++] = dup_str(s); }
static void g_pat(const char *p)
{
  int i, wf = g_wf(p), r, w; char *h = dup_str(p);
  for (i=0; i<g_nstr; i++) {
    r = globmatch(h, g_str[i]);
    n_eval++;
    if (!wf) continue;
    w = g_match(p, g_str[i]); n_ok += w;
    VH_CHECK((r == 0) == w, "match", "globmatch('%s','%s') is %d, expected %s", esc(p,-1), esc(g_str[i],-1), r, w ? "match" : "no match");
  }
  free(h);
}
static const char *galpha = "ab-*?[]^\\\xe6";
static void x02(void)
{
  char buf[16]; int i, j, k, max = vh_thorough() ? 6 : 5;
  g_all("ab]-\xe6", vh_thorough() ? 4 : 3, buf, 0, g_add);
  for (i=0; galpha[i]; i++) for (j=0; galpha[j]; j++) if (vh_case("patterns starting '%s'", esc((char[]){galpha[i], galpha[j]}, 2))) {
    n_eval = n_ok = 0; buf[0] = galpha[i]; buf[1] = galpha[j];
    g_all(galpha, max, buf, 2, g_pat);
    vh_count_transitions(n_eval); vh_observef("%d %d %ld", i, j, n_ok); vh_end();
  }
  if (vh_case("patterns of 0-1 characters")) {
    n_eval = n_ok = 0; g_pat(""); for (i=0; galpha[i]; i++) { buf[0] = galpha[i]; buf[1] = 0; g_pat(buf); }
    vh_count_transitions(n_eval); vh_observef("%ld", n_ok); vh_end();
  }
  /* every byte in every pattern element against every byte */
  static const char *F[] = {"%c", "\\%c", "[%c]", "[^%c]", "[%cz]", "[A-%c]", "[%c-z]", "[^%c-\xf0]", "?%c", "*%c", "*[%c]*"};
  for (k=0; k<11; k++) for (i=1; i<256; i++) {
    char p[16], s[3];
    if (!vh_case("byte %d in '%s'", i, esc(F[k], -1))) continue;
    sprintf(p, F[k], i);
    if (g_wf(p)) for (j=0; j<256; j++) { int r, w;
      char *h = dup_str(p), *t; s[0] = j; s[1] = 0; if (k == 8) { s[0] = 'q'; s[1] = j; s[2] = 0; }
      t = dup_str(s); r = globmatch(h, t); w = g_match(p, s);
      VH_CHECK((r == 0) == w, "match", "globmatch('%s','%s') is %d, expected %s", esc(p,-1), esc(s,-1), r, w ? "match" : "no match");
      free(h); free(t);
    }
    vh_count_transitions(256); vh_observef("%d %d", k, i); vh_end();
  }
}

/* ================================================================= X03 */
static const char *SYM[] = {"a", "\"", "\\", "n", "u", "0", " ", "\n", "\x01", "\xc3\xa6", "%", "'"};
#define NSYM 12
/* independent decoder of a JSON string literal body; returns length or -1 */
static long junesc(const char *s, long n, char *o)
{
  long i, m = 0;
  for (i=0; i<n; i++) {
    if ((unsigned char)s[i] < 0x20 || s[i] == '"') return -1;
    if (s[i] != '\\') { o[m++] = s[i]; continue; }
    if (++i >= n) return -1;
    switch (s[i]) {
    case '"': case '\\': case '/': o[m++] = s[i]; break;
    case 'b': o[m++] = '\b'; break; case 'f': o[m++] = '\f'; break; case 'n': o[m++] = '\n'; break;
    case 'r': o[m++] = '\r'; break; case 't': o[m++] = '\t'; break;
    case 'u': { unsigned v; char h[5]; if (i+4 >= n) return -1; memcpy(h, s+i+1, 4); h[4] = 0; v = strtoul(h, NULL, 16); if (v > 0x7f) return -1; o[m++] = v; i += 4; break; }
    default: return -1;
    }
  }
  return m;
}
static void x03_quote(const char *s)
{
  int L = strlen(s), n, size, fl, cons; char full[200], out[200], *h = dup_str(s), *b;
  n = strquote(full, sizeof(full), h);
  VH_CHECK(n == (int)strlen(full) && full[0] == '"' && full[n-1] == '"', "quote", "'%s' quoted as '%s' (%d)", esc(s,-1), esc(full,-1), n);
  { long m = junesc(full+1, n-2, out);
    VH_CHECK(m == L && !memcmp(out, s, L), "quote", "'%s' quoted as '%s'", esc(s,-1), esc(full,-1)); }
  cons = -7;
  { char *q = malloc(n + 6); sprintf(q, "%s \"x", full); int r = strunquote(out, sizeof(out), q, &cons, 0);
    VH_CHECK(r == L && !strcmp(out, s) && cons == n, "unquote", "'%s' unquotes to '%s' (%d, consumed %d)", esc(full,-1), esc(out,-1), r, cons);
    /* leading blanks */
    sprintf(q, " \t%s", full); r = strunquote(out, sizeof(out), q, &cons, 0);
    VH_CHECK(r == L && !strcmp(out, s) && cons == n+2, "unquote", "'%s' with leading blanks: '%s' (%d, consumed %d)", esc(full,-1), esc(out,-1), r, cons);
    r = strunquote(out, sizeof(out), q, &cons, strquoteInitialBlanks);
    VH_CHECK(r == -1, "unquote", "leading blanks accepted with InitialBlanks: %d", r);
    /* unterminated */
    memcpy(q, full, n-1); q[n-1] = 0; b = dup_str(q); r = strunquote(out, sizeof(out), b, &cons, 0);
    VH_CHECK(r == -2, "unterminated", "'%s' unquotes to '%s' (%d)", esc(b,-1), esc(out,-1), r);
    free(b); free(q); }
  for (size=0; size <= n+2; size++) {
    b = malloc(size ? size : 1); memset(b, 'x', size ? size : 1);
    int r = strquote(b, size, h);
    VH_CHECK(r == n && (size ? (int)strlen(b) == (n < size ? n : size-1) && !memcmp(b, full, strlen(b)) : b[0] == 'x'),
             "quote-buf", "'%s' into %d bytes: '%s' (%d)", esc(s,-1), size, size ? esc(b,-1) : "", r);
    free(b);
    if (size > L+2) continue;
    b = malloc(size ? size : 1); memset(b, 'x', size ? size : 1);
    r = strunquote(b, size, full, &cons, 0);
    VH_CHECK(r == L && cons == n && (size ? (int)strlen(b) == (L < size ? L : size-1) && !memcmp(b, s, strlen(b)) : b[0] == 'x'),
             "unquote-buf", "'%s' into %d bytes: '%s' (%d)", esc(full,-1), size, size ? esc(b,-1) : "", r);
    free(b);
  }
  VH_CHECK(strquote(NULL, 0, h) == n, "quote-buf", "NULL buffer");
  /* other styles */
  for (fl=0; fl<8; fl++) {
    int r, k; char q[200];
    if (fl & strquoteInitialBlanks && !(fl & (strquoteNoQuote))) continue;
    r = strnquote(q, sizeof(q), h, -1, fl);
    if (fl & strquoteNoEscape && !(fl & strquoteNoQuote)) {
      VH_CHECK(r == L+2 && q[0] == '"' && !memcmp(q+1, s, L) && q[L+1] == '"', "quote-style", "flags %d: '%s'", fl, esc(q,-1));
      if (strchr(s, '"')) continue;
    }
    if (fl & strquoteNoEscape && fl & strquoteNoQuote) VH_CHECK(r == L && !strcmp(q, s), "quote-style", "flags %d: '%s'", fl, esc(q,-1));
    { char *qq = dup_str(q), *o2; int r2;
      r2 = strunquote(out, sizeof(out), qq, &cons, fl);
      const char *w = s; if (!(fl & strquoteInitialBlanks) && (fl & strquoteNoQuote)) { w = (fl & strquoteNoEscape) ? s : s; while (isspace((unsigned char)*w) && ((fl & strquoteNoEscape) || *w == ' ')) w++; }
      VH_CHECK(r2 == (int)strlen(w) && !strcmp(out, w) && cons == r, "unquote-style", "flags %d: '%s' -> '%s' -> '%s'", fl, esc(s,-1), esc(q,-1), esc(out,-1));
      /* n-limited reading sees exactly what a shorter string holds */
      for (k=0; k<=L; k++) { char a1[200], a2[200], *t = dup_exact(s, k), tz[60]; int m1, m2;
        memcpy(tz, s, k); tz[k] = 0;
        m1 = strnquote(a1, sizeof(a1), h, k, fl); m2 = strnquote(a2, sizeof(a2), tz, -1, fl);
        VH_CHECK(m1 == m2 && !strcmp(a1, a2), "quote-n", "flags %d n=%d of '%s': '%s'", fl, k, esc(s,-1), esc(a1,-1));
        if (fl & strquoteNoQuote) {
          m1 = strnunquote(a1, sizeof(a1), t, k, &cons, fl); m2 = strnunquote(a2, sizeof(a2), tz, -1, &r2, fl);
          VH_CHECK(m1 == m2 && !strcmp(a1, a2) && cons == r2, "unquote-n", "flags %d n=%d of '%s': '%s' vs '%s'", fl, k, esc(s,-1), esc(a1,-1), esc(a2,-1));
        }
        free(t); }
      free(qq); }
  }
  /* reallocating variant */
  { char *d = NULL; size_t sz = 0, pos; int r;
    for (pos=0; pos<3; pos++) {
      if (pos && !d) break;
      r = strnput_unquote(&d, &sz, pos, full, -1, &cons, 0);
      VH_CHECK(r == L && !strcmp(d+pos, s), "put-unquote", "pos %zu: '%s' (%d)", pos, esc(d+pos,-1), r);
      if (!L) break;
    }
    free(d); }
  free(h);
}
static void x03_bytes(const char *s, long L)      /* bytes, NUL included */
{
  char *h = dup_exact(s, L), *e, *d; size_t n, m; long i; int z;
  n = uri_encode(h, L, NULL);
  e = malloc(n+1); m = uri_encode(h, L, e);
  VH_CHECK(m == n && e[n] == 0 && strlen(e) == n, "uri-encode", "'%s': %zu vs %zu", esc(s,L), n, m);
  for (i=0; i<(long)n; i++) VH_CHECK(isalnum((unsigned char)e[i]) || strchr("-_.~%", e[i]), "uri-encode", "'%s' -> '%s'", esc(s,L), esc(e,n));
  m = uri_decode(e, n, NULL);
  d = malloc(L+1); memset(d, 'x', L+1);
  VH_CHECK((long)m == L, "uri-decode", "'%s' -> '%s' decodes to %zu bytes", esc(s,L), esc(e,n), m);
  if ((long)m == L) { m = uri_decode(e, n, d); VH_CHECK((long)m == L && !memcmp(d, s, L) && !d[L], "uri-decode", "'%s' -> '%s' -> '%s'", esc(s,L), e, esc(d,m)); }
  free(e); free(d);
  /* hex */
  for (z=0; z<=2*L+3; z++) {
    char *b = malloc(z ? z : 1); int r; memset(b, 'x', z ? z : 1);
    r = strhex_encode(b, z, (unsigned char *)h, L);
    VH_CHECK(r == 2*L, "hex-len", "returns %d for %ld bytes", r, L);
    if (z) { int k = strlen(b); char w[64]; for (i=0; i<L; i++) sprintf(w+2*i, "%02x", (unsigned char)s[i]); w[2*L] = 0;
      VH_CHECK(memchr(b, 0, z) && !strncmp(b, w, k) && (z <= 2*L || k == 2*L), "hex-buf", "'%s' into %d: '%s'", esc(s,L), z, b);
      if (z == 2*L+1) {
        int y; for (y=0; y<=L; y++) { unsigned char *o = malloc(y ? y : 1); char *bb = dup_exact(b, 2*L);
          r = strhex_decode(o, y, bb, 2*L);
          VH_CHECK(r == L && !memcmp(o, s, y), "hex-decode", "'%s' into %d bytes gives %d", b, y, r);
          r = strhex_decode(o, y, b, -1); VH_CHECK(r == L && !memcmp(o, s, y), "hex-decode", "'%s' into %d bytes gives %d", b, y, r);
          free(o); free(bb); } } }
    free(b);
  }
  /* percent encoding */
  { char full[64]; int r, r2, f; long sz;
    r = pct_nencode(full, sizeof(full), h, L);
    VH_CHECK(r == (int)strlen(full), "pct", "'%s': %d '%s'", esc(s,L), r, full);
    for (sz=0; sz<=r+2; sz++) { char *b = malloc(sz ? sz : 1); memset(b, 'x', sz ? sz : 1);
      r2 = pct_nencode(b, sz, h, L);
      VH_CHECK(r2 == r && (!sz || (memchr(b, 0, sz) && !strncmp(b, full, strlen(b)) && (sz <= r || !strcmp(b, full)))), "pct-buf", "'%s' into %ld: '%s' (%d)", esc(s,L), sz, sz ? esc(b,-1) : "", r2);
      free(b); }
    if (!memchr(s, 0, L)) { char o[64], *ee = dup_str(full);
      r2 = pct_decode(o, sizeof(o), ee);
      VH_CHECK(r2 == L && !memcmp(o, s, L) && !o[L], "pct-decode", "'%s' -> '%s' -> '%s' (%d)", esc(s,L), full, esc(o,-1), r2);
      for (sz=0; sz<=L+1; sz++) { char *b = malloc(sz ? sz : 1); memset(b, 'x', sz ? sz : 1); r2 = pct_decode(b, sz, ee);
        VH_CHECK(r2 == L && (!sz || (memchr(b, 0, sz) && !strncmp(b, s, strlen(b)))), "pct-buf", "decode '%s' into %ld: %d", full, sz, r2); free(b); }
      free(ee); } }
  free(h);
}
static void x03_copy(int *q, int n)     /* strsets & co: whole characters only */
{
  static const char *CH[] = {"a", "\xc3\xa6", "\xe2\x82\xac", "\xf0\x9f\x98\x80"};
  char s[40]; int i, L = 0, end[8]; long sz;
  for (i=0; i<n; i++) { L += sprintf(s+L, "%s", CH[q[i]]); end[i] = L; }
  s[L] = 0;
  for (sz=0; sz<=L+2; sz++) {
    char *b = malloc(sz ? sz : 1), *h = dup_str(s); int r, w = 0; memset(b, 'x', sz ? sz : 1);
    for (i=0; i<n; i++) if (end[i] < sz) w = end[i]; else break;
    r = strsets(b, sz, h);
    VH_CHECK(r == L && (!sz || (memchr(b, 0, sz) && (int)strlen(b) == w && !memcmp(b, s, w))), "strsets", "'%s' into %ld: '%s' (%d)", s, sz, sz ? esc(b,-1) : "", r);
    memset(b, 'x', sz ? sz : 1); r = strsetn(b, sz, h, L);
    VH_CHECK(r == L && (!sz || (memchr(b, 0, sz) && (int)strlen(b) == w && !memcmp(b, s, w))), "strsetn", "'%s' into %ld: '%s' (%d)", s, sz, sz ? esc(b,-1) : "", r);
    free(b); free(h);
  }
}
static void x03_put(int a, int b, int c, int viasize)
{
  static const char *S[] = {"", "x", "ab", "long text that grows", "\"%\xc3\xa6"};
  char *d = NULL, m[100] = ""; size_t z = 0, pos = 0; int i, seq[3] = {a, b, c};
  for (i=0; i<3; i++) {
    char *h = dup_str(S[seq[i]]); int L = strlen(h), r = strput(&d, viasize ? &z : NULL, pos, h);
    sprintf(m+pos, "%s", S[seq[i]]);
    VH_CHECK(r == L && !strcmp(d, m) && (!viasize || z > strlen(m)), "strput", "'%s' expected '%s' (%d)", esc(d,-1), esc(m,-1), r);
    pos += L;
    r = strnput(&d, viasize ? &z : NULL, pos, h, L > 1 ? 1 : L);
    snprintf(m+pos, (L > 1 ? 1 : L) + 1, "%s", S[seq[i]]);
    VH_CHECK(r == (L > 1 ? 1 : L) && !strcmp(d, m), "strnput", "'%s' expected '%s' (%d)", esc(d,-1), esc(m,-1), r);
    pos += r; free(h);
  }
  if (viasize) {
    int cat;
    for (cat=strcatUpper; cat<strcatPercent; cat++) {
      char o[200], *h = dup_str(S[a]); int r = strnput_escape(&d, &z, pos, h, -1, cat, "%"); size_t k;
      VH_CHECK(r >= (int)pos && (*h == 0 || r == (int)strlen(d)), "escape", "returns %d", r);
      if (*h && r >= 0) { k = uri_decode(d+pos, r-pos, o);
        VH_CHECK(k == strlen(h) && !memcmp(o, h, k) && !memcmp(d, m, pos), "escape", "'%s' escaped as '%s'", esc(h,-1), esc(d+pos,-1));
        for (k=pos; (int)k<r; k++) VH_CHECK(d[k] == '%' || isxdigit((unsigned char)d[k]) || (int)strcategory(d[k]) <= cat, "escape", "category %d: '%s'", cat, esc(d+pos,-1)); }
      free(h);
    }
  }
  free(d);
}
static void x03(void)
{
  int i, j, k, l, max = vh_thorough() ? 5 : 4; char buf[64];
  for (i=-1; i<NSYM; i++) for (j=-1; j<NSYM; j++) {
    if (i < 0 && j >= 0) continue;
    if (!vh_case("quote '%s%s...'", i<0 ? "" : esc(SYM[i],-1), j<0 ? "" : esc(SYM[j],-1))) continue;
    if (j < 0) { x03_quote(i<0 ? "" : SYM[i]); vh_count_transitions(1); }
    else for (k=-1; k<NSYM; k++) for (l=-1; l<NSYM; l++) { int m;
      if (k < 0 && l >= 0) continue;
      for (m=-1; m < (max == 5 && l >= 0 ? NSYM : 0); m++) {
        sprintf(buf, "%s%s%s%s%s", SYM[i], SYM[j], k<0?"":SYM[k], l<0?"":SYM[l], m<0?"":SYM[m]);
        x03_quote(buf); vh_count_transitions(1); } }
    vh_observef("%d %d", i, j); vh_end();
  }
  for (i=0; i<256; i++) if (vh_case("bytes starting %d", i)) {
    static const unsigned char R[] = {0, '%', 'a', '4', '/', ' ', 0xe6, '"'};
    buf[0] = i; x03_bytes(buf, 1);
    for (j=0; j<256; j++) { buf[1] = j; x03_bytes(buf, 2); }
    for (j=0; j<8; j++) for (k=0; k<8; k++) { buf[1] = R[j]; buf[2] = R[k]; x03_bytes(buf, 3); for (l=0; l<8; l++) { buf[3] = R[l]; x03_bytes(buf, 4); } }
    vh_count_transitions(256+64+512); vh_observef("%d", i); vh_end();
  }
  for (i=0; i<4; i++) if (vh_case("copy %d", i)) { int q[4], n;
    q[0] = i; x03_copy(q, 1);
    for (j=0; j<4; j++) { q[1] = j; x03_copy(q, 2); for (k=0; k<4; k++) { q[2] = k; x03_copy(q, 3); for (l=0; l<4; l++) { q[3] = l; x03_copy(q, 4); } } }
    vh_count_transitions(85); vh_observef("copy %d", i); vh_end(); }
  for (i=0; i<5; i++) if (vh_case("put %d", i)) {
    for (j=0; j<5; j++) for (k=0; k<5; k++) { x03_put(i, j, k, 0); x03_put(i, j, k, 1); }
    vh_count_transitions(50); vh_observef("put %d", i); vh_end(); }
  /* malformed encodings */
  static const char *BADHEX[] = {"0", "0g", "g0", "zz", "0 ", "123", "00x1"};
  for (i=0; i<7; i++) if (vh_case("bad hex '%s'", BADHEX[i])) { unsigned char o[8]; char *h = dup_str(BADHEX[i]);
    VH_CHECK(strhex_decode(o, sizeof(o), h, -1) < 0, "hex-bad", "accepted"); vh_observef("%d", i); free(h); vh_end(); }
  static const char *BADPCT[] = {"%", "%4", "%g1", "%1g", "a%", "a%2"};
  for (i=0; i<6; i++) if (vh_case("bad percent-encoding '%s'", BADPCT[i])) { char o[8], *h = dup_str(BADPCT[i]);
    VH_CHECK(pct_decode(o, sizeof(o), h) < 0, "pct-bad", "accepted");
    VH_CHECK(uri_decode(h, strlen(h), o) == strlen(h) && !strcmp(o, h), "uri-bad", "'%s' changed to '%s'", h, o); vh_observef("pct%d", i); free(h); vh_end(); }
}

/* ================================================================= X04 */
static int eqn(const char *a, const char *b) { return !strcmp(a ? a : "", b ? b : ""); }
static void x04_split(const char *drv, const char *sep, const char *loc, const char *opt, const char *frag, int win)
{
  char u[200], *h, *d=(char *)1, *l=(char *)1, *o=(char *)1, *f=(char *)1, *j;
  int n = 0;
  if (drv) n += sprintf(u+n, "%s%s", drv, sep);
  n += sprintf(u+n, "%s", loc);
  if (opt) n += sprintf(u+n, "?%s", opt);
  if (frag) n += sprintf(u+n, "#%s", frag);
  h = dup_str(u);
  int r = win ? dlite_split_url_winpath(h, &d, &l, &o, &f, 1) : dlite_split_url(h, &d, &l, &o, &f);
  VH_CHECK(!r && eqn(d, drv) && eqn(l, loc) && eqn(o, opt) && eqn(f, frag), "split",
           "'%s' split into '%s' '%s' '%s' '%s' (%d)", u, d?d:"NULL", l?l:"NULL", o?o:"NULL", f?f:"NULL", r);
  if (drv) VH_CHECK(d == h, "split", "driver not in url");
  j = dlite_join_url(d && *d ? d : NULL, l ? l : "", o && *o ? o : NULL, f && *f ? f : NULL);
  { char w[200]; n = 0; if (drv) n += sprintf(w+n, "%s://", drv); n += sprintf(w+n, "%s", loc); if (opt && *opt) n += sprintf(w+n, "?%s", opt); if (frag && *frag) n += sprintf(w+n, "#%s", frag);
    VH_CHECK(j && !strcmp(j, w), "join", "'%s' split and joined: '%s'", u, j ? j : "NULL"); }
  free(j); free(h);
  /* any subset of outputs may be left out */
  h = dup_str(u); dlite_split_url_winpath(h, NULL, &l, NULL, NULL, win); VH_CHECK(eqn(l, loc), "split", "'%s': location '%s'", u, l?l:"NULL"); free(h);
  h = dup_str(u); dlite_split_url_winpath(h, NULL, NULL, NULL, &f, win); VH_CHECK(eqn(f, frag), "split", "'%s': fragment '%s'", u, f?f:"NULL"); free(h);
}
static void x04_opts(const int *q, int n, int sepk, int tail, int flags)
{
  static const struct { const char *k, *enc, *dec; int known; } A[] = {
    {"a","1","1",0}, {"a","","",0}, {"ab","x%20y","x y",1}, {"ab","a=b","a=b",1}, {"k","%3B%26%23","; &#"+0,2}, {"k","%41","A",2}, {"u","9","9",-1}, {"A","1","1",-1}, {"","1","1",-1} };
  static const char *SEP[] = {";", "&"}, *TAIL[] = {"", ";", "#frag=1", "&#x"};
  const char *val[3] = {"da", "dab", NULL}; int i, unk = 0; char s[200], *h; int m = 0, r;
  DLiteOpt o[] = { {1, "a", "da", NULL}, {2, "ab", "dab", NULL}, {3, "k", NULL, NULL}, {0, NULL, NULL, NULL} };
  for (i=0; i<n; i++) {
    m += sprintf(s+m, "%s%s=%s", i ? SEP[sepk] : "", A[q[i]].k, A[q[i]].enc);
    if (A[q[i]].known < 0) { if (flags & dliteOptStrict) unk = 1; }
    else val[A[q[i]].known] = q[i] == 4 ? ";&#" : A[q[i]].dec;
  }
  m += sprintf(s+m, "%s", (n || tail == 2) ? TAIL[tail] : "");
  h = dup_str(s);
  r = dlite_option_parse(h, o, flags);
  if (unk) VH_CHECK(r, "unknown", "'%s' accepted in strict mode", s);
  else { VH_CHECK(!r, "parse", "'%s' refused", s);
    for (i=0; i<3; i++) VH_CHECK((o[i].value == NULL) == (val[i] == NULL) && eqn(o[i].value, val[i]), "value", "'%s': %s='%s', expected '%s'", s, o[i].key, o[i].value ? o[i].value : "NULL", val[i] ? val[i] : "NULL"); }
  err_clear(); free(h);
}
static void x04_prefix(const char *s)
{
  int L = strlen(s), n; UrlComponents c; char *h = dup_str(s);
  int r = urlsplit(h, &c);
  n_eval++;
  VH_CHECK(isurl(h) == (r == L && L > 0 && !(isupper(s[0]) && s[1] == ':')), "isurl", "isurl('%s') is %d, urlsplit %d", esc(s,-1), isurl(h), r);
  if (r == L && L) { char b[100]; int m = 0; n_ok++;
    m += sprintf(b+m, "%.*s:", c.scheme_len, c.scheme);
    if (c.authority) m += sprintf(b+m, "//%.*s", c.authority_len, c.authority);
    m += sprintf(b+m, "%.*s", c.path_len, c.path ? c.path : "");
    if (c.query) m += sprintf(b+m, "?%.*s", c.query_len, c.query);
    if (c.fragment) m += sprintf(b+m, "#%.*s", c.fragment_len, c.fragment);
    VH_CHECK(!strcmp(b, s), "components", "components of '%s' make '%s'", s, b);
    if (c.authority) { m = 0;
      if (c.userinfo) m += sprintf(b+m, "%.*s@", c.userinfo_len, c.userinfo);
      m += sprintf(b+m, "%.*s", c.host_len, c.host); if (c.port) m += sprintf(b+m, ":%.*s", c.port_len, c.port);
      VH_CHECK(m == c.authority_len && !memcmp(b, c.authority, m), "authority", "authority of '%s' made of '%s'", s, b); }
  }
  for (n=1; n<=L; n++) { char z[100], *t = dup_exact(s, n); int a, b; UrlComponents c1, c2;
    memcpy(z, s, n); z[n] = 0;
    a = isurln(t, n); b = isurl(z);
    VH_CHECK(a == b, "prefix", "first %d bytes of '%s' are %sa url, '%s' is %s", n, esc(s,-1), a ? "" : "not ", esc(z,-1), b ? "one" : "not");
    a = urlsplitn(t, n, &c1); b = urlsplit(z, &c2); if (b != n) b = 0;
    VH_CHECK(a == b && (!a || (c1.path_len == c2.path_len && c1.query_len == c2.query_len && c1.host_len == c2.host_len && c1.path - t == c2.path - z)),
             "prefix", "urlsplitn('%s',%d) is %d, alone %d", esc(s,-1), n, a, b);
    free(t); }
  free(h);
}
static void x04(void)
{
  static const char *DRV[] = {NULL, "json", "a+b"}, *SEP[] = {"://", ":"}, *LOC[] = {"", "f", "/a/b.json", "C:/x", "C:\\x", "dir/f.json", "h:80/p", "a:b", "./..", "a b"},
    *OPT[] = {NULL, "", "mode=r", "a=1;b=2", "a=b?c", "u=http://x/y"}, *FRAG[] = {NULL, "", "id", "x#y", "http://x/y?z", "?"};
  int d, s, l, o, f, w, i, j, k, m;
  for (w=0; w<2; w++) for (d=0; d<3; d++) for (s=0; s<(d?2:1); s++) for (l=0; l<10; l++) {
    if (!d && strchr(LOC[l], ':') && !(w && (l == 3 || l == 4))) continue;   /* would name a driver */
    if (d && s == 1 && !strncmp(LOC[l], "//", 2)) continue;
    if (!vh_case("url %s%s%s win=%d", d ? DRV[d] : "", d ? SEP[s] : "", LOC[l], w)) continue;
    for (o=0; o<6; o++) for (f=0; f<6; f++) { x04_split(DRV[d], SEP[s], LOC[l], OPT[o], FRAG[f], w); vh_count_transitions(1); }
    vh_observef("%d %d %d %d", w, d, s, l); vh_end();
  }
  for (k=0; k<4; k++) for (w=0; w<2; w++) for (s=0; s<2; s++) for (i=-1; i<9; i++) if (vh_case("options %d.. sep %d tail %d flags %d", i, s, k, w)) {
    int q[4], n; static const int fl[2] = {0, dliteOptStrict}; int lim = vh_thorough() ? 4 : 3;
    if (i < 0) x04_opts(q, 0, s, k, fl[w]);
    else { q[0] = i; x04_opts(q, 1, s, k, fl[w]); for (j=0; j<9; j++) { q[1] = j; x04_opts(q, 2, s, k, fl[w]); for (m=0; m<9; m++) { q[2] = m; x04_opts(q, 3, s, k, fl[w]); if (lim > 3) for (n=0; n<9; n++) { q[3] = n; x04_opts(q, 4, s, k, fl[w]); } } } }
    vh_count_transitions(91); vh_observef("opt %d %d %d %d", k, w, s, i); vh_end();
  }
  static const char *NOVAL[] = {"a", "a;ab=1", "ab=1;a", "u", "ab=1;;a=2", "ab=1&u"};
  for (i=0; i<6; i++) if (vh_case("options without value '%s'", NOVAL[i])) {
    DLiteOpt op[] = { {1, "a", "da", NULL}, {2, "ab", "dab", NULL}, {0, NULL, NULL, NULL} }; char *h = dup_str(NOVAL[i]);
    VH_CHECK(dlite_option_parse(h, op, 0), "noval", "accepted"); err_clear(); vh_observef("noval %d", i); free(h); vh_end(); }
  /* split/join of RFC 3986 components with characters that need encoding */
  static const char *UI[] = {NULL, "me", "me:pw", "a b"}, *HO[] = {NULL, "h", "ex.com", "a%b"}, *PO[] = {NULL, "80"}, *PA[] = {"", "/", "/a/b", "/a b", "/\xc3\xa6?#"},
    *QU[] = {NULL, "q", "a=1&b", "x#y", "50%"}, *FR[] = {NULL, "f", "a?b", "#"};
  for (i=0; i<4; i++) for (j=0; j<4; j++) for (k=0; k<2; k++) if (vh_case("urljoin userinfo %d host %d port %d", i, j, k)) {
    for (l=0; l<5; l++) for (m=0; m<5; m++) for (f=0; f<4; f++) {
      UrlComponents c, c2; char full[300], dec[300]; int n; long sz;
      if (!j && (i || k)) continue;
      memset(&c, 0, sizeof(c)); c.scheme = "http"; c.scheme_len = 4;
#define SETC(x, v) if (v) { c.x = v; c.x##_len = strlen(v); }
      SETC(userinfo, UI[i]); SETC(host, HO[j]); SETC(port, PO[k]); SETC(path, PA[l]); SETC(query, QU[m]); SETC(fragment, FR[f]);
      n = urljoin(full, sizeof(full), &c);
      VH_CHECK(n == (int)strlen(full) && isurl(full) && urlsplit(full, &c2) == n, "urljoin", "not a url: '%s' (%d)", full, n);
#define CMPC(x) do { int q_ = c2.x ? pct_ndecode(dec, sizeof(dec), c2.x, c2.x##_len) : 0; VH_CHECK(q_ == c.x##_len && (!q_ || !memcmp(dec, c.x, q_)), "urljoin", #x " of '%s' is '%.*s'", full, c2.x##_len, c2.x ? c2.x : ""); } while (0)
      CMPC(userinfo); CMPC(host); CMPC(port); CMPC(path); CMPC(query); CMPC(fragment);
      for (sz=0; sz<=n+1; sz++) { char *b = malloc(sz ? sz : 1); memset(b, 'x', sz ? sz : 1);
        VH_CHECK(urljoin(b, sz, &c) == n && (!sz || (memchr(b, 0, sz) && !strncmp(b, full, strlen(b)) && (sz <= n || !strcmp(b, full)))), "urljoin-buf", "'%s' into %ld: '%s'", full, sz, sz ? esc(b,-1) : ""); free(b); }
      vh_count_transitions(1);
    }
    vh_observef("join %d %d %d", i, j, k); vh_end();
  }
  { static const char *alpha = "aC:/?#@[]%4."; char buf[16]; int max = vh_thorough() ? 6 : 5;
    static const char *PRE[] = {"", "a:", "http://h", "a://u@", "a://[", "a:/%4"};
    for (k=0; k<6; k++) for (i=0; alpha[i]; i++) if (vh_case("url strings '%s%c...'", PRE[k], alpha[i])) {
      char b[40]; int n = sprintf(b, "%s%c", PRE[k], alpha[i]); n_eval = n_ok = 0;
      g_all(alpha, n + (k ? max-2 : max-1), b, n, x04_prefix);
      vh_count_transitions(n_eval); vh_observef("%d %d %ld", k, i, n_ok); vh_end();
    } }
}

/* ================================================================= X05 */
static int enc_ref(long c, unsigned char *o)
{
  if (c < 0x80) { o[0] = c; return 1; }
  if (c < 0x800) { o[0] = 0xc0 | c >> 6; o[1] = 0x80 | (c & 63); return 2; }
  if (c < 0x10000) { o[0] = 0xe0 | c >> 12; o[1] = 0x80 | ((c >> 6) & 63); o[2] = 0x80 | (c & 63); return 3; }
  o[0] = 0xf0 | c >> 18; o[1] = 0x80 | ((c >> 12) & 63); o[2] = 0x80 | ((c >> 6) & 63); o[3] = 0x80 | (c & 63); return 4;
}
static void x05_json(const char *txt, const char *want, int wl)
{
  char js[64], out[64], *s, *h; jsmntok_t tok[4]; jsmn_parser p; int r, cons;
  sprintf(js, "\"%s\"", txt); h = dup_str(js);
  jsmn_init(&p); r = jsmn_parse(&p, h, strlen(h), tok, 4);
  VH_CHECK(r == 1, "json-parse", "'%s': %d", js, r);
  if (r == 1) { s = jsmn_strdup(h, tok); VH_CHECK(s && (int)strlen(s) == wl && !memcmp(s, want, wl), "json-escape", "'%s' decodes to '%s', expected '%s'", js, s ? esc(s,-1) : "NULL", esc(want,wl)); free(s); }
  r = strunquote(out, sizeof(out), h, &cons, 0);
  VH_CHECK(r == wl && !memcmp(out, want, wl) && cons == (int)strlen(js), "unquote-escape", "'%s' unquotes to '%s' (%d)", js, esc(out,-1), r);
  free(h);
}
static void x05(void)
{
  int blk, i, j, k, l, n; long c;
  for (blk=0; blk<0x110; blk++) if (vh_case("code points of block 0x%x000", blk)) {
    for (c=blk*0x1000L; c<(blk+1)*0x1000L; c++) {
      unsigned char w[8]; char *o = malloc(8), *h; int wl = enc_ref(c, w), r; long v = -1;
      memset(o, 'x', 8); r = utf8encode(c, o);
      VH_CHECK(r == wl && !memcmp(o, w, wl) && !o[wl], "encode", "U+%lX: %d '%s'", c, r, esc(o,6));
      VH_CHECK(utf8encode(c, NULL) == wl, "encode", "U+%lX length", c);
      h = dup_exact((char *)w, wl); r = utf8decode(h, &v);
      VH_CHECK(r == wl && v == c, "decode", "U+%lX decodes to U+%lX (%d)", c, v, r);
      VH_CHECK(utf8decode(h, NULL) == wl, "decode", "U+%lX length", c);
      if (c && !(c >= 0xd800 && c < 0xe000)) {
        char t[32];
        if (c < 0x10000) sprintf(t, "\\u%04lx", c); else sprintf(t, "\\u%04lX\\u%04lx", 0xd800 + ((c-0x10000) >> 10), 0xdc00 + ((c-0x10000) & 0x3ff));
        if (c < 0x10000 || vh_thorough() || c % 7 == 0 || c < 0x10800 || c > 0x10f800) x05_json(t, (char *)w, wl);
        if (c >= 0x20 && c != '"' && c != '\\') { memcpy(t, w, wl); t[wl] = 0; x05_json(t, (char *)w, wl); }
      }
      free(o); free(h);
    }
    vh_count_transitions(0x1000); vh_observef("blk %d", blk); vh_end();
  }
  static const unsigned char R[] = {0x00,0x41,0x7f,0x80,0xbf,0xc2,0xdf,0xe0,0xe2,0xef,0xf0,0xf4,0xf7,0xf8,0xfb,0xfc,0xfd,0xfe,0xff};
#define NR 19
  for (i=0; i<NR; i++) for (j=0; j<NR; j++) if (vh_case("bytes %02x %02x ...", R[i], R[j])) {
    int m, q; for (k=0; k<NR; k++) for (l=0; l<NR; l++) for (m=2; m<6; m++) for (q=2; q<6; q++) { if (R[i] < 0xf8 && (m > 2 || q > 2)) continue;
      unsigned char s[7] = {R[i], R[j], R[k], R[l], R[m], R[q], 0}; long v = 0; int need, t, ok; char *h;
      need = s[0] < 0x80 ? 1 : s[0] < 0xc0 ? 0 : s[0] < 0xe0 ? 2 : s[0] < 0xf0 ? 3 : s[0] < 0xf8 ? 4 : s[0] < 0xfc ? 5 : s[0] < 0xfe ? 6 : 0;
      ok = need; for (t=1; t<need; t++) if ((s[t] & 0xc0) != 0x80) { ok = 0; break; }
      h = dup_str((char *)s); t = utf8decode(h, &v);
      VH_CHECK(t == ok, "decode-seq", "'%s' decodes to %d bytes, expected %d", esc((char *)s, 6), t, ok);
      free(h); vh_count_transitions(1); }
    vh_observef("seq %d %d", i, j); vh_end();
  }
  static const char *E[][2] = {{"\\n","\n"},{"\\t","\t"},{"\\r","\r"},{"\\b","\b"},{"\\f","\f"},{"\\/","/"},{"\\\\","\\"},{"\\\"","\""},{"/","/"},{"\\u0022","\""},{"\\u005C","\\"}};
  for (i=0; i<11; i++) if (vh_case("escape '%s'", E[i][0])) {
    x05_json(E[i][0], E[i][1], 1);
    for (j=0; j<11; j++) for (k=0; k<11; k++) { char t[40], w[8]; sprintf(t, "%s%s%s", E[i][0], E[j][0], E[k][0]); sprintf(w, "%s%s%s", E[i][1], E[j][1], E[k][1]); x05_json(t, w, 3); sprintf(t, "%sa%sn%su0041", E[i][0], E[j][0], E[k][0]); char w2[16]; sprintf(w2, "%sa%sn%su0041", E[i][1], E[j][1], E[k][1]); x05_json(t, w2, strlen(w2)); }
    vh_count_transitions(242); vh_observef("esc %d", i); vh_end(); }
  VH_CHECK(1, "", "");
  if (vh_case("values that are no characters")) { char o[8];
    VH_CHECK(!utf8encode(-1, o) && !utf8encode(-0x7fffffffL, o) && !utf8encode(0x80000000L, o) && !utf8encode(LONG_MAX, o), "encode-bad", "accepted");
    VH_CHECK(!utf8decode(NULL, NULL), "decode-null", "accepted"); vh_observef("bad"); vh_end(); }
}

/* ================================================================= X09 */
typedef unsigned char u8; typedef uint32_t u32; typedef uint64_t u64;
#define ROL(x,n) (((x) << (n)) | ((x) >> (32-(n))))
static void ref_md(const u8 *d, long n, u8 *out, int sha)
{
  long tot = ((n + 8) / 64 + 1) * 64, off; u8 *m = calloc(1, tot); int i;
  u32 h[5] = {0x67452301,0xefcdab89,0x98badcfe,0x10325476,0xc3d2e1f0};
  static const int S[4][4] = {{7,12,17,22},{5,9,14,20},{4,11,16,23},{6,10,15,21}};
  static u32 K[64]; static int kinit;
  static const u32 KK[64] = {
0xd76aa478,0xe8c7b756,0x242070db,0xc1bdceee,0xf57c0faf,0x4787c62a,0xa8304613,0xfd469501,0x698098d8,0x8b44f7af,0xffff5bb1,0x895cd7be,0x6b901122,0xfd987193,0xa679438e,0x49b40821,
0xf61e2562,0xc040b340,0x265e5a51,0xe9b6c7aa,0xd62f105d,0x02441453,0xd8a1e681,0xe7d3fbc8,0x21e1cde6,0xc33707d6,0xf4d50d87,0x455a14ed,0xa9e3e905,0xfcefa3f8,0x676f02d9,0x8d2a4c8a,
0xfffa3942,0x8771f681,0x6d9d6122,0xfde5380c,0xa4beea44,0x4bdecfa9,0xf6bb4b60,0xbebfbc70,0x289b7ec6,0xeaa127fa,0xd4ef3085,0x04881d05,0xd9d4d039,0xe6db99e5,0x1fa27cf8,0xc4ac5665,
0xf4292244,0x432aff97,0xab9423a7,0xfc93a039,0x655b59c3,0x8f0ccc92,0xffeff47d,0x85845dd1,0x6fa87e4f,0xfe2ce6e0,0xa3014314,0x4e0811a1,0xf7537e82,0xbd3af235,0x2ad7d2bb,0xeb86d391};
  memcpy(m, d, n); m[n] = 0x80;
  for (i=0; i<8; i++) m[tot - 8 + i] = (u8)(((u64)n*8) >> (sha ? 56 - 8*i : 8*i));
  for (off=0; off<tot; off+=64) {
    u32 w[80], a = h[0], b = h[1], c = h[2], dd = h[3], e = h[4], f, t;
    for (i=0; i<16; i++) w[i] = sha ? (u32)m[off+4*i] << 24 | m[off+4*i+1] << 16 | m[off+4*i+2] << 8 | m[off+4*i+3]
                               : (u32)m[off+4*i+3] << 24 | m[off+4*i+2] << 16 | m[off+4*i+1] << 8 | m[off+4*i];
    if (sha) {
      for (i=16; i<80; i++) { t = w[i-3]^w[i-8]^w[i-14]^w[i-16]; w[i] = ROL(t, 1); }
      for (i=0; i<80; i++) { u32 k;
        if (i < 20) { f = (b & c) | (~b & dd); k = 0x5a827999; } else if (i < 40) { f = b ^ c ^ dd; k = 0x6ed9eba1; }
        else if (i < 60) { f = (b & c) | (b & dd) | (c & dd); k = 0x8f1bbcdc; } else { f = b ^ c ^ dd; k = 0xca62c1d6; }
        t = ROL(a, 5) + f + e + k + w[i]; e = dd; dd = c; c = ROL(b, 30); b = a; a = t; }
    } else {
      for (i=0; i<64; i++) { int g;
        if (i < 16) { f = (b & c) | (~b & dd); g = i; } else if (i < 32) { f = (dd & b) | (~dd & c); g = (5*i+1) & 15; }
        else if (i < 48) { f = b ^ c ^ dd; g = (3*i+5) & 15; } else { f = c ^ (b | ~dd); g = (7*i) & 15; }
        t = dd; f = f + a + KK[i] + w[g]; a = t; dd = c; c = b; b = b + ROL(f, S[i/16][i%4]);
        /* rotate registers: (a,d,c,b) */ }
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += dd; h[4] += e;
  }
  for (i=0; i<(sha ? 20 : 16); i++) out[i] = sha ? h[i/4] >> (24 - 8*(i%4)) : h[i/4] >> (8*(i%4));
  free(m);
}
static void keccak(u64 A[25])
{
  static const int R[24] = {1,3,6,10,15,21,28,36,45,55,2,14,27,41,56,8,25,43,62,18,39,61,20,44}, P[24] = {10,7,11,17,18,3,5,16,8,21,24,4,15,23,19,13,12,2,20,14,22,9,6,1};
  int r, x, y, i; u8 lfsr = 1;
  for (r=0; r<24; r++) {
    u64 C[5], t, rc = 0;
    for (x=0; x<5; x++) C[x] = A[x]^A[x+5]^A[x+10]^A[x+15]^A[x+20];
    for (x=0; x<5; x++) { t = C[(x+4)%5] ^ (C[(x+1)%5] << 1 | C[(x+1)%5] >> 63); for (y=0; y<25; y+=5) A[y+x] ^= t; }
    t = A[1]; for (i=0; i<24; i++) { u64 q = A[P[i]]; A[P[i]] = t << R[i] | t >> (64-R[i]); t = q; }
    for (y=0; y<25; y+=5) { for (x=0; x<5; x++) C[x] = A[y+x]; for (x=0; x<5; x++) A[y+x] = C[x] ^ (~C[(x+1)%5] & C[(x+2)%5]); }
    for (i=0; i<7; i++) { if (lfsr & 1) rc ^= 1ULL << ((1 << i) - 1); lfsr = (lfsr << 1) ^ ((lfsr >> 7) ? 0x71 : 0); }
    A[0] ^= rc;
  }
}
static void ref_sha3(const u8 *d, long n, int bits, u8 suffix, u8 *out)
{
  u64 A[25]; long rate = 200 - bits/4, i = 0, k; u8 *st = (u8 *)A; memset(A, 0, sizeof(A));
  for (k=0; k<n; k++) { st[i++] ^= d[k]; if (i == rate) { keccak(A); i = 0; } }
  st[i] ^= suffix; st[rate-1] ^= 0x80; keccak(A); memcpy(out, A, bits/8);
}
static void hexs(const u8 *d, int n, char *o) { int i; for (i=0; i<n; i++) sprintf(o+2*i, "%02x", d[i]); }
static u8 *dd; static long dn;
static void dig(int alg, const long *cut, int nc, u8 *out)      /* feed in pieces */
{
  long p = 0; int i; 
  SHA1_CTX s1; MD5_CTX m5; sha3_context s3; static const int bits[] = {0,0,256,384,512,256};
  if (alg == 0) SHA1Init(&s1); else if (alg == 1) MD5Init(&m5); else { sha3_Init(&s3, bits[alg]); if (alg == 5) sha3_SetFlags(&s3, SHA3_FLAGS_KECCAK); }
  for (i=0; i<=nc; i++) { long e = i < nc ? cut[i] : dn; u8 *piece = (u8 *)dup_exact((char *)dd+p, e-p);
    if (alg == 0) SHA1Update(&s1, piece, e-p); else if (alg == 1) MD5Update(&m5, piece, e-p); else sha3_Update(&s3, piece, e-p);
    free(piece); p = e; }
  if (alg == 0) SHA1Final(out, &s1); else if (alg == 1) MD5Final(out, &m5); else memcpy(out, sha3_Finalize(&s3), bits[alg]/8);
}
static void x09(void)
{
  static const char *N[] = {"sha1","md5","sha3-256","sha3-384","sha3-512","keccak-256"}; static const int B[] = {20,16,32,48,64,32};
  int alg, pat; long n; long MAX = vh_thorough() ? 600 : 300;
  for (alg=0; alg<6; alg++) for (n=0; n<=MAX; n++) for (pat=0; pat<(n <= 150 ? 3 : 1); pat++) if (vh_case("%s of %ld bytes pattern %d", N[alg], n, pat)) {
    u8 w[64], g[64]; char hw[130], hg[130]; long i, j, c[2];
    dd = malloc(n ? n : 1); dn = n;
    for (i=0; i<n; i++) dd[i] = pat == 0 ? (u8)(i*7 + n) : pat == 1 ? 0xff : 0;
    if (alg < 2) ref_md(dd, n, w, alg == 0);
    else ref_sha3(dd, n, 8*B[alg], alg == 5 ? 0x01 : 0x06, w);
    hexs(w, B[alg], hw);
    dig(alg, c, 0, g); hexs(g, B[alg], hg); VH_CHECK(!memcmp(w, g, B[alg]), "digest", "%s instead of %s", hg, hw);
    if (pat == 0) for (i=0; i<=n; i++) { c[0] = i; dig(alg, c, 1, g);
      VH_CHECK(!memcmp(w, g, B[alg]), "split", "split at %ld gives another digest", i); vh_count_transitions(1);
      if (n <= 40 || (n % 64 <= 2 && n < 200) || (vh_thorough() && n < 300)) for (j=i; j<=n; j++) { if (n > 40 && !vh_thorough() && (i+j) % 5) continue; c[1] = j; dig(alg, c, 2, g); VH_CHECK(!memcmp(w, g, B[alg]), "split3", "split at %ld,%ld gives another digest", i, j); vh_count_transitions(1); } }
    if (alg == 0) { u8 o[21]; SHA1((char *)o, (char *)dd, n); VH_CHECK(!memcmp(o, w, 20), "oneshot", "SHA1() differs"); }
    if (alg >= 2 && alg < 5) { u8 o[64]; sha3_HashBuffer(8*B[alg], SHA3_FLAGS_NONE, dd, n, o, B[alg]); VH_CHECK(!memcmp(o, w, B[alg]), "oneshot", "sha3_HashBuffer() differs"); }
    vh_observef("%s", hw); free(dd); vh_end();
  }
}

/* ================================================================= X11 */
typedef struct { long num[3]; int npre; char pre[6][12]; int valid; } Ver;
static int ident(const char **p, char *o, int numrule)
{
  int n = 0, dig = 1;
  while (isalnum((unsigned char)**p) || **p == '-') { if (!isdigit((unsigned char)**p)) dig = 0; if (n < 11) o[n] = **p; n++; (*p)++; }
  if (n < 12) o[n] = 0;
  return n > 0;
}
static int vparse(const char *s, Ver *v)
{
  const char *p = s; int i; char tmp[12];
  memset(v, 0, sizeof(*v));
  for (i=0; i<3; i++) {
    if (i && *p++ != '.') return 0;
    if (!isdigit((unsigned char)*p)) return 0;
    if (*p == '0' && isdigit((unsigned char)p[1])) return 0;
    v->num[i] = strtol(p, (char **)&p, 10);
  }
  if (*p == '-') do { p++; if (!ident(&p, v->pre[v->npre++], 1)) return 0; } while (*p == '.');
  if (*p == '+') do { p++; if (!ident(&p, tmp, 0)) return 0; } while (*p == '.');
  return !*p;
}
static int leadzero(const Ver *v) { int i; for (i=0; i<v->npre; i++) if (v->pre[i][0] == '0' && v->pre[i][1] && strspn(v->pre[i], "0123456789") == strlen(v->pre[i])) return 1; return 0; }
static int sgn(long x) { return (x > 0) - (x < 0); }
static int vcmp(const Ver *a, const Ver *b)
{
  int i;
  for (i=0; i<3; i++) if (a->num[i] != b->num[i]) return sgn(a->num[i] - b->num[i]);
  if (!a->npre || !b->npre) return sgn(b->npre ? (a->npre ? 0 : 1) : (a->npre ? -1 : 0));
  for (i=0; i<a->npre && i<b->npre; i++) {
    int da = strspn(a->pre[i], "0123456789") == strlen(a->pre[i]), db = strspn(b->pre[i], "0123456789") == strlen(b->pre[i]), c;
    if (da && db) c = sgn(atol(a->pre[i]) - atol(b->pre[i])); else if (da != db) c = da ? -1 : 1; else c = sgn(strcmp(a->pre[i], b->pre[i]));
    if (c) return c;
  }
  return sgn(a->npre - b->npre);
}
static char **V; static Ver *VV; static int NV;
static void v_add(const char *s) { Ver v; if (!vparse(s, &v) || leadzero(&v)) return; V = realloc(V, (NV+1)*sizeof(char *)); VV = realloc(VV, (NV+1)*sizeof(Ver)); V[NV] = dup_str(s); VV[NV++] = v; }
static void v_chk(const char *s)
{
  Ver v; int L = strlen(s), ok, r, n; char *h = dup_str(s);
  n_eval++;
  ok = vparse(s, &v);
  if (ok && leadzero(&v)) ok = 0;
  r = strchk_semver(h);
  VH_CHECK(ok ? r == L : r == -1, "valid", "'%s' is %svalid, strchk_semver gives %d", s, ok ? "" : "in", r); n_ok += ok;
  for (n=0; n<=L; n++) { char z[40], *t = dup_exact(s, n); int a; memcpy(z, s, n); z[n] = 0;
    ok = vparse(z, &v); if (ok && leadzero(&v)) ok = 0;
    a = strnchk_semver(h, n);
    VH_CHECK(ok ? a == n : a == -1, "valid-n", "first %d bytes of '%s': %d, expected %d", n, s, a, ok ? n : -1);
    free(t); }
  free(h);
}
static int relpair(int i, int j) { return !memcmp(VV[i].num, VV[j].num, sizeof(VV[i].num)) && !VV[i].npre != !VV[j].npre; }
static void x11(void)
{
  static const char *NUM[] = {"0.0.0","1.0.0","1.0.1","1.1.0","1.10.0","1.9.0","10.0.0","2.0.0","1.0.10","1.0.9","0.5.30","999999.1.1"};
  static const char *ID[] = {"0","1","2","10","a","b","aa","-","1a","2a","A","alpha","rc","a-b","x-1"};
  static const char *BLD[] = {"","+b","+001","+b.1-2"};
  char b[64]; int i, j, k, l;
  for (i=0; i<12; i++) { v_add(NUM[i]); v_add((sprintf(b, "%s+b", NUM[i]), b)); }
  for (i=0; i<2; i++) for (j=0; j<15; j++) {
    for (k=0; k<(i?1:4); k++) { sprintf(b, "%s-%s%s", NUM[1+i], ID[j], BLD[k]); v_add(b); }
    for (l=0; l<15; l++) { sprintf(b, "%s-%s.%s", NUM[1+i], ID[j], ID[l]); v_add(b); if (!i && l < 5) { sprintf(b, "%s-%s.%s.1", NUM[1], ID[j], ID[l]); v_add(b); } }
  }
  for (i=0; i<NV; i++) if (vh_case("compare %s", V[i])) {
    for (j=0; j<NV; j++) { int w = vcmp(VV+i, VV+j), r = strcmp_semver(V[i], V[j]), n;
      if (relpair(i, j)) continue;
      VH_CHECK(r == w, "order", "strcmp_semver('%s','%s') is %d, expected %d", V[i], V[j], r, w);
      if (i < 40 && j < 60) for (n=5; n <= (int)strlen(V[i]) && n <= (int)strlen(V[j]); n++) { char a[40], c[40]; Ver va, vc;
        snprintf(a, n+1, "%s", V[i]); snprintf(c, n+1, "%s", V[j]);
        if (!vparse(a, &va) || !vparse(c, &vc) || V[i][n] == '-' || V[j][n] == '-') continue;
        w = vcmp(&va, &vc); if (!memcmp(va.num, vc.num, sizeof(va.num)) && !va.npre != !vc.npre) continue; r = strncmp_semver(V[i], V[j], n);
        VH_CHECK(r == w, "order-n", "strncmp_semver('%s','%s',%d) is %d, expected %d", V[i], V[j], n, r, w); }
    }
    vh_count_transitions(NV); vh_observef("%d", i); vh_end();
  }
  if (vh_case("releases against their pre-releases")) { int odd = 0;
    for (i=0; i<NV; i++) for (j=0; j<NV; j++) if (relpair(i, j)) { int w = vcmp(VV+i, VV+j), r = strcmp_semver(V[i], V[j]);
      if (r != w) { odd += r != -w; if (!vh_failed() || r != -w) vh_fail(r == -w ? "order-release" : "order", "strcmp_semver('%s','%s') is %d, expected %d", V[i], V[j], r, w); } }
    vh_observef("rel %d", odd); vh_end(); }
  { static const char *alpha = "01.a-+_"; static const char *PRE[] = {"", "1.0.0", "0.1.", "1.0.0-a", "1.0.0+a", "10.2.3-"}; int max = vh_thorough() ? 7 : 6;
    for (k=0; k<6; k++) for (i=0; alpha[i]; i++) if (vh_case("strings '%s%c...'", PRE[k], alpha[i])) { char s[40]; int n = sprintf(s, "%s%c", PRE[k], alpha[i]);
      n_eval = n_ok = 0; g_all(alpha, k ? n+max-3 : max, s, n, v_chk); vh_count_transitions(n_eval); vh_observef("%d %d %ld", k, i, n_ok); vh_end(); } }
}

void vh_explore(void)
{
  switch (vh_arg("part", 1)) {
  case 1: x01(); break; case 2: x02(); break; case 3: x03(); break; case 4: x04(); break; case 5: x05(); break; case 9: x09(); break; case 11: x11(); break;
  }
}
