/* E01: error frames.  Every program of nested try/catch/other/else/finally
   blocks over raise/err/reraise actions up to a bound, run with the real
   macros and with a reference interpreter; every message length around the
   buffer size; the error-code tables and masks. */
#include "vh.h"
#include "config.h"
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
#include "utils/err.h"
#include "dlite.h"
#include "dlite-macros.h"

#define LEN(a) ((int)(sizeof(a)/sizeof(*(a))))

/* ------------------------------------------------------------- programs */
/* a body is a string: digits 1-3 err(v); a-c raise(v); R reraise; C clear;
   B nested block; nothing else.  NULL clause: absent */
typedef struct Blk { const char *t, *c1, *c2, *o, *e, *f; int b1, b2; const struct Blk *in; } Blk;

#define EVMAX 4096
static char EV[EVMAX]; static int en;      /* real event log */
static char XV[EVMAX]; static int xn;      /* expected event log */
static void ev(const char *fmt, ...) __attribute__((format(printf,1,2)));
#include <stdarg.h>
static void ev(const char *fmt, ...)
{ va_list ap; va_start(ap, fmt); if (en < EVMAX-300) en += vsnprintf(EV+en, 300, fmt, ap); else if (en < EVMAX-1) EV[en++] = '!'; EV[en] = 0; va_end(ap); if (en > EVMAX-2) _exit(77); }
static void xv(const char *fmt, ...) __attribute__((format(printf,1,2)));
static void xv(const char *fmt, ...)
{ va_list ap; va_start(ap, fmt); if (xn < EVMAX-300) xn += vsnprintf(XV+xn, 300, fmt, ap); va_end(ap); }

/* real ------------------------------------------------------------------ */
static void run_block(const Blk *b);
static int guard;
static int run_body(const char *s, const Blk *in)
{
  int rr = 0;
  if (++guard > 60) { printf("runaway program: %s\n", EV); abort(); }
  for (; s && *s; s++)
    switch (*s) {
    case '1': case '2': case '3': errx(*s-'0', "m%c", *s); break;
    case 'a': case 'b': case 'c': err_raisex(*s-'a'+1, "x%c", *s); break;
    case 'R': rr = 1; break;
    case 'C': err_clear(); break;
    case 'B': run_block(in); break;
    }
  ev("|");
  return rr;
}
#define CL(tag, s, brk) ev(" %s(%d,%s)", tag, err_geteval(), err_getmsg()); if (run_body(s, b->in)) { err_reraise(); } if (brk) break
static void run_block_o(const Blk *b)
{
  ErrTry: ev(" try"); run_body(b->t, b->in);
  ErrCatch(b->c1 ? 1 : -99): CL("c1", b->c1, b->b1);
  ErrCatch(b->c2 ? 2 : -99): CL("c2", b->c2, b->b2);
  ErrOther: CL("other", b->o, 1);
  ErrElse: CL("else", b->e, 1);
  ErrFinally: CL("finally", b->f, 1);
  ErrEnd;
}
static void run_block_n(const Blk *b)
{
  ErrTry: ev(" try"); run_body(b->t, b->in);
  ErrCatch(b->c1 ? 1 : -99): CL("c1", b->c1, b->b1);
  ErrCatch(b->c2 ? 2 : -99): CL("c2", b->c2, b->b2);
  ErrElse: CL("else", b->e, 1);
  ErrFinally: CL("finally", b->f, 1);
  ErrEnd;
}
static void run_block(const Blk *b) { if (b->o) run_block_o(b); else run_block_n(b); ev(" end(%d,%s)", err_geteval(), err_getmsg()); }
static void on_err(const ErrRecord *r) { ev(" HANDLER(%d,%d,%s,%d)", r->level, r->eval, r->msg, r->pos); }

/* model ----------------------------------------------------------------- */
typedef struct Fr { int eval, level, handled, reraise, clause; char msg[400]; struct Fr *up; } Fr;
static int mode, abortmode; static int exited;   /* exited: exit status + 1, or -1 for abort */
static void add(char *dst, const char *s) { size_t n = strlen(dst); snprintf(dst+n, 400-n, "%s", s); }
static int signal_(Fr *f, int level, int v, const char *text)
{
  int pos = 0;
  if (f->eval) switch (mode) {
    case errOverrideAppend: pos = strlen(f->msg); add(f->msg, "\n - "); add(f->msg, text); break;
    case errOverrideWarnOld: case errOverrideOld: snprintf(f->msg, 400, "%s", text); break;
    default: break;
  } else snprintf(f->msg, 400, "%s", text);
  f->eval = v; f->level = level;
  if (f->clause) f->reraise = v;
  if (!f->up) {
    xv(" HANDLER(%d,%d,%s,%d)", level, v, f->msg, pos);
    if (abortmode == 2) { exited = -1; return 2; }
    if (abortmode == 1 || level > errLevelError) { exited = (v & 255) + 1; return 2; }
  }
  return level > errLevelError;        /* leaves the current body */
}
static int m_block(const Blk *b, Fr *up);
static int m_body(const char *s, const Blk *in, Fr *f, int *rr)
{
  char t[20]; int r;
  for (; s && *s; s++) {
    if (*s >= '1' && *s <= '3') { snprintf(t, 20, "Error %c: m%c", *s, *s); if ((r = signal_(f, errLevelError, *s-'0', t))) return r; }
    if (*s >= 'a' && *s <= 'c') {
      if (!f->up) { snprintf(t, 20, "Fatal %d: x%c", *s-'a'+1, *s); return signal_(f, errLevelFatal, *s-'a'+1, t); }
      snprintf(t, 20, "Exception %d: x%c", *s-'a'+1, *s); if ((r = signal_(f, errLevelException, *s-'a'+1, t))) return r; }
    if (*s == 'R') *rr = 1;
    if (*s == 'C') { f->eval = f->level = f->handled = f->reraise = 0; f->msg[0] = 0; }
    if (*s == 'B' && (r = m_block(in, f))) return r;
  }
  xv("|");
  return 0;
}
static int m_clause(const char *tag, const char *s, const Blk *b, Fr *f)
{
  int r, rr = 0;
  xv(" %s(%d,%s)", tag, f->eval, f->msg);
  r = m_body(s, b->in, f, &rr);
  if (!r && rr) f->reraise = f->eval;
  return r;
}
static int m_block(const Blk *b, Fr *up)
{
  Fr f; int r, rr = 0, ft = 0, skip = 0;
  memset(&f, 0, sizeof f); f.up = up;
  xv(" try");
  if ((r = m_body(b->t, b->in, &f, &rr)) == 2) return 2;
  if (f.eval) {
    if (b->c1 && f.eval == 1) { f.handled = 1; f.clause = 1; if ((r = m_clause("c1", b->c1, b, &f)) == 2) return 2; ft = !r && !b->b1; skip = r; }
    if (!skip && (ft || (b->c2 && f.eval == 2 && !f.handled))) { f.handled = 1; f.clause = 1; if ((r = m_clause("c2", b->c2, b, &f)) == 2) return 2; skip = r; }
    if (b->o && !f.handled) { f.handled = 1; f.clause = 1; if ((r = m_clause("other", b->o, b, &f)) == 2) return 2; }
  } else {
    f.clause = 2; if ((r = m_clause("else", b->e, b, &f)) == 2) return 2;
  }
  f.clause = 3; if ((r = m_clause("finally", b->f, b, &f)) == 2) return 2;
  if (f.reraise || (f.eval && !f.handled)) {
    int v = f.reraise ? f.reraise : f.eval;
    if ((r = signal_(up, f.level, v, f.msg))) return r;
  }
  xv(" end(%d,%s)", up->eval, up->msg);
  return 0;
}
static void expected(const char *root, const Blk *b)
{
  Fr f; int rr;
  memset(&f, 0, sizeof f); xn = 0; XV[0] = 0; exited = 0;
  if (m_body(root, b, &f, &rr) != 2) xv(" root(%d,%s)", f.eval, f.msg);
}
static const char *show(const Blk *b)
{
  static char buf[4][300]; static int k; char *o = buf[k++ & 3];
  snprintf(o, 300, "{%s;1:%s%s;2:%s%s;o:%s;e:%s;f:%s%s%s}", b->t, b->c1 ? b->c1 : "-", b->b1 ? "" : ">", b->c2 ? b->c2 : "-", b->b2 ? "" : ">",
           b->o ? b->o : "-", b->e, b->f, b->in ? " B=" : "", b->in ? show(b->in) : "");
  return o;
}
static long nprog;
static void one(const char *root, const Blk *b)
{
  if (vh_failed()) return;
  expected(root, b);
  nprog++;
  en = 0; EV[0] = 0; guard = 0;
  err_set_override_mode(mode); err_set_abort_mode(abortmode); err_set_prefix(""); err_clear();
  if (!exited) {
    ErrRecord *r0 = _err_get_record();
    run_body(root, b);
    ev(" root(%d,%s)", err_geteval(), err_getmsg());
    VH_CHECK(_err_get_record() == r0 && !r0->prev, "restored", "%s: the record stack is not restored", show(b));
    VH_CHECK(!strcmp(EV, XV), "trace", "%s in '%s' mode=%d:\n  got      %s\n  expected %s", show(b), root, mode, EV, XV);
    vh_observef("%s", EV);
  } else {
    int fd[2], st = 0, n; pid_t p; char got[EVMAX];
    if (pipe(fd)) return;
    fflush(NULL);
    if (!(p = fork())) {
      extern void vh_exit_hook(void);
      static int wfd; wfd = fd[1]; close(fd[0]);
      /* events are written as they happen */
      dup2(wfd, 9);
      alarm(10);
      ev("%s", "");
      { extern int e01_pipe; e01_pipe = 9; }
      run_body(root, b);
      n = write(9, EV, en); n = write(9, " NOEXIT", 7); (void)n;
      _exit(0);
    }
    close(fd[1]);
    for (n=0; n < EVMAX-1; ) { int k = read(fd[0], got+n, EVMAX-1-n); if (k <= 0) break; n += k; }
    got[n] = 0; close(fd[0]);
    waitpid(p, &st, 0);
    VH_CHECK(!strcmp(got, XV), "trace", "%s in '%s' mode=%d abort=%d:\n  got      %s\n  expected %s", show(b), root, mode, abortmode, got, XV);
    if (exited > 0) VH_CHECK(WIFEXITED(st) && WEXITSTATUS(st) == exited-1, "exit", "%s in '%s' abort=%d: status %x, expected exit %d", show(b), root, abortmode, st, exited-1);
    else VH_CHECK(WIFSIGNALED(st) && WTERMSIG(st) == 6, "abort", "%s in '%s': status %x, expected abort", show(b), root, st);
    vh_observef("%s %d", got, st);
  }
}
int e01_pipe = -1;
static void flush_events(void) { if (e01_pipe >= 0) { int n = write(e01_pipe, EV, en); (void)n; _exit(-1 + 0 * 0); } }
/* the handler is the last thing run before exit()/abort(): send the log from it */
static void on_err_fork(const ErrRecord *r)
{
  on_err(r);
  if (e01_pipe >= 0) { int n = write(e01_pipe, EV, en); (void)n; en = 0; EV[0] = 0; }
}

static const char *TRY[] = {"", "1", "2", "3", "a", "b", "c", "12", "21", "1b", "a2", "1C", "1C2"};
static const char *C1[] = {NULL, "", "1", "2", "3", "a", "b", "c", "R", "2R"};
static const char *C2[] = {NULL, "", "1", "2", "a", "c", "R"};
static const char *OT[] = {NULL, "", "1", "a", "R", "3"};
static const char *EL[] = {"", "1", "b", "2"};
static const char *FI[] = {"", "1", "b", "R"};
/* programs that end the process run in a child: the quick tier leaves the larger ones out */
static int forkstep;
static void maybe(const char *root, const Blk *b)
{
  expected(root, b);
  if (exited && forkstep == 0) return;
  if (exited && !vh_thorough()) {      /* quick: the smaller ones */
    const Blk *i = b->in;
    if (mode || root[1]) return;
    if (i ? (*i->e || *i->f) && abortmode : b->c2 || *b->e) return;
  }
  one(root, b);
}
static void flat(void)
{
  int t, i1, i2, b1, b2, o, e, f, m;
  for (m=0; m<5; m++) for (t=0; t<LEN(TRY); t++) for (i1=0; i1<LEN(C1); i1++)
    if (vh_case("block mode=%d try=%s catch1=%s", m, TRY[t], C1[i1] ? C1[i1] : "-")) {
      mode = m; abortmode = 0; forkstep = 1; nprog = 0;
      for (b1=0; b1<2; b1++) for (i2=0; i2<LEN(C2); i2++) for (b2=0; b2<2; b2++) for (o=0; o<LEN(OT); o++) for (e=0; e<LEN(EL); e++) for (f=0; f<LEN(FI); f++) {
        Blk b = {TRY[t], C1[i1], C2[i2], OT[o], EL[e], FI[f], !b1, !b2, NULL};
        if ((!C1[i1] && b1) || (!C2[i2] && b2)) continue;
        maybe("B", &b); if (m == 0 || f == 0) maybe("3B", &b);
      }
      vh_count_states(nprog); vh_end();
    }
}
static Blk INNER[4000]; static int ninner;
static void make_inner(void)
{
  static const char *t[] = {"", "1", "2", "a", "b", "2a"}, *c[] = {NULL, "", "2", "b", "R"}, *o[] = {NULL, "", "R"}, *e[] = {"", "1", "a"}, *f[] = {"", "1", "b"};
  int i, j, k, l, m; ninner = 0;
  for (i=0; i<LEN(t); i++) for (j=0; j<LEN(c); j++) for (k=0; k<LEN(o); k++) for (l=0; l<LEN(e); l++) for (m=0; m<LEN(f); m++) {
    Blk b = {t[i], c[j], NULL, o[k], e[l], f[m], 1, 1, NULL};
    if (*t[i] && l) continue;            /* else never runs */
    if (!*t[i] && (j || k)) continue;    /* no handler runs */
    INNER[ninner++] = b;
  }
}
/* outer blocks with a nested block in one clause */
static const Blk OUTER[] = {
  {"B",NULL,NULL,NULL,"","",1,1}, {"B","",NULL,NULL,"","",1,1}, {"B",NULL,"",NULL,"","",1,1}, {"B",NULL,NULL,"","","",1,1}, {"B","","",NULL,"2","1",1,1},
  {"1B",NULL,NULL,"R","","",1,1}, {"B1","","",NULL,"","",0,1}, {"BB","2","1","R","","",1,1}, {"B2",NULL,"R",NULL,"","b",1,1},
  {"1","B",NULL,NULL,"","",1,1}, {"a","B","",NULL,"","",1,1}, {"a","B","",NULL,"","1",0,1}, {"1","B1",NULL,NULL,"","",1,1}, {"1","1B",NULL,NULL,"","",1,1}, {"1","BR","","","","",1,1},
  {"2",NULL,"B",NULL,"","",1,1}, {"b",NULL,"B","",NULL ? "" : "","",1,1}, {"1","","B",NULL,"","",0,1},
  {"3",NULL,NULL,"B","","",1,1}, {"c","",NULL,"B","","1",1,1}, {"c","","","BR","","",1,1},
  {"","","",NULL,"B","",1,1}, {"","","","","B","1",1,1}, {"","","","","1B","",1,1},
  {"","","",NULL,"","B",1,1}, {"1",NULL,NULL,NULL,"","B",1,1}, {"1","",NULL,NULL,"","B",1,1}, {"a",NULL,NULL,NULL,"","B",1,1}, {"a","",NULL,NULL,"","BR",1,1}, {"","","","","2","B",1,1},
};
static void nested(void)
{
  int i, j, k, m, nm = 5;
  make_inner();
  for (m=0; m<nm; m++) for (i=0; i<LEN(OUTER); i++)
    if (vh_case("nested mode=%d outer=%s", m, show(&OUTER[i]))) {
      mode = m; abortmode = 0; forkstep = 1; nprog = 0;
      for (j=0; j<ninner; j++) { Blk b = OUTER[i]; b.in = &INNER[j]; maybe("B", &b); if (!m) maybe("3B", &b); }
      vh_count_states(nprog); vh_end();
    }
  /* three levels; every program is enclosed so that nothing ends the process */
  for (i=0; i<LEN(OUTER); i++) for (j=0; j<LEN(OUTER); j++)
    if (vh_case("nested3 outer=%s middle=%s", show(&OUTER[i]), show(&OUTER[j]))) {
      mode = (i + j) % 5; abortmode = 0; forkstep = 0; nprog = 0;
      for (k=0; k<ninner; k++) {
        Blk mid = OUTER[j], out = OUTER[i], top = {"B", NULL, NULL, "", "", "", 1, 1, NULL};
        mid.in = &INNER[k]; out.in = &mid; top.in = &out;
        maybe("B", &top);
        if (vh_thorough() || (k+i+j) % 7 == 0) maybe("B", &out);
      }
      vh_count_states(nprog); vh_end();
    }
  /* abort modes: only an error nobody catches ends the process */
  for (m=1; m<=2; m++) for (i=0; i<LEN(OUTER); i++)
    if (vh_case("abort=%d outer=%s", m, show(&OUTER[i]))) {
      mode = 0; abortmode = m; forkstep = 1; nprog = 0;
      for (j=0; j<ninner; j++) { Blk b = OUTER[i]; b.in = &INNER[j]; maybe("B", &b); }
      vh_count_states(nprog); vh_end();
    }
}

/* -------------------------------------------------------- message buffer */
static char BIG[9000], FULL[40000];
static const char *conv_null(int e) { (void)e; return NULL; }
static const char *conv_some(int e) { return e == 1 ? "Some" : NULL; }
static void put(const char *fmt, ...) __attribute__((format(printf,1,2)));
static void put(const char *fmt, ...) { va_list ap; size_t n = strlen(FULL); va_start(ap, fmt); vsnprintf(FULL+n, sizeof(FULL)-n, fmt, ap); va_end(ap); if (strlen(FULL) > ERR_MSGSIZE-1) FULL[ERR_MSGSIZE-1] = 0; }
static int hpos; static char HTXT[9000];
static void keep(const ErrRecord *r) { hpos = r->pos; snprintf(HTXT, sizeof HTXT, "%s", r->msg); }
static void model_add(int m, int eval, const char *prefix, int dbg, int conv, int len, int errnum)
{
  if (FULL[0]) { if (m == 0) put("\n - "); else if (m == 1 || m == 3) FULL[0] = 0; else return; }
  if (*prefix) put("%s: ", prefix);
  if (dbg >= 1) put("file:7: ");
  if (dbg >= 2) put("in func(): ");
  if (conv == 2 && eval == 1) put("SomeError: "); else put("Error %d: ", eval);
  put("%.*s", len, BIG);
  if (errnum) put(": %s", strerror(errnum));
}
static void check_msg(const char *what)
{
  const char *m = err_getmsg();
  size_t n = strnlen(m, ERR_MSGSIZE);
  VH_CHECK(n < ERR_MSGSIZE, "terminated", "%s: message is not terminated", what);
  if (n < ERR_MSGSIZE) VH_CHECK(!strcmp(m, FULL), "message", "%s: message of %zu bytes, expected %zu; tail '%s' expected '%s'", what, n, strlen(FULL), m + (n > 20 ? n-20 : 0), FULL + (strlen(FULL) > 20 ? strlen(FULL)-20 : 0));
}
static void messages(void)
{
  static const int L[] = {1, 100, 4040, 4050, 4060, 4065, 4070, 4072, 4074, 4076, 4077, 4078, 4079, 4080, 4081, 4082, 4083, 4084, 4085, 4086, 4087, 4088, 4089, 4090, 4092, 4095, 4096, 4097, 4100, 8191};
  int m, dbg, conv, i, j, k, e;
  memset(BIG, 'x', sizeof BIG - 1);
  for (m=0; m<5; m++) for (dbg=0; dbg<3; dbg++) for (conv=0; conv<3; conv++) for (e=0; e<2; e++) for (i=0; i<LEN(L); i++)
    if (vh_case("message mode=%d debug=%d conv=%d errno=%d first=%d", m, dbg, conv, e, L[i])) {
      FILE *null = fopen("/dev/null", "w"); int with_stream;
      for (with_stream=0; with_stream<2; with_stream++)
      for (j=0; j<LEN(L); j++) for (k=0; k<3; k++) {
        const char *prefix = k == 1 ? "pre" : k == 2 ? "" : "";
        int third = k == 2 ? 30 : 4090;
        char w[100]; ErrRecord *root = _err_get_record();
        err_set_override_mode(m); err_set_debug_mode(dbg); err_set_abort_mode(0); err_set_prefix(prefix);
        err_set_nameconv(conv == 1 ? conv_null : conv == 2 ? conv_some : NULL);
        err_set_handler(with_stream ? err_default_handler : keep); err_set_stream(with_stream ? null : NULL);
        err_clear(); FULL[0] = 0;
        snprintf(w, 100, "mode=%d lengths %d,%d", m, L[i], L[j]);
        _err_format(errLevelError, 1, e ? ENOENT : 0, "file:7", "func", "%.*s", L[i], BIG); model_add(m, 1, prefix, dbg, conv, L[i], e ? ENOENT : 0); check_msg(w);
        _err_format(errLevelError, 2, 0, "file:7", "func", "%.*s", L[j], BIG); model_add(m, 2, prefix, dbg, conv, L[j], 0); check_msg(w);
        _err_format(errLevelError, 3, 0, "file:7", "func", "%.*s", third, BIG); model_add(m, 3, prefix, dbg, conv, third, 0); check_msg(w);
        VH_CHECK(err_geteval() == 3 && _err_get_record() == root && !root->prev && !root->state, "record", "%s: the record is damaged", w);
        /* the same text arriving from nested blocks */
        err_clear(); FULL[0] = 0;
        ErrTry:
          _err_format(errLevelError, 1, 0, "file:7", "func", "%.*s", L[i], BIG);
        ErrEnd;
        model_add(m, 1, prefix, dbg, conv, L[i], 0); check_msg(w);
        ErrTry:
          _err_format(errLevelError, 2, 0, "file:7", "func", "%.*s", L[j], BIG);
        ErrEnd;
        { char save[ERR_MSGSIZE], in[ERR_MSGSIZE];
          strcpy(save, FULL); FULL[0] = 0; model_add(m, 2, prefix, dbg, conv, L[j], 0); strcpy(in, FULL); strcpy(FULL, save);
          if (m == 0) { put("\n - "); put("%s", in); } else if (m == 1 || m == 3) strcpy(FULL, in); }
        check_msg(w);
        VH_CHECK(err_geteval() == 2 && _err_get_record() == root && !root->prev && !root->state, "record", "%s: the record is damaged after nested blocks", w);
        vh_count_transitions(5);
        if (vh_failed()) break;
      }
      fclose(null); err_set_stream(NULL); err_set_nameconv(NULL); err_set_prefix("");
      vh_observef("%d %d", L[i], m); vh_end();
    }
}

/* what the default handler prints: each reported error once */
static void printed(void)
{
  /* sequences of <=4 operations: e1 e2 err; w warning; c clear; n nested block with an error */
  static const char OPS[] = "12wcn";
  int m, d, i; char seq[6]; long total, k;
  for (m=0; m<5; m++) for (d=1; d<=4; d++)
    if (vh_case("printed mode=%d length=%d", m, d)) {
      char path[600]; snprintf(path, sizeof path, "%s/err.txt", vh_scratch());
      for (total=1, i=0; i<d; i++) total *= 5;
      for (k=0; k<total && !vh_failed(); k++) {
        char got[3000], want[3000], cur[1000] = ""; FILE *fp = fopen(path, "w"); int eval = 0, w = 0, n; long r = k;
        for (i=0; i<d; i++, r /= 5) seq[i] = OPS[r % 5];
        seq[d] = 0; want[0] = 0;
        err_set_stream(fp); err_set_handler(err_default_handler); err_set_nameconv(NULL); err_set_prefix(""); err_set_debug_mode(0); err_set_color_mode(errColorNever);
        err_set_override_mode(m); err_set_warn_mode(0); err_set_abort_mode(0); err_set_level(errLevelWarn); err_clear();
        for (i=0; seq[i]; i++) {
          char t[60]; int had = eval, nested = seq[i] == 'n'; size_t pos = 0;
          if (seq[i] == 'c') { err_clear(); eval = 0; cur[0] = 0; continue; }
          if (seq[i] == 'w') { warnx("w%d", i); snprintf(t, 60, "Warning: w%d", i); eval = m == 0 ? had : 0; }
          else if (nested) { ErrTry: errx(3, "n%d", i); ErrEnd; snprintf(t, 60, "Error 3: n%d", i); eval = 3; }
          else { eval = seq[i]-'0'; errx(eval, "e%d", i); snprintf(t, 60, "Error %d: e%d", eval, i); }
          if (!had) strcpy(cur, t);
          else switch (m) {
            case 0: pos = strlen(cur); strcat(cur, "\n - "); strcat(cur, t); break;
            case 1: if (!nested) w += sprintf(want+w, "Warning: Overriding old error: '%s'\n", cur); strcpy(cur, t); break;
            case 2: if (!nested) w += sprintf(want+w, "Warning: Ignoring new error %d\n", had); break;
            case 3: strcpy(cur, t); break;
          }
          w += sprintf(want+w, "%s%s\n", pos ? " - " : "** ", cur + (pos ? pos+4 : 0));
          VH_CHECK(err_geteval() == eval && !strcmp(err_getmsg(), cur), "state", "mode %d sequence %s: after %d: value %d '%s', expected %d '%s'", m, seq, i, err_geteval(), err_getmsg(), eval, cur);
        }
        fclose(fp); err_set_stream(NULL);
        fp = fopen(path, "r"); n = fread(got, 1, sizeof got - 1, fp); got[n > 0 ? n : 0] = 0; fclose(fp);
        VH_CHECK(!strcmp(got, want), "printed", "mode %d sequence %s: printed\n%s\nexpected\n%s", m, seq, got, want);
        vh_observef("%s", got); vh_count_transitions(d);
      }
      vh_end();
    }
}
/* levels and warning modes: what is reported, and to whom */
static int hcalls, hlevel;
static void count_(const ErrRecord *r) { hcalls++; hlevel = r->level; }
static void levels(void)
{
  int level, wm, inside, lv;
  for (level=0; level<=6; level++) for (wm=0; wm<3; wm++) for (inside=0; inside<2; inside++)
    if (vh_case("level=%d warn=%d inside=%d", level, wm, inside)) {
      for (lv=1; lv<=4; lv++) {
        int eff = lv, min = level ? level : errLevelWarn, shown, n0, ev1; char m1[100];
        err_set_handler(count_); err_set_stream(NULL); err_set_prefix(""); err_set_debug_mode(0); err_set_nameconv(NULL); err_set_abort_mode(0); err_set_override_mode(0);
        err_set_level(level); err_set_warn_mode(wm); err_clear(); hcalls = 0;
        ev1 = -1; m1[0] = 0; n0 = 0;
        if (inside) {
          ErrTry:
            _err_format(lv, lv == errLevelError ? 5 : 0, 0, "f", "g", "t");
            n0 = hcalls; ev1 = err_geteval(); snprintf(m1, 100, "%s", err_getmsg());
          ErrEnd;
        } else { _err_format(lv, lv == errLevelError ? 5 : 0, 0, "f", "g", "t"); n0 = hcalls; ev1 = err_geteval(); snprintf(m1, 100, "%s", err_getmsg()); }
        shown = lv >= min && !(lv == errLevelWarn && wm == errWarnIgnore);
        if (lv == errLevelWarn && wm == errWarnError) eff = errLevelError;
        VH_CHECK((shown && lv == errLevelError ? 5 : 0) == ev1, "value", "level %d warn %d: record value %d for level %d", level, wm, ev1, lv);
        VH_CHECK(!strcmp(m1, !shown ? "" : eff == 1 ? "Debug: t" : eff == 2 ? "Info: t" : eff == 3 ? "Warning: t" : lv == errLevelError ? "Error 5: t" : "Error: t"), "text", "level %d warn %d: message '%s' for level %d", level, wm, m1, lv);
        if (!inside) VH_CHECK(n0 == shown && (!shown || hlevel == eff), "handler", "level %d warn %d: %d handler calls (level %d) for level %d", level, wm, n0, hlevel, lv);
        else VH_CHECK(n0 == (shown && eff == errLevelWarn), "handler", "level %d warn %d: %d handler calls inside a block for level %d", level, wm, n0, lv);
        if (inside && lv == errLevelError) VH_CHECK(hcalls == shown, "handler", "level %d: error leaving a block reported %d times", level, hcalls);
        vh_observef("%d%d%s", n0, ev1, m1);
      }
      vh_count_transitions(4); vh_end();
    }
}

/* ------------------------------------------------------------ DLite layer */
static ErrHandler dl_handler; static ErrNameConv dl_conv; static void use_dlite(void);
static FILE *cap; static char cappath[600];
static void cap_open(void) { snprintf(cappath, sizeof cappath, "%s/cap.txt", vh_scratch()); cap = fopen(cappath, "w"); dlite_err_set_stream(cap); }
static int cap_read(char *buf, int n) { int k; FILE *f; dlite_err_set_stream(NULL); fclose(cap); f = fopen(cappath, "r"); k = fread(buf, 1, n-1, f); buf[k > 0 ? k : 0] = 0; fclose(f); return k; }
static void dlite_layer(void)
{
  int a, b, c;
  if (vh_case("error code tables")) {
    for (a=3; a>=dliteLastError-3; a--) {
      const char *n = dlite_errname(a); char full[100];
      VH_CHECK(n && *n, "name", "no name for %d", a);
      if (a > dliteLastError && a < 0) {
        for (b=0; b>dliteLastError; b--) if (a != b) VH_CHECK(strcmp(n, dlite_errname(b)), "unique", "codes %d and %d share the name %s", a, b, n);
        snprintf(full, 100, "%sError", n);
        VH_CHECK(dlite_errcode(full) == a, "code", "%s gives %d, expected %d", full, dlite_errcode(full), a);
        VH_CHECK(dlite_errcode(n) == a, "code", "%s gives %d, expected %d", n, dlite_errcode(n), a);
        VH_CHECK(dlite_errdescr(a) && *dlite_errdescr(a), "descr", "no description for %d", a);
      }
    }
    VH_CHECK(dlite_errcode("DLiteNoSuchThing") == dliteUnknownError, "code", "unknown name");
    VH_CHECK(dlite_errcode("DLiteError") == 0, "code", "DLiteError");
    vh_observef("tables"); vh_count_transitions(40); vh_end();
  }
  /* every code: hidden iff it is in the set, whatever the others are */
  for (a=-dliteLastError; a>=-1; a--)
    if (vh_case("ignored code %d", -a)) {
      char buf[2000]; int A = -a;
      use_dlite();
      for (c=0; c<4; c++) for (b=1; b>=dliteLastError; b--) {
        int second = -((a + 7) % 36), ign = 0, want;
        _dlite_err_mask_set(0);
        if (c & 1) dlite_err_ignored_set(A, 1);
        if (c & 2) { dlite_err_ignored_set(second, 1); if (c == 2) { dlite_err_ignored_set(A, 1); dlite_err_ignored_set(A, 0); } }
#define BIT(x) ((x) >= 0 ? 0 : (x) <= dliteLastError ? -dliteLastError : -(x))
        if (c & 1) ign |= BIT(b) == BIT(A);
        if (c & 2) { ign |= BIT(b) == BIT(second); if (c == 2 && BIT(second) == BIT(A)) ign = 0; }
        if (b > 0) { int u = 0; if (c & 1) u |= BIT(A) == 1; if (c & 2) u |= BIT(second) == 1; if (c == 2 && BIT(second) == BIT(A)) u = 0; ign |= u; }
        VH_CHECK(!!dlite_err_ignored_get(b) == ign, "ignored", "set %d of {%d,%d}: code %d %s", c, A, second, b, ign ? "should be hidden" : "is hidden");
        if (b == 0 || vh_failed()) continue;
        cap_open(); dlite_errclr(); err_set_color_mode(errColorNever);
        dlite_errx(b, "text");
        want = !ign; cap_read(buf, sizeof buf);
        VH_CHECK((buf[0] != 0) == want, "printed", "set %d of {%d,%d}: error %d printed '%s'", c, A, second, b, buf);
        VH_CHECK(dlite_errval() == b && !strcmp(dlite_errmsg(), b > 0 ? "text" : "text"), "value", "error %d recorded as %d '%s'", b, dlite_errval(), dlite_errmsg());
        vh_observef("%s", buf); vh_count_transitions(2);
      }
      _dlite_err_mask_set(0); dlite_errclr();
      vh_end();
    }
  if (vh_case("noerr macros")) {
    use_dlite();
    for (a=0; a>=dliteLastError; a--) for (b=0; b>=dliteLastError; b--) {
      _dlite_err_mask_set(0); dlite_err_ignored_set(b, 1);
      DLITE_NOERR(DLITE_ERRBIT(a));
        VH_CHECK(dlite_err_ignored_get(a), "noerr", "%d not ignored inside its block", a);
      DLITE_NOERR_END;
      VH_CHECK(dlite_err_ignored_get(b) && (a == b || !dlite_err_ignored_get(a)), "noerr", "mask not restored (%d,%d)", a, b);
    }
    vh_observef("noerr"); vh_count_transitions(1300); vh_end();
  }
  /* where messages go */
  { static const char *F[] = {"<stdout>", "<stderr>", "FILE", "", NULL};
    for (a=0; a<LEN(F); a++)
      if (vh_case("error file %s", F[a] ? F[a] : "NULL")) {
        char f[700], buf[300] = ""; FILE *fp;
        use_dlite(); snprintf(f, sizeof f, "%s/errfile", vh_scratch());
        dlite_err_set_file(F[a] && !strcmp(F[a], "FILE") ? f : F[a]);
        fp = dlite_err_get_stream();
        if (!F[a] || !*F[a]) VH_CHECK(!fp, "stream", "a stream is set");
        else if (a == 0) VH_CHECK(fp == stdout, "stream", "<stdout> does not select standard output");
        else if (a == 1) VH_CHECK(fp == stderr, "stream", "<stderr> does not select standard error");
        else { VH_CHECK(fp && fp != stdout && fp != stderr, "stream", "no file stream");
          dlite_errx(-3, "to file"); fflush(fp); dlite_err_set_stream(NULL);
          if ((fp = fopen(f, "r"))) { int n = fread(buf, 1, 299, fp); buf[n > 0 ? n : 0] = 0; fclose(fp); }
          VH_CHECK(strstr(buf, "to file"), "stream", "the message is not in the file: '%s'", buf); }
        dlite_err_set_stream(NULL); vh_observef("%s %d", buf, a); vh_end();
      } }
}

static void use_dlite(void) { err_set_level(errLevelWarn); err_set_warn_mode(0); err_set_prefix(""); err_set_debug_mode(0); err_set_handler(dl_handler); err_set_nameconv(dl_conv); err_set_override_mode(0); err_set_abort_mode(0); err_clear(); }
void vh_setup(void) { dlite_init(); dl_handler = err_get_handler(); dl_conv = err_get_nameconv(); err_set_stream(NULL); err_set_handler(on_err_fork); err_set_nameconv(NULL); err_set_prefix(""); err_set_debug_mode(0); err_set_level(errLevelWarn); err_set_warn_mode(0); (void)flush_events; }
void vh_explore(void) { flat(); nested(); messages(); printed(); levels(); dlite_layer(); }
