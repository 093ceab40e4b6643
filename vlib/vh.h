/* vh.h -- tiny systematic-exploration runtime for C harnesses.

   A harness is one `void vh_explore(void)` that enumerates, in a fixed order,
   every case inside its bound, guarding each with

       if (vh_case("stable key %d", i)) { ...exercise real code...; vh_end(); }

   and/or runs `vh_dfs(body)` where `body` calls vh_choose(n) at every
   decision point; every complete choice sequence is executed exactly once.

   The runtime
     - deals cases to shards (--shard k/n) by case number,
     - executes them in a forked child, so a crash, sanitizer report or hang
       becomes a finding about the case that was running; the explorer then
       resumes with the next case,
     - records failures with the case key (stable identity of the input or
       history), a replay record, and counts of executed cases, distinct
       observations, states and transitions.
*/
#ifndef VH_H
#define VH_H
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>

int  vh_case(const char *fmt, ...) __attribute__((format(printf,1,2)));
void vh_end(void);
/* record a violation for the current case; first argument: short class tag */
void vh_fail(const char *tag, const char *fmt, ...) __attribute__((format(printf,2,3)));
#define VH_CHECK(cond, tag, ...) do { if (!(cond)) vh_fail(tag, __VA_ARGS__); } while (0)
/* note that the current case reached a real, non-trivial evaluation */
void vh_observe(const void *data, size_t n);        /* hash of what was seen */
void vh_observef(const char *fmt, ...) __attribute__((format(printf,1,2)));
void vh_trace(const char *fmt, ...) __attribute__((format(printf,1,2)));
void vh_sample(const char *fmt, ...) __attribute__((format(printf,1,2)));
void vh_count_states(uint64_t n);
void vh_count_transitions(uint64_t n);
int  vh_failed(void);                   /* did current case fail already */
int  vh_thorough(void);
const char *vh_scratch(void);           /* private scratch directory */
int  vh_arg(const char *name, int dflt);

/* depth-first choice exploration; every leaf is a case */
int  vh_choose(int n);
void vh_dfs(const char *name, void (*body)(void));
/* prune current dfs path: leaf is not counted */
void vh_prune(void);
/* give current dfs leaf a human-readable stable identity */
void vh_key(const char *fmt, ...) __attribute__((format(printf,1,2)));

/* if (vh_fork()) { ...; vh_join(); }: run part of a case in its own process */
int  vh_fork(void);
void vh_join(void);

/* live heap bytes as seen by the sanitizer allocator */
size_t vh_heap(void);
uint64_t vh_hash(const void *data, size_t n, uint64_t seed);

/* open-addressing visited set of 64-bit state hashes */
typedef struct { uint64_t *v; size_t cap, n; } vh_set;
int vh_set_add(vh_set *s, uint64_t h);  /* 1 if new */
void vh_set_free(vh_set *s);

/* to be provided by the harness */
void vh_explore(void);
void vh_setup(void);                    /* run once in each child */
#endif
