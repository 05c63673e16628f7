// Native (replay) implementations of the intrinsics the symbolic executor interprets itself.
// Replay driver: the values of the symbolic inputs are given on the command line in order.
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>

static int64_t *vals; static int nvals, pos;
void intr_init(const int64_t *v, int n) {
    vals = malloc(sizeof(int64_t) * (n + 1)); memcpy(vals, v, sizeof(int64_t) * n); nvals = n; pos = 0;
}
int64_t sym_int(int64_t lo, int64_t hi) {
    int64_t v = pos < nvals ? vals[pos] : lo;
    pos++;
    if (v < lo || v > hi) { printf("BADINPUT %d %lld not in [%lld,%lld]\n", pos - 1, (long long)v, (long long)lo, (long long)hi); fflush(stdout); exit(4); }
    return v;
}
void vassume(int32_t c) { if (!c) { printf("ASSUME-FAIL\n"); fflush(stdout); exit(3); } }
void vassert(int32_t c, int64_t id) { if (!c) { printf("ASSERT-FAIL %lld\n", (long long)id); fflush(stdout); exit(7); } }
void vreach(int64_t id) { printf("REACH %lld\n", (long long)id); }
void vobs(int64_t v) { printf("OBS %lld\n", (long long)v); }
void vdbg(int64_t v) { printf("DBG %lld\n", (long long)v); }
// marks "here a panic is the expected outcome" (1) / "no panic allowed" (0)
static int allow;
void vallow_panic(int32_t a) { allow = a; }
int intr_allow(void) { return allow; }
// comparisons used by the oracles; opaque so that the optimiser does not merge them into bit tricks
_Bool v_le(int64_t a, int64_t b) { return a <= b; }
_Bool v_eq(int64_t a, int64_t b) { return a == b; }
// the harness is finished (values still alive are not dropped)
void vdone(void) { printf("DONE\n"); fflush(stdout); exit(0); }
