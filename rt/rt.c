/* Native side of the harness interface: inputs come from SYM_VALUES in creation order. */
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static uint64_t vals[65536];
static long n = -1, at = 0;

static void load(void) {
    n = 0;
    const char *s = getenv("SYM_VALUES");
    while (s && *s) {
        char *e;
        vals[n++] = strtoull(s, &e, 0);
        if (*e == ',') e++;
        if (e == s) break;
        s = e;
    }
}
static uint64_t next(void) {
    if (n < 0) load();
    return at < n ? vals[at++] : 0;
}
uint8_t sym_u8(void) { return (uint8_t)next(); }
uint32_t sym_u32(void) { return (uint32_t)next(); }
uint64_t sym_u64(void) { return next(); }
bool sym_bool(void) { return next() & 1; }
uint32_t sym_choice(uint32_t k) {
    uint32_t v = (uint32_t)next();
    return k && v < k ? v : 0;
}
uint32_t sym_fork(uint32_t k) { return sym_choice(k); }
static bool soft(void) { return getenv("SYM_SOFT") != 0; }
void sym_assume(bool c) {
    if (!c) {
        fprintf(stderr, "SYM-ASSUME-FALSE\n");
        _exit(77);
    }
}
void sym_assert(bool c, uint32_t id) {
    if (!c) {
        fprintf(stderr, "SYM-ASSERT-FAIL %u\n", id);
        if (!soft()) _exit(42);
    }
}
void sym_note(const uint8_t *p, uint64_t len) {
    fprintf(stderr, "SYM-NOTE ");
    fwrite(p, 1, len, stderr);
    fprintf(stderr, "\n");
}
void sym_reach(uint32_t id) { fprintf(stderr, "SYM-REACH %u\n", id); }
bool sym_is_engine(void) { return false; }
static bool abort_ok;
void sym_abort_ok(bool c) {
    abort_ok = c;
    fprintf(stderr, "SYM-ABORT-OK %d\n", (int)c);
}
