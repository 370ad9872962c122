/* Data allocator for numpy (NEP 49) that fails one chosen allocation. Single threaded use: the simulator runs one
 * thread at a time. */
#include <stdlib.h>
#include <string.h>
#include <stdint.h>

static volatile int64_t countdown = -1;   /* -1: never fail; n: the n-th allocation from now fails (0 = next) */
static volatile int64_t sticky = 0;       /* keep failing after the first failure */
static volatile int64_t count = 0, failed = 0;
static volatile uint64_t min_size = 0, max_size = 0;   /* allocations below min_size never fail; 0 = no cap */

static volatile int64_t hold = 0, held = 0;   /* hold: due failures are only counted (see faultalloc.py) */

static int fails(void) { failed++; if (hold) { held++; return 0; } return 1; }
static int fail(size_t n) {
    if (n >= min_size) count++;
    if (max_size && n > max_size) return fails();
    if (countdown < 0 || n < min_size) return 0;
    if (countdown == 0) { if (!sticky) countdown = -1; return fails(); }
    countdown--;
    return 0;
}
static void *f_malloc(void *ctx, size_t n) { if (fail(n)) return NULL; return malloc(n ? n : 1); }
static void *f_calloc(void *ctx, size_t a, size_t b) { if (fail(a * b)) return NULL; return calloc(a ? a : 1, b ? b : 1); }
static void *f_realloc(void *ctx, void *p, size_t n) { if (fail(n)) return NULL; return realloc(p, n ? n : 1); }
static void f_free(void *ctx, void *p, size_t n) { free(p); }

typedef struct {
    void *ctx;
    void *(*malloc)(void *, size_t);
    void *(*calloc)(void *, size_t, size_t);
    void *(*realloc)(void *, void *, size_t);
    void (*free)(void *, void *, size_t);
} Allocator;
static struct { char name[127]; uint8_t version; Allocator allocator; } handler = {
    "verif_fault", 1, { NULL, f_malloc, f_calloc, f_realloc, f_free } };

void *fa_handler(void) { return &handler; }
void fa_arm(int64_t n, int64_t stick, uint64_t min) { countdown = n; sticky = stick; min_size = min; failed = 0; count = 0; }
void fa_cap(uint64_t cap) { max_size = cap; }
int64_t fa_disarm(void) { countdown = -1; sticky = 0; return failed; }
void fa_hold(void) { hold = 1; held = 0; }
int64_t fa_release(void) { hold = 0; return held; }
int64_t fa_count(void) { return count; }
