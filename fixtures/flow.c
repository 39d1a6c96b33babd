/* Self-test input of the flow rules: every function named bad_* must be reported by the rule named in its
   name, no function named good_* may be reported. Never linked, never run. */
#include "kefir/core/mem.h"
#include "kefir/core/error.h"
#include "kefir/core/util.h"

kefir_result_t step(struct kefir_mem *, int);

kefir_result_t step(struct kefir_mem *mem, int x) {
    REQUIRE(mem != NULL, KEFIR_SET_ERROR(KEFIR_INVALID_PARAMETER, "mem"));
    REQUIRE(x != 7, KEFIR_SET_ERROR(KEFIR_INVALID_STATE, "x"));
    REQUIRE(x != 8, KEFIR_SET_ERROR(KEFIR_NO_MATCH, "x"));
    return KEFIR_OK;
}

kefir_result_t bad_swallowed_ignored(struct kefir_mem *mem, int x) {
    step(mem, x);
    return KEFIR_OK;
}

kefir_result_t bad_swallowed_overwritten(struct kefir_mem *mem, int x) {
    kefir_result_t res = step(mem, x);
    res = step(mem, x + 1);
    return res;
}

kefir_result_t bad_softened(struct kefir_mem *mem, int x) {
    kefir_result_t res = step(mem, x);
    REQUIRE(res == KEFIR_OK, KEFIR_SET_ERROR(KEFIR_NO_MATCH, "x"));
    return KEFIR_OK;
}

kefir_result_t good_swallowed_chain(struct kefir_mem *mem, int x) {
    kefir_result_t res = step(mem, x);
    REQUIRE_CHAIN(&res, step(mem, x + 1));
    REQUIRE_OK(res);
    return KEFIR_OK;
}

kefir_result_t good_swallowed_nomatch(struct kefir_mem *mem, int x) {
    kefir_result_t res = step(mem, x);
    if (res != KEFIR_NO_MATCH) {
        REQUIRE_OK(res);
    }
    return KEFIR_OK;
}

kefir_result_t bad_nullderef_plain(struct kefir_mem *mem) {
    int *x = KEFIR_MALLOC(mem, sizeof(int));
    *x = 1;
    KEFIR_FREE(mem, x);
    return KEFIR_OK;
}

int *bad_swallowed_ptr(struct kefir_mem *mem) {
    static int dummy;
    int *x = KEFIR_MALLOC(mem, sizeof(int));
    if (x == NULL) {
        return &dummy;
    }
    return x;
}

kefir_result_t good_nullderef_checked(struct kefir_mem *mem) {
    int *x = KEFIR_MALLOC(mem, sizeof(int));
    REQUIRE(x != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "x"));
    *x = 1;
    KEFIR_FREE(mem, x);
    return KEFIR_OK;
}

kefir_result_t bad_leak_error_path(struct kefir_mem *mem, int y) {
    int *x = KEFIR_MALLOC(mem, sizeof(int));
    REQUIRE(x != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "x"));
    REQUIRE_OK(step(mem, y));
    KEFIR_FREE(mem, x);
    return KEFIR_OK;
}

kefir_result_t good_leak_error_path(struct kefir_mem *mem, int y) {
    int *x = KEFIR_MALLOC(mem, sizeof(int));
    REQUIRE(x != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "x"));
    kefir_result_t res = step(mem, y);
    REQUIRE_ELSE(res == KEFIR_OK, {
        KEFIR_FREE(mem, x);
        return res;
    });
    KEFIR_FREE(mem, x);
    return KEFIR_OK;
}

kefir_result_t bad_uaf_read(struct kefir_mem *mem) {
    int *x = KEFIR_MALLOC(mem, sizeof(int));
    REQUIRE(x != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "x"));
    KEFIR_FREE(mem, x);
    return *x == 0 ? KEFIR_OK : KEFIR_INVALID_STATE;
}

static void drop(struct kefir_mem *mem, int *x) {
    KEFIR_FREE(mem, x);
}

kefir_result_t bad_doublefree(struct kefir_mem *mem, int y) {
    int *x = KEFIR_MALLOC(mem, sizeof(int));
    REQUIRE(x != NULL, KEFIR_SET_ERROR(KEFIR_MEMALLOC_FAILURE, "x"));
    kefir_result_t res = step(mem, y);
    if (res != KEFIR_OK) {
        drop(mem, x);
    }
    KEFIR_FREE(mem, x);
    return res;
}
