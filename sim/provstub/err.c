#include <stdint.h>
#include <stdlib.h>
#include <openssl/crypto.h>
#include "prov/err.h"
#include <openssl/err.h>
struct proverr_functions_st { int alive; unsigned long raised; };
struct proverr_functions_st *proverr_new_handle(const OSSL_CORE_HANDLE *core, const OSSL_DISPATCH *in)
{ struct proverr_functions_st *h = calloc(1, sizeof *h); if (h) h->alive = 0x600D; return h; }
void proverr_free_handle(struct proverr_functions_st *h) { if (h) h->alive = 0; free(h); }
/* a handle that is no more must not be used: AddressSanitizer sees it, and so does this */
static void touch(const struct proverr_functions_st *h) { if (h->alive != 0x600D) abort(); ((struct proverr_functions_st *)h)->raised++; }
void proverr_new_error(const struct proverr_functions_st *h) { touch(h); ERR_new(); }
void proverr_set_error_debug(const struct proverr_functions_st *h, const char *file, int line, const char *func) { touch(h); ERR_set_debug(file, line, func); }
void proverr_set_error(const struct proverr_functions_st *h, uint32_t reason, const char *fmt, ...) { touch(h); ERR_set_error(ERR_LIB_PROV, reason, NULL); }
