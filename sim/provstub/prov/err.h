/* Stand-in for the absent libprov submodule: error reporting only. */
#pragma once
#include <openssl/core.h>
struct proverr_functions_st;
struct proverr_functions_st *proverr_new_handle(const OSSL_CORE_HANDLE *core, const OSSL_DISPATCH *in);
void proverr_free_handle(struct proverr_functions_st *h);
void proverr_new_error(const struct proverr_functions_st *h);
void proverr_set_error_debug(const struct proverr_functions_st *h, const char *file, int line, const char *func);
void proverr_set_error(const struct proverr_functions_st *h, uint32_t reason, const char *fmt, ...);
