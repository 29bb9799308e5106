// Force-included for every source: declares the one mbedtls 3 function this sandbox's mbedtls 2.28 lacks.
#ifndef VERIF_PRELUDE_H
#define VERIF_PRELUDE_H
struct mbedtls_ssl_context;
extern "C" int mbedtls_ssl_is_handshake_over(struct mbedtls_ssl_context*);
#endif
