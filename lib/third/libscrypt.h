/* declarations of the third-party functions kdf.c uses (their sources are not in this tree): trusted externals */
#ifndef V_LIBSCRYPT_H
#define V_LIBSCRYPT_H
#include <stdint.h>
#include <stddef.h>
int libscrypt_scrypt(const uint8_t *passwd, size_t passwdlen, const uint8_t *salt, size_t saltlen, uint64_t N, uint32_t r, uint32_t p, uint8_t *buf, size_t buflen);
#endif
