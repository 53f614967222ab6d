#ifndef V_CRYPT_BLOWFISH_H
#define V_CRYPT_BLOWFISH_H
#endif
