#define ALG3 1
#define ENC WBCRYPTO_ff3_encrypt
#define DEC WBCRYPTO_ff3_decrypt
#define REF(x, e) ref_ff3(x, N_, R_, twp, e)
#include "p15.c"
