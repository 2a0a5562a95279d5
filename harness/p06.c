/* the parallel functions against the same oracle as the serial ones, on real threads */
#include <wbcrypto/modes.h>
#define WBCRYPTO_gcm_encrypt WBCRYPTO_gcm_parallel_encrypt
#define WBCRYPTO_gcm_decrypt WBCRYPTO_gcm_parallel_decrypt
#include "p04.c"
