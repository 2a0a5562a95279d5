#!/usr/bin/env python3
# Generates /verif/properties.jsonl (single source for the property texts).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": s, "meaning": s, "where": files[0]} for s in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("P01", "SM4 computes the standard block cipher and decryption inverts it",
  "For every key of any length (keys shorter than 16 bytes are PKCS#7-padded to 16, longer ones are cut to 16) and every 16-byte block, SM4 encryption yields exactly the GB/T 32907 ciphertext, and decryption with the same key context returns the original block. The key schedule built in decryption direction makes the encryption routine compute the standard inverse cipher. Input and output may be the same buffer and nothing outside the 16 output bytes and the key context is written.",
  ["inputs"], "all keys of all lengths, all 2^128 blocks, both directions, distinct or identical in/out buffers",
  "A test checks a few key/block pairs; wrong entries of one lookup table, one round constant or one rotation can stay invisible on them.",
  ["src/sm4/sm4.c", "src/utils/padding.c"],
  [("key schedule", "src/sm4/sm4.c: aux_sm4_init_key / WBCRYPTO_sm4_init_key"), ("rounds", "src/sm4/sm4.c: WBCRYPTO_sm4_encrypt, WBCRYPTO_sm4_decrypt, SM4_T, SM4_T_slow")],
  ["output block", "round keys in the context"])

p("P02", "SM3 equals the standard digest for every message and every chunking",
  "The digest returned equals GB/T 32905 SM3 of the concatenation of all bytes absorbed since initialisation, however the message was split over update calls (including empty pieces) and whatever its length. The one-shot form gives the same digest. The bit length appended is the exact 64-bit message length.",
  ["inputs", "histories"], "all messages of all lengths, all sequences of update calls, all chaining states",
  "Tests hash one or two short strings in one call; buffering boundaries, multi-block compression and length carry need particular lengths and split points.",
  ["src/sm3/sm3.c", "src/sm3/md32_common.h", "src/sm3/sm3_local.h"],
  [("compression", "src/sm3/sm3.c: sm3_block_data_order"), ("buffering and padding", "src/sm3/md32_common.h: HASH_UPDATE, HASH_FINAL"), ("one shot", "src/sm3/sm3.c: WBCRYPTO_sm3")],
  ["digest bytes"], ["chaining value, bit counter, partial block"])

p("P03", "CBC mode is standard CBC with PKCS#7 fill for any cipher and length",
  "For every block cipher, key, IV and message, CBC encryption outputs exactly the CBC chaining of the message filled up with PKCS#7 bytes to a multiple of 16 and reports that length; CBC decryption of any whole number of blocks outputs the CBC inverse, also in place. If the output capacity is too small or the cipher reports failure the call fails, and no byte outside the message-sized buffers is ever read or written.",
  ["inputs"], "all block functions, keys, IVs, messages and lengths, in-place or not",
  "Tests run one or two lengths with one cipher; chaining and buffer errors depend on block count, tail length and allocator behaviour.",
  ["src/modes/cbc128.c", "src/utils/padding.c", "src/sm4/sm4_modes.c", "src/wbsm4/wbsm4_modes.c", "src/aes/aes_modes.c"],
  [("encrypt", "src/modes/cbc128.c: WBCRYPTO_cbc128_encrypt"), ("decrypt", "src/modes/cbc128.c: WBCRYPTO_cbc128_decrypt"), ("fill", "src/utils/padding.c: WBCRYPTO_padding_pkcs7_merge")],
  ["out buffer, reported length, return value"])

p("P04", "GCM encryption, decryption and tag follow SP 800-38D",
  "For every block cipher, key, IV length, additional data and message, the ciphertext or plaintext and the tag are those of SP 800-38D GCM: 32-bit big-endian counter from J0, GHASH over padded additional data, ciphertext and both bit lengths, tag masked with the encrypted J0. Splitting the data over several calls at 16-byte boundaries gives the same result, decryption accepts in-place buffers and recomputes the same tag from the ciphertext. Too small an output buffer or a failing cipher makes the call fail, and only the output buffer and the context are written.",
  ["inputs", "histories"], "all block functions, keys, IVs of any length, additional data, messages, call sequences, context reuse with a new IV",
  "Tests use one IV length, one short message and no multi-call or counter-wrap case.",
  ["src/modes/gcm128.c", "include/wbcrypto/modes.h"],
  [("IV", "src/modes/gcm128.c: WBCRYPTO_gcm_setiv"), ("AAD", "src/modes/gcm128.c: WBCRYPTO_gcm_aad"), ("data", "src/modes/gcm128.c: WBCRYPTO_gcm_encrypt, WBCRYPTO_gcm_decrypt"), ("tag", "src/modes/gcm128.c: WBCRYPTO_gcm_finish")],
  ["out buffer, tag, return values"], ["counter block, GHASH accumulator, running lengths"])

p("P05", "GHASH multiplication is the GF(2^128) product for every hash key",
  "After initialisation with any block cipher and key, multiplying any 128-bit value by the context's hash subkey yields exactly the product in GF(2^128) with the GCM polynomial and bit order. The hash subkey is the cipher applied to the zero block, the precomputed tables are never modified by multiplication, and the operation may be done in place.",
  ["inputs"], "all 2^128 hash subkeys and all 2^128 operands",
  "The 4-bit tables and the reduction table have entries that given test vectors never touch.",
  ["src/modes/gcm128.c", "include/wbcrypto/modes.h", "src/wbaes/wbaes_wbgcm_ee_init.c", "src/wbaes/wbaes_wbgcm_mask_init.c"],
  [("tables", "src/modes/gcm128.c: WBCRYPTO_gcm_init"), ("product", "src/modes/gcm128.c: gcm_mult")],
  ["product bytes"])

p("P06", "Parallel GCM computes the same result as serial GCM, race-free",
  "For every context state, message and thread schedule, the parallel encryption and decryption routines leave the same output bytes, counter, hash accumulator and lengths as the serial routines on the same input. No two parallel iterations touch the same memory cell with a write. Empty messages leave output, counter and accumulator unchanged.",
  ["inputs", "schedules"], "all inputs and lengths including zero, all assignments of iterations to threads",
  "A race or a length corner shows up only on some schedules and lengths; no test calls these routines.",
  ["src/modes/gcm_parallel.c"],
  [("parallel loops", "src/modes/gcm_parallel.c: WBCRYPTO_gcm_parallel_encrypt, WBCRYPTO_gcm_parallel_decrypt")],
  ["out buffer, context"])

p("P07", "Encrypted files decrypt to the original and modified files are rejected",
  "For every file content, encrypting a file and decrypting the result under the same key, IV and additional data reproduces the file and reports success; the container is tag, 8-byte little-endian length, ciphertext. If tag, length or ciphertext were modified or truncated, decryption reports failure. Files that cannot be opened make the call fail cleanly.",
  ["inputs", "fault_sequences"], "all file contents and lengths, all modifications of the container, all open failures, generic and white-box variants",
  "Tests decrypt only the untouched file and do not look at the failure paths.",
  ["src/modes/gcmfile.c", "src/wbaes/wbaes_wbgcm_ee_file.c", "src/wbaes/wbaes_wbgcm_mask_file.c"],
  [("write", "src/modes/gcmfile.c: WBCRYPTO_gcmfile_encrypt"), ("read and verify", "src/modes/gcmfile.c: WBCRYPTO_gcmfile_decrypt")],
  ["output file, return value"])

p("P08", "White-box AES tables compute AES-128 for every key and randomness",
  "For every 16-byte key, every outcome of the random choices made while generating the tables and every input block, white-box encryption returns exactly the AES-128 ciphertext of the block under that key. All table indices stay inside the context.",
  ["inputs", "configurations"], "all keys, all blocks, all random encodings",
  "Each table entry is used by 1/256 of the inputs and every run draws new encodings; a test sees a vanishing part.",
  ["src/wbaes/wbaes.c", "src/wbaes/wbaes_local.c"],
  [("generation", "src/wbaes/wbaes.c: WBCRYPTO_wbaes_gen_table"), ("evaluation", "src/wbaes/wbaes.c: WBCRYPTO_wbaes_encrypt, aux_WBCRYPTO_wbaes_encrypt"), ("key schedule", "src/wbaes/wbaes_local.c: expandKey, shiftRows, gMul")],
  ["output block"])

p("P09", "White-box GCM with external encodings equals AES-GCM",
  "For every key, random encodings, IV, additional data and message, the encoded white-box GCM produces the same ciphertext and tag as plain AES-128 GCM, and decryption returns the message with the same tag. A context can be reused with a new IV.",
  ["inputs", "configurations", "histories"], "all keys, random choices, IVs, additional data and messages",
  "Encoding tables are 1 MB of random-dependent entries, tests do one short round trip and never compare with standard GCM.",
  ["src/wbaes/wbaes_wbgcm_ee_init.c", "src/wbaes/wbaes_wbgcm_ee_mode.c"],
  [("tables", "src/wbaes/wbaes_wbgcm_ee_init.c"), ("mode", "src/wbaes/wbaes_wbgcm_ee_mode.c")],
  ["ciphertext, tag"])

p("P10", "Masked white-box GCM decrypts what it encrypted, with matching tags",
  "For every key, random masks, IV, additional data and message, decrypting with the matching decryption context what the masked white-box GCM encrypted returns the message. Both sides compute the same tag for the same ciphertext and additional data.",
  ["inputs", "configurations", "histories"], "all keys, random masks, IVs, additional data and messages",
  "Tests do one round trip on one short message per run.",
  ["src/wbaes/wbaes_wbgcm_mask_init.c", "src/wbaes/wbaes_wbgcm_mask_mode.c"],
  [("tables", "src/wbaes/wbaes_wbgcm_mask_init.c"), ("mode", "src/wbaes/wbaes_wbgcm_mask_mode.c")],
  ["ciphertext, plaintext, tag"])

p("P11", "White-box SM4 computes SM4 in both directions for every key and encoding",
  "For every key, every outcome of the random choices, every number of dummy rounds accepted and every input block, white-box SM4 set up for encryption returns the SM4 ciphertext and set up for decryption returns the SM4 plaintext. The result never depends on uninitialised memory.",
  ["inputs", "configurations"], "all keys, blocks, random encodings, both directions, all dummy-round counts",
  "Tests fix one key and dummy count; encodings are random and table entries are touched sparsely.",
  ["src/wbsm4/wbsm4.c", "src/wbsm4/wbsm4_gen.c"],
  [("generation", "src/wbsm4/wbsm4_gen.c: WBCRYPTO_wbsm4_gen_table"), ("evaluation", "src/wbsm4/wbsm4.c: WBCRYPTO_wbsm4_encrypt")],
  ["output block"])

p("P12", "Self-equivalence white-box SM4 computes SM4 in both directions",
  "For every key, every choice of self-equivalences and affine encodings and every block, the self-equivalence white-box SM4 returns the SM4 ciphertext (or, for a decryption context, the plaintext). Each of the 2039 stored affine pairs is a self-equivalence of the SM4 S-box.",
  ["inputs", "configurations"], "all keys, blocks, random choices, all stored affine pairs",
  "One wrong constant among 36,702 is used with probability about 6% per generated key; the test does not pass reliably and checks one block.",
  ["src/se_wbsm4/se_wbsm4.c", "src/se_wbsm4/se_wbsm4_local.c"],
  [("pairs", "src/se_wbsm4/se_wbsm4_local.c: SE_initial"), ("tables", "src/se_wbsm4/se_wbsm4.c: WBCRYPTO_se_wbsm4_gen_table"), ("rounds", "src/se_wbsm4/se_wbsm4.c: WBCRYPTO_se_wbsm4_encrypt")],
  ["output block"])

p("P13", "Matrix routines implement GF(2) linear algebra and true inverse pairs",
  "Matrix-vector and matrix-matrix products, affine application and composition, block-diagonal concatenation and identity return the exact GF(2) results for all operands. Every generated matrix pair and affine pair is mutually inverse, whatever random numbers are drawn.",
  ["inputs", "configurations"], "all matrices, vectors and random draws for the 8- and 32-bit routines the ciphers use",
  "2^64 and 2^1024 matrices exist; rare elimination paths (singular candidates) are hit by few draws.",
  ["WBMatrix/src/WBMatrix.c", "WBMatrix/src/random.c"],
  [("products", "WBMatrix/src/WBMatrix.c: MatMulNumM8, MatMulNumM32, MatMulVecM32, MatMulMatM32, affineU32, affinemixM32"), ("pairs", "WBMatrix/src/WBMatrix.c: genMatpairM8, genMatpairM32, genaffinepairM8, genaffinepairM32"), ("concatenation", "WBMatrix/src/WBMatrix.c: MatrixcomM8to32, affinecomM8to32")],
  ["result matrices and vectors"])

p("P14", "Generated permutations are bijections with exact inverse tables",
  "Whatever random numbers are drawn, each generated nibble or byte permutation contains every value exactly once and its inverse table undoes it; shuffling a list only reorders it. Nothing outside the given tables is accessed.",
  ["inputs", "configurations"], "all random draws, all positions",
  "16! and 256! outcomes exist; an off-by-one in the draw range appears only for rare draws.",
  ["WBMatrix/src/WBMatrix.c", "src/utils/wrandom.c"],
  [("permutations", "WBMatrix/src/WBMatrix.c: genPermutation4, genPermutation8"), ("shuffle", "src/utils/wrandom.c: wRandomShuffleU8")],
  ["tables"])

p("P15", "FF1 is format preserving, reversible and follows the FF1 definition",
  "For every radix, tweak, key, block cipher and numeral string of at least two symbols, FF1 encryption returns a string of the same length over the same radix equal to the NIST FF1 result, and FF1 decryption returns the original string. Input and output buffers may coincide and only the output string and its terminator are written.",
  ["inputs"], "all radixes, tweaks, keys, ciphers, string lengths and contents",
  "Tests use one radix, tweak and length; odd lengths, long tweaks and radix-dependent byte lengths take other paths.",
  ["src/fpe/ff1.c", "src/fpe/fpe_locl.c", "src/fpe/init.c"],
  [("rounds", "src/fpe/ff1.c: WBCRYPTO_ff1_encrypt, WBCRYPTO_ff1_decrypt"), ("numerals", "src/fpe/fpe_locl.c")],
  ["output string"])

p("P16", "FF3 is format preserving, reversible and follows the FF3 definition",
  "For every radix, 8-byte tweak, key, block cipher and numeral string in the FF3 length range, FF3 encryption returns a string of the same length over the same radix equal to the FF3 result, and FF3 decryption returns the original string. Only the output string and its terminator are written.",
  ["inputs"], "all radixes, tweaks, keys, ciphers, string lengths and contents",
  "Tests use one radix, tweak and length only.",
  ["src/fpe/ff3.c", "src/fpe/fpe_locl.c", "src/fpe/init.c"],
  [("rounds", "src/fpe/ff3.c: WBCRYPTO_ff3_encrypt, WBCRYPTO_ff3_decrypt"), ("numerals", "src/fpe/fpe_locl.c")],
  ["output string"])

p("P17", "FPE with MAC agrees with plain FPE and both sides get the same tag",
  "For every radix, tweak, key and string, FF1-CMAC and FF3-GMAC encryption produce the same ciphertext as FF1 and FF3, decryption restores the plaintext, and the tag computed by decryption equals the tag computed by encryption. Changing nothing else, tags are a deterministic function of key, tweak and string.",
  ["inputs"], "all radixes, tweaks, keys, strings",
  "Tests compare one example; the MAC chains use input-length dependent paths.",
  ["src/fpe/ff1_cmac.c", "src/fpe/ff3_gmac.c"],
  [("FF1-CMAC", "src/fpe/ff1_cmac.c"), ("FF3-GMAC", "src/fpe/ff3_gmac.c")],
  ["output string, tag"])

p("P18", "Phone, ID-card and Chinese-text encryption keep format and round-trip",
  "For every valid phone number, ID-card number and supported Chinese text, with every choice of algorithm and sample, encryption keeps length, alphabet and the preserved positions, and decryption restores the original. The result depends only on key, sample and input, never on uninitialised or foreign memory.",
  ["inputs", "configurations"], "all valid inputs, keys, samples and cipher/mode selections",
  "Tests encrypt one number each; short samples and other digits take different paths.",
  ["src/fpe_app/phone.c", "src/fpe_app/idcard.c", "src/fpe_app/cn_utf8.c", "src/fpe_app/init.c", "src/fpe/init.c"],
  [("phone", "src/fpe_app/phone.c"), ("id card", "src/fpe_app/idcard.c"), ("Chinese", "src/fpe_app/cn_utf8.c")],
  ["output string"])

p("P19", "Chinese text and base-12 digit conversions are mutually inverse",
  "Every character of the supported range converts to its four base-12 digits and back to the same three UTF-8 bytes, and every digit group in range converts to a character and back. Conversion of a text handles each character independently at its own position.",
  ["inputs"], "all characters of the range, all digit groups, all text lengths",
  "Tests convert one address string.",
  ["src/fpe_app/utf8_util.c", "src/fpe_app/cn_utf8.c"],
  [("codec", "src/fpe_app/utf8_util.c")], ["bytes and digits"])

p("P20", "Padding helpers follow PKCS#7 and removing padding restores the message",
  "For every key or message of any length, key padding yields 16 bytes consisting of the (cut) key and the right fill, message padding yields the message followed by the PKCS#7 fill up to the next multiple of 16, and the announced length matches. Removing the padding restores the message. Only the destination is written.",
  ["inputs"], "all lengths and contents",
  "Tests only exercise them through two or three message lengths.",
  ["src/utils/padding.c"],
  [("key padding", "src/utils/padding.c: WBCRYPTO_key_padding_pkcs7, WBCRYPTO_key_padding_zeros"), ("message padding", "src/utils/padding.c: WBCRYPTO_padding_pkcs7_merge, WBCRYPTO_padding_pkcs7_separate and the _length forms")],
  ["destination bytes, returned length"])

p("P21", "Stored key contexts are restored exactly or the load reports failure",
  "For every context, writing it to a key file or byte buffer and loading it back yields a context with the same contents and the same cipher behaviour. A missing or too short file makes the load report failure, an unwritable path makes the store report failure, and neither crashes.",
  ["inputs", "fault_sequences"], "all context contents, sizes and dummy-round counts, all open, short-read and short-write failures",
  "Tests store one context to a good path.",
  ["src/utils/keystore.c", "src/wbsm4/wbsm4_exkey.c"],
  [("raw store", "src/utils/keystore.c"), ("white-box SM4 store", "src/wbsm4/wbsm4_exkey.c")],
  ["return value, loaded context"])

p("P22", "AES contexts encrypt and decrypt as AES-128 under the given key",
  "For every key of at least 16 bytes the AES context uses exactly its first 16 bytes, a shorter key is zero-extended without reading beyond it, block encryption is AES-128 under that key and block decryption inverts it. Each cipher family's mode front ends (CBC, GCM, GCM file, FPE) use the encryption routine of that family and its own key, and for CBC decryption its decryption routine.",
  ["inputs"], "all keys, key lengths and blocks; all front ends",
  "The AES test is not stable; wrong direction or key pointer shows only through decryption or short keys.",
  ["src/aes/aes.c", "src/aes/aes_modes.c", "src/sm4/sm4_modes.c", "src/wbaes/wbaes_modes.c", "src/wbsm4/wbsm4_modes.c"],
  [("key set-up", "src/aes/aes.c: WBCRYPTO_aes_init_key"), ("front ends", "src/aes/aes_modes.c, src/sm4/sm4_modes.c, src/wbaes/wbaes_modes.c, src/wbsm4/wbsm4_modes.c")],
  ["output block, return value"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
