#include "h.h"
#include "utf8_util.h"
static int h_case(void) {
    u8 s[3] = {(u8) (0xe0 | rnd(16)), (u8) (0x80 | rnd(64)), (u8) (0x80 | rnd(64))};
    u8 *a = gbuf(3), *o = gbuf(3);
    memcpy(a, s, 3);
    uint32_t cp = (s[0] & 15u) << 12 | (s[1] & 63u) << 6 | (s[2] & 63u);
    uint32_t uc = utf8CharToUint32((char *) a);
    CHECK(uc == cp, "code point of %s is %x", hex(s, 3), uc);
    utf8Uint32ToChar(uc, (char *) o);
    CHECK(!memcmp(o, s, 3), "code point %x -> %s, want %s", uc, hex(o, 3), hex(s, 3));
    CHECK(utf8IntToUint32(utf8Uint32ToInt(uc)) == uc, "index of %x", uc);
    CHECK(utf8Uint32ToInt(0x4e00) == 0, "first character is not index 0");
    for (int k = 0; k < 50; k++) {
        int v = (int) rnd(20736);
        char *d = malloc(5); memset(d, 'z', 5);
        utf8IntToCharDuodecimal(v, d);
        int w = v;
        for (int i = 0; i < 4; i++, w /= 12) CHECK(d[i] == "0123456789ab"[w % 12], "digit %d of %d is %02x", i, v, (u8) d[i]);
        d[4] = 0;
        int r = utf8CharDuodecimalToInt(d);
        CHECK(r == v, "digits of %d convert back to %d", v, r);
        char t[14]; memset(t, 0, sizeof t);
        utf8IntToCharDuodecimal(v, t); utf8IntToCharDuodecimal((int) rnd(20736), t + 4); t[8] = 0;
        CHECK(utf8CharDuodecimalToInt(t) == v, "group followed by another one");
        free(d);
    }
    snprintf(h_desc, sizeof h_desc, "char %s", hex(s, 3));
    h_distinct++;
    free(a); free(o);
    return 0;
}
