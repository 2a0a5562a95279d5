from fpe import *

F = FILES


def maxlen(r):
    """longest string with both halves below 2^96"""
    m = 0
    while r ** (m + 1) <= 1 << 96:
        m += 1
    return 2 * m


QUICK = [(10, n, 8) for n in range(2, 26)] + [(10, n, 8) for n in (55, 56)] + [(2, 191, 8), (2, 192, 8)]
QUICK += [(r, n, 8) for r in range(2, 37) for n in ((2, 7) if r % 2 else (3, 12))] + [(r, maxlen(r), 8) for r in range(5, 37, 3)]
QUICK += [(10, 7, t) for t in (0, 1, 3, 4, 5, 7, 9, 16, 33, 64, 65, 256)]
MORE = [(10, n, 8) for n in range(2, 57)]
MORE += [(r, n, 8) for r in range(2, 37) for n in sorted({2, 3, 7, 12, 19, maxlen(r) - 1, maxlen(r)}) if n <= maxlen(r)]
MORE += [(10, n, t) for n in (6, 11) for t in range(0, 20)]
UNITS = shape_units('FF3', 'ff3', ff3, QUICK, MORE)
UNITS += [Unit('characters', u_map, F), Unit('short strings', u_short('ff3', 40), F), Unit('context', u_init, F)]
H = Harness('p16.c', F, quick_s=4, extra=['-lcrypto', '-lm'])
if __name__ == '__main__':
    sys.exit(main('P16', UNITS, H))
