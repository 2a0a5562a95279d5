from fpe import *

F = FILES
QUICK = [(10, n, 8) for n in range(2, 25)] + [(r, n, 8) for r in range(2, 37) for n in ((2, 7) if r % 2 else (3, 16))]
QUICK += [(10, 6, t) for t in range(0, 20)] + [(10, 11, 0), (26, 31, 33)]
QUICK += [(10, 70, 0), (36, 46, 0), (16, 60, 0), (10, 56, 7), (10, 57, 0), (10, 60, 3), (36, 40, 9), (2, 192, 4), (2, 201, 8), (16, 129, 15)]
QUICK += [(10, 6, t) for t in (31, 32, 33, 47, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000)] + [(2, 255, 1), (2, 256, 1), (2, 257, 1), (2, 513, 3)]
MORE = [(10, n, t) for n in range(2, 61) for t in (0, 1, 7)] + [(r, n, 8) for r in range(2, 37) for n in (2, 3, 4, 5, 7, 8, 16, 19, 33)]
MORE += [(10, n, t) for n in (5, 11) for t in range(0, 66)] + [(10, 61, 16), (10, 80, 11), (36, 38, 5), (36, 64, 16), (26, 100, 1), (10, 200, 8), (10, 300, 3)]
UNITS = shape_units('FF1', 'ff1', ff1, QUICK, MORE)
UNITS += [Unit('characters', u_map, F), Unit('short strings', u_short('ff1', 40), F), Unit('context', u_init, F)]
H = Harness('p15.c', F, quick_s=4, extra=['-lcrypto', '-lm'])
if __name__ == '__main__':
    sys.exit(main('P15', UNITS, H))
