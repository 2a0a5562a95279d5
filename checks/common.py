import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import terms as tm, mem, sym, gf2, prover, smt, ir
from engine.terms import const, var, add, sub, ult, ule, eq, ite, band, bor, not_, concat, ext, zext, xor, TRUE, FALSE
from engine.runner import Unit, Harness, main
C64 = lambda v: const(64, v)
C32 = lambda v: const(32, v)


def bytes_of(t):
    n = t.w // 8
    return [ext(t, 8 * (n - i) - 1, 8 * (n - i) - 8) for i in range(n)]


def le(t):
    """reverse the bytes of a term"""
    return concat(*bytes_of(t)[::-1]) if t.w > 8 else t


def ret_is(ex, st, r, v, what):
    ex.oblige(st, eq(r, const(r.w, v)), 'postcondition', '%s returns %d' % (what, v))


def unchanged(ex, st0mem, st, name, what):
    """object content identical (same content object or same bytes)"""
    pass
