"""The decimal environment of a thread, as a source of nondeterminism the simulator controls."""
import decimal

ROUNDINGS = (decimal.ROUND_HALF_EVEN, decimal.ROUND_FLOOR, decimal.ROUND_CEILING, decimal.ROUND_UP, decimal.ROUND_DOWN,
             decimal.ROUND_05UP, decimal.ROUND_HALF_DOWN)


def gen_context(ch):
    """A decimal context; the simplest is the default one."""
    prec = ch.pick([28, 1, 2, 3, 6, 9, 50, 200])
    rounding = ch.pick(ROUNDINGS)
    limits = ch.pick([(-999999, 999999), (-5, 5), (0, 0), (-100, 100)])
    traps = ch.pick([[decimal.InvalidOperation, decimal.DivisionByZero, decimal.Overflow], [],
                     [decimal.Inexact, decimal.Rounded, decimal.InvalidOperation, decimal.Subnormal, decimal.Overflow,
                      decimal.Underflow, decimal.Clamped], [decimal.Inexact], [decimal.FloatOperation]])
    return decimal.Context(prec=prec, rounding=rounding, Emin=limits[0], Emax=limits[1], capitals=ch.pick([1, 0]),
                           clamp=ch.pick([0, 1]), flags=[], traps=traps)


def switch(ch, ctx):
    decimal.setcontext(gen_context(ch))
    ctx.fault('decimal-context-switch')


def restore():
    decimal.setcontext(decimal.Context(prec=28, rounding=decimal.ROUND_HALF_EVEN, Emin=-999999, Emax=999999,
                                       capitals=1, clamp=0, flags=[],
                                       traps=[decimal.InvalidOperation, decimal.DivisionByZero, decimal.Overflow]))


def set_seeded(seed):
    import random
    from .core import Chooser
    decimal.setcontext(gen_context(Chooser(random.Random(seed))))
