"""Invalid arguments are reported at run time, valid ones never are."""
from ..kcheck import sweep

EXPLAIN = ('Abstract evaluation of every registered native function on argument shapes the documentation rules out (differing lengths, short or '
           'oversized bitmaps, counts or stray bits that contradict the bitmap, group ids outside the group count, results beyond 2^32-1 elements '
           'or characters): an error must be recorded in the execution context; on every documented shape none may be. ')
ASSUME = ['lists of the lengths listed in jfa/kspec.py (0 to 4 opaque elements; 8 to 33 where the code works in blocks)']


def run(ctx):
    sweep(ctx, None, ('reports-error', 'no-spurious-error'))
    ctx.need('reports-error', 1500)
    ctx.need('no-spurious-error', 6000)
