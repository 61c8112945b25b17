"""Native list and string functions never touch memory outside their arguments and results."""
from ..kcheck import sweep

EXPLAIN = ('Abstract evaluation of every registered native function on arguments whose memory is modelled exactly (bounds, null, uninitialised '
           'reads, overlap of memcpy, arena blocks of the requested size): no access outside, no unwritten result element, no invalid iterator '
           'order, no exception; the first arena request on lists with stated lengths up to 2^32-1 covers the whole result; counters and copies '
           'of lengths in every evaluated function keep at least 32 unsigned bits. ')
ASSUME = ['lists of the lengths listed in jfa/kspec.py (0 to 4 opaque elements; 8 to 33 where the code works in blocks)',
          'Arena::Allocate returns a block of the requested size, or null for zero bytes']


def run(ctx):
    sweep(ctx, None, ('memory', 'allocation-covers-result', 'lengths-keep-width'))
    ctx.need('memory', 6000)
    ctx.need('allocation-covers-result', 2000)
    ctx.need('lengths-keep-width', 300)
