"""Native functions never modify their arguments."""
from ..kcheck import sweep

EXPLAIN = ('Abstract evaluation of every registered native function; after each completed partition every element of every argument (list '
           'elements, string characters, string descriptors) must still hold the term it was created with. ')
ASSUME = ['lists of the lengths listed in jfa/kspec.py (0 to 4 opaque elements; 8 to 33 where the code works in blocks)']


def run(ctx):
    sweep(ctx, None, ('inputs-unchanged',))
    ctx.need('inputs-unchanged', 8000)
