"""String functions build exactly the documented strings."""
from ..kcheck import sweep

EXPLAIN = ('Abstract evaluation of every native function registered for the documented builtins of this family, found through the '
           'registry initialisation itself, on opaque argument elements (one partition per undetermined comparison); the result must be '
           'the term that the documented meaning denotes on the same elements, element by element and with the documented length. ')
ASSUME = ['lists of the lengths listed in jfa/kspec.py (0 to 4 opaque elements; 8 to 33 where the code works in blocks)',
          'decimal formatting and parsing (to_chars, from_chars) are opaque but must be asked for the right value, base and range']


def run(ctx):
    sweep(ctx, ('string',), ('value',))
    ctx.need('value', 200)
