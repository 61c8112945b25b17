"""Aggregates, orderings, grouping and hashing compute the documented result."""
from ..kcheck import sweep

EXPLAIN = ('Abstract evaluation of every native function registered for the documented builtins of this family, found through the '
           'registry initialisation itself, on opaque argument elements (one partition per undetermined comparison); the result must be '
           'the term that the documented meaning denotes on the same elements, element by element and with the documented length. ')
ASSUME = ['lists of the lengths listed in jfa/kspec.py (0 to 4 opaque elements; 8 to 33 where the code works in blocks)',
          'floating point sums associate left to right; libm functions are opaque',
          'no NaN elements',
          'SortedMedian gets a sorted list',
          'a group without elements has no documented value']


def run(ctx):
    sweep(ctx, ('aggregate',), ('value',))
    ctx.need('value', 1000)
