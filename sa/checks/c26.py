"""Errors of the context or of coordinates never become answers."""
from ..faults import fault_task
from ..qtasks import VALID
from ..queries import QUERIES

RULE = 'an error is not turned into an answer'
EXPLANATION = (
    'Exceptional control flow of all queries: every operation of the context '
    'and every comparison of coordinates on the paths of a query, told apart '
    'by the chain of calls leading to it, is taken to fail with each kind of '
    'error, and the exceptional path from there is followed through all '
    'handlers, generators and callbacks: it must leave the query as an '
    'error.')
ASSUMPTIONS = [
    VALID, 'ValueError, KeyError and IndexError are excepted: lookups of the '
    'sweep line and of vertices signal absence with them',
    'code outside the package passes errors on as its sources do']


def tasks(thorough):
    k = 5 if thorough else 1
    result = []
    for name in sorted(QUERIES, reverse=True):
        for family in ('grid', 'pool', 'catalogue'):
            for seed in (1, 2):
                result.append((fault_task, (name, family, 2600 + seed, 5 * k,
                                            RULE, 24 * k)))
    return result


FLOOR = {RULE: 3000}
