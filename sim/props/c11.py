"""C11 a book valued through time answers by the documented rules."""
from .. import feed
from ..feed import execute, show, shrink  # noqa F401

ID = 'C11'
RUNS = {'quick': 16000, 'thorough': 400000}
RECHECK = 120
RULE = ('a run is a seeded book fed by a publisher over a simulated network '
        '(delay, reorder, duplicates, loss, corruption), with a moving and '
        'jumping clock, faults of collaborators, checkpoints, torn '
        'checkpoints, crashes, restarts and heals; non-trivial: at least one '
        'valuation; distinct by the digest of the event log')
REAL = ['all of dcf', 'pickle', 'scipy.integrate.quad',
        'businessdate (bd worlds)', 'datetime.date (date worlds)']
STUB = ['network, publisher, disk and clock of the desk',
        'date package (sim worlds)', 'user day counts',
        'user interpolation', 'user callables', 'user payoffs',
        'user models']
ASSUMPTIONS = [
    'the reference model states the documented rules; where it defines '
    'nothing the answer is not judged (counted in the evidence)',
    '1e-8 relative; closed formulas of options to the accuracy of the '
    'normal distribution in use (2e-7)']
THEMES = ('rates', 'rates', 'rates', 'options', 'credit', 'fx', 'vol',
          'plain', 'rating')


def query(gen):
    return gen.query()


def plan(rng, tier):
    return feed.plan(rng, THEMES, query)
