"""C09  Hierarchical tasks become valid observation and cost models (turn-taking)."""
from .comm import *
CONTRACTS = [Times(), MakeLeaf()] + [c(k) for c in (Answers, Costs) for k in (LEAF, SEQ, ALT)] + [Build(), Model('O')]
LEVEL = 'proof'
NOTE = ('filling of the observations and costs of steps and of combinations of up to 3 children (of any size, through the contract '
        'itself), terminal states and construction of the whole model for any task')
EXPLANATION = 'proved for trees of any depth and size whose combinations have at most 3 children; more children by the oracle'
ASSUMPTIONS = [
    'BASE, ACT, ABASE, ASTEP, AFOLLOWS, ROB are spec functions of the laid out task, fixed at the leaves and by the children of combinations',
    'POMDP.__init__ has its own contract (C02)']
LEMMAS = ['Sums.lean']
