"""C08  Hierarchical tasks become valid transition models (turn-taking)."""
from .comm import *
CONTRACTS = [Layout(MOD), Starts(MOD), MakeLeaf(), Kinds(MOD), Build(), Moves(LEAF), Moves(SEQ), Moves(ALT), Model('T')]
LEVEL = 'proof'
NOTE = ('layout, first states, filling of the transition rows of steps and of combinations of up to 3 children (of any size, through '
        'the contract itself), construction of the whole model for any task')
EXPLANATION = 'proved for trees of any depth and size whose combinations have at most 3 children; more children by the oracle'
TRUSTED = ['numpy: row sums of equal rows are equal (extensionality of sums); 0 < exp(x) <= 1 for x <= 0']
ASSUMPTIONS = [
    'BASE, FOLLOWS and the first states are spec functions of the laid out task, fixed at the leaves and by the children of combinations',
    'durations are not negative, that of the human is positive, probabilities are in [0, 1]',
    'POMDP.__init__ has its own contract (C02)']
LEMMAS = ['Sums.lean']
