PROPERTY = 'C29'
FILE = 'task_models/snap_circuit.py'
OLD = '        mask[part.id, location[0], location[1], location[2]] = 1\n'
NEW = '        mask[part.id, location[0], location[1], :location[2] + 1] = 1\n'
NEEDS = 'the same part at the same place, turned to an orientation of smaller number before it is turned'
BREAKS = 'a placing action refuses to explain a transition it describes'
DEMO = '''
from task_models.snap_circuit import SnapCircuitPart, SnapCircuitState, PlaceAction, NORTH, EAST
b, p = (3, 4), SnapCircuitPart(2, 'lamp')
a = PlaceAction(b, p, (1, 2, EAST))
before = SnapCircuitState(b, [((1, 2, NORTH), p)])
assert a.check(before, SnapCircuitState(b, [((1, 2, EAST), p)]))
assert a.check(before, SnapCircuitState(b, [((1, 2, EAST), p), ((1, 2, NORTH), p)]))
'''
