PROPERTY = 'C30'
FILE = 'task_models/tower_problem.py'
OLD = "        return [i * self.h + h for h in range(self.h) for i in range(self.n)]"
NEW = "        return sorted(range(self.n_parts), key=lambda p: str(p % self.h).zfill(1))"
NEEDS = 'towers of more than ten levels'
BREAKS = 'levels are ordered by their decimal text, so level 10 comes before level 2'
DEMO = '''
from task_models.tower_problem import TowerProblem
for h in (1, 2, 5, 11, 12):
    for n in (1, 2, 3):
        o = list(TowerProblem(h, n).h_first())
        assert o == [i * h + l for l in range(h) for i in range(n)], (h, n, o)
'''
