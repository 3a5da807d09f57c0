"""Why are runs outside the workload? outside.py PROPERTY [RUNS]"""
import collections
import importlib
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim.core import InvalidScenario, Stats, rng_for  # pylint: disable=wrong-import-position
prop = importlib.import_module('sim.props.' + sys.argv[1].lower())
counts = collections.Counter()
for index in range(int(sys.argv[2]) if len(sys.argv) > 2 else 1000):
    scn = prop.generate(rng_for(1, prop.ID, index), index, 'quick')
    try:
        prop.run(scn, Stats())
        counts['inside'] += 1
    except InvalidScenario as exc:
        counts[str(exc)] += 1
print(counts)
