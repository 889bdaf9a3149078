"""Nothing to build ahead: every check rebuilds what it needs from /repo."""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/engine')
import spec, conc, gen, replay  # noqa: the framework loads
print('ok', len(spec.CUTS), 'contracts')
