"""setup_cmd: nothing has to be built; shows that the simulator starts and that every check can be imported."""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim.props import index  # noqa: E402
from sim import core  # noqa: E402

for pid in sorted(index.MODULES):
    prop = index.get(pid)
    out = core.run_index(prop, 1, 0)
    if out.harness is not None:
        print(out.harness)
        sys.exit(1)
    print(pid, 'ok')
