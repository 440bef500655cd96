"""Runs the program as a process of its own: `python -m vf.cli EVENTS FAULTS-JSON [fora arguments]`."""
import atexit
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import env, stubconn, trace  # noqa: E402

events, faults = sys.argv[1:3]
del sys.argv[1:3]
sys.argv[0] = "fora"
env.bootstrap_fora()
stubconn.FAULTS.update(json.loads(faults))
stubconn.register()


@atexit.register
def dump():
    with open(events, "w") as f:
        json.dump(trace.events, f)


from fora.main import main  # noqa: E402
main()
