"""twin.py <jobs.json> <out.json>: replays the fits of recorded histories in another process (other hash seed, other
global random state)."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import parallel, _cleanup  # noqa: E402
import life  # noqa: E402

jobs = json.load(open(sys.argv[1]))
json.dump(parallel(life.drive, [dict(j, twin=True) for j in jobs]), open(sys.argv[2], "w"))
_cleanup()
