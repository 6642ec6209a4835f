import json
import os
from . import c_weights  # noqa
from . import c_sticks  # noqa
from . import c_finite  # noqa
from . import c_base  # noqa
from . import c_like  # noqa
from . import c_help
from . import c_mix  # noqa
from . import c_front  # noqa
from .con import CONTRACTS, Contract

# the contracts whose functions draw variates (found by tools/mkexpected.py --drawing)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "drawing.json")) as fh:
    DRAWING = json.load(fh)
seen = {}
for _c in list(CONTRACTS):
    if _c.prop != "C27" and (DRAWING is None or _c.name in DRAWING) and _c.name not in seen:
        seen[_c.name] = 1
        CONTRACTS.append(Contract("C27", _c.func, _c.f, "source[%s]" % _c.name, False, dict(_c.opts, source=True)))
