"""Records the integer relation searches behind the scale estimates; run by hand."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from sim import boot, faster  # noqa: E402

if os.path.exists(faster.TABLE):
    os.unlink(faster.TABLE)
boot.load()
faster.install(record=True)
from sim import models, work  # noqa: E402
from neutrinomass.database.closures import neutrino_mass_estimate, numerical_np_scale_estimate  # noqa: E402

for op in sorted(set(work.ALL_SCALES) | set(models.OPS)):
    for e in neutrino_mass_estimate(work.operators()[op]):
        numerical_np_scale_estimate(e)
with open(faster.TABLE, "w") as f:
    json.dump(faster.SEEN, f, indent=0, sort_keys=True)
print(len(faster.SEEN))
