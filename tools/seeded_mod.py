"""The planted bugs as mutants for tools/mutate.py --mods seeded_mod."""
import os, json
_s = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
M = [dict(id=d, prop=json.load(open(f"{_s}/{d}/meta.json"))["property"], also=[], edits=[], patch=f"{_s}/{d}/patch.diff")
     for d in sorted(os.listdir(_s)) if os.path.exists(f"{_s}/{d}/patch.diff")]
