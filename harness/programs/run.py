"""run.py PROPERTY TIER OUT.json"""
import importlib, json, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import lib

prop, tier, out = sys.argv[1:4]
try:
    r = importlib.import_module(prop.lower()).check(lib.Engine(prop), tier)
except lib.NoVerdict as e:
    print(e)
    sys.exit(3)
with open(out, "w") as f:
    json.dump(r, f)
