"""profile one scenario job: tools_prof.py PROP SCENARIO PARAM SECONDS"""
import sys, time, cProfile, pstats, signal, importlib
sys.path.insert(0, "/verif")
sys.setrecursionlimit(20000)
import warnings; warnings.simplefilter("ignore")
import faulthandler
from symx import runner
prop, name, par, sec = sys.argv[1:5]
import glob, os
for f in sorted(glob.glob("/verif/harness/c*.py")):
    importlib.import_module("harness." + os.path.basename(f)[:-3])
sc = [s for s in runner.SCENARIOS[prop] if s["name"] == name][0]
param = [p for p in sc["params"] if runner.ptag(p) == par][0]
faulthandler.dump_traceback_later(float(sec) + 20, exit=True)
pr = cProfile.Profile()
pr.enable()
r = runner.run_job(sc, param, "quick", 1, (), time.time() + float(sec))
pr.disable()
pstats.Stats(pr).sort_stats("cumtime").print_stats(45)
print({k: v for k, v in r.items() if k not in ("functions", "lines", "samples")})
