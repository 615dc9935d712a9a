import os, sys, importlib
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pibem import check
REG = {
    "F01": "fma", "F02": "fma", "F03": "fma", "F04": "fma", "F05": "expansion",
    "N01": "nodes", "N02": "nodes", "N04": "nodes", "N03": "constrained",
    "N05": "pureflux", "L01": "lifecycle", "L02": "driver", "L03": "params", "G01": "geom", "G02": "geom", "P01": "parallel", "P02": "parallel",
    "B01": "fields", "B02": "fields", "B03": "fields",
    "B04": "krylov", "B05": "kernel",
}
pid, tier = sys.argv[1], sys.argv[2]
m = importlib.import_module("pibem.checks." + REG[pid])
sys.exit(check.main(pid, tier, getattr(m, pid)))
