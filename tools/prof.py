"""profiles runs of a property in one process: profile.py <id> <n>"""
import cProfile, importlib, os, pstats, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
from sim import engine, native
native.build()
engine.install_seams()
engine.import_target()
mod = importlib.import_module('props.' + sys.argv[1].lower())
if hasattr(mod, 'warmup'):
    mod.warmup()
pr = cProfile.Profile()
pr.enable()
for s in range(int(sys.argv[2])):
    engine.execute(mod, 5000 + s)
pr.disable()
pstats.Stats(pr).sort_stats('cumtime').print_stats(45)
