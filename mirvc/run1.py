import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from prog import Prog
import engine, sem, contracts


def mk(dump='/tmp/d.json', mode='expr', **o):
    p = Prog(dump)
    th = sem.Sem(p)
    reg = contracts.build(th, p, mode)
    contracts.check_signatures(reg, p)
    return engine.Engine(p, th, reg, o)
