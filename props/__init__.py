"""Registry of the decided properties: id -> Prop (harness source, obligations, assumptions)."""
import importlib


class Prop:
    def __init__(s, pid, src, gen, assumptions=()):
        s.id, s.src, s.gen, s.assumptions = pid, src, gen, assumptions

    def obligations(s, tier, rnd):
        return s.gen(tier, rnd)


MODULES = ['arith', 'text', 'misc', 'math']
REG = {}


def register(pid, src, assumptions=()):
    def deco(f):
        REG[pid] = Prop(pid, src, f, assumptions)
        return f
    return deco


def load():
    for m in MODULES:
        importlib.import_module('props.' + m)
    return REG


def get(pid):
    return load()[pid]
