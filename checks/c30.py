"""C30: start of the engine, calls from C and stacks against reference functions."""
from gpl import plref, refcheck

RULE = ('functions of the C units: same paths, calls, memory and value as a reference function')
UNITS = ['EnginePl/engine.c', 'EnginePl/main.c', 'EnginePl/unit_ctor.c', 'EnginePl/if_no_fd.c', 'EnginePl/stacks_sigsegv.c', 'Tools/hash_fct.c']


def run(rep):
    refcheck.units(rep, UNITS)
    return rep
