"""C19: clauses and predicates against references."""
from gpl import plref, refcheck

RULE = ('functions of the C units: same paths, calls, choice points, memory and value as a reference function; '
        'predicates of the Prolog units: same goals, alternatives, commitments and unifications as the reference clauses')
UNITS = ['BipsPl/dynam_supp.c', 'BipsPl/assert_c.c', 'BipsPl/pred_c.c', 'BipsPl/pred_supp.c', 'EnginePl/pred.c', 'EnginePl/hash_tbl.c']
FILES = ['BipsPl/assert.pl', 'BipsPl/pred.pl']


def run(rep):
    refcheck.units(rep, UNITS)
    plref.check(rep, FILES)
    return rep
