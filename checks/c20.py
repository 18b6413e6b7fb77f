"""C20: atoms and text against references."""
from gpl import plref, refcheck

RULE = ('functions of the C units: same paths, calls, choice points, memory and value as a reference function; '
        'predicates of the Prolog units: same goals, alternatives, commitments and unifications as the reference clauses')
UNITS = ['EnginePl/atom.c', 'BipsPl/atom_c.c']
FILES = ['BipsPl/atom.pl']


def run(rep):
    refcheck.units(rep, UNITS)
    plref.check(rep, FILES)
    return rep
