"""C22: writing terms against references."""
from gpl import plref, refcheck

RULE = ('functions of the C units: same paths, calls, choice points, memory and value as a reference function; '
        'predicates of the Prolog units: same goals, alternatives, commitments and unifications as the reference clauses')
UNITS = ['BipsPl/write_supp.c', 'BipsPl/write_c.c', 'BipsPl/format_c.c', 'BipsPl/pretty_c.c']
FILES = ['BipsPl/write.pl', 'BipsPl/print.pl', 'BipsPl/format.pl', 'BipsPl/pretty.pl']


def run(rep):
    refcheck.units(rep, UNITS)
    plref.check(rep, FILES)
    return rep
