"""C21: reading terms against references."""
from gpl import plref, refcheck

RULE = ('functions of the C units: same paths, calls, choice points, memory and value as a reference function; '
        'predicates of the Prolog units: same goals, alternatives, commitments and unifications as the reference clauses')
UNITS = ['BipsPl/lexer_supp.c', 'BipsPl/parser_supp.c', 'BipsPl/read_c.c', 'BipsPl/oper_c.c', 'EnginePl/oper.c']
FILES = ['BipsPl/read.pl', 'BipsPl/oper.pl']


def run(rep):
    refcheck.units(rep, UNITS)
    plref.check(rep, FILES)
    return rep
