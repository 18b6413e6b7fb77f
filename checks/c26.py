"""C26: consulting, reading sources, translation of grammar rules, top level, debugger against references."""
from gpl import plref, refcheck

RULE = ('functions of the C units: same paths, calls, choice points, memory and value as a reference function; '
        'predicates of the Prolog units: same goals, alternatives, commitments and unifications as the reference clauses')
UNITS = ['BipsPl/consult_c.c', 'BipsPl/src_rdr_c.c', 'BipsPl/expand_c.c', 'BipsPl/debugger_c.c', 'BipsPl/top_level_c.c', 'BipsPl/le_interf_c.c']
FILES = ['BipsPl/consult.pl', 'BipsPl/src_rdr.pl', 'BipsPl/expand.pl', 'BipsPl/debugger.pl', 'BipsPl/top_level.pl', 'BipsPl/le_interf.pl']


def run(rep):
    refcheck.units(rep, UNITS)
    plref.check(rep, FILES)
    return rep
