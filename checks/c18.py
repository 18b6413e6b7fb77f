"""C18: control constructs, call/N, catch/throw, byte-code and calls from C against references."""
from gpl import plref, refcheck

RULE = ('functions of the C units: same paths, calls, choice points, memory and value as a reference function; '
        'predicates of the Prolog units: same goals, alternatives, commitments and unifications as the reference clauses')
UNITS = ['BipsPl/control_c.c', 'BipsPl/throw_c.c', 'BipsPl/callinf_supp.c', 'BipsPl/call_args_c.c', 'BipsPl/bc_supp.c', 'BipsPl/foreign_supp.c']
FILES = ['BipsPl/call.pl', 'BipsPl/call_args.pl', 'BipsPl/catch.pl', 'BipsPl/throw.pl', 'BipsPl/control.pl', 'BipsPl/foreign.pl', 'BipsPl/utils.pl']


def run(rep):
    refcheck.units(rep, UNITS)
    plref.check(rep, FILES)
    return rep
