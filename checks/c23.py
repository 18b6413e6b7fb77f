"""C23: streams and characters against references."""
from gpl import plref, refcheck

RULE = ('functions of the C units: same paths, calls, choice points, memory and value as a reference function; '
        'predicates of the Prolog units: same goals, alternatives, commitments and unifications as the reference clauses')
UNITS = ['BipsPl/stream_supp.c', 'BipsPl/stream_c.c', 'BipsPl/char_io_c.c', 'BipsPl/const_io_c.c']
FILES = ['BipsPl/stream.pl', 'BipsPl/char_io.pl', 'BipsPl/const_io.pl', 'BipsPl/dec10io.pl']


def run(rep):
    refcheck.units(rep, UNITS)
    plref.check(rep, FILES)
    return rep
