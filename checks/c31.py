"""C31: the line editor against reference functions."""
from gpl import plref, refcheck

RULE = ('functions of the C units: same paths, calls, memory and value as a reference function')
UNITS = ['Linedit/linedit.c', 'Linedit/terminal.c', 'Linedit/completion.c', 'Linedit/ctrl_c.c']


def run(rep):
    refcheck.units(rep, UNITS)
    return rep
