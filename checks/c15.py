"""C15: list predicates written in C against reference functions."""
from gpl import plref, refcheck
from .c13 import LIST, SORT

RULE = 'functions of list_c.c: same paths, calls, choice points, memory and value as a reference function'


def run(rep):
    refcheck.check(rep, LIST, 'list', but=SORT)
    plref.check(rep, ['BipsPl/list.pl'])
    return rep
