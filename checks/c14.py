"""C14: type tests, inspection, construction, copies, variables and hashing of terms against reference functions."""
from gpl import plref, refcheck
from .c13 import ORDER, ORDER_PL, TERM

RULE = 'functions of type_inl_c.c, term_inl_c.c and term_supp.c: same paths, calls, memory and value as a reference function'


def run(rep):
    refcheck.check(rep, TERM, 'term', but=ORDER)
    plref.check(rep, ['BipsPl/term_inl.pl', 'BipsPl/type_inl.pl'], but=ORDER_PL)
    return rep
