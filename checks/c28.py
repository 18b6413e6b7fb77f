"""C28: the compiler of FD constraint definitions (fd2c) against reference clauses."""
from gpl import plref, refcheck

RULE = ('predicates of the Prolog units: same goals, alternatives, commitments and unifications as the reference clauses')
FILES = ['Fd2C/%s.pl' % x for x in ('compile', 'fd2c', 'parse', 'read_file')]


def run(rep):
    plref.check(rep, FILES)
    return rep
