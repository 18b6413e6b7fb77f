"""C27: the Prolog to WAM compiler (pl2wam) against reference clauses."""
from gpl import plref, refcheck

RULE = ('predicates of the Prolog units: same goals, alternatives, commitments and unifications as the reference clauses')
FILES = ['Pl2Wam/%s.pl' % x for x in ('code_gen', 'first_arg', 'indexing', 'inst_codif', 'internal', 'pl2wam', 'read_file', 'reg_alloc', 'syn_sugar', 'wam_emit')]


def run(rep):
    plref.check(rep, FILES)
    return rep
