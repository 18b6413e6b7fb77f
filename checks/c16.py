"""C16: how built-ins take and give back their arguments (c_supp.c) against reference functions."""
from gpl import prep, refcheck

RULE = 'functions of c_supp.c: same paths, errors, calls, memory and value as a reference function'
E = 'BipsPl'
PL = ('!Pl_Rd_Integer', '!Pl_Rd_Positive', '!Pl_Rd_Atom', '!Pl_Check_For_Un_Atom', 'Pl_*', 'pl_*')
KEEP = ('Pl_Obtain_Float', 'Pl_Rd_*_Check', 'Pl_Blt_*', 'Pl_Check_For_*')
ARGS = refcheck.Spec([(E, prep.SRC + '/BipsPl/c_supp.c'), (E, refcheck.SPEC + '/args_ref.c')], over=refcheck.NOLINE, stable={'pl_reg_bank'},
                     opaque=PL, keep=KEEP)


def run(rep):
    refcheck.check(rep, ARGS, 'arguments')
    return rep
