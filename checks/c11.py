"""C11: unification, the instructions of compiled code and the choice points against reference functions."""
from gpl import prep, refcheck

RULE = 'functions of wam_inst.c / unify.c: same paths, calls, memory and value as a reference function'
E = 'EnginePl'
WAM = refcheck.Spec([(E, prep.SRC + '/EnginePl/wam_inst.c'), (E, refcheck.SPEC + '/wam_inst_ref.c')], over=refcheck.NOLINE, stable={'pl_reg_bank'},
                    opaque={'Pl_Unify', 'Pl_Unify_Occurs_Check', 'Check_If_Var_Occurs', 'ref_Check_If_Var_Occurs', 'Pl_Untrail', 'Pl_Create_Atom', 'Pl_Obtain_Float'},
                    keep=('Check_If_Var_Occurs', 'Pl_Obtain_Float', 'Pl_Create_Atom'))


def run(rep):
    refcheck.check(rep, WAM, 'wam_inst')
    return rep
