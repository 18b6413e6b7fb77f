"""C17: findall/3,4, bagof/3 and setof/3 (all_solut_c.c) against reference functions."""
from gpl import plref, prep, refcheck

RULE = 'functions of all_solut_c.c: same paths, calls, choice points, memory and value as a reference function'
E = 'BipsPl'
ALL = refcheck.Spec([(E, prep.SRC + '/BipsPl/all_solut_c.c'), (E, refcheck.SPEC + '/allsol_ref.c')], over=refcheck.NOLINE, stable={'pl_reg_bank'},
                    opaque=('Pl_*', 'pl_*', 'Bound_Var', 'Free_Var', 'Link_Key_Var', 'Existential_Variables', 'Group', 'Handle_Key_Variables', 'Drop_Solutions_After'),
                    keep=('Pl_Term_Compare', 'Pl_Term_Size', 'Pl_Rd_Integer', 'Pl_Rd_C_Int'))


def run(rep):
    refcheck.check(rep, ALL, 'solutions')
    plref.check(rep, ['BipsPl/all_solut.pl'])
    return rep
