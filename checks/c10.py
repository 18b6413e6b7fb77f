"""C10: operations on FD ranges and FD variables against reference functions."""
from gpl import plref, prep, refcheck
from gpl.sem import A, off, scale

RULE = 'functions of fd_range.c / fd_inst.c: same paths, calls, memory and value as a reference function'
G = lambda n: A(('ld', A(('g', n))))


def vec(F, args):
    F.add_ge(off(G('pl_vec_size'), -1))
    F.add_ge(off(scale(G('pl_vec_size'), -1), 1 << 20))
    F.add_ge(off(G('pl_vec_max_integer'), -1))


STABLE = {'pl_vec_size', 'pl_vec_max_integer'}
E = 'EngineFD'
RANGE = refcheck.Spec([(E, prep.SRC + '/EngineFD/fd_range.c'), (E, refcheck.SPEC + '/range_ref.c')], stable=STABLE, facts=vec,
                      opaque={'Pl_Vector*', 'Pl_Range_From_Vector', 'Pl_Range_Union'}, keep=('Pl_Vector*',))
INST = refcheck.Spec([(E, refcheck.SPEC + '/fd_inst_ref.c')], stable=STABLE, facts=vec, over=refcheck.NOTRAIL,
                     opaque={'Pl_Fd_Before_Add_Cstr', 'Pl_Fd_After_Add_Cstr', 'Clear_Queue', 'Pl_Fd_Tell_Value',
                             'Pl_Fd_Tell_Not_Value', 'Pl_Fd_Tell_Interval', 'Pl_Fd_Tell_Range', 'Pl_Fd_Tell_Interv_Interv',
                             'Pl_Fd_Tell_Range_Range', 'Pl_Fd_Tell_Int_Range', 'Pl_Fd_Display_Extra_Cstr', 'Pl_Fd_New_Variable_Interval',
                             'Pl_Fd_New_Variable_Interval', 'Pl_Fd_New_Int_Variable', 'Pl_Fd_List_Int_To_Range', 'Pl_Fd_Add_Dependency',
                             'Pl_Fd_Unify_With_Integer0', 'Pl_Fd_Stop_Constraint'},
                     keep=('Pl_Range_Test_Value', 'Pl_Range_Nb_Elem', 'Pl_Vector_Next_After', 'Pl_Vector_Next_Before', 'Pl_Fd_Display_Extra_Cstr'))


MACROS = refcheck.Spec([(E, refcheck.SPEC + '/fd_macros_ref.c')], stable=STABLE, facts=vec)


B = 'BipsFD'
PL = ('Pl_*', 'pl_*', 'Cmp_*', 'Fd_All_Different_Rec', 'Select_Value', 'Find_Expon_General')
OPER = refcheck.Spec([(B, refcheck.SPEC + '/fd_oper_ref.c')], stable=STABLE, facts=vec, opaque=PL,
                     keep=('Pl_Power', 'Pl_Nth_Root_*', 'Pl_Sqrt_*', 'Pl_Find_Expon_*', 'Pl_Most_Significant_Bit'))
SYMB = refcheck.Spec([(B, refcheck.SPEC + '/fd_symbolic_ref.c')], stable=STABLE, facts=vec, opaque=PL,
                     keep=('Pl_Range_Test_Value', 'Pl_Range_Test_Null_Inter'))
PRIME = refcheck.Spec([(B, refcheck.SPEC + '/fd_prime_ref.c')], stable=STABLE, facts=vec, opaque=PL, keep=('Pl_Vector_Next_After',), over=refcheck.NOLINE)
VALUES = refcheck.Spec([(B, prep.SRC + '/BipsFD/fd_infos_c.c'), (B, refcheck.SPEC + '/fd_values_ref.c')], stable=STABLE, facts=vec, opaque=PL,
                       keep=('Pl_Rd_*', 'Cmp_*', 'Pl_Range_Ith_Elem', 'Pl_Range_Next_After'), over=refcheck.NOTRAIL)


def constraints(rep):
    """what the rules of the .fd constraints rely on (also for checks.c08)"""
    n = refcheck.check(rep, RANGE, 'fd_range')
    n += refcheck.check(rep, INST, 'fd_inst')
    n += refcheck.check(rep, MACROS, 'fd_to_c')
    n += refcheck.check(rep, OPER, 'oper_supp')
    n += refcheck.check(rep, SYMB, 'fd_symbolic_c')
    n += refcheck.check(rep, PRIME, 'fd_prime_c')
    return n


def run(rep):
    constraints(rep)
    refcheck.check(rep, VALUES, 'fd_infos_c, fd_values_c')
    refcheck.units(rep, ['EngineFD/fd_range.c'], only={'Pl_Vector_Add_Vector', 'Pl_Vector_Sub_Vector', 'Pl_Vector_Mul_Vector', 'Pl_Range_Mul_Range',
                                                      'Pl_Range_Div_Range', 'Pl_Range_Mod_Range', 'Pl_Range_To_String'})
    refcheck.units(rep, ['EngineFD/fd_inst.c'], only={'Pl_Fd_Init_Solver0', 'Fd_Inst_Initializer', 'Pl_Fd_Unify_With_Fd_Var0', 'Pl_Fd_Variable_To_String0',
                                                     'Pl_Fd_Display_Extra_Cstr', 'All_Propagations'})
    plref.check(rep, ['BipsFD/fd_values.pl', 'BipsFD/fd_optim.pl', 'BipsFD/fd_infos.pl', 'BipsFD/fd_prime.pl', 'BipsFD/fd_symbolic.pl'])
    return rep
