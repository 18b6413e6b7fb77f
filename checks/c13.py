"""C13: standard order of terms and sorting against reference functions."""
from gpl import plref, prep, refcheck

RULE = 'comparison of term_supp.c / term_inl_c.c and sorts of sort_c.c: same paths, calls, memory and value as a reference function'
E = 'BipsPl'
PL = ('!Pl_Rd_Compound', 'Pl_*', 'pl_*', 'Copy_Term_Rec', 'Term_Hash_Rec', 'Merge_Sort')
KEEP = ('Pl_Obtain_Float', 'Pl_Term_Compare', 'strcmp', 'Pl_Rd_Positive_Check', 'Pl_Rd_Integer*', 'Pl_Rd_Boolean_Check', 'Pl_List_Length', 'Pl_Term_Size', 'Pl_Blt_*',
        'Chk_Pair', 'Get_Pair')
TERM = refcheck.Spec([(E, prep.SRC + '/BipsPl/term_supp.c'), (E, prep.SRC + '/BipsPl/term_inl_c.c'), (E, prep.SRC + '/BipsPl/type_inl_c.c'),
                      (E, prep.SRC + '/BipsPl/c_supp.c'), (E, refcheck.SPEC + '/term_ref.c')],
                     over=refcheck.NOLINE, stable={'pl_reg_bank'}, opaque=PL, keep=KEEP)
LIST = refcheck.Spec([(E, prep.SRC + '/BipsPl/sort_c.c'), (E, prep.SRC + '/BipsPl/list_c.c'), (E, refcheck.SPEC + '/list_ref.c')],
                     over=refcheck.NOLINE, stable={'pl_reg_bank'}, opaque=PL, keep=KEEP)
ORDER = {'Pl_Term_Compare', 'Pl_Blt_Term_Eq', 'Pl_Blt_Term_Neq', 'Pl_Blt_Term_Lt', 'Pl_Blt_Term_Lte', 'Pl_Blt_Term_Gt', 'Pl_Blt_Term_Gte', 'Pl_Blt_Compare'}
SORT = {'Chk_Pair', 'Get_Pair', 'Keysort_Cmp', 'Merge_Sort', 'Pl_Sort_List_1', 'Pl_Sort_List_2'}

ORDER_PL = {('compare', 3)} | {(n, 2) for n in ('==', '\\==', '@<', '@=<', '@>', '@>=')}


def run(rep):
    refcheck.check(rep, TERM, 'order', only=ORDER)
    refcheck.check(rep, LIST, 'sort', only=SORT)
    plref.check(rep, ['BipsPl/sort.pl'])
    plref.check(rep, ['BipsPl/term_inl.pl'], only=ORDER_PL)
    return rep
