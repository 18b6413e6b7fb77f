/* The instructions fd2c emits (fd_to_c.h): each one in a function, and what it has to do (for checks/c10.py, checks/c08.py). */
#include "fd_to_c.h"

PlLong g_(WamWord *AF);
PlLong h_(WamWord *AF);
Bool c_(int n);

typedef WamWord *Var;

#define LOCALS PlLong ret_val = TRUE; WamWord *fdv_adr = NULL;
#define END lab_exit: return ret_val;

/* terms */
int load_int(WamWord *AF, int i) { int v; fd_load_int(v, i) return v; }
int ref_load_int(WamWord *AF, int i) { return (int) AF[i]; }
WamWord load_any(WamWord *AF, int i) { WamWord v; fd_load_any(v, i) return v; }
WamWord ref_load_any(WamWord *AF, int i) { return AF[i]; }
int load_min(WamWord *AF, int i) { int v; WamWord *fdv_adr; fd_load_min(v, i) return v; }
int ref_load_min(WamWord *AF, int i) { return Range((Var) AF[i])->min; }
int load_max(WamWord *AF, int i) { int v; WamWord *fdv_adr; fd_load_max(v, i) return v; }
int ref_load_max(WamWord *AF, int i) { return Range((Var) AF[i])->max; }
int load_min_max(WamWord *AF, int i, int *m) { int v; WamWord *fdv_adr; fd_load_min_max(v, *m, i) return v; }
int ref_load_min_max(WamWord *AF, int i, int *m) { Range *r = Range((Var) AF[i]); *m = r->max; return r->min; }
PlLong load_val(WamWord *AF, int i, int *v) { LOCALS fd_load_val(*v, i) Pl_Fd_Tell_Value(fdv_adr, *v); END }
PlLong ref_load_val(WamWord *AF, int i, int *v)
{
  Var x = (Var) AF[i];

  if ((x[0] & TAG_MASK) != TAG_INT_MASK)
    return TRUE;
  *v = Range(x)->min;
  Pl_Fd_Tell_Value(x, *v);
  return TRUE;
}
WamWord *load_l_int(WamWord *AF, int i) { WamWord *v; fd_load_l_int(v, i) return v; }
WamWord *ref_load_l_int(WamWord *AF, int i) { return (WamWord *) AF[i]; }
WamWord *load_l_fdv(WamWord *AF, int i) { WamWord *v; fd_load_l_fdv(v, i) return v; }
WamWord *ref_load_l_fdv(WamWord *AF, int i) { return (WamWord *) AF[i]; }
WamWord *load_l_any(WamWord *AF, int i) { WamWord *v; fd_load_l_any(v, i) return v; }
WamWord *ref_load_l_any(WamWord *AF, int i) { return (WamWord *) AF[i]; }

/* ranges */
#define rr0 (*p)
#define rr1 (*q)
void range_interval(Range *p, int a, int b) { fd_range_interval(0, a, b) }
void ref_range_interval(Range *p, int a, int b) { p->min = a; p->max = b; p->extra_cstr = FALSE; p->vec = NULL; }
void load_range(WamWord *AF, int i, Range *p) { fd_load_range(0, i) }
void ref_load_range(WamWord *AF, int i, Range *p) { p->vec = NULL; Pl_Range_Copy(p, (Range *) AF[i]); }
void load_dom(WamWord *AF, int i, Range *p) { WamWord *fdv_adr; fd_load_dom(0, i) }
void ref_load_dom(WamWord *AF, int i, Range *p) { p->vec = NULL; Pl_Range_Copy(p, Range((Var) AF[i])); }
void range_union(Range *p, Range *q) { fd_range_union(0, 1) }
void ref_range_union(Range *p, Range *q) { Pl_Range_Union(p, q); }
void range_inter(Range *p, Range *q) { fd_range_inter(0, 1) }
void ref_range_inter(Range *p, Range *q) { Pl_Range_Inter(p, q); }
void range_compl(Range *p) { fd_range_compl(0) }
void ref_range_compl(Range *p) { Pl_Range_Compl(p); }
void range_empty(Range *p) { fd_range_empty(0) }
void ref_range_empty(Range *p) { p->vec = NULL; p->max = (int) (((unsigned) 1) << 31); }
int full_range(Range *p) { fd_range_full(0) return p->min; }
int ref_full_range(Range *p) { p->min = 0; p->max = INTERVAL_MAX_INTEGER; p->extra_cstr = FALSE; p->vec = NULL; return 0; }
void range_set_value(Range *p, int n) { fd_range_set_value(0, n) }
void ref_range_set_value(Range *p, int n) { Pl_Range_Set_Value(p, n); }
void range_reset_value(Range *p, int n) { fd_range_reset_value(0, n) }
void ref_range_reset_value(Range *p, int n) { Pl_Range_Reset_Value(p, n); }
void range_add_range(Range *p, Range *q) { fd_range_add_range(0, 1) }
void ref_range_add_range(Range *p, Range *q) { Pl_Range_Add_Range(p, q); }
void range_sub_range(Range *p, Range *q) { fd_range_sub_range(0, 1) }
void ref_range_sub_range(Range *p, Range *q) { Pl_Range_Sub_Range(p, q); }
void range_mul_range(Range *p, Range *q) { fd_range_mul_range(0, 1) }
void ref_range_mul_range(Range *p, Range *q) { Pl_Range_Mul_Range(p, q); }
void range_div_range(Range *p, Range *q) { fd_range_div_range(0, 1) }
void ref_range_div_range(Range *p, Range *q) { Pl_Range_Div_Range(p, q); }
void range_mod_range(Range *p, Range *q) { fd_range_mod_range(0, 1) }
void ref_range_mod_range(Range *p, Range *q) { Pl_Range_Mod_Range(p, q); }
void range_add_value(Range *p, int n) { fd_range_add_value(0, n) }
void ref_range_add_value(Range *p, int n) { Pl_Range_Add_Value(p, n); }
void range_sub_value(Range *p, int n, int m) { fd_range_sub_value(0, n + m) }
void ref_range_sub_value(Range *p, int n, int m) { Pl_Range_Add_Value(p, -(n + m)); }
void range_mul_value(Range *p, int n) { fd_range_mul_value(0, n) }
void ref_range_mul_value(Range *p, int n) { Pl_Range_Mul_Value(p, n); }
void range_div_value(Range *p, int n) { fd_range_div_value(0, n) }
void ref_range_div_value(Range *p, int n) { Pl_Range_Div_Value(p, n); }
void range_mod_value(Range *p, int n) { fd_range_mod_value(0, n) }
void ref_range_mod_value(Range *p, int n) { Pl_Range_Mod_Value(p, n); }
void range_copy(Range *p, Range *q) { fd_range_copy(0, 1) }
void ref_range_copy(Range *p, Range *q) { p->vec = NULL; Pl_Range_Copy(p, q); }
void range_fct(Range *p, Range *q) { fd_range_fct(0, Pl_Range_Inter(range_arg(0), range_arg(1))) }
void ref_range_fct(Range *p, Range *q) { p->vec = NULL; Pl_Range_Inter(p, q); }
int min_of_range(Range *p) { int v; fd_min_of_range(v, 0) return v; }
int ref_min_of_range(Range *p) { return p->min; }
int max_of_range(Range *p) { int v; fd_max_of_range(v, 0) return v; }
int ref_max_of_range(Range *p) { return p->max; }
void allocate(void) { fd_allocate Pl_Fd_Before_Add_Cstr(); fd_deallocate }
void ref_allocate(void) { WamWord *top = CS; CS = top + pl_vec_size; Pl_Fd_Before_Add_Cstr(); CS = top; }

/* tells */
PlLong tell_value(WamWord *AF, int i, int n) { LOCALS fd_tell_value(i, n) g_(AF); END }
PlLong ref_tell_value(WamWord *AF, int i, int n) { if (!Pl_Fd_Tell_Value((Var) AF[i], n)) return FALSE; g_(AF); return TRUE; }
PlLong tell_not_value(WamWord *AF, int i, int n) { LOCALS fd_tell_not_value(i, n) g_(AF); END }
PlLong ref_tell_not_value(WamWord *AF, int i, int n) { if (!Pl_Fd_Tell_Not_Value((Var) AF[i], n)) return FALSE; g_(AF); return TRUE; }
PlLong tell_interval(WamWord *AF, int i, int a, int b) { LOCALS fd_tell_interval(i, a, b) g_(AF); END }
PlLong ref_tell_interval(WamWord *AF, int i, int a, int b) { if (!Pl_Fd_Tell_Interval((Var) AF[i], a, b)) return FALSE; g_(AF); return TRUE; }
PlLong tell_range(WamWord *AF, int i, Range *p) { LOCALS fd_tell_range(i, 0) g_(AF); END }
PlLong ref_tell_range(WamWord *AF, int i, Range *p) { if (!Pl_Fd_Tell_Range((Var) AF[i], p)) return FALSE; g_(AF); return TRUE; }

/* control */
PlLong check_fct(WamWord *AF, int n) { LOCALS fd_check_fct(c_(n)) g_(AF); END }
PlLong ref_check_fct(WamWord *AF, int n) { if (!c_(n)) return FALSE; g_(AF); return TRUE; }
PlLong test_exit(WamWord *AF, int n) { LOCALS fd_test_exit_condition(n > 3) g_(AF); END }
PlLong ref_test_exit(WamWord *AF, int n) { if (n <= 3) g_(AF); return TRUE; }
PlLong test_fail(WamWord *AF, int n) { LOCALS fd_test_fail_condition((n > 3)) g_(AF); END }
PlLong ref_test_fail(WamWord *AF, int n) { if (n <= 3) return FALSE; g_(AF); return TRUE; }
PlLong test_switch(WamWord *AF, int n) { LOCALS fd_test_switch_condition(n > 3, h_) g_(AF); END }
PlLong ref_test_switch(WamWord *AF, int n) { if (n > 3) return (PlLong) h_; g_(AF); return TRUE; }
PlLong call_internal(WamWord *AF) { LOCALS fd_call_internal(h_) g_(AF); END }
PlLong ref_call_internal(WamWord *AF) { if (!h_(AF)) return FALSE; g_(AF); return TRUE; }
PlLong call_internal_switch(WamWord *AF, WamWord *CF) { LOCALS fd_call_internal_and_test_switch(h_) g_(AF); END }
PlLong ref_call_internal_switch(WamWord *AF, WamWord *CF)
{
  CstrFct f = (CstrFct) h_(AF);

  if (f == (CstrFct) FALSE)
    return FALSE;
  if (f != (CstrFct) TRUE)
    {
      if ((*f) (AF) == FALSE)
        return FALSE;
      Pl_Fd_Stop_Constraint(CF);
    }
  g_(AF);
  return TRUE;
}
PlLong call_internal_simple(WamWord *AF) { LOCALS fd_call_internal_and_test_switch_simple(h_) g_(AF); END }
PlLong ref_call_internal_simple(WamWord *AF)
{
  CstrFct f = (CstrFct) h_(AF);

  if (f == (CstrFct) FALSE)
    return FALSE;
  if (f != (CstrFct) TRUE && (*f) (AF) == FALSE)
    return FALSE;
  g_(AF);
  return TRUE;
}
PlLong forall(WamWord *AF, WamWord *l) { LOCALS fd_forall(2, l) fd_call_internal(h_) fd_forall_end END }
PlLong ref_forall(WamWord *AF, WamWord *l)
{
  int n = *l++;

  for (; n != 0; n--)
    {
      AF[2] = *l++;
      if (!h_(AF))
        return FALSE;
    }
  return TRUE;
}

/* installation */
WamWord *create_c_frame(WamWord *AF, int o) { WamWord *CF; fd_create_c_frame(h_, 3, o) return CF; }
WamWord *ref_create_c_frame(WamWord *AF, int o) { return Pl_Fd_Create_C_Frame(h_, AF, (Var) AF[3], o); }
WamWord *create_c_frame0(WamWord *AF, int o) { WamWord *CF; fd_create_c_frame(h_, -1, o) return CF; }
WamWord *ref_create_c_frame0(WamWord *AF, int o) { return Pl_Fd_Create_C_Frame(h_, AF, NULL, o); }
void depends(WamWord *AF, WamWord *CF)
{
  fd_add_dependency(1, min) fd_add_dependency(2, max) fd_add_dependency(3, min_max) fd_add_dependency(4, dom) fd_add_dependency(5, val)
}
void ref_depends(WamWord *AF, WamWord *CF)
{
  Pl_Fd_Add_Dependency((Var) AF[1], 0, CF);
  Pl_Fd_Add_Dependency((Var) AF[2], 1, CF);
  Pl_Fd_Add_Dependency((Var) AF[3], 2, CF);
  Pl_Fd_Add_Dependency((Var) AF[4], 3, CF);
  Pl_Fd_Add_Dependency((Var) AF[5], 4, CF);
}
void list_depends(WamWord *AF, WamWord *CF)
{
  fd_add_list_dependency(1, min) fd_add_list_dependency(2, max) fd_add_list_dependency(3, min_max) fd_add_list_dependency(4, dom)
  fd_add_list_dependency(5, val)
}
void ref_list_depends(WamWord *AF, WamWord *CF)
{
  Pl_Fd_Add_List_Dependency((Var) AF[1], 0, CF);
  Pl_Fd_Add_List_Dependency((Var) AF[2], 1, CF);
  Pl_Fd_Add_List_Dependency((Var) AF[3], 2, CF);
  Pl_Fd_Add_List_Dependency((Var) AF[4], 3, CF);
  Pl_Fd_Add_List_Dependency((Var) AF[5], 4, CF);
}
void stop_constraint(WamWord *AF, int i) { fd_stop_constraint(i) }
void ref_stop_constraint(WamWord *AF, int i) { if (AF[i]) Pl_Fd_Stop_Constraint((WamWord *) AF[i]); }
PlLong after_add(PlLong ret_val) { fd_after_add_constraint return ret_val; }
PlLong ref_after_add(PlLong r) { return Pl_Fd_After_Add_Cstr((Bool) r); }
void before_add(void) { fd_before_add_constraint }
void ref_before_add(void) { Pl_Fd_Before_Add_Cstr(); }

/* arguments */
void args(WamWord fd_a, WamWord fd_b, WamWord fd_c, WamWord *CF)
{
  WamWord *AF;

  fd_create_a_frame(8)
  fd_int_in_a_frame(a, 0)
  fd_any_in_a_frame(b, 1)
  fd_range_in_a_frame(c, 2)
  fd_fdv_in_a_frame(a, 3)
  fd_l_int_in_a_frame(b, 4)
  fd_l_fdv_in_a_frame(c, 5)
  fd_l_any_in_a_frame(a, 6)
  fd_cf_in_a_frame(7)
}
void ref_args(WamWord a, WamWord b, WamWord c, WamWord *CF)
{
  WamWord *f = CS;

  CS = f + 8;
  f[0] = (WamWord) Pl_Fd_Prolog_To_Value(a);
  f[1] = b;
  f[2] = (WamWord) Pl_Fd_Prolog_To_Range(c);
  f[3] = (WamWord) Pl_Fd_Prolog_To_Fd_Var(a, TRUE);
  f[4] = (WamWord) Pl_Fd_Prolog_To_Array_Int(b);
  f[5] = (WamWord) Pl_Fd_Prolog_To_Array_Fdv(c, TRUE);
  f[6] = (WamWord) Pl_Fd_Prolog_To_Array_Any(a);
  f[7] = (WamWord) CF;
}
