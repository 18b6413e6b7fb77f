/* What the predicates on domains and the enumeration of values have to do (for checks/c10.py). */
#include "fd_values_c.c"
#include "fd_ref.h"

typedef WamWord *Var;
#define GROUND(x) (((x)[0] & TAG_MASK) == TAG_INT_MASK)
#define MIN_(x) (Range(x)->min)
#define MAX_(x) (Range(x)->max)

/* an integer or a variable: word w of tag t */
#define FDV(a)                                                          \
  WamWord w, t;                                                         \
                                                                        \
  DEREF(a, w, t);                                                       \
  if (t == TAG_REF_MASK)                                                \
    Pl_Err_Instantiation();                                             \
  if (t != TAG_FDV_MASK && t != TAG_INT_MASK)                           \
    Pl_Err_Type(pl_type_fd_variable, w);
#define X UnTag_FDV(w)
#define IF_INT(i, x) (t == TAG_INT_MASK ? (i) : (x))

Bool ref_Pl_Fd_Min_2(WamWord a, WamWord r) { FDV(a) return Pl_Un_Integer_Check(IF_INT(UnTag_INT(w), MIN_(X)), r); }
Bool ref_Pl_Fd_Max_2(WamWord a, WamWord r) { FDV(a) return Pl_Un_Integer_Check(IF_INT(UnTag_INT(w), MAX_(X)), r); }
Bool ref_Pl_Fd_Size_2(WamWord a, WamWord r) { FDV(a) return Pl_Un_Integer_Check(IF_INT(1, (PlLong) Nb_Elem(X)), r); }
Bool ref_Pl_Fd_Has_Extra_Cstr_1(WamWord a) { FDV(a) return IF_INT(FALSE, Range(X)->extra_cstr != 0); }
Bool ref_Pl_Fd_Has_Vector_1(WamWord a) { FDV(a) return IF_INT(FALSE, Range(X)->vec != NULL); }
Bool ref_Pl_Fd_Use_Vector_1(WamWord a) { FDV(a) return IF_INT(TRUE, Pl_Fd_Use_Vector(X) != 0); }

Bool ref_Pl_Fd_Vector_Max_1(WamWord r) { return Pl_Un_Integer_Check(pl_vec_max_integer, r); }
Bool ref_Pl_Fd_Max_Integer_1(WamWord r) { return Pl_Un_Integer_Check(INTERVAL_MAX_INTEGER, r); }

Bool ref_Pl_Fd_Set_Vector_Max_1(WamWord a)
{
  PlLong n = Pl_Rd_Positive_Check(a);

  if (n <= VECTOR_MAX_LIMIT)
    {
      Pl_Define_Vector_Size((int) n);
      return TRUE;
    }
  return FALSE;
}

/* the list of the values, in increasing order */
static Bool dom_(WamWord w, WamWord t, WamWord list)
{
  PlLong i, top;
  Var x;
  int j;

  if (t == TAG_INT_MASK)
    {
      if (!Pl_Get_List(list))
        return FALSE;
      if (!Pl_Unify_Integer(UnTag_INT(w)))
        return FALSE;
      list = Pl_Unify_Variable();
    }
  else if (x = X, Range(x)->vec == NULL)
    {
      top = MAX_(x);
      for (i = MIN_(x); i <= top; i++)
        {
          if (!Pl_Get_List(list))
            return FALSE;
          if (!Pl_Unify_Integer(i))
            return FALSE;
          list = Pl_Unify_Variable();
        }
    }
  else
    {
      EACH(Range(x), j)
        if (!Pl_Get_List(list))
          return FALSE;
        if (!Pl_Unify_Integer(j))
          return FALSE;
        list = Pl_Unify_Variable();
      DONE
    }
  return Pl_Get_Nil(list);
}

Bool ref_Pl_Fd_Dom_2(WamWord a, WamWord list)
{
  Pl_Check_For_Un_List(list);
  {
    FDV(a)
    return dom_(w, t, list);
  }
}

/* a variable, an integer or a list of them */
Bool ref_Pl_Fd_Domain_2(WamWord a, WamWord r)
{
  WamWord w, t;

  DEREF(a, w, t);
  if (t == TAG_REF_MASK || t == TAG_FDV_MASK || t == TAG_INT_MASK)
    return pl_fd_domain_r(w, r);
  EACH_OF(a, c)
    if (!pl_fd_domain_r(c[0], r))
      return FALSE;
  NEXT_OF(c)
  return TRUE;
}

static int low_(WamWord a)
{
  int n = Pl_Fd_Prolog_To_Value(a);

  return n < 0 ? 0 : n;
}

Bool ref_Pl_Fd_Domain_3(WamWord a, WamWord l, WamWord u)
{
  WamWord w, t;
  int min = low_(l), max = Pl_Fd_Prolog_To_Value(u);

  DEREF(a, w, t);
  if (t == TAG_REF_MASK || t == TAG_FDV_MASK || t == TAG_INT_MASK)
    return Pl_Fd_Domain_Interval(w, min, max);
  EACH_OF(a, c)
    if (!Pl_Fd_Domain_Interval(c[0], min, max))
      return FALSE;
  NEXT_OF(c)
  return TRUE;
}

Bool ref_Pl_Fd_Domain_Var_3(WamWord a, WamWord l, WamWord u)
{
  int min = low_(l), max = Pl_Fd_Prolog_To_Value(u);

  return Pl_Fd_Domain_Interval(a, min, max);
}

Bool ref_Pl_Fd_Domain_Interval(WamWord a, int min, int max)
{
  WamWord w, t;

  DEREF(a, w, t);
  if (t == TAG_INT_MASK)
    return UnTag_INT(w) >= min && UnTag_INT(w) <= max;
  if (t == TAG_FDV_MASK)
    return Pl_Fd_In_Interval(UnTag_FDV(w), min, max);
  if (t != TAG_REF_MASK)
    Pl_Err_Type(pl_type_fd_variable, w);
  if (min > max)
    return FALSE;
  if (min == max)
    return Pl_Get_Integer(min, a);
  Bind_UV(UnTag_REF(w), Tag_REF(Pl_Fd_New_Variable_Interval(min, max)));
  return TRUE;
}

/* value methods: 0 min, 1 max, 2 random, 3 middle, 4 bisect, 5/6 limits (min next / max next) */
int ref_Select_Value(Var x, int method)
{
  switch (method)
    {
    case 0:
    case 5:
      return MIN_(x);
    case 1:
    case 6:
      return MAX_(x);
    case 2:
      return Pl_Range_Ith_Elem(Range(x), (int) Pl_Random_Integer((int) Nb_Elem(x)) + 1);
    case 3:
    case 4:
      return Pl_Range_Ith_Elem(Range(x), (int) Nb_Elem(x) / 2);
    }
  return 0;
}

static void choice_(Var x, int extra, int method, int value)
{
  A(2) = value;
  A(1) = method;
  A(0) = (WamWord) x | extra;
  Pl_Create_Choice_Point((CodePtr) Prolog_Predicate(INDOMAIN_ALT, 0), 3);
}

/* the value selected, or (for bisection) the lower half again and again; the rest is left to the alternative */
Bool ref_Pl_Indomain_2(WamWord a, WamWord method_word)
{
  int method = Pl_Rd_C_Int(method_word), value;
  WamWord w, t;
  Var x;

  DEREF(a, w, t);
  if (t == TAG_REF_MASK)
    Pl_Err_Instantiation();
  if (t != TAG_INT_MASK && t != TAG_FDV_MASK)
    Pl_Err_Type(pl_type_fd_variable, w);
  x = UnTag_FDV(w);
  while (t != TAG_INT_MASK)
    {
      value = Select_Value(x, method);
      choice_(x, Range(x)->extra_cstr, method, value);
      if (method != 4)
        return Pl_Fd_Assign_Value_Fast(x, value);
      if (!Pl_Fd_In_Interval(x, 0, value))
        return FALSE;
      t = x[0] & TAG_MASK;
    }
  return TRUE;
}

Bool ref_Pl_Indomain_Alt_0(void)
{
  int method, value, extra;
  Var x;

  Pl_Delete_Choice_Point(3);
  SYS_VAR_FD_BCKTS++;
  x = (Var) (A(0) & ~1);
  extra = A(0) & 1;
  method = (int) A(1);
  value = (int) A(2);
  if (method == 4)
    return Pl_Fd_In_Interval(x, value + 1, INTERVAL_MAX_INTEGER) ? Pl_Indomain_2(x[0], Tag_INT(4)) : FALSE;
  if (!Pl_Fd_Remove_Value(x, value))
    {
      if (extra)
        Pl_Fd_Display_Extra_Cstr(x);
      return FALSE;
    }
  if (GROUND(x))
    {
      if (extra)
        Pl_Create_Choice_Point((CodePtr) Prolog_Predicate(EXTRA_CSTR_ALT, 0), 1);
      return TRUE;
    }
  if (method == 5)
    method = 6;
  else if (method == 6)
    method = 5;
  value = Select_Value(x, method);
  A(1) = method;
  A(2) = value;
  Pl_Create_Choice_Point((CodePtr) Prolog_Predicate(INDOMAIN_ALT, 0), 3);
  return Pl_Fd_Assign_Value_Fast(x, value);
}

Bool ref_Pl_Extra_Cstr_Alt_0(void)
{
  Var x = (Var) AB(B, 0);

  Pl_Delete_Choice_Point(0);
  Pl_Fd_Display_Extra_Cstr(x);
  return FALSE;
}

/* the variables of a list (not its integers), on the constraint stack */
Bool ref_Pl_Fd_Sel_Array_From_List_2(WamWord list, WamWord r)
{
  WamWord *a = CS, *p = a + 1, w, t;
  int n = 0;

  EACH_OF(list, c)
    DEREF(c[0], w, t);
    if (t == TAG_REF_MASK)
      Pl_Err_Instantiation();
    if (t != TAG_FDV_MASK && t != TAG_INT_MASK)
      Pl_Err_Type(pl_type_fd_variable, w);
    if (t == TAG_FDV_MASK)
      {
        n = n + 1;
        *p++ = (WamWord) UnTag_FDV(w);
      }
  NEXT_OF(c)
  a[0] = n;
  CS = p;
  return Pl_Get_Integer(a - Cstr_Stack, r);
}

/* is y to be preferred to x? */
Bool ref_Cmp_First_Fail(Var x, Var y) { return Nb_Elem(x) > Nb_Elem(y); }

Bool ref_Cmp_Most_Constrained(Var x, Var y)
{
  int a = (int) Nb_Elem(x), b = (int) Nb_Elem(y);

  return b == a ? Nb_Cstr(y) > Nb_Cstr(x) : b < a;
}

Bool ref_Cmp_Smallest(Var x, Var y)
{
  return MIN_(y) == MIN_(x) ? Nb_Cstr(y) > Nb_Cstr(x) : MIN_(y) < MIN_(x);
}

Bool ref_Cmp_Largest(Var x, Var y)
{
  return MAX_(y) == MAX_(x) ? Nb_Cstr(y) > Nb_Cstr(x) : MAX_(y) > MAX_(x);
}

Bool ref_Cmp_Max_Regret(Var x, Var y)
{
  int a = Pl_Range_Next_After(Range(x), MIN_(x)) - MIN_(x), b = Pl_Range_Next_After(Range(y), MIN_(y)) - MIN_(y);

  return b == a ? Nb_Cstr(y) > Nb_Cstr(x) : b > a;
}

/* the next variable to label, by variable method (0 given order .. 6 random): the first of those preferred to the others;
   with reorder it changes place with the one it is preferred to; ground variables are dropped when they are many */
static CmpFct pref_(PlLong method)
{
  return method == 1 ? Cmp_First_Fail : method == 2 ? Cmp_Most_Constrained : method == 3 ? Cmp_Smallest :
    method == 4 ? Cmp_Largest : method == 5 ? Cmp_Max_Regret : NULL;
}

Bool ref_Pl_Fd_Sel_Array_Pick_Var_4(WamWord sel, WamWord method, WamWord reorder, WamWord var)
{
  Var *a = (Var *) (Cstr_Stack + Pl_Rd_Integer_Check(sel)), *p, *q, *best = NULL, *end, x;
  int n = (int) (PlLong) a[0], ground = 0, i;
  Bool swap;
  PlLong m;
  CmpFct better = NULL;

  if (n == 0)
    return FALSE;
  end = a + 1 + n;
  swap = (Bool) Pl_Rd_Integer_Check(reorder);
  m = Pl_Rd_Integer_Check(method);
  if (m == 6)
    for (;;)
      {
        i = (int) Pl_Random_Integer(n);
        n = n - 1;
        end = end - 1;
        x = a[i + 1];
        a[i + 1] = *end;
        *end = x;
        if (!GROUND(x))
          {
            a[0] = (Var) (PlLong) n;
            return Pl_Unify(Tag_REF(x), var);
          }
        if (n == 0)
          return FALSE;
      }
  switch (m)
    {
    case 1: better = Cmp_First_Fail; break;
    case 2: better = Cmp_Most_Constrained; break;
    case 3: better = Cmp_Smallest; break;
    case 4: better = Cmp_Largest; break;
    case 5: better = Cmp_Max_Regret; break;
    }
  for (p = a + 1; p < end; p++)
    {
      x = *p;
      if (GROUND(x))
        ground++;
      else if (best == NULL)
        best = p;
      else if ((*better) (*best, x))
        {
          if (swap)
            {
              *p = *best;
              *best = x;
            }
          else
            best = p;
        }
    }
  if (best == NULL)
    return FALSE;
  x = *best;
  if (n > 50 && ground >= n / 2)
    {
      n = n - ground;
      a[0] = (Var) (PlLong) n;
      for (p = q = a + 1; n; p++)
        if (!GROUND(*p))
          {
            *q++ = *p;
            n--;
          }
    }
  return Pl_Unify(Tag_REF(x), var);
}
