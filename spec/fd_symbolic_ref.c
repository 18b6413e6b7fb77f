/* What the symbolic constraints (all different, element, cardinality), the sets of primes, the queries on domains and the
   enumeration of values have to do (for checks/c10.py, checks/c08.py). */
#include "fd_symbolic_c.c"
#include "fd_ref.h"

typedef WamWord *Var;
#define GROUND(x) (((x)[0] & TAG_MASK) == TAG_INT_MASK)
#define FITS(v) ((v) >= 0 && (v) <= pl_vec_max_integer)

static void fdarg_(WamWord a, WamWord *w, WamWord *t)
{
  WamWord x, y;

  DEREF(a, x, y);
  if (y != TAG_REF_MASK && y != TAG_INT_MASK && y != TAG_FDV_MASK)
    Pl_Err_Type(pl_type_fd_variable, x);
  *w = x;
  *t = y;
}

/* every pair of members */
Bool ref_Pl_Fd_All_Different_1(WamWord list, WamWord whole)
{
  WamWord w, t, x, tx;

  DEREF(list, w, t);
  if (t == TAG_REF_MASK)
    Pl_Err_Instantiation();
  if (w == NIL_WORD)
    return TRUE;
  if (t != TAG_LST_MASK)
    Pl_Err_Type(pl_type_list, whole);
  fdarg_(Car(UnTag_LST(w)), &x, &tx);
  if (!Fd_All_Different_Rec(Cdr(UnTag_LST(w)), tx, x, whole))
    return FALSE;
  return Pl_Fd_All_Different_1(Cdr(UnTag_LST(w)), whole);
}

Bool ref_Fd_All_Different_Rec(WamWord list, WamWord tx, WamWord x, WamWord whole)
{
  WamWord w, t, y, ty;
  int ok;

  DEREF(list, w, t);
  if (t == TAG_REF_MASK)
    Pl_Err_Instantiation();
  if (w == NIL_WORD)
    return TRUE;
  if (t != TAG_LST_MASK)
    Pl_Err_Type(pl_type_list, whole);
  fdarg_(Car(UnTag_LST(w)), &y, &ty);
  if (tx == TAG_INT_MASK && ty == TAG_INT_MASK)
    ok = y != x;
  else if (ty == TAG_INT_MASK)
    ok = pl_x_neq_c(x, y);
  else if (tx == TAG_INT_MASK)
    ok = pl_x_neq_c(y, x);
  else
    ok = pl_x_neq_y(x, y);
  if (!ok)
    return FALSE;
  return Fd_All_Different_Rec(Cdr(UnTag_LST(w)), tx, x, whole);
}

/* 1..n as a sparse set */
void ref_Pl_Fd_Element_I(Range *i, WamWord *l)
{
  i->extra_cstr = FALSE;
  i->vec = NULL;
  i->min = 1;
  i->max = (int) l[0];
  Pl_Range_Becomes_Sparse(i);
}

void ref_Pl_Fd_Element_Var_I(Range *i, WamWord *l) { ref_Pl_Fd_Element_I(i, l); }

/* { l[j] | j in i } */
void ref_Pl_Fd_Element_I_To_V(Range *v, Range *i, WamWord *l)
{
  int j;

  v->extra_cstr = i->extra_cstr;
  ALLOC(v->vec);
  Pl_Vector_Empty(v->vec);
  if (i->vec == NULL || i->max == i->min)
    for (j = i->min; j <= i->max; j++)
      {
        if (FITS(l[j]))
          PUT(v->vec, l[j]);
        else
          v->extra_cstr = TRUE;
      }
  else
    {
      EACH(i, j)
        if (FITS(l[j]))
          PUT(v->vec, l[j]);
        else
          v->extra_cstr = TRUE;
      DONE
    }
  Pl_Range_From_Vector(v);
}

/* { j | l[j] in v } */
void ref_Pl_Fd_Element_V_To_I(Range *i, Range *v, WamWord *l)
{
  int j, n;

  i->extra_cstr = v->extra_cstr;
  ALLOC(i->vec);
  Pl_Vector_Empty(i->vec);
  n = (int) l[0];
  for (j = 1; j <= n; j++)
    if (l[j] >= 0 && l[j] <= INTERVAL_MAX_INTEGER && Pl_Range_Test_Value(v, (int) l[j]))
      {
        if (j <= pl_vec_max_integer)
          PUT(i->vec, j);
        else
          i->extra_cstr = TRUE;
      }
  Pl_Range_From_Vector(i);
}

/* the union of the domains of l[j], j in i */
void ref_Pl_Fd_Element_Var_I_To_V(Range *v, Range *i, WamWord **l)
{
  int j;

  v->vec = NULL;
  EMPTY(v);
  v->extra_cstr = FALSE;
  if (i->vec == NULL || i->max == i->min)
    for (j = i->min; j <= i->max; j++)
      Pl_Range_Union(v, Range(l[j]));
  else
    {
      EACH(i, j)
        Pl_Range_Union(v, Range(l[j]));
      DONE
    }
}

/* { j | the domain of l[j] meets v } */
void ref_Pl_Fd_Element_Var_V_To_I(Range *i, Range *v, WamWord **l)
{
  int j, n;

  i->extra_cstr = v->extra_cstr;
  ALLOC(i->vec);
  Pl_Vector_Empty(i->vec);
  n = (int) (PlLong) l[0];
  for (j = 1; j <= n; j++)
    if (!Pl_Range_Test_Null_Inter(Range(l[j]), v))
      {
        if (j <= pl_vec_max_integer)
          PUT(i->vec, j);
        else
          i->extra_cstr = TRUE;
      }
  Pl_Range_From_Vector(i);
}

Bool ref_Pl_Fd_Element_V_To_Xi(int i, WamWord **l, Range *v)
{
  return GROUND(l[i]) ? Pl_Fd_Tell_Int_Range(l[i], v) : Pl_Fd_Tell_Range_Range(l[i], v);
}

/* the n unknown ones of l differ from v */
static Bool none_(WamWord **l, int size, int v)
{
  int j;

  for (j = 1; j <= size; j++)
    if (!GROUND(l[j]) && !Pl_Fd_Tell_Not_Value(l[j], v))
      return FALSE;
  return TRUE;
}

/* all those of l that can be v are */
static Bool all_(WamWord **l, int size, int v)
{
  int j;

  for (j = 1; j <= size; j++)
    if (Pl_Range_Test_Value(Range(l[j]), v) && !Pl_Fd_Tell_Value(l[j], v))
      return FALSE;
  return TRUE;
}

Bool ref_Pl_Fd_Atmost(int n, WamWord **l, int v)
{
  int size = (int) (PlLong) l[0], sure = 0, j;

  for (j = 1; j <= size; j++)
    if (l[j][0] == Tag_INT(v))
      sure++;
  if (sure > n)
    return FALSE;
  return sure == n ? none_(l, size, v) : TRUE;
}

Bool ref_Pl_Fd_Atleast(int n, WamWord **l, int v)
{
  int size = (int) (PlLong) l[0], may = size, j;

  for (j = 1; j <= size; j++)
    if (!Pl_Range_Test_Value(Range(l[j]), v))
      may--;
  if (may < n)
    return FALSE;
  return may == n ? all_(l, size, v) : TRUE;
}

Bool ref_Pl_Fd_Exactly(int n, WamWord **l, int v)
{
  int size = (int) (PlLong) l[0], sure = 0, may = size, j;

  for (j = 1; j <= size; j++)
    {
      if (l[j][0] == Tag_INT(v))
        sure++;
      else if (!Pl_Range_Test_Value(Range(l[j]), v))
        may--;
    }
  if (sure > n || n > may)
    return FALSE;
  if (sure == n)
    return none_(l, size, v);
  return may == n ? all_(l, size, v) : TRUE;
}
