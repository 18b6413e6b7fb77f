/* What the updates of FD variables have to do: reference functions for checks/c10.py and checks/c08.py, compiled together
   with the engine's own fd_inst.c (its static state is shared).  Trailing is left out on both sides (property C06). */
#include "fd_inst.c"

typedef WamWord *Var;

#define DATE_(x) FD_INT_Date(x)
#define MIN_(x) (Range(x)->min)
#define MAX_(x) (Range(x)->max)

static Bool ground_(Var x) { return (FD_Tag_Value(x) & TAG_MASK) == TAG_INT_MASK; }

static void stamp_(Var x) { Range_Stamp(x) = STAMP; }

/* the chains of x in mask have to be run again */
static void wake_(Var x, int mask)
{
  WamWord m = (WamWord) mask & Chains_Mask(x);

  if (m == 0)
    return;
  if (Queue_Propag_Mask(x) == 0)
    {
      Queue_Propag_Mask(x) = m;
      Queue_Next_Fdv_Adr(TP) = x;
      TP = x;
    }
  else
    Queue_Propag_Mask(x) = Queue_Propag_Mask(x) | m;
}

/* x becomes the integer n of its domain; -> what changed */
static int assign_(Var x, int n)
{
  int m = MASK_MIN_MAX | MASK_DOM | MASK_VAL;

  /* when its word needs trailing, so does the range */
  if (&FD_Tag_Value(x) < CSB(B) && Range_Stamp(x) != STAMP)
    stamp_(x);
  Nb_Elem(x) = 1;
  if (MIN_(x) != n)
    {
      MIN_(x) = n;
      m |= MASK_MIN;
    }
  if (MAX_(x) != n)
    {
      MAX_(x) = n;
      m |= MASK_MAX;
    }
  Vec(x) = NULL;
  FD_Tag_Value(x) = Tag_INT(n);
  DATE_(x) = DATE;
  return m;
}

static Bool has_(Range *r, int n)
{
  if (n < r->min || n > r->max)
    return FALSE;
  if (r->vec == NULL || n == r->min || n == r->max)
    return TRUE;
  return Pl_Range_Test_Value(r, n);
}

static void interval_(Range *r, int min, int max)
{
  r->extra_cstr = FALSE;
  r->min = min;
  r->max = max;
  r->vec = NULL;
}

Bool ref_Pl_Fd_Tell_Value(Var x, int n)
{
  if (!Pl_Range_Test_Value(Range(x), n))
    {
      if (Range(x)->extra_cstr && n > pl_vec_max_integer)
        Pl_Fd_Display_Extra_Cstr(x);
      return FALSE;
    }
  if (!ground_(x))
    wake_(x, assign_(x, n));
  return TRUE;
}

Bool ref_Pl_Fd_Tell_Not_Value(Var x, int n)
{
  Range *r = Range(x);
  int min, max;

  for (;;)
    {
      if (!Pl_Range_Test_Value(r, n))
        return TRUE;
      if (ground_(x))
        {
          if (r->extra_cstr)
            Pl_Fd_Display_Extra_Cstr(x);
          return FALSE;
        }
      min = r->min;
      max = r->max;
      if (r->vec != NULL || n == min || n == max)
        break;
      /* a hole: needs a vector */
      if (min > pl_vec_max_integer)
        {
          Pl_Fd_Display_Extra_Cstr(x);
          return FALSE;
        }
      if (min == pl_vec_max_integer)
        {
          Pl_Fd_Display_Extra_Cstr(x);
          wake_(x, assign_(x, min));
          return TRUE;
        }
      if (Range_Stamp(x) != STAMP)
        stamp_(x);
      Pl_Range_Becomes_Sparse(r);
      Nb_Elem(x) = r->max - r->min + 1;
      if (r->extra_cstr)
        wake_(x, MASK_MAX | MASK_MIN_MAX | MASK_DOM);
    }
  if (Nb_Elem(x) == 2)
    {
      wake_(x, assign_(x, n == min ? max : min));
      return TRUE;
    }
  if (Range_Stamp(x) != STAMP)
    stamp_(x);
  if (r->vec != NULL)
    {
      VecWord bit = (VecWord) 1 << (n & 63);
      r->vec[(VecWord) n >> 6] &= ~bit;
    }
  Nb_Elem(x) = Nb_Elem(x) - 1;
  if (n == min)
    {
      r->min = r->vec == NULL ? n + 1 : Pl_Vector_Next_After(r->vec, n);
      wake_(x, MASK_DOM | MASK_MIN | MASK_MIN_MAX);
    }
  else if (n == max)
    {
      r->max = r->vec == NULL ? n - 1 : Pl_Vector_Next_Before(r->vec, n);
      wake_(x, MASK_DOM | MASK_MAX | MASK_MIN_MAX);
    }
  else
    wake_(x, MASK_DOM);
  return TRUE;
}

Bool ref_Pl_Fd_Tell_Int_Range(Var x, Range *range)
{
  int n = MIN_(x);

  if (Pl_Range_Test_Value(range, n))
    return TRUE;
  if (range->extra_cstr && n > pl_vec_max_integer)
    Pl_Fd_Display_Extra_Cstr(x);
  return FALSE;
}

Bool ref_Pl_Fd_Tell_Interv_Interv(Var x, int min, int max)
{
  int m;

  if (min < MIN_(x))
    min = MIN_(x);
  if (max > MAX_(x))
    max = MAX_(x);
  if (min > max)
    return FALSE;
  if (min == max)
    {
      wake_(x, assign_(x, min));
      return TRUE;
    }
  if (Nb_Elem(x) == max - min + 1)
    return TRUE;
  if (Range_Stamp(x) != STAMP)
    stamp_(x);
  m = MASK_MIN_MAX | MASK_DOM;
  if (MIN_(x) != min)
    m |= MASK_MIN;
  if (MAX_(x) != max)
    m |= MASK_MAX;
  Nb_Elem(x) = max - min + 1;
  MIN_(x) = min;
  MAX_(x) = max;
  wake_(x, m);
  return TRUE;
}

Bool ref_Pl_Fd_Tell_Range_Range(Var x, Range *range)
{
  WamWord *top = CS;
  Range *r = Range(x);
  int nb, m = 0;

  CS = (range->vec != NULL ? (WamWord *) range->vec : top) + pl_vec_size;
  Pl_Range_Inter(range, r);
  CS = top;
  if (range->min > range->max)
    {
      if (range->extra_cstr)
        Pl_Fd_Display_Extra_Cstr(x);
      return FALSE;
    }
  if (range->min == range->max)
    {
      if (range->extra_cstr)
        Pl_Fd_Display_Extra_Cstr(x);
      wake_(x, assign_(x, range->min));
      return TRUE;
    }
  nb = Pl_Range_Nb_Elem(range);
  if (r->min != range->min)
    m |= MASK_MIN | MASK_MIN_MAX;
  if (r->max != range->max)
    m |= MASK_MAX | MASK_MIN_MAX;
  if (Nb_Elem(x) != nb)
    m |= MASK_DOM;
  if (m != 0 || (r->vec == NULL && range->vec != NULL))
    {
      if (Range_Stamp(x) != STAMP)
        stamp_(x);
      Nb_Elem(x) = nb;
      Pl_Range_Copy(r, range);
    }
  else if (r->extra_cstr != range->extra_cstr)
    {
      if (Range_Stamp(x) != STAMP)
        stamp_(x);
      r->extra_cstr = range->extra_cstr;
      m |= MASK_DOM;
    }
  if (m)
    wake_(x, m);
  return TRUE;
}

Bool ref_Pl_Fd_Tell_Interval(Var x, int min, int max)
{
  Range range;

  if (ground_(x))
    return min <= MIN_(x) && MIN_(x) <= max;
  if (Range(x)->vec == NULL)
    return Pl_Fd_Tell_Interv_Interv(x, min, max);
  interval_(&range, min, max);
  return Pl_Fd_Tell_Range_Range(x, &range);
}

Bool ref_Pl_Fd_Tell_Range(Var x, Range *range)
{
  return ground_(x) ? Pl_Fd_Tell_Int_Range(x, range) : Pl_Fd_Tell_Range_Range(x, range);
}

Bool ref_Pl_Fd_In_Interval(Var x, int min, int max)
{
  Pl_Fd_Before_Add_Cstr();
  return Pl_Fd_After_Add_Cstr(Pl_Fd_Tell_Interval(x, min, max));
}

Bool ref_Pl_Fd_In_Range(Var x, Range *range)
{
  Pl_Fd_Before_Add_Cstr();
  return Pl_Fd_After_Add_Cstr(Pl_Fd_Tell_Range(x, range));
}

Bool ref_Pl_Fd_Unify_With_Integer0(Var x, PlLong n)
{
  if (n < 0 || n > INTERVAL_MAX_INTEGER)
    return FALSE;
  Pl_Fd_Before_Add_Cstr();
  return Pl_Fd_After_Add_Cstr(Pl_Fd_Tell_Value(x, (int) n));
}

Bool ref_Pl_Fd_Remove_Value(Var x, int n)
{
  Pl_Fd_Before_Add_Cstr();
  return Pl_Fd_After_Add_Cstr(Pl_Fd_Tell_Not_Value(x, n));
}

Bool ref_Pl_Fd_Assign_Value_Fast(Var x, int n)
{
  Pl_Fd_Before_Add_Cstr();
  wake_(x, assign_(x, n));
  return Pl_Fd_After_Add_Cstr(TRUE);
}

Bool ref_Pl_Fd_Use_Vector(Var x)
{
  Range range;
  WamWord *top;

  if (Range(x)->vec != NULL)
    return TRUE;
  Pl_Fd_Before_Add_Cstr();
  top = CS;
  CS = top + pl_vec_size;
  interval_(&range, 0, INTERVAL_MAX_INTEGER);
  Pl_Range_Becomes_Sparse(&range);
  CS = top;
  return Pl_Fd_After_Add_Cstr(Pl_Fd_Tell_Range_Range(x, &range));
}

Var ref_Pl_Fd_New_Variable_Interval(int min, int max)
{
  Var x = CS;

  CS = x + FD_VARIABLE_FRAME_SIZE;
  FD_Tag_Value(x) = Tag_FDV(x);
  DATE_(x) = DATE_ALWAYS;
  Queue_Propag_Mask(x) = 0;
  Queue_Next_Fdv_Adr(x) = NULL;
  stamp_(x);
  Nb_Elem(x) = max - min + 1;
  interval_(Range(x), min, max);
  Chains_Stamp(x) = STAMP;
  Nb_Cstr(x) = 0;
  Chains_Mask(x) = 0;
  Chain_Min(x) = NULL;
  Chain_Max(x) = NULL;
  Chain_Min_Max(x) = NULL;
  Chain_Dom(x) = NULL;
  Chain_Val(x) = NULL;
  return x;
}

Var ref_Pl_Fd_New_Variable(void) { return Pl_Fd_New_Variable_Interval(0, INTERVAL_MAX_INTEGER); }

Var ref_Pl_Fd_New_Variable_Range(Range *r)
{
  Var x = Pl_Fd_New_Variable_Interval(0, INTERVAL_MAX_INTEGER);

  Pl_Range_Copy(Range(x), r);
  Nb_Elem(x) = Pl_Range_Nb_Elem(r);
  return x;
}

Var ref_Pl_Fd_New_Int_Variable(int n)
{
  Var x = CS;

  CS = x + FD_INT_VARIABLE_FRAME_SIZE;
  FD_Tag_Value(x) = Tag_INT(n);
  DATE_(x) = DATE_NEVER;
  Queue_Propag_Mask(x) = 0;
  Queue_Next_Fdv_Adr(x) = NULL;
  stamp_(x);
  Nb_Elem(x) = 1;
  interval_(Range(x), n, n);
  return x;
}

int ref_Pl_Fd_Variable_Size0(Var x)
{
  return Range(x)->vec == NULL ? FD_VARIABLE_FRAME_SIZE : FD_VARIABLE_FRAME_SIZE + pl_vec_size;
}

int ref_Pl_Fd_Copy_Variable0(WamWord *to, Var x)
{
  WamWord *top = CS, *end;

  CS = to;
  Pl_Fd_New_Variable();
  Nb_Elem(to) = Nb_Elem(x);
  Pl_Range_Copy(Range(to), Range(x));
  end = CS;
  CS = top;
  return (int) (end - to);
}

/* a variable is 0..1 */
Bool ref_Pl_Fd_Check_For_Bool_Var(WamWord x_word)
{
  WamWord word, tag_mask;
  Var x;
  Range range;

  DEREF(x_word, word, tag_mask);
  if (tag_mask == TAG_REF_MASK)
    {
      WamWord *adr = UnTag_REF(word);

      x = Pl_Fd_New_Variable_Interval(0, 1);
      Bind_UV(adr, Tag_REF(x));
      return TRUE;
    }
  if (tag_mask == TAG_INT_MASK)
    return UnTag_INT(word) >= 0 && UnTag_INT(word) <= 1;
  if (tag_mask != TAG_FDV_MASK)
    Pl_Err_Type(pl_type_fd_variable, word);
  x = UnTag_FDV(word);
  if (MIN_(x) > 1)
    return FALSE;
  if (MAX_(x) <= 1)
    return TRUE;
  if (MIN_(x) == 1)
    return Pl_Fd_Unify_With_Integer0(x, 1);
  if (!Pl_Range_Test_Value(Range(x), 1))
    return Pl_Fd_Unify_With_Integer0(x, 0);
  Pl_Fd_Before_Add_Cstr();
  if (Range(x)->vec == NULL)
    return Pl_Fd_After_Add_Cstr(Pl_Fd_Tell_Interv_Interv(x, 0, 1));
  interval_(&range, 0, 1);
  return Pl_Fd_After_Add_Cstr(Pl_Fd_Tell_Range_Range(x, &range));
}

/* --- posting and propagation */

void ref_Pl_Fd_Reset_Solver0(void)
{
  STAMP = 0;
  DATE = 1;
  TP = dummy_fd_var;
}

void ref_Pl_Fd_Before_Add_Cstr(void)
{
  DATE = DATE + 1;
  if (DATE == 0)
    DATE = 1;
  TP = dummy_fd_var;
}

WamWord *ref_Pl_Fd_Create_C_Frame(CstrFct fct, WamWord *AF, Var x, Bool optim2)
{
  WamWord *cf = CS;

  CS = cf + CONSTRAINT_FRAME_SIZE;
  AF_Pointer(cf) = AF;
  if (optim2 && x != NULL)
    Optim_Pointer(cf) = &DATE_(x);
  else
    Optim_Pointer(cf) = &optim2_date_always;
  Cstr_Address(cf) = fct;
  if (x != NULL && !ground_(x))
    {
      if (Chains_Stamp(x) != STAMP)
        Chains_Stamp(x) = STAMP;
      Nb_Cstr(x) = Nb_Cstr(x) + 1;
    }
  return cf;
}

void ref_Pl_Fd_Add_Dependency(Var x, int chain, WamWord *cf)
{
  WamWord **head = &Chain_Min(x) + chain, *rec;

  if (ground_(x))
    return;
  if (Chains_Stamp(x) != STAMP)
    Chains_Stamp(x) = STAMP;
  Chains_Mask(x) |= ((WamWord) 1 << chain);
  rec = CS;
  CF_Pointer(rec) = cf;
  Next_Chain(rec) = *head;
  *head = rec;
  CS = rec + CHAIN_RECORD_FRAME_SIZE;
}

void ref_Pl_Fd_Add_List_Dependency(WamWord *array, int chain, WamWord *cf)
{
  PlLong n;

  for (n = *array++; n != 0; n--)
    Pl_Fd_Add_Dependency((Var) (*array++), chain, cf);
}

void ref_Pl_Fd_Stop_Constraint(WamWord *cf)
{
  Optim_Pointer(cf) = &optim2_date_never;
}

static void forget_(void)
{
  WamWord *x;

  if (TP == dummy_fd_var)
    return;
  x = Queue_Next_Fdv_Adr(dummy_fd_var);
  Queue_Propag_Mask(x) = 0;
  while (x != TP)
    {
      x = Queue_Next_Fdv_Adr(x);
      Queue_Propag_Mask(x) = 0;
    }
  TP = dummy_fd_var;
}

Bool ref_Pl_Fd_After_Add_Cstr(Bool ok)
{
  Var x;
  WamWord mask, *rec, **chain, *cf, *af;
  PlULong *d, date = DATE;
  CstrFct f;

  if (!ok)
    {
      Clear_Queue();
      return FALSE;
    }
  if (TP == dummy_fd_var)
    return TRUE;
  x = Queue_Next_Fdv_Adr(dummy_fd_var);
  for (;;)
    {
      mask = Queue_Propag_Mask(x);
      Queue_Propag_Mask(x) = MASK_TO_KEEP_IN_QUEUE;
      for (chain = &Chain_Min(x); mask; chain++, mask >>= 1)
        {
          if (!(mask & 1))
            continue;
          rec = *chain;
          do
            {
              cf = CF_Pointer(rec);
              d = Optim_Pointer(cf);
              if (*d == DATE_ALWAYS || *d == date)
                {
                  f = Cstr_Address(cf);
                  af = AF_Pointer(cf);
                  f = (CstrFct) (*f) (af);
                  if (f == (CstrFct) FALSE)
                    goto fail;
                  if (f != (CstrFct) TRUE)
                    {
                      if (!(*f) (af))
                        goto fail;
                      Pl_Fd_Stop_Constraint(cf);
                    }
                }
              rec = Next_Chain(rec);
            }
          while (rec != NULL);
        }
      Queue_Propag_Mask(x) &= (MASK_TO_KEEP_IN_QUEUE - 1);
      if (Queue_Propag_Mask(x) == 0)
        {
          if (x == TP)
            break;
          x = Queue_Next_Fdv_Adr(x);
        }
    }
  TP = dummy_fd_var;
  return TRUE;

 fail:
  Queue_Next_Fdv_Adr(dummy_fd_var) = x;
  Clear_Queue();
  return FALSE;
}

void ref_Clear_Queue(void) { forget_(); }

/* --- from Prolog */

Var ref_Pl_Fd_Prolog_To_Fd_Var(WamWord arg_word, Bool pl_var_ok)
{
  WamWord word, tag_mask;

  DEREF(arg_word, word, tag_mask);
  if (tag_mask == TAG_REF_MASK)
    {
      WamWord *adr = UnTag_REF(word);
      Var x;

      if (!pl_var_ok)
        Pl_Err_Instantiation();
      x = Pl_Fd_New_Variable();
      Bind_UV(adr, Tag_REF(x));
      return x;
    }
  if (tag_mask == TAG_INT_MASK)
    return Pl_Fd_New_Int_Variable((int) UnTag_INT(word));
  if (tag_mask == TAG_FDV_MASK)
    return UnTag_FDV(word);
  Pl_Err_Type(pl_type_fd_variable, word);
  return NULL;
}

int ref_Pl_Fd_Prolog_To_Value(WamWord arg_word)
{
  PlLong v = Pl_Rd_Integer_Check(arg_word);

  return v > INTERVAL_MAX_INTEGER ? INTERVAL_MAX_INTEGER : v < -INTERVAL_MAX_INTEGER ? -INTERVAL_MAX_INTEGER : (int) v;
}

Range *ref_Pl_Fd_Prolog_To_Range(WamWord list_word)
{
  Range *r = (Range *) CS;

  CS = (WamWord *) (r + 1);
  r->vec = NULL;
  Pl_Fd_List_Int_To_Range(r, list_word);
  return r;
}

#include "fd_ref.h"

/* the integers of a list; those that do not fit in a vector are lost and the domain says so */
void ref_Pl_Fd_List_Int_To_Range(Range *r, WamWord list)
{
  int some = 0;
  WamWord v;

  r->extra_cstr = FALSE;
  if (r->vec == NULL)
    ALLOC(r->vec);
  Pl_Vector_Empty(r->vec);
  EACH_OF(list, c)
    v = Pl_Fd_Prolog_To_Value(c[0]);
    if ((unsigned) v <= (unsigned) pl_vec_max_integer)
      {
        some++;
        PUT(r->vec, v);
      }
    else
      r->extra_cstr = TRUE;
  NEXT_OF(c)
  if (some)
    Pl_Range_From_Vector(r);
  else
    EMPTY(r);
}

/* an array on the constraint stack: number of members, then the members */
WamWord *ref_Pl_Fd_Prolog_To_Array_Int(WamWord list)
{
  WamWord *a = CS, *p = a + 1, w, t;
  int n = 0;

  EACH_OF(list, c)
    DEREF(c[0], w, t);
    if (t == TAG_REF_MASK)
      Pl_Err_Instantiation();
    if (t != TAG_INT_MASK)
      Pl_Err_Type(pl_type_integer, w);
    *p++ = UnTag_INT(w);
    n = n + 1;
  NEXT_OF(c)
  a[0] = n;
  CS = p;
  return a;
}

WamWord *ref_Pl_Fd_Prolog_To_Array_Any(WamWord list)
{
  WamWord *a = CS, *p = a + 1;
  int n = 0;

  EACH_OF(list, c)
    *p++ = c[0];
    n = n + 1;
  NEXT_OF(c)
  a[0] = n;
  CS = p;
  return a;
}

/* the array is reserved before its members create variables */
WamWord *ref_Pl_Fd_Prolog_To_Array_Fdv(WamWord list, Bool var_ok)
{
  WamWord *a, *p, l = list, w, t;
  int n = 0;

  for (;;)
    {
      DEREF(l, w, t);
      if (t != TAG_LST_MASK)
        break;
      n = n + 1;
      l = Cdr(UnTag_LST(w));
    }
  a = CS;
  CS = a + 1 + n;
  p = a + 1;
  EACH_OF(list, c)
    *p++ = (WamWord) Pl_Fd_Prolog_To_Fd_Var(c[0], var_ok);
  NEXT_OF(c)
  a[0] = n;
  return a;
}
