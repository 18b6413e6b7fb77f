/* What the functions of sort_c.c and list_c.c are to do. */
#include "engine_pl.h"
#include "bips_pl.h"
#include "wam_ref.h"

extern WamWord minus_2;
PlLong Keysort_Cmp(WamWord u, WamWord v);
int Merge_Sort(WamWord *base, WamWord *aux, int n, Bool keep_dup, PlLong (*cmp)(WamWord u, WamWord v));
void Chk_Pair(WamWord t);
WamWord Get_Pair(WamWord t);

void ref_Chk_Pair(WamWord t)
{
  WamWord w, tag;

  DEREF(t, w, tag);
  if (tag == TAG_REF_MASK)
    return;
  if (tag == TAG_STC_MASK && Functor_And_Arity(UnTag_STC(w)) == minus_2)
    return;
  Pl_Err_Type(pl_type_pair, w);
}

WamWord ref_Get_Pair(WamWord t)
{
  WamWord w, tag;

  DEREF(t, w, tag);
  if (tag == TAG_REF_MASK)
    Pl_Err_Instantiation();
  if (tag == TAG_STC_MASK && Functor_And_Arity(UnTag_STC(w)) == minus_2)
    return w;
  Pl_Err_Type(pl_type_pair, w);
  return w;
}

PlLong ref_Keysort_Cmp(WamWord u, WamWord v)
{
  return Pl_Term_Compare(Arg(UnTag_STC(u), 0), Arg(UnTag_STC(v), 0));
}

/* 0: sort (duplicates removed), 1: msort, 2: keysort (both stable, duplicates kept) */
Bool ref_Pl_Sort_List_2(WamWord list1, WamWord list2)
{
  WamWord *arg = H;
  int n, kind = (int) SYS_VAR_OPTION_MASK;

  if (kind == 2)
    {
      Pl_Check_For_Un_List2(list2, Chk_Pair);
      n = Pl_Rd_Proper_List_Check2(list1, arg, Get_Pair);
    }
  else
    {
      Pl_Check_For_Un_List(list2);
      n = Pl_Rd_Proper_List_Check(list1, arg);
    }
  if (n == 0)
    return Pl_Un_Atom(ATOM_NIL, list2);
  if (n == 1)
    return Pl_Unify(list1, list2);
  n = Merge_Sort(arg, arg + n, n, kind, kind == 2 ? Keysort_Cmp : Pl_Term_Compare);
  return Pl_Unify(Pl_Mk_Proper_List(n, arg), list2);
}

void ref_Pl_Sort_List_1(WamWord list)
{
  WamWord w, tag;
  WamWord *adr, *arg = H, *last;
  int n, kind = (int) SYS_VAR_OPTION_MASK;

  if (kind == 2)
    n = Pl_Rd_Proper_List_Check2(list, arg, Get_Pair);
  else
    n = Pl_Rd_Proper_List_Check(list, arg);
  if (n <= 1)
    return;
  n = Merge_Sort(arg, arg + n, n, kind, kind == 2 ? Keysort_Cmp : Pl_Term_Compare);
  do
    {
      DEREF(list, w, tag);
      adr = UnTag_LST(w);
      Car(adr) = *arg;
      arg++;
      last = &Cdr(adr);
      list = *last;
      n--;
    }
  while (n);
  *last = NIL_WORD;
}

/* elements that compare equal stay in their order, the first of them is kept */
int ref_Merge_Sort(WamWord *base, WamWord *aux, int n, Bool keep_dup, PlLong (*cmp)(WamWord u, WamWord v))
{
  WamWord *l1, *l2, *p;
  int n1, n2;

  if (n <= 1)
    return n;
  l1 = base;
  l2 = base + n / 2;
  n1 = Merge_Sort(base, aux, n / 2, keep_dup, cmp);
  n2 = Merge_Sort(base + n / 2, aux, n - n / 2, keep_dup, cmp);
  n = n1 + n2;
  p = aux;
  while (n1 > 0 && n2 > 0)
    {
      if ((*cmp)(*l1, *l2) > 0)
        {
          *p++ = *l2++;
          n2--;
        }
      else
        {
          *p++ = *l1++;
          n1--;
        }
    }
  while (n1-- > 0)
    *p++ = *l1++;
  if (keep_dup)
    {
      n1 = n - n2;
      p = aux;
      while (n1-- > 0)
        *base++ = *p++;
      return n;
    }
  while (n2-- > 0)
    *p++ = *l2++;
  p = aux;
  *base = *p++;
  n1 = n - 1;
  while (n1-- > 0)
    {
      if ((*cmp)(*base, *p) < 0)
        *++base = *p++;
      else
        {
          n--;
          p++;
        }
    }
  return n;
}

/* ---- lists */
#define APPEND_ALT  X1_24617070656E645F616C74
#define LENGTH_ALT  X1_246C656E6774685F616C74
#define MEMBER_ALT  X1_246D656D6265725F616C74
#define REVERSE_ALT X1_24726576657273655F616C74
Prolog_Prototype(APPEND_ALT, 0);
Prolog_Prototype(LENGTH_ALT, 0);
Prolog_Prototype(MEMBER_ALT, 0);
Prolog_Prototype(REVERSE_ALT, 0);
#define RETRY(name) Pl_Create_Choice_Point((CodePtr) Prolog_Predicate(name, 0), 3)

Bool ref_Pl_Append_3(WamWord l1, WamWord l2, WamWord l3)
{
  WamWord w, tag;
  int n, n2, n3;

  for (;;)
    {
      DEREF(l1, w, tag);
      if (tag != TAG_LST_MASK)
        break;
      if (!Pl_Get_List(l3))
        return FALSE;
      if (!Pl_Unify_Value(Car(UnTag_LST(w))))
        return FALSE;
      l3 = Pl_Unify_Variable();
      l1 = Cdr(UnTag_LST(w));
    }
  if (w == NIL_WORD)
    return Pl_Unify(l2, l3);
  if (tag != TAG_REF_MASK)
    return FALSE;
  n2 = Pl_List_Length(l2);
  if (n2 >= 0)
    {
      n3 = Pl_List_Length(l3);
      if (n3 >= 0)
        {
          n = n3 - n2;
          if (n < 0)
            return FALSE;
          while (n-- > 0)
            {
              DEREF(l3, w, tag);
              Pl_Get_List(l1);
              Pl_Unify_Value(Car(UnTag_LST(w)));
              l1 = Pl_Unify_Variable();
              l3 = Cdr(UnTag_LST(w));
            }
          Pl_Get_Nil(l1);
          return Pl_Unify(l2, l3);
        }
    }
  DEREF(l3, w, tag);
  if (tag == TAG_REF_MASK || tag == TAG_LST_MASK)
    {
      A(0) = l1;
      A(1) = l2;
      A(2) = l3;
      RETRY(APPEND_ALT);
    }
  Pl_Get_Nil(l1);
  return Pl_Unify(l2, l3);
}

Bool ref_Pl_Append_Alt_0(void)
{
  WamWord x, w, tag;

  Pl_Delete_Choice_Point(3);
  Pl_Get_List(A(2));
  x = Pl_Unify_Variable();
  A(2) = Pl_Unify_Variable();
  Pl_Get_List(A(0));
  Pl_Unify_Value(x);
  A(0) = Pl_Unify_Variable();
  DEREF(A(2), w, tag);
  if (tag == TAG_REF_MASK || tag == TAG_LST_MASK)
    RETRY(APPEND_ALT);
  Pl_Get_Nil(A(0));
  return Pl_Unify(A(1), A(2));
}

Bool Pl_Member_3(void);

Bool ref_Pl_Member_2(void)
{
  if (!Pl_Get_List(A(1)))
    return FALSE;
  A(1) = Pl_Unify_Variable();
  A(2) = Pl_Unify_Variable();
  return Pl_Member_3();
}

Bool ref_Pl_Member_Alt_0(void)
{
  Pl_Delete_Choice_Point(3);
  Pl_Get_List(A(2));
  A(1) = Pl_Unify_Variable();
  A(2) = Pl_Unify_Variable();
  return Pl_Member_3();
}

Bool ref_Pl_Member_3(void)
{
  WamWord w, tag;
  Bool ok;

  for (;;)
    {
      RETRY(MEMBER_ALT);
      ok = Pl_Unify(A(0), A(1));
      DEREF(A(2), w, tag);
      if (tag != TAG_REF_MASK && tag != TAG_LST_MASK)
        {
          B = BB(B);
          HB1 = HB(B);
          return ok;
        }
      if (ok)
        {
          AB(B, 2) = w;
          return ok;
        }
      Pl_Delete_Choice_Point(3);
      Pl_Get_List(A(2));
      A(1) = Pl_Unify_Variable();
      A(2) = Pl_Unify_Variable();
    }
}

Bool ref_Pl_Memberchk_2(WamWord elem, WamWord list)
{
  Bool ret;

  Pl_Defeasible_Open();
  for (;;)
    {
      if (!Pl_Get_List(list))
        {
          ret = FALSE;
          break;
        }
      if (Pl_Unify_Local_Value(elem))
        {
          Pl_Unify_Void(1);
          ret = TRUE;
          break;
        }
      Pl_Defeasible_Undo();
      list = Pl_Unify_Variable();
    }
  Pl_Defeasible_Close(ret);
  return ret;
}

Bool ref_Pl_Length_2(WamWord start, WamWord length)
{
  WamWord list = start, w, tag;
  PlLong n = -1, len = 0;

  DEREF(length, w, tag);
  length = w;
  if (tag == TAG_INT_MASK)
    {
      n = UnTag_INT(w);
      if (n < 0)
        Pl_Err_Domain(pl_domain_not_less_than_zero, w);
    }
  else if (tag != TAG_REF_MASK)
    Pl_Err_Type(pl_type_integer, w);
  for (;;)
    {
      DEREF(list, w, tag);
      if (w == NIL_WORD)
        return n == len ? TRUE : Pl_Get_Integer(len, length);
      if (tag == TAG_REF_MASK)
        {
          if (n < 0)
            break;
          if (n == len)
            return Pl_Get_Nil(w);
          Pl_Get_List(w);
          Pl_Unify_Void(1);
          list = Pl_Unify_Variable();
          len++;
        }
      else if (tag == TAG_LST_MASK)
        {
          len++;
          if ((PlULong) n < (PlULong) len)
            {
              if (!Flag_Value(strict_iso))
                if (!Pl_Blt_List_Or_Partial_List(w))
                  Pl_Err_Type(pl_type_list, start);
              return FALSE;
            }
          list = Cdr(UnTag_LST(w));
        }
      else
        {
          if (!Flag_Value(strict_iso))
            Pl_Err_Type(pl_type_list, start);
          return FALSE;
        }
    }
  if (w == length)
    Pl_Err_Resource(pl_resource_finite_memory);
  A(0) = list;
  A(1) = length;
  A(2) = Tag_INT(len);
  RETRY(LENGTH_ALT);
  Pl_Get_Nil(list);
  return Pl_Get_Integer(len, length);
}

Bool ref_Pl_Length_Alt_0(void)
{
  WamWord list, length;
  PlLong len;

  Pl_Delete_Choice_Point(3);
  list = A(0);
  length = A(1);
  len = UnTag_INT(A(2)) + 1;
  Pl_Get_List(list);
  Pl_Unify_Void(1);
  list = Pl_Unify_Variable();
  A(0) = list;
  A(2) = Tag_INT(len);
  RETRY(LENGTH_ALT);
  Pl_Get_Nil(list);
  return Pl_Get_Integer(len, length);
}

Bool ref_Pl_Nth0_3(WamWord no, WamWord list, WamWord elem, int base)
{
  WamWord x;
  PlLong n = Pl_Rd_Integer(no) - base;

  if (n < 0)
    return FALSE;
  for (;;)
    {
      if (!Pl_Get_List(list))
        return FALSE;
      x = Pl_Unify_Variable();
      list = Pl_Unify_Variable();
      if (n == 0)
        return Pl_Unify(x, elem);
      n--;
    }
}

Bool ref_Pl_Reverse_2(WamWord l1, WamWord l2)
{
  WamWord w, tag, x, res = NIL_WORD;
  int n1 = 0, n2;

  for (;;)
    {
      DEREF(l1, w, tag);
      if (tag != TAG_LST_MASK)
        break;
      x = Tag_LST(H);
      H[0] = Car(UnTag_LST(w));
      H[1] = res;
      H += 2;
      res = x;
      n1++;
      l1 = Cdr(UnTag_LST(w));
    }
  if (w == NIL_WORD)
    return Pl_Unify(res, l2);
  if (tag != TAG_REF_MASK)
    return FALSE;
  n2 = Pl_List_Length(l2);
  if (n2 < 0)
    {
      A(0) = l1;
      A(1) = l2;
      A(2) = res;
      RETRY(REVERSE_ALT);
    }
  else
    {
      if (n2 < n1)
        return FALSE;
      while (n1 < n2)
        {
          Pl_Get_List(l1);
          x = Pl_Unify_Variable();
          l1 = Pl_Unify_Variable();
          w = Tag_LST(H);
          H[0] = x;
          H[1] = res;
          H += 2;
          res = w;
          n1++;
        }
    }
  Pl_Get_Nil(l1);
  return Pl_Unify(res, l2);
}

Bool ref_Pl_Reverse_Alt_0(void)
{
  WamWord x, res;

  Pl_Delete_Choice_Point(3);
  Pl_Get_List(A(0));
  x = Pl_Unify_Variable();
  A(0) = Pl_Unify_Variable();
  res = Tag_LST(H);
  H[0] = x;
  H[1] = A(2);
  H += 2;
  A(2) = res;
  RETRY(REVERSE_ALT);
  Pl_Get_Nil(A(0));
  return Pl_Unify(res, A(1));
}
