/* What the functions of term_supp.c, term_inl_c.c and type_inl_c.c are to do. */
#include <string.h>
#include "engine_pl.h"
#include "bips_pl.h"
#include "wam_ref.h"

/* ---- standard order: variables (by age), FD variables, floats, integers, atoms (alphabetically), compound terms
   (by arity, then name, then arguments from left to right) */
static int Rank(WamWord tag)
{
  switch (tag)
    {
    case TAG_REF_MASK: return 0;
    case TAG_FDV_MASK: return 1;
    case TAG_FLT_MASK: return 2;
    case TAG_INT_MASK: return 3;
    case TAG_ATM_MASK: return 4;
    default: return 5;
    }
}

PlLong ref_Pl_Term_Compare(WamWord su, WamWord sv)
{
  WamWord u, v, tu, tv;
  int fu, nu, fv, nv, i;
  WamWord *au, *av;
  PlLong x;
  double d1, d2;

  DEREF(su, u, tu);
  DEREF(sv, v, tv);
  if (Rank(tu) != Rank(tv))
    return Rank(tu) < Rank(tv) ? -1 : 1;
  switch (tu)
    {
    case TAG_REF_MASK:
      return UnTag_REF(u) - UnTag_REF(v);
    case TAG_FDV_MASK:
      return UnTag_FDV(u) - UnTag_FDV(v);
    case TAG_FLT_MASK:
      d1 = Pl_Obtain_Float(UnTag_FLT(u));
      d2 = Pl_Obtain_Float(UnTag_FLT(v));
      return d1 < d2 ? -1 : d1 == d2 ? 0 : 1;
    case TAG_INT_MASK:
      return UnTag_INT(u) - UnTag_INT(v);
    case TAG_ATM_MASK:
      return strcmp(pl_atom_tbl[UnTag_ATM(u)].name, pl_atom_tbl[UnTag_ATM(v)].name);
    }
  av = Pl_Rd_Compound(v, &fv, &nv);
  if (av == NULL)
    return 1;
  au = Pl_Rd_Compound(u, &fu, &nu);
  if (nu != nv)
    return nu - nv;
  if (fu != fv)
    return strcmp(pl_atom_tbl[fu].name, pl_atom_tbl[fv].name);
  for (i = 0; i < nu; i++)
    if ((x = Pl_Term_Compare(*au++, *av++)) != 0)
      return x;
  return 0;
}

Bool ref_Pl_Blt_Term_Eq(WamWord x, WamWord y) { return Pl_Term_Compare(x, y) == 0; }
Bool ref_Pl_Blt_Term_Neq(WamWord x, WamWord y) { return Pl_Term_Compare(x, y) != 0; }
Bool ref_Pl_Blt_Term_Lt(WamWord x, WamWord y) { return Pl_Term_Compare(x, y) < 0; }
Bool ref_Pl_Blt_Term_Lte(WamWord x, WamWord y) { return Pl_Term_Compare(x, y) <= 0; }
Bool ref_Pl_Blt_Term_Gt(WamWord x, WamWord y) { return Pl_Term_Compare(x, y) > 0; }
Bool ref_Pl_Blt_Term_Gte(WamWord x, WamWord y) { return Pl_Term_Compare(x, y) >= 0; }

Bool ref_Pl_Blt_Compare(WamWord order, WamWord x, WamWord y)
{
  PlLong c;
  WamWord word, tag;
  char *s;

  Pl_Set_C_Bip_Name("compare", 3);
  c = Pl_Term_Compare(x, y);
  if (!Pl_Un_Atom_Check(ATOM_CHAR(c < 0 ? '<' : c > 0 ? '>' : '='), order))
    {
      DEREF(order, word, tag);
      s = pl_atom_tbl[UnTag_ATM(word)].name;
      if (!((s[0] == '<' || s[0] == '=' || s[0] == '>') && s[1] == '\0'))
        Pl_Err_Domain(pl_domain_order, order);
      Pl_Unset_C_Bip_Name();
      return FALSE;
    }
  Pl_Unset_C_Bip_Name();
  return TRUE;
}

/* ---- inspection and construction */
Bool ref_Pl_Blt_Arg(WamWord no, WamWord term, WamWord sub)
{
  WamWord *arg;
  int f, n;
  PlLong i;

  Pl_Set_C_Bip_Name("arg", 3);
  i = Pl_Rd_Positive_Check(no);
  arg = Pl_Rd_Compound_Check(term, &f, &n);
  Pl_Unset_C_Bip_Name();
  if ((PlULong) (i - 1) >= (PlULong) n)
    return FALSE;
  return Pl_Unify(sub, arg[i - 1]);
}

Bool ref_Pl_Blt_Functor(WamWord term, WamWord name, WamWord arity)
{
  WamWord word, tag;
  PlLong n;
  Bool res;

  Pl_Set_C_Bip_Name("functor", 3);
  DEREF(term, word, tag);
  if (tag == TAG_LST_MASK)
    res = Pl_Un_Atom_Check(ATOM_CHAR('.'), name) && Pl_Un_Integer_Check(2, arity);
  else if (tag == TAG_STC_MASK)
    res = Pl_Un_Atom_Check(Functor(UnTag_STC(word)), name) && Pl_Un_Integer_Check(Arity(UnTag_STC(word)), arity);
  else if (tag != TAG_REF_MASK)
    res = Pl_Unify(word, name) && Pl_Un_Integer_Check(0, arity);
  else
    {
      DEREF(name, word, tag);
      if (tag == TAG_REF_MASK)
        Pl_Err_Instantiation();
      if (tag != TAG_ATM_MASK && tag != TAG_INT_MASK && tag != TAG_FLT_MASK)
        Pl_Err_Type(pl_type_atomic, name);
      n = Pl_Rd_Positive_Check(arity);
      if (n > MAX_ARITY)
        Pl_Err_Representation(pl_representation_max_arity);
      if (tag == TAG_ATM_MASK && UnTag_ATM(word) == ATOM_CHAR('.') && n == 2)
        {
          res = Pl_Get_List(term);
          if (res)
            {
              Pl_Unify_Void(2);
              res = TRUE;
            }
        }
      else if (tag == TAG_ATM_MASK && n > 0)
        {
          res = Pl_Get_Structure(UnTag_ATM(word), (int) n, term);
          if (res)
            {
              Pl_Unify_Void((int) n);
              res = TRUE;
            }
        }
      else
        {
          if (n != 0)
            Pl_Err_Type(pl_type_atom, word);
          res = Pl_Unify(word, term);
        }
    }
  Pl_Unset_C_Bip_Name();
  return res;
}

Bool ref_Pl_Blt_Univ(WamWord term, WamWord list)
{
  WamWord word, tag, w, car, f, tf;
  WamWord *arg = NULL, *var, *stc, *l;
  int n;

  Pl_Set_C_Bip_Name("=..", 2);
  DEREF(term, word, tag);
  if (tag != TAG_REF_MASK)
    {
      n = 1;
      if (tag == TAG_LST_MASK)
        {
          car = Tag_ATM(ATOM_CHAR('.'));
          n = 3;
          arg = &Car(UnTag_LST(word));
        }
      else if (tag == TAG_STC_MASK)
        {
          car = Tag_ATM(Functor(UnTag_STC(word)));
          n = 1 + Arity(UnTag_STC(word));
          arg = &Arg(UnTag_STC(word), 0);
        }
      else if (tag == TAG_FDV_MASK)
        car = Tag_REF(UnTag_FDV(word));
      else
        car = word;
      Pl_Check_For_Un_List(list);
      Pl_Unset_C_Bip_Name();
      for (;;)
        {
          if (!Pl_Get_List(list))
            return FALSE;
          if (!Pl_Unify_Value(car))
            return FALSE;
          list = Pl_Unify_Variable();
          n--;
          if (n == 0)
            return Pl_Get_Nil(list);
          car = *arg;
          arg++;
        }
    }

  var = UnTag_REF(word);
  DEREF(list, w, tag);
  if (tag == TAG_REF_MASK)
    Pl_Err_Instantiation();
  if (w == NIL_WORD)
    Pl_Err_Domain(pl_domain_non_empty_list, list);
  if (tag != TAG_LST_MASK)
    Pl_Err_Type(pl_type_list, list);
  l = UnTag_LST(w);
  DEREF(Car(l), f, tf);
  if (tf == TAG_REF_MASK)
    Pl_Err_Instantiation();
  DEREF(Cdr(l), w, tag);
  if (w == NIL_WORD)
    {
      if (tf != TAG_ATM_MASK && tf != TAG_INT_MASK && tf != TAG_FLT_MASK)
        Pl_Err_Type(pl_type_atomic, f);
      term = f;
    }
  else
    {
      if (tag == TAG_REF_MASK)
        Pl_Err_Instantiation();
      if (tf != TAG_ATM_MASK)
        Pl_Err_Type(pl_type_atom, f);
      if (tag != TAG_LST_MASK)
        Pl_Err_Type(pl_type_list, list);
      stc = H;
      H++;
      for (n = 1;; n++)
        {
          l = UnTag_LST(w);
          DEREF(Car(l), w, tag);
          Do_Copy_Of_Word(tag, w);
          Global_Push(w);
          DEREF(Cdr(l), w, tag);
          if (w == NIL_WORD)
            break;
          if (tag == TAG_REF_MASK)
            Pl_Err_Instantiation();
          if (tag != TAG_LST_MASK)
            Pl_Err_Type(pl_type_list, list);
        }
      if (n > MAX_ARITY)
        Pl_Err_Representation(pl_representation_max_arity);
      if (UnTag_ATM(f) == ATOM_CHAR('.') && n == 2)
        term = Tag_LST(stc + 1);
      else
        {
          *stc = Functor_Arity(UnTag_ATM(f), n);
          term = Tag_STC(stc);
        }
    }
  Bind_UV(var, term);
  Pl_Unset_C_Bip_Name();
  return TRUE;
}

Bool ref_Pl_Setarg_4(WamWord no, WamWord term, WamWord value, WamWord undo)
{
  WamWord word, tag;
  WamWord *arg, *adr;
  int f, n;
  PlULong i;
  int u;

  arg = Pl_Rd_Compound_Check(term, &f, &n);
  i = Pl_Rd_Positive_Check(no) - 1;
  u = Pl_Rd_Boolean_Check(undo);
  DEREF(value, word, tag);
  if (!u && tag != TAG_ATM_MASK && tag != TAG_INT_MASK)
    Pl_Err_Type(pl_type_atomic, word);
  if (i >= (PlULong) n)
    return FALSE;
  if (tag == TAG_REF_MASK && Is_A_Local_Adr(adr = UnTag_REF(word)))
    {
      word = Make_Self_Ref(H);
      Global_Push(word);
      Bind_UV(adr, word);
    }
  else
    Do_Copy_Of_Word(tag, word);
  if (u)
    Bind_OV((arg + i), word);
  else
    arg[i] = word;
  return TRUE;
}

/* ---- variables of a term */
extern WamWord *var_ptr, *base_var_ptr;
Bool Collect_Variable(WamWord *adr, WamWord w);
Bool Check_Variable(WamWord *adr, WamWord w);

Bool ref_Pl_Treat_Vars_Of_Term(WamWord t, Bool generic, Bool (*fct)(WamWord *adr, WamWord word))
{
  WamWord w, tag;
  WamWord *adr;
  int i;

  for (;;)
    {
      DEREF(t, w, tag);
      if (tag == TAG_REF_MASK)
        {
          if (!(*fct)(UnTag_REF(w), w))
            return FALSE;
          return TRUE;
        }
      if (tag == TAG_FDV_MASK)
        {
          if (generic && !(*fct)(UnTag_FDV(w), w))
            return FALSE;
          return TRUE;
        }
      if (tag == TAG_LST_MASK)
        {
          adr = UnTag_LST(w);
          if (!Pl_Treat_Vars_Of_Term(Car(adr), generic, fct))
            return FALSE;
          t = Cdr(adr);
        }
      else if (tag == TAG_STC_MASK)
        {
          adr = UnTag_STC(w);
          i = Arity(adr);
          if (i < 1)
            ref_undefined();
          adr++;
          while (--i)
            {
              if (!Pl_Treat_Vars_Of_Term(*adr, generic, fct))
                return FALSE;
              adr++;
            }
          t = *adr;
        }
      else
        return TRUE;
    }
}

Bool ref_Collect_Variable(WamWord *adr, WamWord w)
{
  WamWord *p;

  for (p = pl_glob_dico_var; p < var_ptr; p++)
    if (*p == (WamWord) adr)
      return TRUE;
  if (var_ptr - pl_glob_dico_var >= MAX_VAR_IN_TERM)
    Pl_Err_Representation(pl_representation_too_many_variables);
  *var_ptr = (WamWord) adr;
  var_ptr = var_ptr + 1;
  return TRUE;
}

Bool ref_Pl_Term_Variables_3(WamWord t, WamWord list, WamWord tail)
{
  WamWord *p;

  if (tail == NOT_A_WAM_WORD)
    Pl_Check_For_Un_List(list);
  var_ptr = pl_glob_dico_var;
  Pl_Treat_Vars_Of_Term(t, TRUE, Collect_Variable);
  for (p = pl_glob_dico_var; p < var_ptr; p++)
    {
      if (!Pl_Get_List(list))
        return FALSE;
      if (!Pl_Unify_Value(*p))
        return FALSE;
      list = Pl_Unify_Variable();
    }
  return (tail == NOT_A_WAM_WORD) ? Pl_Get_Nil(list) : Pl_Unify(list, tail);
}

Bool Pl_Term_Variables_3(WamWord t, WamWord list, WamWord tail);
Bool ref_Pl_Term_Variables_2(WamWord t, WamWord list) { return Pl_Term_Variables_3(t, list, NOT_A_WAM_WORD); }

Bool ref_Pl_Subsumes_Term_2(WamWord general, WamWord specific)
{
  Bool ret = FALSE;

  Pl_Defeasible_Open();
  var_ptr = pl_glob_dico_var;
  base_var_ptr = pl_glob_dico_var;
  Pl_Treat_Vars_Of_Term(specific, TRUE, Collect_Variable);
  if (Pl_Unify_Occurs_Check(general, specific))
    if (Pl_Treat_Vars_Of_Term(specific, TRUE, Check_Variable))
      ret = base_var_ptr == var_ptr;
  Pl_Defeasible_Close(FALSE);
  return ret;
}

Bool ref_Check_Variable(WamWord *adr, WamWord var)
{
  WamWord w, tag;
  WamWord *p;

  if (Tag_Mask_Of(var) == TAG_FDV_MASK)
    return FALSE;
  for (p = pl_glob_dico_var; p < base_var_ptr; p++)
    if (*p == (WamWord) adr)
      return TRUE;
  if (base_var_ptr >= var_ptr)
    return FALSE;
  DEREF(*base_var_ptr, w, tag);
  if (tag != TAG_REF_MASK || UnTag_REF(w) != adr)
    return FALSE;
  *base_var_ptr = (WamWord) UnTag_REF(w);
  base_var_ptr = base_var_ptr + 1;
  return TRUE;
}

/* ---- copies */
extern WamWord *base_copy, vars[], *end_vars, *top_vars;
extern WamWord *copy_limit __asm__("Pl_Copy_Term.fix_bug");
void Copy_Term_Rec(WamWord *dst, WamWord *src, WamWord **p);

int ref_Pl_List_Length(WamWord t)
{
  WamWord w, tag;
  int n;

  for (n = 0;; n++)
    {
      DEREF(t, w, tag);
      if (w == NIL_WORD)
        return n;
      if (tag == TAG_REF_MASK)
        return -1;
      if (tag != TAG_LST_MASK)
        return -2;
      t = Cdr(UnTag_LST(w));
    }
}

int ref_Pl_Term_Size(WamWord t)
{
  WamWord w, tag;
  WamWord *adr;
  int i, n = 0;

  for (;;)
    {
      DEREF(t, w, tag);
      if (tag == TAG_FDV_MASK)
        return n + 1 + Fd_Variable_Size(UnTag_FDV(w));
      if (tag == TAG_FLT_MASK)
        return n + 2;
      if (tag == TAG_LST_MASK)
        {
          adr = UnTag_LST(w);
          n = n + 1 + Pl_Term_Size(Car(adr));
          t = Cdr(adr);
        }
      else if (tag == TAG_STC_MASK)
        {
          adr = UnTag_STC(w);
          n += 2;
          i = Arity(adr);
          if (i < 1)
            ref_undefined();
          adr++;
          while (--i)
            {
              n += Pl_Term_Size(*adr);
              adr++;
            }
          t = *adr;
        }
      else
        return n + 1;
    }
}

void ref_Copy_Term_Rec(WamWord *dst, WamWord *src, WamWord **p)
{
  WamWord w, tag;
  WamWord *adr, *q;
  int i;

  for (;;)
    {
      DEREF(*src, w, tag);
      if (tag == TAG_REF_MASK)
        {
          adr = UnTag_REF(w);
          if (adr < *p && adr >= base_copy)
            {
              *dst = w;
              return;
            }
          if (top_vars >= end_vars)
            Pl_Err_Representation(pl_representation_too_many_variables);
          *top_vars++ = w;
          *top_vars++ = (WamWord) adr;
          *dst = Tag_REF(dst);
          *adr = Tag_REF(dst);
          return;
        }
      if (tag == TAG_FDV_MASK)
        {
          adr = UnTag_FDV(w);
          if (adr < *p && adr >= base_copy)
            {
              *dst = Tag_REF(adr);
              return;
            }
          if (top_vars >= end_vars)
            Pl_Err_Representation(pl_representation_too_many_variables);
          *top_vars++ = w;
          *top_vars++ = (WamWord) adr;
          q = *p;
          *p = q + Fd_Copy_Variable(q, adr);
          *dst = Tag_REF(q);
          *adr = Tag_REF(q);
          return;
        }
      q = *p;
      if (tag == TAG_FLT_MASK)
        {
          q[0] = UnTag_FLT(w)[0];
          *p = q + 1;
          *dst = Tag_FLT(q);
          return;
        }
      if (tag == TAG_LST_MASK)
        {
          adr = UnTag_LST(w);
          *dst = Tag_LST(q);
          *p = q + 2;
          Copy_Term_Rec(&Car(q), &Car(adr), p);
          dst = &Cdr(q);
          src = &Cdr(adr);
        }
      else if (tag == TAG_STC_MASK)
        {
          adr = UnTag_STC(w);
          *dst = Tag_STC(q);
          Functor_And_Arity(q) = Functor_And_Arity(adr);
          i = Arity(adr);
          if (i < 1)
            ref_undefined();
          *p = q + i + 1;
          q = &Arg(q, 0);
          adr = &Arg(adr, 0);
          while (--i)
            {
              Copy_Term_Rec(q, adr, p);
              q++;
              adr++;
            }
          dst = q;
          src = adr;
        }
      else
        {
          *dst = w;
          return;
        }
    }
}

void ref_Pl_Copy_Contiguous_Term(WamWord *dst, WamWord *src)
{
  WamWord w, *adr, *q;
  int i;

  for (;;)
    {
      w = *src;
      switch (Tag_Mask_Of(w))
        {
        case TAG_REF_MASK:
          adr = UnTag_REF(w);
          q = dst + (adr - src);
          *dst = Tag_REF(q);
          if (adr > src)
            Pl_Copy_Contiguous_Term(q, adr);
          return;
        case TAG_FDV_MASK:
          Fd_Copy_Variable(dst, UnTag_FDV(w));
          return;
        case TAG_FLT_MASK:
          adr = UnTag_FLT(w);
          q = dst + (adr - src);
          q[0] = adr[0];
          *dst = Tag_FLT(q);
          return;
        case TAG_LST_MASK:
          adr = UnTag_LST(w);
          q = dst + (adr - src);
          *dst = Tag_LST(q);
          Pl_Copy_Contiguous_Term(&Car(q), &Car(adr));
          dst = &Cdr(q);
          src = &Cdr(adr);
          break;
        case TAG_STC_MASK:
          adr = UnTag_STC(w);
          q = dst + (adr - src);
          *dst = Tag_STC(q);
          Functor_And_Arity(q) = Functor_And_Arity(adr);
          i = Arity(adr);
          if (i < 1)
            ref_undefined();
          q = &Arg(q, 0);
          adr = &Arg(adr, 0);
          while (--i)
            {
              Pl_Copy_Contiguous_Term(q, adr);
              q++;
              adr++;
            }
          dst = q;
          src = adr;
          break;
        default:
          *dst = w;
          return;
        }
    }
}

/* any place outside the heap will do: the one of the program is taken */
extern WamWord copied_term __asm__("Pl_Copy_Term_2.fix_bug");

Bool ref_Pl_Copy_Term_2(WamWord u, WamWord v)
{
  WamWord w;
  int size = Pl_Term_Size(u);

  copied_term = u;
  Pl_Copy_Term(H, &copied_term);
  w = *H;
  H += size;
  return Pl_Unify(w, v);
}

/* ---- type tests */
#define TYPE(fct, test) Bool ref_##fct(WamWord x) { WamWord w, tag; DEREF(x, w, tag); return test; }
TYPE(Pl_Blt_Var, tag == TAG_REF_MASK)
TYPE(Pl_Blt_Non_Var, tag != TAG_REF_MASK)
TYPE(Pl_Blt_Atom, tag == TAG_ATM_MASK)
TYPE(Pl_Blt_Integer, tag == TAG_INT_MASK)
TYPE(Pl_Blt_Float, tag == TAG_FLT_MASK)
TYPE(Pl_Blt_Number, tag == TAG_INT_MASK || tag == TAG_FLT_MASK)
TYPE(Pl_Blt_Atomic, tag == TAG_ATM_MASK || tag == TAG_INT_MASK || tag == TAG_FLT_MASK)
TYPE(Pl_Blt_Compound, tag == TAG_LST_MASK || tag == TAG_STC_MASK)
TYPE(Pl_Blt_Callable, tag == TAG_ATM_MASK || tag == TAG_LST_MASK || tag == TAG_STC_MASK)
TYPE(Pl_Blt_Fd_Var, tag == TAG_FDV_MASK)
TYPE(Pl_Blt_Non_Fd_Var, tag != TAG_FDV_MASK)
TYPE(Pl_Blt_Generic_Var, tag == TAG_FDV_MASK || tag == TAG_REF_MASK)
TYPE(Pl_Blt_Non_Generic_Var, tag != TAG_FDV_MASK && tag != TAG_REF_MASK)

Bool ref_Pl_Blt_Ground(WamWord t)
{
  WamWord w, tag;
  WamWord *adr;
  int i;

  for (;;)
    {
      DEREF(t, w, tag);
      if (tag == TAG_REF_MASK || tag == TAG_FDV_MASK)
        return FALSE;
      if (tag == TAG_LST_MASK)
        {
          adr = UnTag_LST(w);
          if (!Pl_Blt_Ground(Car(adr)))
            return FALSE;
          t = Cdr(adr);
        }
      else if (tag == TAG_STC_MASK)
        {
          adr = UnTag_STC(w);
          i = Arity(adr);
          if (i < 1)
            ref_undefined();
          adr++;
          while (--i > 0)
            {
              if (!Pl_Blt_Ground(*adr))
                return FALSE;
              adr++;
            }
          t = *adr;
        }
      else
        return TRUE;
    }
}

#define LIST(fct, nil, var)                             \
Bool ref_##fct(WamWord t)                               \
{                                                       \
  WamWord w, tag;                                       \
  for (;;)                                              \
    {                                                   \
      DEREF(t, w, tag);                                 \
      if (w == NIL_WORD)                                \
        return nil;                                     \
      if (tag == TAG_REF_MASK)                          \
        return var;                                     \
      if (tag != TAG_LST_MASK)                          \
        return FALSE;                                   \
      t = Cdr(UnTag_LST(w));                            \
    }                                                   \
}
LIST(Pl_Blt_List, TRUE, FALSE)
LIST(Pl_Blt_Partial_List, FALSE, TRUE)
LIST(Pl_Blt_List_Or_Partial_List, TRUE, TRUE)

/* ---- hashing of ground terms: the same for equal terms, whatever the state of the tables (atoms by their own hash value) */
Bool Term_Hash_Rec(WamWord t, PlLong depth, HashIncrInfo *hi);

Bool ref_Term_Hash(WamWord t, PlLong depth, unsigned *hash)
{
  HashIncrInfo hi;

  Pl_Hash_Incr_Init(&hi);
  if (depth != 0)
    if (!Term_Hash_Rec(t, depth, &hi))
      return FALSE;
  *hash = Pl_Hash_Incr_Term(&hi);
  return TRUE;
}

Bool ref_Term_Hash_Rec(WamWord t, PlLong depth, HashIncrInfo *hi)
{
  WamWord w, tag;
  WamWord *adr;
  int n;

  for (;;)
    {
      DEREF(t, w, tag);
      if (tag == TAG_REF_MASK || tag == TAG_FDV_MASK)
        return FALSE;
      if (tag == TAG_ATM_MASK)
        {
          Pl_Hash_Incr_Int32(hi, pl_atom_tbl[UnTag_ATM(w)].hash);
          return TRUE;
        }
      if (tag == TAG_INT_MASK)
        {
          Pl_Hash_Incr_Int64(hi, UnTag_INT(w));
          return TRUE;
        }
      if (tag == TAG_FLT_MASK)
        {
          Pl_Hash_Incr_Double(hi, Pl_Obtain_Float(UnTag_FLT(w)));
          return TRUE;
        }
      if (tag == TAG_LST_MASK)
        {
          depth--;
          if (depth == 0)
            {
              Pl_Hash_Incr_Int32(hi, pl_atom_tbl[ATOM_CHAR('.')].hash);
              Pl_Hash_Incr_Int32(hi, 2);
              return TRUE;
            }
          adr = UnTag_LST(w);
          if (!Term_Hash_Rec(Car(adr), depth, hi))
            return FALSE;
          t = Cdr(adr);
        }
      else if (tag == TAG_STC_MASK)
        {
          adr = UnTag_STC(w);
          n = Arity(adr);
          if (n < 1)
            ref_undefined();
          Pl_Hash_Incr_Int32(hi, pl_atom_tbl[Functor(adr)].hash);
          Pl_Hash_Incr_Int32(hi, n);
          depth--;
          if (depth == 0)
            return TRUE;
          adr = &Arg(adr, 0);
          while (--n)
            {
              if (!Term_Hash_Rec(*adr, depth, hi))
                return FALSE;
              adr++;
            }
          t = *adr;
        }
      else
        return TRUE;
    }
}

void ref_Pl_Copy_Term(WamWord *dst, WamWord *src)
{
  WamWord *top;

  base_copy = dst;
  top_vars = vars;
  copy_limit = dst + 1;
  Copy_Term_Rec(base_copy, src, &copy_limit);
  top = top_vars;
  while (top != vars)                   /* variables of the source get their values back */
    {
      *(WamWord *) top[-1] = top[-2];
      top -= 2;
    }
}


Bool ref_Pl_Term_Hash_4(WamWord t, WamWord depth, WamWord range, WamWord hash)
{
  PlLong d = Pl_Rd_Integer_Check(depth), r = Pl_Rd_Positive_Check(range);
  unsigned h;

  if (r <= 0 || r > HASH_MOD_VALUE)
    r = HASH_MOD_VALUE;
  Pl_Check_For_Un_Integer(hash);
  if (!ref_Term_Hash(t, d, &h))
    return TRUE;
  return Pl_Un_Integer(h % r, hash);
}

Bool ref_Pl_Term_Hash_2(WamWord t, WamWord hash)
{
  extern Bool Pl_Term_Hash_4(WamWord, WamWord, WamWord, WamWord);
  return Pl_Term_Hash_4(t, Tag_INT(-1), Tag_INT(0), hash);
}

int ref_Pl_Get_Pred_Indicator(WamWord pi, Bool ground, int *arity)
{
  WamWord word, tag;
  int func = -1;
  PlLong n;

  DEREF(pi, word, tag);
  if (tag == TAG_REF_MASK && ground)
    Pl_Err_Instantiation();
  if (!Pl_Get_Structure(ATOM_CHAR('/'), 2, pi))
    Pl_Err_Type(pl_type_predicate_indicator, pi);
  pl_pi_name_word = Pl_Unify_Variable();
  pl_pi_arity_word = Pl_Unify_Variable();
  DEREF(pl_pi_name_word, word, tag);
  if (ground || tag != TAG_REF_MASK)
    func = Pl_Rd_Atom_Check(word);
  DEREF(pl_pi_arity_word, word, tag);
  if (!ground && tag == TAG_REF_MASK)
    *arity = -1;
  else
    {
      n = Pl_Rd_Positive_Check(pl_pi_arity_word);
      if (n > MAX_ARITY)
        Pl_Err_Representation(pl_representation_max_arity);
      *arity = (int) n;
    }
  return func;
}

Bool ref_Pl_Get_Pred_Indic_3(WamWord pi, WamWord func, WamWord arity)
{
  int f, n;

  f = Pl_Get_Pred_Indicator(pi, TRUE, &n);
  return Pl_Get_Atom(f, func) && Pl_Get_Integer(n, arity);
}

Bool ref_Pl_Term_Ref_2(WamWord term, WamWord ref)
{
  WamWord word, tag, last;
  WamWord *adr = NULL;
  PlLong r;

  word = term;
  for (;;)
    {
      tag = Tag_Mask_Of(word);
      if (tag != TAG_REF_MASK)
        break;
      last = word;
      adr = UnTag_REF(word);
      word = *adr;
      if (word == last)
        break;
    }
  if (tag == TAG_REF_MASK)
    {
      r = Pl_Rd_Positive_Check(ref);
      return Pl_Unify(word, *(Global_Stack + r));
    }
  if (adr < Global_Stack || adr > H)
    {
      adr = H;
      Global_Push(word);
    }
  return Pl_Un_Positive_Check(Global_Offset(adr), ref);
}
