/* What the functions of all_solut_c.c are to do. */
#include "engine_pl.h"
#include "bips_pl.h"
#include "wam_ref.h"

typedef struct onesol *OneSolP;
typedef struct onesol
{
  OneSolP prev;
  PlLong mark;
  int sol_no;
  int term_size;
  WamWord term_word;
} OneSol;

extern WamWord exist_2, new_gen_word, *bound_var_ptr, *free_var_base, *key_var_ptr, *save_key_var_ptr, *next_key_var_ptr;
extern OneSol *sol;
extern PlLong last_mark;
Bool Bound_Var(WamWord *adr, WamWord word);
Bool Free_Var(WamWord *adr, WamWord word);
Bool Link_Key_Var(WamWord *adr, WamWord word);
WamWord Existential_Variables(WamWord t);
void Drop_Solutions_After(PlLong mark);
void Handle_Key_Variables(WamWord t);
WamWord Group(WamWord all, WamWord key, WamWord *key_adr);
extern WamWord fix_bug __asm__("Pl_Store_Solution_2.fix_bug");
#define GROUP_SOLUTIONS_ALT X1_2467726F75705F736F6C7574696F6E735F616C74
Prolog_Prototype(GROUP_SOLUTIONS_ALT, 0);

/* free variables: those of the generator that neither the template nor ^ binds */
Bool ref_Pl_Free_Variables_4(WamWord templ, WamWord gen, WamWord gen1, WamWord key)
{
  WamWord *fn, *arg, keys;
  int n;

  bound_var_ptr = pl_glob_dico_var;
  Pl_Treat_Vars_Of_Term(templ, TRUE, Bound_Var);
  new_gen_word = Existential_Variables(gen);
  fn = H;
  H = H + 1;
  arg = H;
  free_var_base = arg;
  Pl_Treat_Vars_Of_Term(new_gen_word, TRUE, Free_Var);
  n = (int) (H - arg);
  if (n == 0)
    return FALSE;
  if (n > MAX_ARITY)
    {
      H = free_var_base;
      keys = Pl_Mk_Proper_List(n, arg);
    }
  else
    {
      *fn = Functor_Arity(ATOM_CHAR('.'), n);
      keys = Tag_STC(fn);
    }
  Pl_Unify(new_gen_word, gen1);
  return Pl_Unify(keys, key);
}

void ref_Pl_Recover_Generator_1(WamWord gen1)
{
  Pl_Unify(new_gen_word, gen1);
}

Bool ref_Bound_Var(WamWord *adr, WamWord word)
{
  WamWord *p = pl_glob_dico_var;

  while (p < bound_var_ptr)
    {
      if (*p == (WamWord) adr)
        return TRUE;
      p++;
    }
  if (bound_var_ptr - pl_glob_dico_var >= MAX_VAR_IN_TERM)
    Pl_Err_Representation(pl_representation_too_many_variables);
  *bound_var_ptr = (WamWord) adr;
  bound_var_ptr = bound_var_ptr + 1;
  return TRUE;
}

WamWord ref_Existential_Variables(WamWord t)
{
  WamWord w, tag, *adr;

  DEREF(t, w, tag);
  if (tag != TAG_STC_MASK)
    return w;
  adr = UnTag_STC(w);
  if (Functor_And_Arity(adr) != exist_2)
    return w;
  Pl_Treat_Vars_Of_Term(Arg(adr, 0), TRUE, Bound_Var);
  return Existential_Variables(Arg(adr, 1));
}

Bool ref_Free_Var(WamWord *adr, WamWord word)
{
  WamWord *p;

  for (p = pl_glob_dico_var; p < bound_var_ptr; p++)
    if (*p == (WamWord) adr)
      return TRUE;
  for (p = free_var_base; p < H; p++)
    if (*p == Tag_REF(adr))
      return TRUE;
  Global_Push(Tag_REF(adr));
  return TRUE;
}

void ref_Pl_Stop_Mark_1(WamWord stop)
{
  last_mark = last_mark + 1;
  Pl_Get_Integer(last_mark, stop);
}

void ref_Drop_Solutions_After(PlLong mark)
{
  while (sol->mark > mark)
    {
      OneSol *s = sol;

      sol = s->prev;
      Free(s);
    }
}

void ref_Pl_Store_Solution_2(WamWord term, WamWord stop)
{
  PlLong mark = Pl_Rd_Integer(stop);
  int size;
  OneSol *s;

  Drop_Solutions_After(mark);
  size = Pl_Term_Size(term);
  s = (OneSol *) Malloc(3 * sizeof(WamWord) + size * sizeof(WamWord));
  s->prev = sol;
  s->mark = mark;
  if (sol->mark == mark)
    s->sol_no = sol->sol_no + 1;
  else
    s->sol_no = 1;
  s->term_size = size;
  fix_bug = term;
  Pl_Copy_Term(&s->term_word, &fix_bug);
  sol = s;
}

/* the list of the solutions, then tail; each term is copied after the cells of the list */
Bool ref_Pl_Recover_Solutions_4(WamWord stop, WamWord handle_key, WamWord list, WamWord tail)
{
  PlLong mark = Pl_Rd_Integer(stop);
  int n, keys;
  WamWord *p, *end;
  OneSol *s;

  Drop_Solutions_After(mark);
  n = sol->mark == mark ? sol->sol_no : 0;
  if (n == 0)
    return Pl_Unify(list, tail);
  keys = Pl_Rd_C_Int(handle_key);
  key_var_ptr = pl_glob_dico_var;
  H = H + 2 * n;
  if (H > Global_Stack + Global_Size)
    H = Global_Stack + Global_Size;
  end = p = H;
  while (n-- != 0)
    {
      p[-1] = Tag_LST(p);
      p[-2] = Tag_REF(H);
      p = p - 2;
      Pl_Copy_Contiguous_Term(H, &sol->term_word);
      if (keys)
        Handle_Key_Variables(*H);
      H = H + sol->term_size;
      s = sol;
      sol = s->prev;
      Free(s);
    }
  end[-1] = Pl_Globalize_If_In_Local(tail);
  return Pl_Unify(Tag_LST(p), list);
}

void ref_Handle_Key_Variables(WamWord t)
{
  WamWord w, tag;

  save_key_var_ptr = key_var_ptr;
  next_key_var_ptr = pl_glob_dico_var;
  DEREF(t, w, tag);
  Pl_Treat_Vars_Of_Term(Arg(UnTag_STC(w), 0), TRUE, Link_Key_Var);
}

/* the n-th new variable of a key becomes the n-th variable of the former keys */
Bool ref_Link_Key_Var(WamWord *adr, WamWord word)
{
  WamWord *p;

  for (p = pl_glob_dico_var; p < key_var_ptr; p++)
    if (*p == (WamWord) adr)
      return TRUE;
  if (next_key_var_ptr < save_key_var_ptr)
    {
      *adr = *(WamWord *) *next_key_var_ptr;
      next_key_var_ptr = next_key_var_ptr + 1;
      return TRUE;
    }
  if (key_var_ptr - pl_glob_dico_var >= MAX_VAR_IN_TERM)
    Pl_Err_Representation(pl_representation_too_many_variables);
  *key_var_ptr = (WamWord) adr;
  key_var_ptr = key_var_ptr + 1;
  return TRUE;
}

Bool ref_Pl_Group_Solutions_3(WamWord all, WamWord gl_key, WamWord sols)
{
  WamWord w, tag, key, rest;

  DEREF(all, w, tag);
  if (w == NIL_WORD)
    return FALSE;
  rest = Group(all, gl_key, &key);
  if (rest != NOT_A_WAM_WORD)
    {
      A(0) = rest;
      A(1) = gl_key;
      A(2) = sols;
      Pl_Create_Choice_Point((CodePtr) Prolog_Predicate(GROUP_SOLUTIONS_ALT, 0), 3);
    }
  Pl_Unify(key, gl_key);
  return Pl_Unify(sols, all);
}

Bool ref_Pl_Group_Solutions_Alt_0(void)
{
  WamWord all, gl_key, sols, key, rest;

  Pl_Update_Choice_Point((CodePtr) Prolog_Predicate(GROUP_SOLUTIONS_ALT, 0), 0);
  all = AB(B, 0);
  gl_key = AB(B, 1);
  sols = AB(B, 2);
  rest = Group(all, gl_key, &key);
  if (rest != NOT_A_WAM_WORD)
    AB(B, 0) = rest;
  else
    Delete_Last_Choice_Point();
  Pl_Unify(key, gl_key);
  return Pl_Unify(sols, all);
}

/* the values of the leading pairs of the same key; the rest of the list */
WamWord ref_Group(WamWord all, WamWord gl_key, WamWord *key_adr)
{
  WamWord w, tag, *adr, *lst, *last, key, next;

  DEREF(all, w, tag);
  lst = UnTag_LST(w);
  DEREF(Car(lst), w, tag);
  adr = UnTag_STC(w);
  *key_adr = key = Arg(adr, 0);
  do
    {
      Car(lst) = Arg(adr, 1);
      last = lst;
      DEREF(Cdr(lst), w, tag);
      if (w == NIL_WORD)
        return NOT_A_WAM_WORD;
      lst = UnTag_LST(w);
      DEREF(Car(lst), w, tag);
      adr = UnTag_STC(w);
      next = Arg(adr, 0);
    }
  while (Pl_Term_Compare(key, next) == 0);
  all = Cdr(last);
  Cdr(last) = NIL_WORD;
  return all;
}

void ref_All_Solut_Initializer(void)
{
  exist_2 = Functor_Arity(ATOM_CHAR('^'), 2);
}
