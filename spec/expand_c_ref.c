/* What the functions of expand_c.c are to do. */
#include "gp_config.h"
#include <sys/types.h>
#include "engine_pl.h"
#include "bips_pl.h"
#include <unistd.h>
#include <sys/wait.h>
#include "macros_ref.h"
#include "wam_ref.h"

extern WamWord *top;
extern Bool opt_term_unif;

extern int atom_clause;
extern int atom_phrase;
extern int atom_if;
extern int atom_soft_if;
extern int atom_neg;

extern WamWord dcg_2;

#define OPT_EQUAL_BETWEEN_IN_OUT_VARS 2

WamWord Dcg_Head(WamWord dcg_head_word, WamWord *in_word, WamWord *out_word, WamWord **end_lst_adr);

WamWord Dcg_Body(WamWord dcg_body_word, Bool for_alt, WamWord in_word, WamWord out_word, WamWord *end_lst_adr);

void Dcg_Body_On_Stack(WamWord dcg_body_word, Bool opt_equal_between_in_out_vars, WamWord in_word, WamWord out_word);

void Dcg_Term_List_On_Stack(WamWord *lst_adr, WamWord in_word, WamWord out_word);

WamWord Dcg_Compound1(int func, WamWord w1);

WamWord Dcg_Compound2(int func, WamWord w1, WamWord w2);
Bool Pl_Dcg_Trans_Rule_2(WamWord rule_word, WamWord clause_word);
Bool Pl_Dcg_Trans_Body_4(WamWord dcg_body_word, WamWord in_word, WamWord out_word, WamWord body_word);
WamWord Dcg_Head(WamWord dcg_head_word, WamWord *in_word, WamWord *out_word, WamWord **end_lst_adr);
WamWord Dcg_Body(WamWord dcg_body_word, Bool in_alt, WamWord in_word, WamWord out_word, WamWord *end_lst_adr);
void Dcg_Body_On_Stack(WamWord dcg_body_word, Bool opt_equal_between_in_out_vars, WamWord in_word, WamWord out_word);
void Dcg_Term_List_On_Stack(WamWord *lst_adr, WamWord in_word, WamWord out_word);
WamWord Dcg_Compound1(int func, WamWord w1);
WamWord Dcg_Compound2(int func, WamWord w1, WamWord w2);


void ref_Expand_Initializer(void)
{
  int atom_dcg;

  atom_dcg = Pl_Create_Atom("-->");
  atom_clause = Pl_Create_Atom(":-");
  atom_phrase = Pl_Create_Atom("phrase");
  atom_if = Pl_Create_Atom("->");
  atom_soft_if = Pl_Create_Atom("*->");
  atom_neg = Pl_Create_Atom("\\+");

  dcg_2 = Functor_Arity(atom_dcg, 2);
}

Bool ref_Pl_Dcg_Trans_Rule_2(WamWord rule_word, WamWord clause_word)
{
  WamWord word, tag_mask;
  WamWord *adr;
  WamWord in_word, out_word;
  WamWord head_word, body_word;
  WamWord *end_lst_adr;

  DEREF(rule_word, word, tag_mask);
  adr = UnTag_STC(word);
  if (tag_mask != TAG_STC_MASK || Functor_And_Arity(adr) != dcg_2)
    return FALSE;

  top = Local_Top;
  opt_term_unif = TRUE;

  head_word = Dcg_Head(Arg(adr, 0), &in_word, &out_word, &end_lst_adr);
  body_word = Dcg_Body(Arg(adr, 1), FALSE, in_word, out_word, end_lst_adr);

  Pl_Get_Structure(atom_clause, 2, clause_word);
  Pl_Unify_Value(head_word);
  Pl_Unify_Value(body_word);
  return TRUE;
}

Bool ref_Pl_Dcg_Trans_Body_4(WamWord dcg_body_word, WamWord in_word, WamWord out_word, WamWord body_word)
{
  top = Local_Top;
  opt_term_unif = TRUE;

  in_word = Pl_Globalize_If_In_Local(in_word);
  out_word = Pl_Globalize_If_In_Local(out_word);

  return Pl_Unify(body_word, Dcg_Body(dcg_body_word, FALSE, in_word, out_word, NULL));
}

WamWord ref_Dcg_Head(WamWord dcg_head_word, WamWord *in_word, WamWord *out_word, WamWord **end_lst_adr)
{
  WamWord word, tag_mask;
  WamWord *adr;
  WamWord *save_H, *p;
  int func, arity;
  Bool first;

  first = TRUE;
  *end_lst_adr = NULL;

start:
  adr = Pl_Rd_Callable_Check(dcg_head_word, &func, &arity);

  if (first && arity == 2 && func == ATOM_CHAR(','))
    {
      first = FALSE;
      dcg_head_word = *adr++;
      DEREF(*adr, word, tag_mask);

      if (tag_mask == TAG_REF_MASK)
	Pl_Err_Instantiation();

      if (word != NIL_WORD)
	{
	  if (tag_mask != TAG_LST_MASK)
	    Pl_Err_Type(pl_type_list, word);

	  *end_lst_adr = UnTag_LST(word);
	}
      goto start;
    }

  p = save_H = H;
  *p++ = Functor_Arity(func, arity + 2);
  while (arity--)
    *p++ = *adr++;
  adr = p;
  *p++ = *in_word = Make_Self_Ref(adr);
  adr = p;
  *p++ = *out_word = Make_Self_Ref(adr);
  H = p;

  return Tag_STC(save_H);
}

WamWord ref_Dcg_Body(WamWord dcg_body_word, Bool in_alt, WamWord in_word, WamWord out_word, WamWord *end_lst_adr)
{
  WamWord new_out_word, word;
  WamWord *save_H, *p;
  WamWord *save_top = top;
  Bool save_opt_term_unif = opt_term_unif;
  Bool opt_equal_between_in_out_vars;
  WamWord *base;

  if (end_lst_adr)
    goto new_out_var;

  if (in_alt)
    {
      top++;
    new_out_var:
      new_out_word = Pl_Mk_Variable();
    }
  else
    new_out_word = out_word;

  base = top;

  opt_equal_between_in_out_vars = (end_lst_adr != NULL);

  Dcg_Body_On_Stack(dcg_body_word, opt_equal_between_in_out_vars, in_word, new_out_word);

  if (end_lst_adr)
    Dcg_Term_List_On_Stack(end_lst_adr, out_word, new_out_word);
  else if (in_alt)
    {
      if (Pl_Blt_Term_Eq(in_word, new_out_word))
	*--base = Dcg_Compound2(ATOM_CHAR('='), new_out_word, out_word);
      else
	Pl_Unify(new_out_word, out_word);
    }

  if (top == base)
    {
      word = Tag_ATM(pl_atom_true);
      goto finish;
    }

  word = *--top;
  while (top > base)
    {
      p = save_H = H;
      *p++ = Functor_Arity(ATOM_CHAR(','), 2);
      *p++ = *--top;
      *p++ = word;
      H = p;
      word = Tag_STC(save_H);
    }

finish:
  top = save_top;
  opt_term_unif = save_opt_term_unif;

  return word;
}

void ref_Dcg_Body_On_Stack(WamWord dcg_body_word, Bool opt_equal_between_in_out_vars, WamWord in_word, WamWord out_word)
{
  WamWord word, tag_mask;
  WamWord *adr;
  WamWord w1, w2;
  WamWord *save_H, *p;
  int func, arity;

  DEREF(dcg_body_word, word, tag_mask);
  if (tag_mask == TAG_REF_MASK)
    {
      adr = UnTag_REF(word);
      func = atom_phrase;
      arity = 1;
      goto non_term;
    }

  if (word == NIL_WORD)
    {
      opt_equal_between_in_out_vars = TRUE;
    in_is_out:
      if (opt_equal_between_in_out_vars)
	Pl_Unify(in_word, out_word);
      else
	*top++ = Dcg_Compound2(ATOM_CHAR('='), in_word, out_word);

      return;
    }

  if (tag_mask == TAG_LST_MASK)
    {
      Dcg_Term_List_On_Stack(UnTag_LST(word), in_word, out_word);
      return;
    }

  adr = Pl_Rd_Callable_Check(word, &func, &arity);

  if (arity == 2 && func == ATOM_CHAR(','))
    {
      word = Pl_Mk_Variable();

      Dcg_Body_On_Stack(*adr++, OPT_EQUAL_BETWEEN_IN_OUT_VARS != 0, in_word, word);
      Dcg_Body_On_Stack(*adr, opt_equal_between_in_out_vars, word, out_word);
      return;
    }

  opt_term_unif = FALSE;

  if (arity == 2 && (func == atom_if || func == atom_soft_if))
    {
      word = Pl_Mk_Variable();
      w1 = Dcg_Body(*adr++, FALSE, in_word, word, NULL);
      w2 = Dcg_Body(*adr, FALSE, word, out_word, NULL);

      *top++ = Dcg_Compound2(func, w1, w2);
      return;
    }

  if (arity == 2 && (func == ATOM_CHAR(';') || func == ATOM_CHAR('|')))
    {
      w1 = Dcg_Body(*adr++, TRUE, in_word, out_word, NULL);
      w2 = Dcg_Body(*adr, TRUE, in_word, out_word, NULL);

      *top++ = Dcg_Compound2(ATOM_CHAR(';'), w1, w2);
      return;
    }

  if (arity == 1 && func == atom_neg)
    {
      word = Pl_Mk_Variable();
      w1 = Dcg_Body(*adr, FALSE, in_word, word, NULL);

      *top++ = Dcg_Compound1(func, w1);

      goto in_is_out;
    }

  if (arity == 0 && func == ATOM_CHAR('!'))
    {
      *top++ = dcg_body_word;

      goto in_is_out;
    }

  if (arity == 1 && func == pl_atom_curly_brackets)
    {
      *top++ = *adr;

      goto in_is_out;
    }

 non_term:
  p = save_H = H;
  *p++ = Functor_Arity(func, arity + 2);
  while (arity--)
    *p++ = *adr++;
  *p++ = in_word;
  *p++ = out_word;
  H = p;
  *top++ = Tag_STC(save_H);
}

void ref_Dcg_Term_List_On_Stack(WamWord *lst_adr, WamWord in_word, WamWord out_word)
{
  WamWord word, tag_mask;
  WamWord *adr;
  WamWord *save_lst_adr = lst_adr;
  WamWord *save_H, *p;

  p = save_H = H;
  for (;;)
    {
      *p++ = Car(lst_adr);

      DEREF(Cdr(lst_adr), word, tag_mask);
      if (tag_mask == TAG_REF_MASK)
	Pl_Err_Instantiation();

      if (word == NIL_WORD)
	break;

      if (tag_mask != TAG_LST_MASK)
	Pl_Err_Type(pl_type_list, Tag_LST(save_lst_adr));

      lst_adr = UnTag_LST(word);
      adr = p + 1;
      *p++ = Tag_LST(adr);
    }
  *p++ = out_word;
  H = p;
  word = Tag_LST(save_H);

  if (opt_term_unif)
    Pl_Unify(in_word, word);
  else
    {
      opt_term_unif = TRUE;
      *top++ = Dcg_Compound2(ATOM_CHAR('='), in_word, word);
    }
}

WamWord ref_Dcg_Compound1(int func, WamWord w1)
{
  WamWord *save_H, *p;

  p = save_H = H;
  *p++ = Functor_Arity(func, 1);
  *p++ = w1;
  H = p;
  return Tag_STC(save_H);
}

WamWord ref_Dcg_Compound2(int func, WamWord w1, WamWord w2)
{
  WamWord *save_H, *p;

  p = save_H = H;
  *p++ = Functor_Arity(func, 2);
  *p++ = w1;
  *p++ = w2;
  H = p;
  return Tag_STC(save_H);
}
