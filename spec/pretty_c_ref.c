/* What the functions of pretty_c.c are to do. */
#include "gp_config.h"
#include <string.h>
#include "engine_pl.h"
#include "bips_pl.h"
#include "macros_ref.h"
#include "wam_ref.h"

#define GENERAL_BODY 0

#define LEFT_AND 1
#define RIGHT_AND 2

#define LEFT_OR 3
#define RIGHT_OR 4

#define LEFT_IF 5
#define RIGHT_IF 6

extern int atom_clause;
extern int atom_dcg;
extern int atom_if;
extern int atom_soft_if;

extern int atom_dollar_var;
extern int atom_dollar_varname;

extern WamWord dollar_var_1;
extern WamWord dollar_varname_1;
extern WamWord equal_2;

extern char *bol_indent;

extern WamWord *singl_var_ptr;
extern PlLong nb_singl_var;

extern PlLong nb_excl_var_tabled;

extern PlLong nb_to_try;

extern WamWord *above_H;

void Portray_Clause(StmInf *pstm, WamWord term_word);

Bool Check_Structure(WamWord term_word, int func, int arity, WamWord arg_word[]);

Bool Is_Cut(WamWord body_word);

void Show_Body(StmInf *pstm, int level, int context, WamWord body_word);

void Start_Line(StmInf *pstm, int level, char c_before);

Bool Collect_Singleton(WamWord *adr, WamWord var_word);

int Var_Name_To_Var_Number(int atom);

void Exclude_A_Var_Number(PlLong n);

void Collect_Excluded_Rec(WamWord start_word);

Bool Bind_Variable(WamWord *adr, WamWord word);
void Pl_Portray_Clause_3(WamWord sora_word, WamWord term_word, WamWord above_word);
void Pl_Portray_Clause_2(WamWord term_word, WamWord above_word);
void Portray_Clause(StmInf *pstm, WamWord term_word);
Bool Check_Structure(WamWord term_word, int func, int arity, WamWord arg_word[]);
Bool Is_Cut(WamWord body_word);
void Show_Body(StmInf *pstm, int level, int context, WamWord body_word);
void Start_Line(StmInf *pstm, int level, char c_before);
void Pl_Name_Singleton_Vars_1(WamWord start_word);
Bool Collect_Singleton(WamWord *adr, WamWord var_word);
Bool Pl_Name_Query_Vars_2(WamWord query_list_word, WamWord rest_list_word);
Bool Pl_Bind_Variables_4(WamWord term_word, WamWord exclude_list_word, WamWord from_word, WamWord next_word);
int Var_Name_To_Var_Number(int atom);
void Exclude_A_Var_Number(PlLong n);
void Collect_Excluded_Rec(WamWord start_word);
Bool Bind_Variable(WamWord *adr, WamWord word);


void ref_Pretty_Initializer(void)
{
  atom_clause = Pl_Create_Atom(":-");
  atom_dcg = Pl_Create_Atom("-->");
  atom_if = Pl_Create_Atom("->");
  atom_soft_if = Pl_Create_Atom("*->");

  atom_dollar_var = Pl_Create_Atom("$VAR");
  atom_dollar_varname = Pl_Create_Atom("$VARNAME");

  dollar_var_1 = Functor_Arity(atom_dollar_var, 1);
  dollar_varname_1 = Functor_Arity(atom_dollar_varname, 1);
  equal_2 = Functor_Arity(ATOM_CHAR('='), 2);
}

void ref_Pl_Portray_Clause_3(WamWord sora_word, WamWord term_word, WamWord above_word)
{
  int stm;
  StmInf *pstm;
  WamWord *b;

  stm = (sora_word == NOT_A_WAM_WORD)
    ? pl_stm_current_output : Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_OUTPUT);
  pstm = pl_stm_tbl[stm];

  pl_last_output_sora = sora_word;
  Pl_Check_Stream_Type(stm, TRUE, FALSE);

  b = LSSA + Pl_Rd_Integer(above_word);
  above_H = HB(b);

  Portray_Clause(pstm, term_word);
}

void ref_Pl_Portray_Clause_2(WamWord term_word, WamWord above_word)
{
  Pl_Portray_Clause_3(NOT_A_WAM_WORD, term_word, above_word);
}

#define WRITE_MASK (WRITE_NUMBER_VARS | WRITE_NAME_VARS | WRITE_QUOTED | WRITE_SPACE_ARGS)

void ref_Portray_Clause(StmInf *pstm, WamWord term_word)
{
  WamWord word, tag_mask;
  WamWord arg_word[2];
  int atom;

  bol_indent = "\t";

  if (Check_Structure(term_word, atom_clause, 2, arg_word))
    {
      Pl_Write_Term(pstm, 0, 1200 - 1, WRITE_MASK, above_H, arg_word[0]);
      DEREF(arg_word[1], word, tag_mask);
      atom = UnTag_ATM(word);
      if (tag_mask != TAG_ATM_MASK || atom != pl_atom_true)
	{
	  Pl_Stream_Puts(" :-", pstm);
	  Start_Line(pstm, 0, ' ');
	  Show_Body(pstm, 0, GENERAL_BODY, arg_word[1]);
	}
      Pl_Write_A_Full_Stop(pstm);
      return;
    }

  if (Check_Structure(term_word, atom_dcg, 2, arg_word))
    {
      Pl_Write_Term(pstm, 0, 1200 - 1, WRITE_MASK, above_H, arg_word[0]);
      DEREF(arg_word[1], word, tag_mask);
      atom = UnTag_ATM(word);
      if (tag_mask != TAG_ATM_MASK || atom != pl_atom_true)
	{
	  Pl_Stream_Puts(" -->", pstm);
	  Start_Line(pstm, 0, ' ');
	  Show_Body(pstm, 0, GENERAL_BODY, arg_word[1]);
	}
      Pl_Write_A_Full_Stop(pstm);
      return;
    }

  if (Check_Structure(term_word, atom_clause, 1, arg_word))
    {
      bol_indent = "   ";
      Pl_Stream_Puts(":- ", pstm);
      Show_Body(pstm, 0, GENERAL_BODY, arg_word[0]);
      Pl_Write_A_Full_Stop(pstm);
      return;
    }

  Pl_Write_Term(pstm, 0, MAX_PREC, WRITE_MASK, above_H, term_word);
  Pl_Write_A_Full_Stop(pstm);
}

Bool ref_Check_Structure(WamWord term_word, int func, int arity, WamWord arg_word[])
{
  WamWord word, tag_mask;
  WamWord *adr;
  int i;

  DEREF(term_word, word, tag_mask);
  if (tag_mask != TAG_STC_MASK)
    return FALSE;

  adr = UnTag_STC(word);

  if (Functor_And_Arity(adr) != Functor_Arity(func, arity))
    return FALSE;

  for (i = 0; i < arity; i++)
    arg_word[i] = Arg(adr, i);

  return TRUE;
}

Bool ref_Is_Cut(WamWord body_word)
{
  WamWord word, tag_mask;
  WamWord arg_word[2];

  while (Check_Structure(body_word, ATOM_CHAR(','), 2, arg_word))
    body_word = arg_word[0];

  DEREF(body_word, word, tag_mask);
  return (word == Tag_ATM(ATOM_CHAR('!')));
}

void ref_Show_Body(StmInf *pstm, int level, int context, WamWord body_word)
{
  WamWord arg_word[2];
  int soft_cut;
  static int prec[] = { 1200 - 1, 1000 - 1, 1000, 1100 - 1, 1100, 1050 - 1, 1050 };

  if (Check_Structure(body_word, ATOM_CHAR(','), 2, arg_word))
    {
      Show_Body(pstm, level, LEFT_AND, arg_word[0]);
      Pl_Stream_Putc(',', pstm);
      if (Is_Cut(arg_word[1]))
	Pl_Stream_Putc(' ', pstm);
      else
	Start_Line(pstm, level, ' ');
      Show_Body(pstm, level, RIGHT_AND, arg_word[1]);
      return;
    }

  if (Check_Structure(body_word, ATOM_CHAR(';'), 2, arg_word))
    {
      if (context != RIGHT_OR)
	{
	  Pl_Stream_Puts("(   ", pstm);
	  level++;
	}

      Show_Body(pstm, level, LEFT_OR, arg_word[0]);
      Start_Line(pstm, level, ';');
      Show_Body(pstm, level, RIGHT_OR, arg_word[1]);

      if (context != RIGHT_OR)
	{
	  Start_Line(pstm, level - 1, ' ');
	  Pl_Stream_Putc(')', pstm);
	}
      return;
    }

  soft_cut = 0;
  if (Check_Structure(body_word, atom_if, 2, arg_word) ||
      (soft_cut = 1, Check_Structure(body_word, atom_soft_if, 2, arg_word)))
    {
      if (context != LEFT_OR && context != RIGHT_OR)
	{
	  Pl_Stream_Puts("(   ", pstm);
	  level++;
	}

      Show_Body(pstm, level, LEFT_IF, arg_word[0]);
      Pl_Stream_Puts((soft_cut == 0) ? " ->" : " *-> ", pstm);
      Start_Line(pstm, level, ' ');
      Show_Body(pstm, level, RIGHT_IF, arg_word[1]);

      if (context != LEFT_OR && context != RIGHT_OR)
	{
	  Start_Line(pstm, level - 1, ' ');
	  Pl_Stream_Putc(')', pstm);
	}

      return;
    }

  Pl_Write_Term(pstm, 0, prec[context], WRITE_MASK, above_H, body_word);
}

void ref_Start_Line(StmInf *pstm, int level, char c_before)
{
  char *p = pl_glob_buff;
  int i;

  *p++ = '\n';
  strcpy(p, bol_indent);
  p += strlen(bol_indent);

  for (i = 0; i < 4 * (level - 1); i++)
    *p++ = ' ';

  if (level != 0)
    {
      *p++ = c_before;
      *p++ = ' ';
      *p++ = ' ';
      *p++ = ' ';
    }

  *p = '\0';

  Pl_Stream_Puts(pl_glob_buff, pstm);
  pl_last_writing = 0;
}

void ref_Pl_Name_Singleton_Vars_1(WamWord start_word)
{
  WamWord word;

  if (!Pl_Acyclic_Term_1(start_word))
    return;

  singl_var_ptr = pl_glob_dico_var;
  nb_singl_var = 0;

  Pl_Treat_Vars_Of_Term(start_word, FALSE, Collect_Singleton);

  if (nb_singl_var == 0)
    return;

  word = Pl_Put_Structure(atom_dollar_varname, 1);
  Pl_Unify_Atom(ATOM_CHAR('_'));

  while (--singl_var_ptr >= pl_glob_dico_var)
    {
      if (*singl_var_ptr & 1)
	continue;

      Bind_UV((WamWord *) *singl_var_ptr, word);
    }
}

Bool ref_Collect_Singleton(WamWord *adr, WamWord var_word)
{
  WamWord *p;

  for (p = pl_glob_dico_var; p < singl_var_ptr; p++)
    if ((*p & ~1) == (WamWord) adr)
      {
	if ((*p & 1) == 0)
	  {
	    *p |= 1;
	    nb_singl_var--;
	  }
	return TRUE;
      }

  if (singl_var_ptr - pl_glob_dico_var >= MAX_VAR_IN_TERM)
    Pl_Err_Representation(pl_representation_too_many_variables);

  *singl_var_ptr++ = (WamWord) adr;
  nb_singl_var++;
  return TRUE;
}

Bool ref_Pl_Name_Query_Vars_2(WamWord query_list_word, WamWord rest_list_word)
{
  WamWord word, tag_mask;
  WamWord save_list_word;
  WamWord *lst_adr, *stc_adr;

  save_list_word = query_list_word;

  Pl_Check_For_Un_List(rest_list_word);

  for (;;)
    {
      DEREF(query_list_word, word, tag_mask);

      if (tag_mask == TAG_REF_MASK)
	Pl_Err_Instantiation();

      if (word == NIL_WORD)
	break;

      if (tag_mask != TAG_LST_MASK)
	Pl_Err_Type(pl_type_list, save_list_word);

      lst_adr = UnTag_LST(word);

      DEREF(Car(lst_adr), word, tag_mask);
      stc_adr = UnTag_STC(word);
      if (tag_mask == TAG_STC_MASK && Functor_And_Arity(stc_adr) == equal_2)
	{
	  DEREF(Arg(stc_adr, 0), word, tag_mask);
	  if (tag_mask != TAG_ATM_MASK)
	    goto unchanged;

	  DEREF(Arg(stc_adr, 1), word, tag_mask);
	  if (tag_mask != TAG_REF_MASK)
	    goto unchanged;

	  Pl_Get_Structure(atom_dollar_varname, 1, word);
	  Pl_Unify_Value(Arg(stc_adr, 0));
	}
      else
	{
	unchanged:
	  if (!Pl_Get_List(rest_list_word) || !Pl_Unify_Value(Car(lst_adr)))
	    return FALSE;

	  rest_list_word = Pl_Unify_Variable();
	}
      query_list_word = Cdr(lst_adr);
    }

  return Pl_Get_Nil(rest_list_word);
}

#define BIND_WITH_NUMBERVAR (pl_sys_var[0] == 0)

Bool ref_Pl_Bind_Variables_4(WamWord term_word, WamWord exclude_list_word, WamWord from_word, WamWord next_word)
{
  WamWord word, tag_mask;
  WamWord save_list_word;
  WamWord *lst_adr, *stc_adr;

  nb_excl_var_tabled = 0;

  nb_to_try = Pl_Rd_Positive_Check(from_word);

  save_list_word = exclude_list_word;

  for (;;)
    {
      DEREF(exclude_list_word, word, tag_mask);

      if (tag_mask == TAG_REF_MASK)
	Pl_Err_Instantiation();

      if (word == NIL_WORD)
	break;

      if (tag_mask != TAG_LST_MASK)
	Pl_Err_Type(pl_type_list, save_list_word);

      lst_adr = UnTag_LST(word);

      DEREF(Car(lst_adr), word, tag_mask);
      if (Pl_Acyclic_Term_1(word))
	Collect_Excluded_Rec(word);

      stc_adr = UnTag_STC(word);
      if (tag_mask == TAG_STC_MASK && Functor_And_Arity(stc_adr) == equal_2)
	{
	  DEREF(Arg(stc_adr, 0), word, tag_mask);
	  if (tag_mask == TAG_ATM_MASK)
	    Exclude_A_Var_Number(Var_Name_To_Var_Number(UnTag_ATM(word)));
	}

      exclude_list_word = Cdr(lst_adr);
    }

  if (Pl_Acyclic_Term_1(term_word))
    Pl_Treat_Vars_Of_Term(term_word, FALSE, Bind_Variable);

  return Pl_Un_Integer_Check(nb_to_try, next_word);
}

int ref_Var_Name_To_Var_Number(int atom)
{
  char *p, *q;
  int n;

  p = pl_atom_tbl[atom].name;
  if (*p < 'A' || *p > 'Z')
    return -1;

  n = strtol(p + 1, &q, 10);
  if (*q)
    return -1;

  n = n * 26 + *p - 'A';

  return n;
}

void ref_Exclude_A_Var_Number(PlLong n)
{
  PlLong k;

  if (n < 0 || n >= MAX_VAR_IN_TERM)
    return;

  k = n - nb_excl_var_tabled;
  if (k > 0)
    {

      memset(pl_glob_dico_var + nb_excl_var_tabled, 0, k * sizeof(pl_glob_dico_var[0]));
    }

  if (nb_excl_var_tabled <= n)
    nb_excl_var_tabled = n + 1;

  pl_glob_dico_var[n] = 1;

}

void ref_Collect_Excluded_Rec(WamWord start_word)
{
  WamWord word, tag_mask;
  WamWord *adr;
  WamWord *stc_adr;
  int i;

 terminal_rec:

  DEREF(start_word, word, tag_mask);

  if (tag_mask == TAG_LST_MASK)
    {
      adr = UnTag_LST(word);
      adr = &Car(adr);
      Collect_Excluded_Rec(*adr++);
      start_word = *adr;
      goto terminal_rec;
    }

  if (tag_mask != TAG_STC_MASK)
    return;

  stc_adr = UnTag_STC(word);
  if (Functor_And_Arity(stc_adr) == dollar_var_1)
    {
      DEREF(Arg(stc_adr, 0), word, tag_mask);
      if (tag_mask != TAG_INT_MASK)
	goto normal_compound;

      Exclude_A_Var_Number(UnTag_INT(word));
      return;
    }

  if (Functor_And_Arity(stc_adr) == dollar_varname_1)
    {
      DEREF(Arg(stc_adr, 0), word, tag_mask);
      if (tag_mask != TAG_ATM_MASK)
	goto normal_compound;

      Exclude_A_Var_Number(Var_Name_To_Var_Number(UnTag_ATM(word)));
      return;
    }

 normal_compound:
  i = Arity(stc_adr);
  adr = &Arg(stc_adr, 0);
  while (--i)
    Collect_Excluded_Rec(*adr++);
  start_word = *adr;
  goto terminal_rec;
}

Bool ref_Bind_Variable(WamWord *adr, WamWord word)
{
  int i;
  PlLong j;
  char buff[32];

  while (nb_to_try < nb_excl_var_tabled && pl_glob_dico_var[nb_to_try])
    nb_to_try++;

  if (BIND_WITH_NUMBERVAR)
    {
      Pl_Get_Structure(atom_dollar_var, 1, word);
      Pl_Unify_Integer(nb_to_try++);
      return TRUE;
    }

  i = (int) (nb_to_try % 26);
  j = nb_to_try / 26;
  nb_to_try++;

  buff[0] = 'A' + i;

  if (j)
    sprintf(buff + 1, "%" PL_FMT_d, j);
  else
    buff[1] = '\0';

  Pl_Get_Structure(atom_dollar_varname, 1, word);
  Pl_Unify_Atom(Pl_Create_Allocate_Atom(buff));

  return TRUE;
}
