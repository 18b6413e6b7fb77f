/* What the functions of parser_supp.c are to do. */
#include "gp_config.h"
#include <string.h>
#include <ctype.h>
#include "pl_setjmp.h"
#include "engine_pl.h"
#include "bips_pl.h"
#include "macros_ref.h"
#include "wam_ref.h"

#define PARSER_SUPP_FILE

#define COMMA_ANY FALSE

#define GENERAL_TERM 0
#define TRYING_PREFIX 1
#define INSIDE_ANY_OP 2

extern StmInf *pstm_i;

extern Bool tok_present;
extern char unget_tok_buffer[LEXER_BIG_BUFFER];
static TokInf unget_tok = { .name = unget_tok_buffer };

extern sigjmp_buf jumper;

extern WamWord buff_save_machine_regs[NB_OF_USED_MACHINE_REGS];

extern int atom_var;
extern int atom_string;
extern int atom_punct;
extern int atom_atom;
extern int atom_back_quotes;
extern int atom_full_stop;
extern int atom_extend;

void Read_Next_Token(Bool comma_is_punct);

WamWord Parse_Term(int cur_prec, int context, Bool comma_is_punct);

WamWord Parse_Args_Of_Functor(int atom);

WamWord Parse_Bracketed_Term(void);

WamWord Parse_List(Bool can_be_empty);

WamWord Create_Structure(int func, int arity, WamWord *arg);

int Lookup_In_Dico_Var(char *name);

void Parse_Error(char *err_msg);

#define Unget_Token do { char *swap_buffer = unget_tok.name; unget_tok = pl_token; pl_token.name = swap_buffer; tok_present = TRUE; } while (0)

#define Update_Last_Read_Position do { pl_last_read_line = pl_token.line; pl_last_read_col = pl_token.col; } while (0)

#define CHECK_INTEGER_BOUNDS(raise_error) do { char *err = NULL; if (pl_token.int_num > INT_GREATEST_VALUE) err = "integer overflow (exceeds max_integer)"; else if (pl_token.int_num < INT_LOWEST_VALUE) err = "integer overflow (exceeds min_integer)"; if (err != NULL) { if (raise_error) Parse_Error(err); else { Pl_Set_Last_Syntax_Error("", pl_token.line, pl_token.col, err); return NOT_A_WAM_WORD; } } } while (0)
void Read_Next_Token(Bool comma_is_punct);
WamWord Pl_Read_Term(StmInf *pstm, int parse_end_of_term);
WamWord Parse_Term(int cur_prec, int context, Bool comma_is_punct);
WamWord Parse_Args_Of_Functor(int atom);
WamWord Parse_Bracketed_Term(void);
WamWord Parse_List(Bool can_be_empty);
WamWord Create_Structure(int func, int arity, WamWord *arg);
int Lookup_In_Dico_Var(char *name);
void Parse_Error(char *err_msg);
WamWord Pl_Read_Atom(StmInf *pstm);
WamWord Pl_Read_Number(StmInf *pstm, Bool integer_only);
WamWord Pl_Read_Token(StmInf *pstm);


void ref_Parser_Supp_Initializer(void)
{
  atom_var = Pl_Create_Atom("var");
  atom_string = Pl_Create_Atom("string");
  atom_punct = Pl_Create_Atom("punct");
  atom_atom = Pl_Create_Atom("atom");
  atom_back_quotes = Pl_Create_Atom("back_quotes");
  atom_full_stop = Pl_Create_Atom("full_stop");
  atom_extend = Pl_Create_Atom("extend");
}

void ref_Read_Next_Token(Bool comma_is_punct)
{
  char *err_msg;

  if (tok_present)
    {
      char *swap_buffer = pl_token.name;
      pl_token = unget_tok;
      unget_tok.name = swap_buffer;

      tok_present = FALSE;
      if (comma_is_punct && pl_token.type == TOKEN_NAME &&  !pl_token.quoted &&
	  pl_token.name[0] == ',' && pl_token.name[1] == '\0')
	{
	  pl_token.type = TOKEN_PUNCTUATION;
	  pl_token.punct = ',';
	}
      else if (!comma_is_punct && pl_token.type == TOKEN_PUNCTUATION &&
	       pl_token.punct == ',')
	{
	  pl_token.type = TOKEN_NAME;
	  pl_token.quoted = FALSE;
	  pl_token.name[0] = ',';
	  pl_token.name[1] = '\0';
	}
    }
  else if ((err_msg = Pl_Lexer_Token(pstm_i, comma_is_punct)) != NULL)
    Parse_Error(err_msg);
}

WamWord ref_Pl_Read_Term(StmInf *pstm, int parse_end_of_term)
{
  int jmp_val;
  WamWord term;
  int save_use_le_prompt = pl_use_le_prompt;

  pl_use_le_prompt = 1;

  pl_parse_nb_var = 0;
  pl_last_read_line = -1;

  pstm_i = pstm;

  tok_present = FALSE;
  Save_Machine_Regs(buff_save_machine_regs);

  jmp_val = sigsetjmp(jumper, 1);

  Restore_Machine_Regs(buff_save_machine_regs);

  if (jmp_val == 0)
    {
      term = Parse_Term(MAX_PREC, GENERAL_TERM, COMMA_ANY);

      Read_Next_Token(COMMA_ANY);
      if (term == NOT_A_WAM_WORD)
	{
	  if (pl_token.type == TOKEN_END_OF_FILE)
	    {
	      term = Pl_Put_Atom(pl_atom_end_of_file);
	      goto finish;
	    }
	  else
	    {

	      Parse_Error("expression expected");
	    }
	}

      if (parse_end_of_term == PARSE_END_OF_TERM_DOT)
	{
	  if (pl_token.type == TOKEN_FULL_STOP)
	    goto finish;
	  else
	    {

	      Parse_Error(". or operator expected after expression");
	    }
	}

      if (pl_token.type == TOKEN_END_OF_FILE)
	goto finish;
      else
	{

	  Parse_Error("eof or operator expected after expression");
	}
    }
  else
    {
      Restore_Machine_Regs(buff_save_machine_regs);
      term = NOT_A_WAM_WORD;
    }

 finish:
  pl_use_le_prompt = save_use_le_prompt;
  return term;
}

WamWord ref_Parse_Term(int cur_prec, int context, Bool comma_is_punct)
{
  Bool bracket;
  int atom;
  OperInf *oper;
  Bool infix_op;
  int cur_left = 0;
  int i;
  PlLong flag_value;
  WamWord term, term1;
  WamWord w[2];
  Bool left_is_op = FALSE;

  Read_Next_Token(context != TRYING_PREFIX || comma_is_punct);
  if (pl_last_read_line == -1)
    Update_Last_Read_Position;

  switch (pl_token.type)
    {
    case TOKEN_VARIABLE:
      i = Lookup_In_Dico_Var(pl_token.name);
      if (++pl_parse_dico_var[i].nb_of_uses == 1)
	{
	  term = Pl_Put_X_Variable();
	  pl_parse_dico_var[i].word = term;
	}
      else
	term = pl_parse_dico_var[i].word;
      break;

    case TOKEN_INTEGER:
      CHECK_INTEGER_BOUNDS(TRUE);
      term = Pl_Put_Integer(pl_token.int_num);
      break;

    case TOKEN_FLOAT:
      term = Pl_Put_Float(pl_token.float_num);
      break;

    case TOKEN_STRING:
    case TOKEN_BACK_QUOTED:
      flag_value = (pl_token.type == TOKEN_STRING) ?
	Flag_Value(double_quotes) : Flag_Value(back_quotes);

      if (flag_value == PF_QUOT_AS_ATOM || flag_value == PF_QUOT_AS_ATOM_NO_ESCAPE)
	{
	  atom = Pl_Create_Allocate_Atom(pl_token.name);
	  goto a_name;
	}

      i = (int) strlen(pl_token.name);
      term = NIL_WORD;
      while (i--)
	{
	  term1 = Pl_Put_List();
	  if (flag_value == PF_QUOT_AS_CODES || flag_value == PF_QUOT_AS_CODES_NO_ESCAPE)
	    Pl_Unify_Integer(pl_token.name[i]);
	  else
	    Pl_Unify_Atom(ATOM_CHAR(pl_token.name[i]));

	  Pl_Unify_Value(term);
	  term = term1;
	}
      break;

    case TOKEN_IMMEDIAT_OPEN:
      pl_token.punct = '(';

    case TOKEN_PUNCTUATION:
      if (!strchr("({[", pl_token.punct))
	{
	  term = NOT_A_WAM_WORD;
	  goto finish;
	}

      atom = (pl_token.punct == '{') ? pl_atom_curly_brackets : ATOM_NIL;

      term = Parse_Bracketed_Term();
      if (term == NOT_A_WAM_WORD)
	{
	  pl_token.type = TOKEN_NAME;
	  strcpy(pl_token.name, pl_atom_tbl[atom].name);
	  goto a_name;
	}

      break;

    case TOKEN_NAME:
      atom = Pl_Create_Allocate_Atom(pl_token.name);

    a_name:
      bracket = (Pl_Lexer_Peek_Char(pstm_i, TRUE) == '(');

      if (bracket && (pl_token.name[0] != ',' || pl_token.name[1] != '\0' || pl_token.quoted))
	{
	  term = Parse_Args_Of_Functor(atom);
	  break;
	}

      if (pl_token.name[0] == '-' && pl_token.name[1] == '\0')
	{
	  PlLong save_line = pl_token.line;
	  PlLong save_col = pl_token.col;

	  Read_Next_Token(COMMA_ANY);
	  if (pl_token.type == TOKEN_INTEGER)
	    {
	      pl_token.int_num = -pl_token.int_num;
	      CHECK_INTEGER_BOUNDS(TRUE);
	      term = Pl_Put_Integer(pl_token.int_num);
	      break;
	    }

	  if (pl_token.type == TOKEN_FLOAT)
	    {
	      term = Pl_Put_Float(-pl_token.float_num);
	      break;
	    }

	  Unget_Token;

	  pl_token.type = TOKEN_NAME;
	  strcpy(pl_token.name, "-");
	  pl_token.line = save_line;
	  pl_token.col = save_col;
	}

      if ((oper = Pl_Lookup_Oper(atom, PREFIX)) && cur_prec >= oper->prec)
	{

	  cur_left = oper->prec;
	  term = Parse_Term(oper->right, TRYING_PREFIX, comma_is_punct);
	  if (term != NOT_A_WAM_WORD)
	    {
	      term = Create_Structure(atom, 1, &term);
	      break;
	    }

	  if (context != GENERAL_TERM)
	    Parse_Error("expression expected or previous operator needs brackets");
	}

      left_is_op = (Check_Oper_Any_Type(atom));

      if (left_is_op && context != GENERAL_TERM)
	{
	  if (Check_Oper(atom, INFIX) || Check_Oper(atom, POSTFIX))
	    Parse_Error("current or previous operator needs brackets");
	  else
	    Parse_Error("current operator needs brackets");
	}

      term = Pl_Put_Atom(atom);
      break;

    default:
      term = NOT_A_WAM_WORD;
      goto finish;
    }

  for (;;)
    {
      Read_Next_Token(comma_is_punct);

      if (pl_token.type == TOKEN_PUNCTUATION && pl_token.punct == '|' &&
	  (oper = Pl_Lookup_Oper(atom = ATOM_CHAR('|'), INFIX)) && oper->prec > 1000 && cur_prec >= oper->prec)
	infix_op = TRUE;
      else

	{
	  if (pl_token.type != TOKEN_NAME)
	    break;

	  atom = Pl_Create_Allocate_Atom(pl_token.name);
	  if ((oper = Pl_Lookup_Oper(atom, INFIX)))
	    infix_op = TRUE;
	  else if ((oper = Pl_Lookup_Oper(atom, POSTFIX)))
	    infix_op = FALSE;
	  else
	    break;
	}

      if (left_is_op)
	Parse_Error("previous operator needs brackets");

      if (cur_prec < oper->prec || cur_left > oper->left)
	break;

      if (infix_op)
	{
	  w[0] = term;
	  w[1] = Parse_Term(oper->right, INSIDE_ANY_OP, comma_is_punct);

	  if (w[1] == NOT_A_WAM_WORD)
	    Parse_Error("right operand expected for infix operator");

	  if (atom == ATOM_CHAR('.'))
	    {
	      term = Pl_Put_List();
	      Pl_Unify_Value(w[0]);
	      Pl_Unify_Value(w[1]);
	    }
 	  else
	    term = Create_Structure(atom, 2, w);
	}
      else
	term = Create_Structure(atom, 1, &term);

      cur_left = oper->prec;
    }

 finish:
  Unget_Token;

  return term;
}

WamWord ref_Parse_Args_Of_Functor(int atom)
{
  WamWord w[NB_OF_X_REGS];
  int i;

  Read_Next_Token(COMMA_ANY);

  i = 0;
  do
    {
      if (i >= MAX_ARITY)
	Parse_Error("too big compound term (exceeds max_arity)");

      w[i] = Parse_Term(MAX_ARG_OF_FUNCTOR_PREC, GENERAL_TERM, TRUE);

      if (w[i++] == NOT_A_WAM_WORD)
	Parse_Error("expression expected");
      Read_Next_Token(TRUE);
    }
  while (pl_token.type == TOKEN_PUNCTUATION && pl_token.punct == ',');

  if (pl_token.type != TOKEN_PUNCTUATION || pl_token.punct != ')')
    Parse_Error(", or ) expected");

  return Create_Structure(atom, i, w);
}

WamWord ref_Parse_Bracketed_Term(void)
{
  WamWord term = 0;

  switch (pl_token.punct)
    {
    case '(':
      term = Parse_Term(MAX_PREC, GENERAL_TERM, COMMA_ANY);
      if (term == NOT_A_WAM_WORD)
	Parse_Error("expression expected");

      Read_Next_Token(COMMA_ANY);
      if (pl_token.type != TOKEN_PUNCTUATION || pl_token.punct != ')')
	Parse_Error(") or operator expected");
      break;

    case '{':
      term = Parse_Term(MAX_PREC, GENERAL_TERM, COMMA_ANY);

      Read_Next_Token(COMMA_ANY);
      if (pl_token.type != TOKEN_PUNCTUATION || pl_token.punct != '}')
	Parse_Error("} or operator expected");

      if (term != NOT_A_WAM_WORD)
	term = Create_Structure(pl_atom_curly_brackets, 1, &term);
      break;

    case '[':
      term = Parse_List(TRUE);
      break;
    }

  return term;
}

WamWord ref_Parse_List(Bool can_be_empty)
{
  WamWord term;
  WamWord car_word, cdr_word = 0;

  car_word = Parse_Term(MAX_ARG_OF_FUNCTOR_PREC, GENERAL_TERM, TRUE);

  Read_Next_Token(TRUE);

  if (car_word == NOT_A_WAM_WORD)
    {
      if (!can_be_empty)
	Parse_Error("expression expected in list");
      else if (pl_token.type != TOKEN_PUNCTUATION || pl_token.punct != ']')
	Parse_Error("expression or ] expected in list");

      return NOT_A_WAM_WORD;
    }

  if (pl_token.type != TOKEN_PUNCTUATION || !strchr(",|]", pl_token.punct))
    Parse_Error(", | ] or operator expected in list");

  switch (pl_token.punct)
    {
    case ',':
      cdr_word = Parse_List(FALSE);
      break;

    case '|':
      cdr_word = Parse_Term(MAX_ARG_OF_FUNCTOR_PREC, GENERAL_TERM, COMMA_ANY);
      if (cdr_word == NOT_A_WAM_WORD)
	Parse_Error("expression expected in list");

      Read_Next_Token(TRUE);
      if (pl_token.type != TOKEN_PUNCTUATION || pl_token.punct != ']')
	Parse_Error("] or operator expected in list");
      break;

    case ']':
      cdr_word = NIL_WORD;
      break;
    }

  term = Pl_Put_List();
  Pl_Unify_Value(car_word);
  Pl_Unify_Value(cdr_word);

  return term;
}

WamWord ref_Create_Structure(int func, int arity, WamWord *arg)
{
  WamWord res_word;
  int i;

  if (arity == 2 && func == ATOM_CHAR('.'))
    {
      res_word = Pl_Put_List();
      Pl_Unify_Value(arg[0]);
      Pl_Unify_Value(arg[1]);
    }
  else
    {
      res_word = Pl_Put_Structure(func, arity);
      for (i = 0; i < arity; i++)
	Pl_Unify_Value(arg[i]);
    }

  return res_word;
}

int ref_Lookup_In_Dico_Var(char *name)
{
  int i;
  Bool named;

  if (name[0] != '_' || name[1] != '\0')
    {
      named = TRUE;
      for (i = 0; i < pl_parse_nb_var && strcmp(name, pl_parse_dico_var[i].name) != 0; i++)
	;
    }
  else
    {
      named = FALSE;
      i = pl_parse_nb_var;
    }

  if (i == pl_parse_nb_var)
    {
      if (pl_parse_nb_var >= MAX_VAR_IN_TERM)
	Parse_Error("too many variables in a term");

      strcpy(pl_parse_dico_var[pl_parse_nb_var].name, name);
      pl_parse_dico_var[pl_parse_nb_var].word = NOT_A_WAM_WORD;
      pl_parse_dico_var[pl_parse_nb_var].named = named;
      pl_parse_dico_var[pl_parse_nb_var].nb_of_uses = 0;
      pl_parse_nb_var++;
    }

  return i;
}

void ref_Parse_Error(char *err_msg)
{
  Pl_Set_Last_Syntax_Error(pl_atom_tbl[pstm_i->atom_file_name].name,
			   pl_token.line, pl_token.col, err_msg);

  if (pl_token.type != TOKEN_FULL_STOP)
    Pl_Recover_After_Error(pstm_i);

  Save_Machine_Regs(buff_save_machine_regs);
  siglongjmp(jumper, 1);
}

WamWord ref_Pl_Read_Atom(StmInf *pstm)
{
  char *err_msg;

  if ((err_msg = Pl_Lexer_Next_Atom(pstm)) != NULL)
    {
      Pl_Set_Last_Syntax_Error(pl_atom_tbl[pstm->atom_file_name].name,
			       pl_token.line, pl_token.col, err_msg);
      return NOT_A_WAM_WORD;
    }

  Update_Last_Read_Position;

  return Pl_Put_Atom(Pl_Create_Allocate_Atom(pl_token.name));
}

WamWord ref_Pl_Read_Number(StmInf *pstm, Bool integer_only)
{
  char *err_msg;
  int sign = 1;

  if ((err_msg = Pl_Lexer_Token(pstm, COMMA_ANY)) != NULL)
    {
      Pl_Set_Last_Syntax_Error("", pl_token.line, pl_token.col, err_msg);
      return NOT_A_WAM_WORD;
    }

  if (pl_token.type == TOKEN_NAME &&
      pl_token.name[0] == '-' && pl_token.name[1] == '\0')
    {
      sign = -1;
      if ((err_msg = Pl_Lexer_Token(pstm, COMMA_ANY)) != NULL)
	{
	  Pl_Set_Last_Syntax_Error("", pl_token.line, pl_token.col, err_msg);
	  return NOT_A_WAM_WORD;
	}
    }

  if (pl_token.type == TOKEN_INTEGER)
    {
      pl_token.int_num *= sign;
      CHECK_INTEGER_BOUNDS(FALSE);
      return Pl_Put_Integer(pl_token.int_num);
    }

  if (!integer_only && pl_token.type == TOKEN_FLOAT)
    {
      pl_token.float_num *= sign;
      return Pl_Put_Float(pl_token.float_num);
    }

  Pl_Set_Last_Syntax_Error("", pl_token.line, pl_token.col, "invalid start of number");
  return NOT_A_WAM_WORD;
}

WamWord ref_Pl_Read_Token(StmInf *pstm)
{
  WamWord term, arg = 0;
  int func = 0, atom;
  char *err_msg;

  if ((err_msg = Pl_Lexer_Token(pstm, FALSE)) != NULL)
    {
      Pl_Set_Last_Syntax_Error(pl_atom_tbl[pstm->atom_file_name].name,
			       pl_token.line, pl_token.col, err_msg);
      return NOT_A_WAM_WORD;
    }

  Update_Last_Read_Position;

  term = NOT_A_WAM_WORD;

  switch (pl_token.type)
    {
    case TOKEN_VARIABLE:
      func = atom_var;
    arg_of_struct:
      atom = Pl_Create_Allocate_Atom(pl_token.name);
      arg = Pl_Put_Atom(atom);
      break;

    case TOKEN_INTEGER:
      term = Pl_Put_Integer(pl_token.int_num);
      break;

    case TOKEN_FLOAT:
      term = Pl_Put_Float(pl_token.float_num);
      break;

    case TOKEN_STRING:
      func = atom_string;
      goto arg_of_struct;

    case TOKEN_IMMEDIAT_OPEN:
      pl_token.punct = '(';

    case TOKEN_PUNCTUATION:
      func = atom_punct;
      atom = ATOM_CHAR(pl_token.punct);
      arg = Pl_Put_Atom(atom);
      break;

    case TOKEN_NAME:
      atom = Pl_Create_Allocate_Atom(pl_token.name);
      term = Pl_Put_Atom(atom);
      break;

    case TOKEN_BACK_QUOTED:
      func = atom_back_quotes;
      goto arg_of_struct;

    case TOKEN_FULL_STOP:
      func = atom_punct;
      arg = Pl_Put_Atom(atom_full_stop);
      break;

    case TOKEN_END_OF_FILE:
      func = atom_punct;
      arg = Pl_Put_Atom(pl_atom_end_of_file);
      break;

    case TOKEN_EXTENDED:
      func = atom_extend;
      goto arg_of_struct;
    }

  if (term == NOT_A_WAM_WORD)
    {
      term = Pl_Put_Structure(func, 1);
      Pl_Unify_Value(arg);
    }

  return term;
}
