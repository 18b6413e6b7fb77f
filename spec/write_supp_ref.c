/* What the functions of write_supp.c are to do. */
#include <string.h>
#include "gp_config.h"
#include <ctype.h>
#include "engine_pl.h"
#include "bips_pl.h"
#include "macros_ref.h"
#include "wam_ref.h"

#define WRITE_SUPP_FILE

#define OP_MINUS_BRACKETS_MIXED

#define NO_ELLIPSIS_FOR_VAR

#define FIRST_ELEM_OF_LIST_WITH_SAME_DEPTH

#define ELLIPSIS_MORE_THAN_ONE_TERM_IN_STC

#define W_NOTHING 0
#define W_NUMBER 1
#define W_NUMBER_0 2
#define W_IDENTIFIER 3
#define W_QUOTED 4
#define W_GRAPHIC 5

#define W_NO_PREFIX_OP 0
#define W_PREFIX_OP_ANY 1
#define W_PREFIX_OP_MINUS 2

#define GENERAL_TERM 0
#define INSIDE_ANY_OP 1
#define INSIDE_LEFT_ASSOC_OP 2

extern WamWord curly_brackets_1;
extern WamWord dollar_var_1;
extern WamWord dollar_varname_1;

extern int atom_dots;
extern int atom_portray;

extern StmInf *pstm_o;
extern Bool quoted;
extern Bool ignore_op;
extern Bool number_vars;
extern Bool name_vars;
extern Bool space_args;
extern Bool portrayed;

extern WamWord *name_number_above_H;

extern Bool last_is_space;
extern int last_prefix_op;
extern Bool *p_bracket_op_minus;

void Emit_Space_If_Needed(int c);

void Out_Space(void);

void Out_Char(int c);

void Out_String(char *str);

void Show_Term(int depth, int prec, int context, WamWord term_word);

int Get_Var_Name_From_Stc(WamWord f_n, WamWord *stc_adr);

int Get_Var_Number_From_Stc(WamWord f_n, WamWord *stc_adr);

Bool Is_Rendered_As_Var(WamWord word);

void Show_Global_Var(WamWord *adr);

void Show_Fd_Variable(WamWord *fdv_adr);

void Show_Atom(int context, int atom);

void Show_Integer(PlLong x);

void Show_Float(double x);

void Show_Number_Str(char *str);

void Show_List_Elements(int depth, WamWord *lst_adr);

void Show_Structure(int depth, int prec, int context, WamWord *stc_adr);

Bool Try_Portray(WamWord word);

#define SHOW_LIST_PIPE Out_Char('|')

#define SHOW_COMMA do { Out_Char(','); if (space_args) Out_Space(); } while (0)
void Pl_Write_Term_Options_In_Sys_Var(StmInf *pstm, WamWord term_word);
void Pl_Write_Term(StmInf *pstm, int depth, int prec, int mask, WamWord *above_H, WamWord term_word);
void Pl_Write(WamWord term_word);
void Pl_Writeln(WamWord term_word);
void Out_Space(void);
void Out_Char(int c);
void Out_String(char *str);
void Emit_Space_If_Needed(int c);
void Pl_Write_A_Full_Stop(StmInf *pstm);
void Pl_Write_A_Char(StmInf *pstm, int c);
char * Pl_Float_To_String(double d);
void Show_Term(int depth, int prec, int context, WamWord term_word);
int Get_Var_Name_From_Stc(WamWord f_n, WamWord *stc_adr);
int Get_Var_Number_From_Stc(WamWord f_n, WamWord *stc_adr);
Bool Is_Rendered_As_Compound(WamWord term_word);
Bool Is_Rendered_As_Var(WamWord term_word);
void Show_Global_Var(WamWord *adr);
void Show_Fd_Variable(WamWord *fdv_adr);
void Show_Atom(int context, int atom);
void Show_Integer(PlLong x);
void Show_Float(double x);
void Show_Number_Str(char *str);
void Show_List_Elements(int depth, WamWord *lst_adr);
Bool Is_Valid_Var_Name(char *str);
Bool Pl_Is_Valid_Var_Name_1(WamWord name_word);
void Show_Structure(int depth, int prec, int context, WamWord *stc_adr);
Bool Try_Portray(WamWord word);
Bool Pl_Get_Print_Stm_1(WamWord stm_word);
int ref_last_prefix_op = W_NO_PREFIX_OP;

void ref_Write_Supp_Initializer(void)
{
  atom_dots = Pl_Create_Atom("...");
  atom_portray = Pl_Create_Atom("portray");

  curly_brackets_1 = Functor_Arity(pl_atom_curly_brackets, 1);
  dollar_var_1 = Functor_Arity(Pl_Create_Atom("$VAR"), 1);
  dollar_varname_1 = Functor_Arity(Pl_Create_Atom("$VARNAME"), 1);
}

void ref_Pl_Write_Term_Options_In_Sys_Var(StmInf *pstm, WamWord term_word)
{
  WamWord *above_H = NULL;

  if (SYS_VAR_WRITE_ABOVE > 0)
    {
      WamWord *b = LSSA + SYS_VAR_WRITE_ABOVE;
      above_H = HB(b);
    }

  Pl_Write_Term(pstm, (int) SYS_VAR_WRITE_DEPTH, (int) SYS_VAR_WRITE_PREC,
		(int) SYS_VAR_OPTION_MASK, above_H, term_word);
}

void ref_Pl_Write_Term(StmInf *pstm, int depth, int prec, int mask, WamWord *above_H, WamWord term_word)
{
  pstm_o = pstm;

  quoted = mask & WRITE_QUOTED;
  ignore_op = mask & WRITE_IGNORE_OP;
  number_vars = mask & WRITE_NUMBER_VARS;
  name_vars = mask & WRITE_NAME_VARS;
  space_args = mask & WRITE_SPACE_ARGS;
  portrayed = mask & WRITE_PORTRAYED;

  name_number_above_H = above_H;

  last_is_space = FALSE;
  last_prefix_op = W_NO_PREFIX_OP;
  pl_last_writing = W_NOTHING;

  if (depth == 0)
    depth = -1;

  Show_Term(depth, prec, (prec >= 1200) ? GENERAL_TERM : INSIDE_ANY_OP, term_word);
}

void ref_Pl_Write(WamWord term_word)
{
  StmInf *pstm = pl_stm_tbl[pl_stm_current_output];

  Pl_Write_Term(pstm, 0, MAX_PREC, WRITE_NUMBER_VARS | WRITE_NAME_VARS,
		NULL, term_word);

}

void ref_Pl_Writeln(WamWord term_word)
{
  StmInf *pstm = pl_stm_tbl[pl_stm_current_output];

  Pl_Write_Term(pstm, 0, MAX_PREC, WRITE_NUMBER_VARS | WRITE_NAME_VARS,
		NULL, term_word);
  Pl_Nl_0();

}

void ref_Out_Space(void)
{
  if (!last_is_space)
    {
      Pl_Stream_Putc(' ', pstm_o);
      last_is_space = TRUE;
    }
  pl_last_writing = W_NOTHING;
}

void ref_Out_Char(int c)
{
  Emit_Space_If_Needed(c);
  Pl_Stream_Putc(c, pstm_o);

  last_is_space = FALSE;

}

void ref_Out_String(char *str)
{
  Emit_Space_If_Needed(*str);
  Pl_Stream_Puts(str, pstm_o);

  last_is_space = FALSE;

}

void ref_Emit_Space_If_Needed(int c)
{
  int c_type = pl_char_type[c];
  Bool space;

  switch (pl_last_writing)
    {
    case W_NUMBER_0:
      if (c_type == QT)
	{
	  space = TRUE;
	  break;
	}

    case W_NUMBER:
      space = (c_type & (UL | CL | SL | DI)) || c == '.';
      break;

    case W_IDENTIFIER:
      space = (c_type & (UL | CL | SL | DI)) || c == '[' || c == '{';
      break;

    case W_QUOTED:
      space = (c_type == QT);
      break;

    case W_GRAPHIC:
      space = (c_type == GR);
      break;

    default:
      space = FALSE;
    }

  if (space || (c == '(' && last_prefix_op != W_NO_PREFIX_OP))
    Out_Space();
  else if (c_type == DI && last_prefix_op == W_PREFIX_OP_MINUS)
    {
      (*p_bracket_op_minus)++;

      Out_Space();

      Out_Char('(');
    }

  last_prefix_op = W_NO_PREFIX_OP;
  pl_last_writing = W_NOTHING;
}

void ref_Pl_Write_A_Full_Stop(StmInf *pstm)
{
  pstm_o = pstm;
  if (pl_last_writing == W_NUMBER_0 || pl_last_writing == W_NUMBER)
    pl_last_writing = W_NOTHING;

  Out_Char('.');
  Out_Char('\n');
}

void ref_Pl_Write_A_Char(StmInf *pstm, int c)
{
  pstm_o = pstm;
  Out_Char(c);
}

char * ref_Pl_Float_To_String(double d)
{
  char *p, *q, *e;
  static char buff[32];

  sprintf(buff, "%#.17g", d);

  p = buff;
  while (*p == ' ')
    p++;

  if (p != buff)
    {
      q = buff;
      while ((*q++ = *p++))
	;
    }

  p = strchr(buff, '.');
  if (p == NULL)
    return buff;

  if (p[1] == '\0')
    {
      strcat(buff, "0");
      return buff;
    }

  e = strchr(buff, 'e');
  if (e == NULL)
    e = buff + strlen(buff);
  p = e - 1;
  while (*p == '0')
    p--;

  q = (*p == '.') ? p + 2 : p + 1;

  if (q != e)
    while ((*q++ = *e++))
      ;

  return buff;
}

void ref_Show_Term(int depth, int prec, int context, WamWord term_word)
{
  WamWord word, tag_mask;
  WamWord *adr;

  if (depth == 0

      && !Is_Rendered_As_Var(term_word)

      )
    {
      Show_Atom(GENERAL_TERM, atom_dots);
      return;
    }

  DEREF(term_word, word, tag_mask);
  if (tag_mask != TAG_REF_MASK && Try_Portray(word))
    return;

  switch (Tag_From_Tag_Mask(tag_mask))
    {
    case REF:
      adr = UnTag_REF(word);
      if (Is_A_Local_Adr(adr))
	{
	  Globalize_Local_Unbound_Var(adr, word);
	  adr = UnTag_REF(word);
	}
      Show_Global_Var(adr);
      break;

    case ATM:
      Show_Atom(context, UnTag_ATM(word));
      break;

    case FDV:
      Show_Fd_Variable(UnTag_FDV(word));
      break;

    case INT:
      Show_Integer(UnTag_INT(word));
      break;

    case FLT:
      Show_Float(Pl_Obtain_Float(UnTag_FLT(word)));
      break;

    case LST:
      adr = UnTag_LST(word);
      if (ignore_op)
	{
	  Out_String("'.'(");
	  Show_Term(depth - 1, MAX_ARG_OF_FUNCTOR_PREC, GENERAL_TERM, Car(adr));
	  SHOW_COMMA;
	  Show_Term(depth - 1, MAX_ARG_OF_FUNCTOR_PREC, GENERAL_TERM, Cdr(adr));
	  Out_Char(')');
	}
      else
	{
	  Out_Char('[');
	  Show_List_Elements(depth, adr);
	  Out_Char(']');
	}
      break;

    case STC:
      adr = UnTag_STC(word);
      Show_Structure(depth, prec, context, adr);
      break;
    }
}

int ref_Get_Var_Name_From_Stc(WamWord f_n, WamWord *stc_adr)
{
  WamWord word, tag_mask;

  if (name_vars && f_n == dollar_varname_1 && stc_adr >= name_number_above_H)
    {
      DEREF(Arg(stc_adr, 0), word, tag_mask);
      if (tag_mask == TAG_ATM_MASK)
	{
	  int atom = UnTag_ATM(word);

	  return atom;

	}
    }
  return -1;
}

int ref_Get_Var_Number_From_Stc(WamWord f_n, WamWord *stc_adr)
{
  WamWord word, tag_mask;
  int n;

  if (number_vars && f_n == dollar_var_1 && stc_adr >= name_number_above_H)
    {
      DEREF(Arg(stc_adr, 0), word, tag_mask);
      if (tag_mask == TAG_INT_MASK && (n = (int) UnTag_INT(word)) >= 0)
	return n;
    }
  return -1;
}

Bool ref_Is_Rendered_As_Compound(WamWord term_word)
{
  WamWord word, tag_mask;

  DEREF(term_word, word, tag_mask);

  if (tag_mask == TAG_LST_MASK)
    return TRUE;

  if (tag_mask != TAG_STC_MASK)
    return FALSE;

  WamWord *stc_adr = UnTag_STC(word);
  WamWord f_n = Functor_And_Arity(stc_adr);

  if (Get_Var_Name_From_Stc(f_n, stc_adr) >= 0)
    return FALSE;

  if (Get_Var_Number_From_Stc(f_n, stc_adr) >= 0)
    return FALSE;

  return TRUE;
}

Bool ref_Is_Rendered_As_Var(WamWord term_word)
{
  WamWord word, tag_mask;

  DEREF(term_word, word, tag_mask);
  if (tag_mask == TAG_REF_MASK)
    return TRUE;

  if (tag_mask != TAG_STC_MASK)
    return FALSE;

  WamWord *stc_adr = UnTag_STC(word);
  WamWord f_n = Functor_And_Arity(stc_adr);

  if (Get_Var_Name_From_Stc(f_n, stc_adr) >= 0)
    return TRUE;

  if (Get_Var_Number_From_Stc(f_n, stc_adr) >= 0)
    return TRUE;

  return FALSE;
}

void ref_Show_Global_Var(WamWord *adr)
{
  char str[32];

  sprintf(str, "_%d", (int) Global_Offset(adr));
  Out_String(str);

  pl_last_writing = W_IDENTIFIER;
}

void ref_Show_Fd_Variable(WamWord *fdv_adr)
{
  char str[32];

  sprintf(str, "_#%d(", (int) Cstr_Offset(fdv_adr));
  Out_String(str);

  Out_String(Fd_Variable_To_String(fdv_adr));
  Out_Char(')');

  pl_last_writing = W_IDENTIFIER;
}

void ref_Show_Atom(int context, int atom)
{
  char *p, *q;
  char str[32];
  Bool bracket = FALSE;
  int c, c_type;
  AtomProp prop;

  prop = pl_atom_tbl[atom].prop;

  if (context != GENERAL_TERM && Check_Oper_Any_Type(atom))
    {
      Out_Char('(');
      bracket = TRUE;
    }

  if (!quoted || !prop.needs_quote)
    {
      Out_String(pl_atom_tbl[atom].name);

      switch (prop.type)
	{
	case IDENTIFIER_ATOM:
	  pl_last_writing = W_IDENTIFIER;
	  break;

	case GRAPHIC_ATOM:
	  pl_last_writing = W_GRAPHIC;
	  break;

	case SOLO_ATOM:
	  pl_last_writing = W_NOTHING;
	  break;

	case OTHER_ATOM:
	  if (prop.length == 0)
            {
              pl_last_writing = W_NOTHING;
              break;
            }
	  c = pl_atom_tbl[atom].name[prop.length - 1];
	  c_type = pl_char_type[c];
	  if (c_type & (UL | CL | SL | DI))
	    pl_last_writing = W_IDENTIFIER;
	  else if (c == '\'')
	    pl_last_writing = W_QUOTED;
	  else if (c_type == GR)
	    pl_last_writing = W_GRAPHIC;
	  else
	    pl_last_writing = W_NOTHING;
	}
    }
  else
    {
      Out_Char('\'');

      if (prop.needs_scan)
	{
	  for (p = pl_atom_tbl[atom].name; *p; p++)
	    if ((q = (char *) strchr(pl_escape_char, *p)))
	      {
		Out_Char('\\');
		Out_Char(pl_escape_symbol[q - pl_escape_char]);
	      }
	    else if (*p == '\'' || *p == '\\')
	      {
		Out_Char(*p);
		Out_Char(*p);
	      }
	    else if (!isprint(*p))
	      {
		sprintf(str, "\\x%x\\", (unsigned) (unsigned char) *p);
		Out_String(str);
	      }
	    else
	      Out_Char(*p);
	}
      else
	Out_String(pl_atom_tbl[atom].name);

      Out_Char('\'');

      pl_last_writing = W_QUOTED;
    }

  if (bracket)
    Out_Char(')');
}

void ref_Show_Integer(PlLong x)
{
  char str[32];
  sprintf(str, "%" PL_FMT_d, x);
  Show_Number_Str(str);
}

void ref_Show_Float(double x)
{
  Show_Number_Str(Pl_Float_To_String(x));
}

void ref_Show_Number_Str(char *str)
{

  Out_String(str);

    pl_last_writing = (*str == '0' && str[1] == '\0') ? W_NUMBER_0 : W_NUMBER;
}

void ref_Show_List_Elements(int depth, WamWord *lst_adr)
{
  Bool first_elem = TRUE;
  WamWord word, tag_mask;
  WamWord car_word;
  Bool emit_car;

 terminal_rec:
  car_word = Car(lst_adr);

  if (depth > 0 && (!first_elem || Is_Rendered_As_Compound(car_word)

		    || Is_Rendered_As_Var(car_word)

		    ))

    depth--;

  emit_car = (depth != 0 || first_elem || Is_Rendered_As_Var(car_word));
  if (emit_car)
    {
      if (!first_elem)
	SHOW_COMMA;

      Show_Term(depth, MAX_ARG_OF_FUNCTOR_PREC, GENERAL_TERM, car_word);
    }

  DEREF(Cdr(lst_adr), word, tag_mask);
  if (depth == 0)
    {
      if (!emit_car || word != NIL_WORD)
	{
	  SHOW_LIST_PIPE;
	  Show_Atom(GENERAL_TERM, atom_dots);
	}
      return;
    }

  first_elem = FALSE;

  switch (Tag_From_Tag_Mask(tag_mask))
    {
    case REF:
      SHOW_LIST_PIPE;
      Show_Global_Var(UnTag_REF(word));
      break;

    case ATM:
      if (word != NIL_WORD)
	{
	  SHOW_LIST_PIPE;
	  if (Try_Portray(word))
	    return;

	  Show_Atom(GENERAL_TERM, UnTag_ATM(word));
	}
      break;

    case FDV:
      SHOW_LIST_PIPE;
      if (Try_Portray(word))
	return;

      Show_Fd_Variable(UnTag_FDV(word));
      break;

    case INT:
      SHOW_LIST_PIPE;
      if (Try_Portray(word))
	return;

      Show_Integer(UnTag_INT(word));
      break;

    case FLT:
      SHOW_LIST_PIPE;
      if (Try_Portray(word))
	return;

      Show_Float(Pl_Obtain_Float(UnTag_FLT(word)));
      break;

    case LST:
      lst_adr = UnTag_LST(word);
      goto terminal_rec;
      break;

    case STC:
      SHOW_LIST_PIPE;
      if (Try_Portray(word))
	return;
      Show_Structure(depth, MAX_ARG_OF_FUNCTOR_PREC, GENERAL_TERM, UnTag_STC(word));
      break;
    }
}

Bool ref_Is_Valid_Var_Name(char *str)
{
  int c_type;

  c_type = pl_char_type[(unsigned) *str];
  if ((c_type & (UL | CL)) == 0)
    return FALSE;

  while(*++str != '\0')
    {
      c_type = pl_char_type[(unsigned) *str];
      if ((c_type & (UL | CL | SL | DI)) == 0)
	return FALSE;
    }

  return TRUE;
}

Bool ref_Pl_Is_Valid_Var_Name_1(WamWord name_word)
{
  WamWord word, tag_mask;

  DEREF(name_word, word, tag_mask);
  return (tag_mask == TAG_ATM_MASK) && Is_Valid_Var_Name(pl_atom_tbl[UnTag_ATM(word)].name);
}

void ref_Show_Structure(int depth, int prec, int context, WamWord *stc_adr)
{
  WamWord *adr;
  WamWord f_n = Functor_And_Arity(stc_adr);
  int functor = Functor(stc_adr);
  int arity = Arity(stc_adr);
  int atom_of_varname;
  int n, i, j;
  OperInf *oper;
  int nb_args_to_disp;
  char str[32];
  Bool bracket;
  Bool surround_space;

  depth--;

  atom_of_varname = Get_Var_Name_From_Stc(f_n, stc_adr);
  if (atom_of_varname >= 0)
    {
      int save_quoted = quoted;
      quoted = FALSE;
      Show_Atom(GENERAL_TERM, atom_of_varname);
      quoted = save_quoted;
      return;
    }

  n = Get_Var_Number_From_Stc(f_n, stc_adr);
  if (n >= 0)
    {
      i = n % 26;
      j = n / 26;

      Out_Char('A' + i);

      if (j)
	{
	  sprintf(str, "%d", j);
	  Out_String(str);
	}

      pl_last_writing = W_IDENTIFIER;
      return;
    }

  if (ignore_op || arity > 2)
    goto functional;

  if (f_n == curly_brackets_1)
    {
      Out_Char('{');
      if (space_args)
	Out_Space();
      Show_Term(depth, MAX_PREC, GENERAL_TERM, Arg(stc_adr, 0));
      if (space_args)
	Out_Space();
      Out_Char('}');
      return;
    }

  bracket = FALSE;

  if (arity == 1 && (oper = Pl_Lookup_Oper(functor, PREFIX)))
    {

      OperInf *oper1;

      if (oper->prec > oper->right
	  && (oper1 = Pl_Lookup_Oper(functor, POSTFIX))
	  && oper1->left == oper1->prec)
	{
	  oper = oper1;
	  goto postfix;
	}

      if (oper->prec > prec || (context == INSIDE_LEFT_ASSOC_OP &&
				(oper->prec == oper->right
				 && oper->prec == prec)))
	{
	  Out_Char('(');
	  bracket = TRUE;
	}

      Show_Atom(GENERAL_TERM, functor);

      last_prefix_op = W_PREFIX_OP_ANY;

      if (space_args

	  )
	Out_Space();

      if (strcmp(pl_atom_tbl[functor].name, "-") == 0)
	{
	  last_prefix_op = W_PREFIX_OP_MINUS;
	  p_bracket_op_minus = &bracket;
	}

      Show_Term(depth, oper->right, INSIDE_ANY_OP, Arg(stc_adr, 0));
      last_prefix_op = W_NO_PREFIX_OP;

      while (bracket--)
	Out_Char(')');

      return;
    }

  if (arity == 1 && (oper = Pl_Lookup_Oper(functor, POSTFIX)))
    {
    postfix:
      if (oper->prec > prec

	  )
	{
	  Out_Char('(');
	  bracket = TRUE;
	}

      context = (oper->left == oper->prec) ? INSIDE_LEFT_ASSOC_OP : INSIDE_ANY_OP;

      Show_Term(depth, oper->left, context, Arg(stc_adr, 0));

      if (space_args

	  )
	Out_Space();

      Show_Atom(GENERAL_TERM, functor);

      if (bracket)
	Out_Char(')');

      return;
    }

  if (arity == 2 && (oper = Pl_Lookup_Oper(functor, INFIX)))
    {
      if (oper->prec > prec || (context == INSIDE_LEFT_ASSOC_OP &&
				(oper->prec == oper->right
				 && oper->prec == prec))

	  )
	{
	  Out_Char('(');
	  bracket = TRUE;
	}

      context =	(oper->left == oper->prec) ? INSIDE_LEFT_ASSOC_OP : INSIDE_ANY_OP;

      Show_Term(depth, oper->left, context, Arg(stc_adr, 0));

      if (functor == ATOM_CHAR('|'))
	{
	  if (space_args)
	    Out_Space();
	  Out_Char('|');
	  if (space_args)
	    Out_Space();
	}
      else

	if (functor == ATOM_CHAR(','))
	  {
	    SHOW_COMMA;
	  }
	else
	  {
	    surround_space = FALSE;

	    if (pl_atom_tbl[functor].prop.type == IDENTIFIER_ATOM ||
		pl_atom_tbl[functor].prop.type == OTHER_ATOM ||
		(space_args

		 ))
	      {
		surround_space = TRUE;
		Out_Space();
	      }

	    Show_Atom(GENERAL_TERM, functor);

	    if (surround_space)
	      Out_Space();
	  }

      Show_Term(depth, oper->right, INSIDE_ANY_OP, Arg(stc_adr, 1));

      if (bracket)
	Out_Char(')');

      return;
    }

 functional:

  Show_Atom(GENERAL_TERM, functor);
  Out_Char('(');

  nb_args_to_disp = (depth < 0 || arity < depth + 1) ? arity : depth + 1;

  i = nb_args_to_disp;
  adr = &Arg(stc_adr, 0);

  goto start_display;

  do
    {
      SHOW_COMMA;
    start_display:
      Show_Term(depth, MAX_ARG_OF_FUNCTOR_PREC, GENERAL_TERM, *adr++);
    }
  while (--i);

  if (arity != nb_args_to_disp)
    {
      SHOW_COMMA;
      Show_Atom(GENERAL_TERM, atom_dots);
    }

  Out_Char(')');
}

Bool ref_Try_Portray(WamWord word)
{

  PredInf *pred;
  int stm_o;
  StmInf *save_pstm_o;
  Bool save_quoted;
  Bool save_ignore_op;
  Bool save_number_vars;
  Bool save_name_vars;
  Bool save_space_args;
  Bool save_portrayed;
  int save_stm_current_output;
  int res;

  static WamWord fix_bug;

  if (!portrayed)
    return FALSE;

  pred = Pl_Lookup_Pred(atom_portray, 1);
  if (pred == NULL)
    return FALSE;

  stm_o = pstm_o->stm;

  save_pstm_o = pstm_o;
  save_quoted = quoted;
  save_ignore_op = ignore_op;
  save_number_vars = number_vars;
  save_name_vars = name_vars;
  save_space_args = space_args;
  save_portrayed = portrayed;

  save_stm_current_output = pl_stm_current_output;

  pl_stm_current_output = stm_o;
  Pl_Set_Alias_To_Stream(pl_atom_current_output, pl_stm_current_output, TRUE);

  fix_bug = word;
  Pl_Query_Begin(TRUE);
  res = Pl_Query_Call(atom_portray, 1, &fix_bug);
  Pl_Query_End(PL_RECOVER);

  pl_stm_current_output = save_stm_current_output;
  Pl_Set_Alias_To_Stream(pl_atom_current_output, pl_stm_current_output, TRUE);

  if (pl_stm_tbl[stm_o] != pstm_o)
    Pl_Err_Resource(Pl_Create_Atom("no longer available stream after portray/1"));

  pstm_o = save_pstm_o;
  quoted = save_quoted;
  ignore_op = save_ignore_op;
  number_vars = save_number_vars;
  name_vars = save_name_vars;
  space_args = save_space_args;
  portrayed = save_portrayed;

  if (res == PL_EXCEPTION)
    Pl_Throw(Pl_Get_Exception());

  return (res == PL_SUCCESS);

}

Bool ref_Pl_Get_Print_Stm_1(WamWord stm_word)
{
  int stm;

  if (pstm_o == NULL || (stm = Pl_Find_Stream_From_PStm(pstm_o)) < 0)
    stm = pl_stm_current_output;

  return Pl_Get_Integer(stm, stm_word);
}
