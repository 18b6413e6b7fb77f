/* What the functions of ma_parser.c are to do. */
#include "../EnginePl/gp_config.h"

#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <ctype.h>
#include <setjmp.h>

#define MA_PARSER_FILE

#include "../EnginePl/pl_long.h"
#include "../EnginePl/bool.h"
#include "ma_parser.h"
#include "ma_protos.h"
#include "macros_ref.h"

#define MAX_LINE_LEN 65536
#define MAX_STR_LEN 32768
#define MAX_ARGS 128
#define MAX_SWITCH_CASES 1000000

typedef enum
{
  PL_CODE,
  PL_JUMP,
  PREP_CP,
  HERE_CP,
  PL_CALL,
  PL_FAIL,
  PL_RET,
  JUMP,
  MOVE,
  CALL_C,
  JUMP_RET,
  FAIL_RET,
  MOVE_RET,
  SWITCH_RET,
  C_CODE,
  C_RET,
  LONG,
  LABEL
}
Mnemonic;

extern char *inst[];

extern Bool reload_e;

extern char fct_name[MAX_STR_LEN];
extern Bool fc;
extern int nb_args;
extern int nb_args_in_words;
extern ArgInf arg[MAX_ARGS];

extern int nb_swt;
extern SwtInf swt[MAX_SWITCH_CASES];

extern jmp_buf jumper;

extern Bool keep_source_lines;

extern FILE *file_in;

extern int cur_line_no;
extern int cur_approx_inst_line;
extern char cur_line_str[MAX_LINE_LEN];
extern char *cur_line_p;
extern char *beg_last_token;
extern int nb_appox_inst_line;

extern char str_val[MAX_STR_LEN];
extern PlLong int_val;
extern double dbl_val;

void Parser(int pass_no, int nb_passes);

int Read_If_Global(Bool initializer_accepted);

void Read_Function(void);

void Read_Switch(void);

int Read_Index(void);

int Read_Optional_Index(void);

ArgTyp Read_Token(ArgTyp what);

ArgTyp Lexer(void);

void Skip_Rest_Of_Line(void);
Bool Parse_Ma_File(char *file_name_in, Bool comment);
void Parser(int pass_no, int nb_passes);
int Read_If_Global(Bool initializer_accepted);
void Read_Function(void);
void Read_Switch(void);
int Read_Index(void);
int Read_Optional_Index(void);
ArgTyp Read_Token(ArgTyp what);
ArgTyp Lexer(void);
void Skip_Rest_Of_Line(void);
void Syntax_Error(char *format, ...);
char *ref_inst[] = {
  "pl_code", "pl_jump", "prep_cp", "here_cp", "pl_call", "pl_fail",
  "pl_ret", "jump", "move", "call_c", "jump_ret", "fail_ret", "move_ret",
  "switch_ret", "c_code", "c_ret", "long", NULL };

Bool ref_Parse_Ma_File(char *file_name_in, Bool comment)
{
  int ret_val;
  int i, nb_passes = mi.needs_pre_pass + 1;

  if (file_name_in == NULL)
    {
      file_name_in = "stdin";
      file_in = stdin;
    }
  else if ((file_in = fopen(file_name_in, "rt")) == NULL)
    {
      fprintf(stderr, "cannot open input file %s\n", file_name_in);
      return FALSE;
    }

  for(i = 1; i <= nb_passes; i++)
    {
      if (i == 2)
	{
	  if (fseek(file_in, 0, SEEK_SET) == -1)
	    {
	      fprintf(stderr, "cannot reposition file %s (needed for 2 passes)\n", file_name_in);
	      return FALSE;
	    }
	  Init_Mapper();
	}

      keep_source_lines = comment;

      if ((ret_val = setjmp(jumper)) == 0)
	Parser(i, nb_passes);

      if (ret_val != 0)
	return FALSE;
    }

  if (file_in != stdin)
    fclose(file_in);

  return TRUE;
}

#define Pre_Pass() (pass_no < nb_passes)

#define Stop_Previous_Code() { if (!Pre_Pass() && inside_code) { Code_Stop(&cur_code); inside_code = FALSE; } }

void ref_Parser(int pass_no, int nb_passes)
{
  Bool inside_code = FALSE;
  Bool initializer_defined = FALSE;
  CodeInf cur_code;
  LongInf l;
  char **in;
  ArgTyp k;
  Mnemonic mnemo;
  int i;

  if (Pre_Pass())
    keep_source_lines = FALSE;

  cur_line_p = cur_line_str;
  cur_line_str[0] = '\0';
  cur_line_no = 0;
  cur_approx_inst_line = 0;

  for (;;)
    {
      k = Lexer();
      if (k == END_OF_FILE)
	break;

      if (k != IDENTIFIER)
	Syntax_Error("miniasm declaration or instruction expected");

      for (in = inst; *in; in++)
	if (strcmp(str_val, *in) == 0)
	  break;

      mnemo = (int) (in - inst);

      cur_approx_inst_line++;
      if (Pre_Pass())
	{
	  if (mnemo != PL_CODE && mnemo != C_CODE && mnemo != LONG && mnemo != SWITCH_RET && mnemo != LABEL)
	    {
	    ignore_eol:
	      Skip_Rest_Of_Line();
	      continue;
	    }
	}
      else if (pass_no > 1)
	{
	  if (mnemo == LONG)
	    goto ignore_eol;
	}

      switch (mnemo)
	{
	case PL_CODE:
	  Stop_Previous_Code();
	  cur_code.type = CODE_TYPE_PROLOG;
	  cur_code.global = Read_If_Global(FALSE);
	  Read_Token(IDENTIFIER);
	  cur_code.name = strdup(str_val);
	  cur_code.approx_inst_line = cur_approx_inst_line;
	  if (Pre_Pass())
	    Decl_Code(&cur_code);
	  else
	    {
	      Code_Start(&cur_code);
	      reload_e = TRUE;
	      inside_code = TRUE;
	    }
	  break;

	case C_CODE:
	  Stop_Previous_Code();
	  cur_code.type = CODE_TYPE_C;
	  cur_code.global = Read_If_Global(!initializer_defined);
	  Read_Token(IDENTIFIER);
	  cur_code.name = strdup(str_val);
	  cur_code.approx_inst_line = cur_approx_inst_line;
	  if (cur_code.global == 2)
	    {
	      initializer_defined = TRUE;
	      cur_code.type = CODE_TYPE_INITIALIZER;
	      cur_code.global = FALSE;
	      if (!Pre_Pass())
		Declare_Initializer(cur_code.name);
	    }
	  if (Pre_Pass())
	    Decl_Code(&cur_code);
	  else
	    {
	      Code_Start(&cur_code);
	      inside_code = TRUE;
	    }
	  break;

	case PL_JUMP:
	  Read_Token(IDENTIFIER);
	  Pl_Jump(str_val);
	  reload_e = TRUE;
	  break;

	case PREP_CP:
	  Prep_CP();
	  break;

	case HERE_CP:
	  Here_CP();
	  break;

	case PL_CALL:
	  Read_Token(IDENTIFIER);
	  Pl_Call(str_val);
	  reload_e = TRUE;
	  break;

	case PL_FAIL:
	  Pl_Fail(TRUE);
	  reload_e = TRUE;
	  break;

	case PL_RET:
	  Pl_Ret();
	  reload_e = TRUE;
	  break;

	case JUMP:
	  Read_Token(IDENTIFIER);
	  Jump(str_val);
	  reload_e = TRUE;
	  break;

	case MOVE:
	  k = Read_Token(X_REG);
	  i = Read_Index();
	  if (k == X_REG)
	    Move_From_Reg_X(i);
	  else
	    Move_From_Reg_Y(i);

	  Read_Token(',');

	  k = Read_Token(X_REG);
	  i = Read_Index();
	  if (k == X_REG)
	    Move_To_Reg_X(i);
	  else
	    Move_To_Reg_Y(i);
	  break;

	case CALL_C:
	  Read_Function();
	  Call_C(fct_name, fc, nb_args, nb_args_in_words, arg);
	  break;

	case JUMP_RET:
	  Jump_Ret();
	  reload_e = TRUE;
	  break;

	case FAIL_RET:
	  Fail_Ret();
	  break;

	case MOVE_RET:
	  switch ((k = Lexer()))
	    {
	    case IDENTIFIER:
	      Move_Ret_To_Mem_L(str_val, Read_Optional_Index());
	      break;

	    case X_REG:
	      Move_Ret_To_Reg_X(Read_Index());
	      break;

	    case Y_REG:
	      Move_Ret_To_Reg_Y(Read_Index());
	      break;

	    case FL_ARRAY:
	      Move_Ret_To_Foreign_L(Read_Index());
	      break;

	    case FD_ARRAY:
	      Move_Ret_To_Foreign_D(Read_Index());
	      break;

	    default:
	      Syntax_Error("identifier, X(...), Y(...), FL(...) or FD(...) expected");
	      break;

	    }
	  break;

	case SWITCH_RET:
	  Read_Switch();
	  if (!Pre_Pass())
	    Switch_Ret(nb_swt, swt);
	  cur_approx_inst_line += nb_swt;
	  break;

	case C_RET:
	  C_Ret();
	  break;

	case LONG:
	  Stop_Previous_Code();
	  l.global = Read_If_Global(FALSE);
	  Read_Token(IDENTIFIER);
	  l.name = strdup(str_val);
	  if ((i = Read_Optional_Index()) > 0)
	    {
	      l.vtype = ARRAY_SIZE;
	      l.value = i;
	    }
	  else
	    {
	      while (isspace(*cur_line_p))
		cur_line_p++;
	      if (*cur_line_p != '=')
		{
		  l.vtype = NONE;
		  l.value = 1;
		}
	      else
		{
		  cur_line_p++;
		  Read_Token(INTEGER);
		  l.vtype = INITIAL_VALUE;
		  l.value = int_val;
		}
	    }
	  Decl_Long(&l);
	  break;

	case LABEL:
	  Read_Token(':');
	  if (Pre_Pass())
	    Decl_Label(str_val, cur_approx_inst_line);
	  else
	    Label(str_val);
	  break;

	default:
	  fprintf(stderr, "BAD MA element: unhandled menmonic (pseudo: %s id: %d)\n", str_val, mnemo);
	}
    }
  Stop_Previous_Code();
  nb_appox_inst_line = cur_approx_inst_line;

}

int ref_Read_If_Global(Bool initializer_accepted)
{
  if (Lexer() != IDENTIFIER)
    goto err;

  if (strcmp(str_val, "local") == 0)
    return 0;

  if (strcmp(str_val, "global") == 0)
    return 1;

  if (initializer_accepted && strcmp(str_val, "initializer") == 0)
    return 2;

err:
  if (!initializer_accepted)
    Syntax_Error("local / global expected");
  else
    Syntax_Error("local / global / initializer expected");

  return 0;
}

void ref_Read_Function(void)
{
  ArgTyp k;

  fc = FALSE;
  Read_Token(IDENTIFIER);
  if (strcmp(str_val, "fast") == 0)
    {
      fc = TRUE;
      Read_Token(IDENTIFIER);
    }

  strcpy(fct_name, str_val);
  nb_args = 0;
  nb_args_in_words = 0;
  Read_Token('(');
  k = Lexer();
  if (k == ')')
    return;

  for (;;)
    {
      arg[nb_args].type = k;
      arg[nb_args].adr_of = FALSE;
    one_arg:
      switch (k)
	{
	case ADR_OF:
	  k = Lexer();
	  if (k != IDENTIFIER && k != X_REG && k != Y_REG && k != FL_ARRAY && k != FD_ARRAY)
	    Syntax_Error("identifier, X(...), Y(...), FL(...) or FD(...) expected");
	  arg[nb_args].type = k;
	  arg[nb_args].adr_of = TRUE;
	  goto one_arg;

	case STRING:
	  arg[nb_args].str_val = strdup(str_val);
	  break;

	case INTEGER:
	  arg[nb_args].int_val = int_val;
	  break;

	case FLOAT:

	  arg[nb_args].str_val = strdup(str_val);
	  arg[nb_args].dbl_val = dbl_val;
	  break;

	case IDENTIFIER:
	  arg[nb_args].type = MEM;
	  arg[nb_args].str_val = strdup(str_val);
	  arg[nb_args].index = Read_Optional_Index();
	  break;

	case FD_ARRAY:

	case FL_ARRAY:
	case X_REG:
	case Y_REG:
	  arg[nb_args].index = Read_Index();
	  break;

	default:
	  fprintf(stderr, "BAD token id: %d - unhandled\n", k);
	}

      k = Lexer();
      nb_args++;
      nb_args_in_words++;
      if (k == ')')
	break;

      if (k != ',')
	Syntax_Error(") or , expected");
      k = Lexer();
    }
}

void ref_Read_Switch(void)
{
  ArgTyp k;

  Read_Token('(');
  nb_swt = 0;
  for (;;)
    {
      if (Lexer() != INTEGER)
	Syntax_Error("integer expected");

      Read_Token('=');
      Read_Token(IDENTIFIER);
      if (nb_swt >= MAX_SWITCH_CASES)
	Syntax_Error("Too big switch_ret, max cases: %d", MAX_SWITCH_CASES);
      swt[nb_swt].int_val = int_val;
      swt[nb_swt].label = strdup(str_val);

      nb_swt++;
      k = Lexer();
      if (k == ')')
	break;
      if (k != ',')
	Syntax_Error(") or , expected");
    }
}

int ref_Read_Index(void)
{
  ArgTyp k = Lexer();
  if (k == '(')
    k = ')';
  else if (k == '[')
    k = ']';
  else
    Syntax_Error("( index ) or [ index ] expected");

  Read_Token(INTEGER);
  Read_Token(k);

  return (int) int_val;
}

int ref_Read_Optional_Index(void)
{
  return (*cur_line_p == '(' || *cur_line_p == '[') ? Read_Index() : 0;
}

ArgTyp ref_Read_Token(ArgTyp what)
{
  ArgTyp k = Lexer();

  if (k == what || (what == X_REG && k == Y_REG) || (what == FL_ARRAY && k == FD_ARRAY))
    return k;

  switch (what)
    {
    case IDENTIFIER:
      Syntax_Error("identifier expected");
      break;

    case STRING:
      Syntax_Error("string expected");
      break;

    case INTEGER:
      Syntax_Error("integer expected");
      break;

    case FLOAT:
      Syntax_Error("float expected");
      break;

    case X_REG:
      Syntax_Error("X(...) or Y(...) expected");
      break;

    case FL_ARRAY:
      Syntax_Error("FL(...) or FD(...) expected");
      break;

    default:
      Syntax_Error("%c expected", what);
      break;
    }

  return k;
}

ArgTyp ref_Lexer(void)
{
  char *p, *p1;
  PlLong i;
  double d;
  double strtod(const char *nptr, char **endptr);

  for (;;)
    {
      while (isspace(*cur_line_p) || *cur_line_p == '\\')
	cur_line_p++;

      if (*cur_line_p != '\0' && *cur_line_p != ';')
	break;

      if (fgets(cur_line_str, sizeof(cur_line_str), file_in))
	{
	}

      if (feof(file_in))
	return END_OF_FILE;

      cur_line_no++;
      cur_line_p = cur_line_str;

      if (keep_source_lines)
        {
          while (isspace(*cur_line_p))
            cur_line_p++;

          if (*cur_line_p)
            {
              p = cur_line_p + strlen(cur_line_p) - 1;
              if (*p == '\n')
                *p = '\0';
              Label_Printf("\t%s %6d: %s", mi.comment_prefix, cur_line_no, cur_line_p);
            }
        }
    }

  beg_last_token = cur_line_p;

  if (*cur_line_p == '"')
    {
      p = str_val;
      *p++ = '"';
      cur_line_p++;
      while (*cur_line_p != '"')
	{
	  if ((*p++ = *cur_line_p++) == '\\')
	    *p++ = *cur_line_p++;
	}

      cur_line_p++;
      if (mi.strings_need_null)
	{
	  *p++ = '\\';
	  *p++ = '0';
	}
      *p++ = '"';
      *p = '\0';
      return STRING;
    }

  if (isalpha(*cur_line_p) || *cur_line_p == '_' || *cur_line_p == '.')
    {
      p = str_val;
      if (*cur_line_p == '.')
	{
	  strcpy(p, mi.local_symb_prefix);
	  p += strlen(p);
	  cur_line_p++;
	}

      while (isalnum(*cur_line_p) || *cur_line_p == '_')
	*p++ = *cur_line_p++;

      *p = '\0';

      if (str_val[0] == 'X' && str_val[1] == '\0' && *cur_line_p == '(')
	return X_REG;

      if (str_val[0] == 'Y' && str_val[1] == '\0' && *cur_line_p == '(')
	{
	  if (reload_e)
	    {
	      Reload_E_In_Register();
	      reload_e = FALSE;
	    }
	  return Y_REG;
	}

      if (strcmp(str_val, "FL") == 0 && *cur_line_p == '(')
	return FL_ARRAY;

      if (strcmp(str_val, "FD") == 0 && *cur_line_p == '(')
	return FD_ARRAY;

      return IDENTIFIER;
    }

  i = Str_To_PlLong(cur_line_p, &p, 0);
  if (p == cur_line_p)
    return *cur_line_p++;
  d = strtod(cur_line_p, &p1);

  if (p1 == p)
    {
      int_val = i;
      cur_line_p = p;
      return INTEGER;
    }

  strncpy(str_val, cur_line_p, p1 - cur_line_p);
  str_val[p1 - cur_line_p] = '\0';
  cur_line_p = p1;
  dbl_val = d;

  return FLOAT;
}

void ref_Skip_Rest_Of_Line(void)
{
  char *p;

  while((p = strrchr(cur_line_p, '\\')) != NULL)
    {
      if (fgets(cur_line_str, sizeof(cur_line_str), file_in))
	{
	}

      if (feof(file_in))
	*cur_line_str = '\0';

      cur_line_no++;
      cur_line_p = cur_line_str;
    }

  *cur_line_p = '\0';
}

void ref_Syntax_Error(char *format, ...)
{
  va_list arg_ptr;
  char *p = cur_line_str + strlen(cur_line_str) - 1;

  if (*p == '\n')
    *p = '\0';

  fprintf(stderr, "line %d: ", cur_line_no);

  va_start(arg_ptr, format);
  vfprintf(stderr, format, arg_ptr);
  va_end(arg_ptr);

  fprintf(stderr, "\n%s\n", cur_line_str);

  for (p = cur_line_str; p < beg_last_token; p++)
    if (!isspace(*p))
      *p = ' ';

  *p = '\0';
  fprintf(stderr, "%s^ here\n", cur_line_str);

  longjmp(jumper, 1);
}
