/* What the functions of lexer_supp.c are to do. */
#include "gp_config.h"
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <stdarg.h>
#include "engine_pl.h"
#include "bips_pl.h"
#include "macros_ref.h"
#include "wam_ref.h"

#define LEXER_SUPP_FILE

extern int c_orig, c;
extern int c_type;

extern char *err_msg;

int Read_Next_Char(StmInf *pstm, Bool convert);

void Lexer_Number(StmInf *pstm, Bool integer_only);

void Lexer_Quoted(StmInf *pstm);

int Lexer_Quoted_Char(StmInf *pstm, Bool convert, int c0, Bool no_escape);

#define Unget_Last_Char Pl_Stream_Ungetc(c_orig, pstm)
int Pl_Lexer_Peek_Char(StmInf *pstm, Bool convert);
int Read_Next_Char(StmInf *pstm, Bool convert);
char * Pl_Lexer_Token(StmInf *pstm, Bool comma_is_punct);
void Lexer_Number(StmInf *pstm, Bool integer_only);
void Lexer_Quoted(StmInf *pstm);
int Lexer_Quoted_Char(StmInf *pstm, Bool convert, int c0, Bool no_escape);
char * Pl_Lexer_Next_Atom(StmInf *pstm);


int ref_Pl_Lexer_Peek_Char(StmInf *pstm, Bool convert)
{
  int c_look;

  c_look = Pl_Stream_Peekc(pstm);

  if (convert)
    c_look = Char_Conversion(c_look);

  return c_look;
}

int ref_Read_Next_Char(StmInf *pstm, Bool convert)
{
  c_orig = c = Pl_Stream_Getc(pstm);

  if (c == EOF)
    c_type = 0;
  else
    {
      if (convert)
	c = Char_Conversion(c);

      c_type = pl_char_type[c];
    }

  return c;
}

char * ref_Pl_Lexer_Token(StmInf *pstm, Bool comma_is_punct)
{
  int c0;
  char *s;
  Bool layout_before = FALSE;

  err_msg = NULL;

start_scan:

  for (;;)
    {
      Read_Next_Char(pstm, TRUE);
      if (c_type != LA)
	break;
      layout_before = TRUE;
    }

  pl_token.quoted = FALSE;
  pl_token.line = pstm->line_count + 1;
  pl_token.col = pstm->line_pos;

  if (c == EOF)
    {
      pl_token.type = TOKEN_END_OF_FILE;
      return err_msg;
    }

  switch (c_type)
    {
    case SL:
    case UL:
    case CL:
      pl_token.type = (c_type == SL) ? TOKEN_NAME : TOKEN_VARIABLE;
      s = pl_token.name;
      do
	{
	  *s++ = c;
	  Read_Next_Char(pstm, TRUE);
	}
      while (c_type & (UL | CL | SL | DI));
      *s = '\0';
      Unget_Last_Char;
      break;

    case DI:
      Lexer_Number(pstm, FALSE);
      break;

    case QT:
    case DQ:
    case BQ:
      Lexer_Quoted(pstm);
      break;

    case GR:
      c0 = c;
      Read_Next_Char(pstm, TRUE);
      if (c0 == '.' && (c == EOF || (c_type & (LA | CM))))
	{
	  if (c_type != EOF)
	    Unget_Last_Char;

	  pl_token.type = TOKEN_FULL_STOP;
	  break;
	}

      if (c0 == '/' && c == '*')
	{
	  Read_Next_Char(pstm, TRUE);
	  if (c != EOF)
	    do
	      {
		c0 = c;
		Read_Next_Char(pstm, TRUE);
	      }
	    while (c != EOF && (c0 != '*' || c != '/'));

	  if (c == EOF)
	    {
	      pl_token.type = TOKEN_END_OF_FILE;
	      pl_token.line = pstm->line_count + 1;
	      pl_token.col = pstm->line_pos;
	      err_msg = "*/ expected here for /*...*/ comment";
	      break;
	    }

	  layout_before = TRUE;
	  goto start_scan;
	}

      pl_token.type = TOKEN_NAME;
      s = pl_token.name;
      *s++ = c0;
      while (c_type == GR)
	{
	  *s++ = c;
	  Read_Next_Char(pstm, TRUE);
	}
      *s = '\0';
      Unget_Last_Char;
      break;

    case CM:
      do
	Read_Next_Char(pstm, TRUE);
      while (c != '\n' && c != EOF);
      layout_before = TRUE;
      goto start_scan;

    case PC:
      if (c == '(' && !layout_before)
	{
	  pl_token.type = TOKEN_IMMEDIAT_OPEN;
	  break;
	}
      pl_token.type = TOKEN_PUNCTUATION;
      pl_token.punct = c;

      break;

    case SC:
      if (c == ',' && comma_is_punct)
	{
	  pl_token.type = TOKEN_PUNCTUATION;
	  pl_token.punct = c;
	  break;
	}

      pl_token.type = TOKEN_NAME;
      pl_token.name[0] = c;
      pl_token.name[1] = '\0';
      break;

    case EX:
      pl_token.type = TOKEN_EXTENDED;
      pl_token.name[0] = c;
      pl_token.name[1] = '\0';
      break;
    }

  return err_msg;
}

void ref_Lexer_Number(StmInf *pstm, Bool integer_only)
{
  int lg;
  int radix, radix_c;
  char *p, *f;
  int c_orig0;

  p = pl_token.name;
  do
    {
      *p++ = c;
      Read_Next_Char(pstm, TRUE);
    }
  while (c_type == DI);
  lg = (int) (p - pl_token.name);

  if (!integer_only &&
      c == '.' && isdigit(Pl_Lexer_Peek_Char(pstm, TRUE)))
    goto is_a_float;

  pl_token.type = TOKEN_INTEGER;
  *p = '\0';

  pl_token.int_num = Str_To_PlLong(pl_token.name, &p, 10);

  if (lg != 1 || pl_token.int_num != 0 || strchr("'box", c) == NULL)
    goto push_back;

  if (c == '\'')
    {
      c = Lexer_Quoted_Char(pstm, TRUE, '\'', FALSE);
      if (c == -1)
	{

	  if (Flag_Value(strict_iso))
	    {

	      if (Check_Oper(pl_atom_void, INFIX) || Check_Oper(pl_atom_void, POSTFIX))
		{
		  Pl_Stream_Ungetc('\'', pstm);
		  Pl_Stream_Ungetc('\'', pstm);
		  return;
		}

	      pl_token.line = pstm->line_count + 1;
	      pl_token.col = pstm->line_pos + 1;
	      err_msg = "quote character expected here";
	      return;
	    }
	  else
	    c = '\'';
	}
      else if (c == -2)
	{
	  Unget_Last_Char;
	  Pl_Stream_Ungetc('\\', pstm);
	  Pl_Stream_Ungetc('\'', pstm);
	  return;
	}
      else if (c < 0)
	{
	  Unget_Last_Char;

	  pl_token.type = TOKEN_FULL_STOP;
	  pl_token.line = pstm->line_count + 1;
	  pl_token.col = pstm->line_pos + 1;
	  err_msg = "character expected here";
	  return;
	}

      pl_token.int_num = c;
      return;
    }

  radix_c = c;
  radix = (c == 'b') ? (f = "01", 2) :
    (c == 'o') ? (f = "01234567", 8)
    : (f = "0123456789abcdefABCDEF", 16);
  p = pl_token.name;
  Read_Next_Char(pstm, TRUE);
  while (strchr(f, c) != NULL)
    {
      *p++ = c;
      Read_Next_Char(pstm, TRUE);
    }
  *p = '\0';

  if (p == pl_token.name)
    {
      Unget_Last_Char;
      Pl_Stream_Ungetc(radix_c, pstm);
      return;
    }

  pl_token.int_num = Str_To_PlLong(pl_token.name, &p, radix);
  goto push_back;

 is_a_float:

  pl_token.type = TOKEN_FLOAT;
  *p++ = '.';
  Read_Next_Char(pstm, TRUE);
  while (c_type == DI)
    {
      *p++ = c;
      Read_Next_Char(pstm, TRUE);
    }

  if (c == 'e' || c == 'E')
    {
      c_orig0 = c_orig;
      Read_Next_Char(pstm, TRUE);
      if (!(c_type == DI || ((c == '+' || c == '-') &&
			     isdigit(Pl_Lexer_Peek_Char(pstm, TRUE)))))
	{
	  Unget_Last_Char;
	  c_orig = c_orig0;
	  goto end_float;
	}

      *p++ = 'e';
      *p++ = c;

      Read_Next_Char(pstm, TRUE);
      while (c_type == DI)
	{
	  *p++ = c;
	  Read_Next_Char(pstm, TRUE);
	}
    }

 end_float:
  *p = '\0';
  sscanf(pl_token.name, "%lf", &pl_token.float_num);

 push_back:
  Unget_Last_Char;
}

void ref_Lexer_Quoted(StmInf *pstm)
{
  int c0;
  char *s;
  Bool convert = (c_orig != '\'');
  Bool no_escape;
  Bool error_found = FALSE;
  int i = 0;

  if (c_type == QT)
    {
      pl_token.type = TOKEN_NAME;
      pl_token.quoted = TRUE;
      i = 0;
    }
  else if (c_type == DQ)
    {
      pl_token.type = TOKEN_STRING;
      i = (int) Flag_Value(double_quotes);
    }
  else
    {
      pl_token.type = TOKEN_BACK_QUOTED;
      i = (int) Flag_Value(back_quotes);
    }

  s = pl_token.name;
  c0 = c;
  no_escape = (i >= PF_QUOT_AS_CODES_NO_ESCAPE);

  for (;;)
    {
      c = Lexer_Quoted_Char(pstm, convert, c0, no_escape);
      if (c == -1)
	{
	  if (error_found)
	    break;

	  *s = '\0';
	  return;
	}

      if (c == -2)
	continue;

      if (c == -3 || c == -4)
	{
	  pl_token.type = TOKEN_FULL_STOP;
	  *s = '\0';
	  return;
	}

      if (c == -5 || c == -6)
	{
	  error_found = TRUE;
	  continue;
	}

      if (!error_found)
	*s++ = c;
    }

  *s = '\0';

  if (err_msg != NULL)
    return;

  Unget_Last_Char;

  pl_token.line = pstm->line_count + 1;
  pl_token.col = pstm->line_pos + 1;

  switch (pl_token.type)
    {
    case TOKEN_NAME:
      err_msg = "quote character expected here";
      break;

    case TOKEN_BACK_QUOTED:
      err_msg = "back quote character expected here";
      break;

    case TOKEN_STRING:
      err_msg = "double quote character expected here";
      break;

    default:
      ;
    }
}

int ref_Lexer_Quoted_Char(StmInf *pstm, Bool convert, int c0, Bool no_escape)
{
  int radix;
  char *p, *f;
  int x, i;

  Read_Next_Char(pstm, convert);
  if (c == c0)
    {
      if (Pl_Lexer_Peek_Char(pstm, convert) != c0)
	return -1;

      Read_Next_Char(pstm, convert);
      return c;
    }

  if (c == EOF)
    {
      if (err_msg == NULL)
	{
	  Unget_Last_Char;
	  pl_token.line = pstm->line_count + 1;
	  pl_token.col = pstm->line_pos + 1;
	  err_msg = "closing quote expected here";
	}
      return -3;
    }

  if (c == '\n')
    {
      if (err_msg == NULL)
	{
	  Unget_Last_Char;
	  pl_token.line = pstm->line_count + 1;
	  pl_token.col = pstm->line_pos + 1;
	  err_msg = "unexpected newline";
	}
      return -4;
    }

  if (c == '\t')
    {
      if (err_msg == NULL)
	{
	  Unget_Last_Char;
	  pl_token.line = pstm->line_count + 1;
	  pl_token.col = pstm->line_pos + 1;
	  err_msg = "unexpected tab";
	}
      return -5;
    }

  if (c != '\\' || no_escape)
    return c;

  Read_Next_Char(pstm, convert);

  if (c == '\n')
    return -2;

  if (strchr("\\'\"`", c))
    return c;

  if ((p = (char *) strchr(pl_escape_symbol, c)))
    return pl_escape_char[p - pl_escape_symbol];

  if (!Flag_Value(strict_iso))
    {
      if (c == 's')
	return ' ';

      if (c == 'e')
	return 27;
    }

  if (c == 'x' || ('0' <= c && c <= '7'))
    {
      if (c == 'x')
	{
	  radix = 16;
	  f = "0123456789abcdefABCDEF";
	  x = 0;
	}
      else
	{
	  radix = 8;
	  f = "01234567";
	  x = c - '0';
	}

      Read_Next_Char(pstm, convert);
      while ((p = strchr(f, c)) != NULL)
	{
	  i = (int) (p - f);
	  if (i >= 16)
	    i -= 6;
	  x = x * radix + i;
	  Read_Next_Char(pstm, convert);
	}

      if (!Is_Valid_Code(x))
	{
	  if (err_msg == NULL)
	    {
	      pl_token.line = pstm->line_count + 1;
	      pl_token.col = pstm->line_pos;
	      err_msg = "invalid character code in \\constant\\ sequence";
	    }
	  goto pump;
	}

      if (c != '\\')
	{
	  if (err_msg == NULL)
	    {
	      pl_token.line = pstm->line_count + 1;
	      pl_token.col = pstm->line_pos;
	      err_msg = "\\ expected in \\constant\\ sequence";
	    }

	pump:
	  while(c != '\\' && c != c0 && c != EOF && c != '\n')
	    Read_Next_Char(pstm, convert);
	  if (c == c0)
	    Unget_Last_Char;

	  return -6;
	}

      return (int) (unsigned char) x;
    }

  if (err_msg == NULL)
    {
      pl_token.line = pstm->line_count + 1;
      pl_token.col = pstm->line_pos;
      err_msg = "unknown escape sequence";
    }

  return -6;
}

void
Pl_Recover_After_Error(StmInf *pstm)
#define Next_Char Read_Next_Char(pstm, convert); if (c == EOF) return
{
  int c0;
  Bool convert;
  Bool dot_found;

  if (pstm->eof_reached)
    return;

  for (;;)
    {
    loop:
      convert = FALSE;
      Next_Char;

      if (c == '.')
	{
	  Next_Char;
	  if (c_type & (LA | CM))
	    {
	      Pl_Stream_Ungetc(c, pstm);
	      return;
	    }
	}

      if ((c_type & (QT | DQ | BQ)) == 0)
	continue;

      c0 = c;
      convert = (c_orig != '\'');

      dot_found = FALSE;
      for (;;)
	{
	  Next_Char;
	  if (c == c0)
	    break;

	  if (c == '.')
	    dot_found = TRUE;
	  else if ((c_type & (LA | CM)) == 0)
	    dot_found = FALSE;

	  if (c == '\n')
	    {
	      if (dot_found)
		return;
	      break;
	    }

	  if (c != '\\')
	    continue;

	  Next_Char;
	  if (c == '\n')
	    continue;

	  if (c == '.')
	    dot_found = TRUE;

	  if (strchr("\\'\"`", c))
	    continue;

	  if (strchr(pl_escape_symbol, c))
	    continue;

	  if (c != 'x' && (c < '0' || c > '7'))
	    continue;

	  for (;;)
	    {
	      Next_Char;
	      if (c == c0)
		goto loop;

	      if (c == '\\' || !isxdigit(c))
		break;
	    }
	}
    }
}

char * ref_Pl_Lexer_Next_Atom(StmInf *pstm)
{
  char *s;

  err_msg = NULL;

  do
    Read_Next_Char(pstm, TRUE);
  while (c_type == LA);

  pl_token.line = pstm->line_count + 1;
  pl_token.col = pstm->line_pos;

  switch (c_type)
    {
    case SL:
      s = pl_token.name;
      do
	{
	  *s++ = c;
	  Read_Next_Char(pstm, TRUE);
	}
      while (c_type & (UL | CL | SL | DI));
      *s = '\0';
      Unget_Last_Char;
      break;

    case DQ:
      if (Flag_Value(double_quotes) != PF_QUOT_AS_ATOM &&
	  Flag_Value(double_quotes) != PF_QUOT_AS_ATOM_NO_ESCAPE)
	goto error;
      goto do_lexer_quoted;

    case BQ:
      if (Flag_Value(back_quotes) != PF_QUOT_AS_ATOM &&
	  Flag_Value(back_quotes) != PF_QUOT_AS_ATOM_NO_ESCAPE)
	goto error;

    case QT:
    do_lexer_quoted:
      err_msg = NULL;
      Lexer_Quoted(pstm);
      if (err_msg)
	return err_msg;
      break;

    case GR:
      s = pl_token.name;
      while (c_type == GR)
	{
	  *s++ = c;
	  Read_Next_Char(pstm, TRUE);
	}
      *s = '\0';
      Unget_Last_Char;
      break;

    case SC:
      pl_token.name[0] = c;
      pl_token.name[1] = '\0';
      break;

    default:
    error:
      Unget_Last_Char;
      return "cannot start an atom (use quotes ?)";
    }

  pl_token.type = TOKEN_NAME;
  return NULL;
}
