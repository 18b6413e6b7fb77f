/* What the functions of format_c.c are to do. */
#include "gp_config.h"
#include <string.h>
#include <stdlib.h>
#include "engine_pl.h"
#include "bips_pl.h"
#include "macros_ref.h"
#include "wam_ref.h"

#define MAX_PAD 1024

typedef struct {
  char *start_ptr;
  char fill_char;
}
PadInf;

void Format(StmInf *pstm, char *format, WamWord args_word);

void Flush_Padding(StmInf *pstm_orig, int stm_pad, int nb_pad, PadInf pad[], PlLong free_space);

WamWord Read_Arg(WamWord **lst_adr);

char *Arg_Atom(WamWord **lst_adr);

char *Arg_Any_String(WamWord **lst_adr);

PlLong Arg_Integer(WamWord **lst_adr);

double Arg_Float(WamWord **lst_adr);

#define GET_WRITE_OPTIONS X1_246765745F77726974655F6F7074696F6E73

Prolog_Prototype(GET_WRITE_OPTIONS, 1);
void Pl_Format_3(WamWord sora_word, WamWord format_word, WamWord args_word);
void Pl_Format_2(WamWord format_word, WamWord args_word);
void Flush_Padding(StmInf *pstm, int stm_pad, int nb_pad, PadInf pad[], PlLong free_space);
WamWord Read_Arg(WamWord **lst_adr);
char * Arg_Atom(WamWord **lst_adr);
char * Arg_Any_String(WamWord **lst_adr);
PlLong Arg_Integer(WamWord **lst_adr);
double Arg_Float(WamWord **lst_adr);


void ref_Pl_Format_3(WamWord sora_word, WamWord format_word, WamWord args_word)
{
  WamWord word, tag_mask;
  int stm;
  StmInf *pstm;
  char buff[2048];
  char *p;
  size_t l;

  stm = (sora_word == NOT_A_WAM_WORD) ? pl_stm_current_output :
    Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_OUTPUT);
  pstm = pl_stm_tbl[stm];

  pl_last_output_sora = sora_word;
  Pl_Check_Stream_Type(stm, TRUE, FALSE);

  DEREF(format_word, word, tag_mask);

  p = Pl_Rd_Atom_Or_Chars_Or_Codes_Check(format_word);
  l = strlen(p);
  if (l < sizeof(buff))
    {
      strcpy(buff, p);
      p = buff;
    }
  else
    {
      p = Strdup(p);
    }

  Format(pstm, p, args_word);

  if (p != buff)
    Free(p);
}

void ref_Pl_Format_2(WamWord format_word, WamWord args_word)
{
  Pl_Format_3(NOT_A_WAM_WORD, format_word, args_word);
}

void ref_Format(StmInf *pstm, char *format, WamWord args_word)

#define IMPOSS -12345678
#define DEFAULT_N(def_n) if (!has_n) n = (def_n)

{
  WamWord *lst_adr = &args_word;
  WamWord word;
  Bool has_n;
  char fmt_char;
  PlLong n, n1;
  char *p;
  PlLong x;
  double d;
  int lg, stop;
  int i, k, res;
  char buff[2048];

#define MAX_PAD 1024
  StmInf *pstm_orig = pstm;
  PlLong last_line_count = pstm->line_count;
  PadInf pad[MAX_PAD];
  int nb_pad = 0;
  int stm_pad = -1;
  PlLong tab_stop = 0;
  PlLong curr_pos, free_space;
#define CLEAN if (stm_pad >= 0) { Pl_Delete_Str_Stream(stm_pad); stm_pad = -1; }

  while (*format)
    {
      if (*format != '~')
	{
	  Pl_Stream_Putc(*format, pstm);
	  format++;
	  continue;
	}

      if (*++format == '*')
	{
	  n = Arg_Integer(&lst_adr);
	  if (n < 0)
	    {
	      CLEAN;
	      Pl_Err_Domain(pl_domain_not_less_than_zero, Tag_INT(n));
	    }
	  format++;
	  has_n = TRUE;
	}
      else
	{
	  p = format;
	  if (*p == '`' && p[1] != '\0')
	    {
	      n = p[1];
	      format += 2;
	    }
	  else
	    {
	      n = (PlLong) Str_To_PlLong(format, &format, 10);

	      if (TEST_INT_OVERFLOW(n))
		{
		  CLEAN;
		  Pl_Err_Evaluation(pl_evaluation_int_overflow);
		}
	    }
	  has_n = (format != p);
	}

      fmt_char = *format;
      switch (fmt_char)
	{
	case 'a':
	  p = Arg_Atom(&lst_adr);
	  if (has_n)
	    Pl_Stream_Printf(pstm, "%*s", -n, p);
	  else
	    Pl_Stream_Puts(p, pstm);
	  break;

	case 'c':
	  x = Arg_Integer(&lst_adr);
	  if (!Is_Valid_Code(x))
	    {
	      CLEAN;
	      Pl_Err_Representation(pl_representation_character_code);
	    }

	  DEFAULT_N(1);
	  while(n-- > 0)
	    Pl_Stream_Putc((int) x, pstm);
	  break;

	case 'e':
	case 'E':
	case 'f':
	case 'F':
	case 'g':
	case 'G':
	  d = Arg_Float(&lst_adr);

	  if (has_n)
	    sprintf(buff, "%%.%" PL_FMT_d "%c", n, fmt_char);
	  else
	    sprintf(buff, "%%%c", fmt_char);

	  Pl_Stream_Printf(pstm, buff, d);
	  break;

	case 'd':
	case 'D':
	  x = Arg_Integer(&lst_adr);

	  DEFAULT_N(0);
	  if (n == 0 && fmt_char == 'd')
	    {
	      Pl_Stream_Printf(pstm, "%" PL_FMT_d, x);
	      break;
	    }

	  if (x < 0)
	    {
	      Pl_Stream_Putc('-', pstm);
	      x = -x;
	    }

	  sprintf(buff, "%" PL_FMT_d, x);
	  lg = (int) (strlen(buff) - n);
	  if (lg <= 0)
	    {
	      Pl_Stream_Puts("0.", pstm);
	      for (i = 0; i < -lg; i++)
		Pl_Stream_Putc('0', pstm);
	      Pl_Stream_Printf(pstm, "%" PL_FMT_d, x);
	      break;
	    }

	  stop = (fmt_char == 'D') ? lg % 3 : -1;

	  if (stop == 0)
	    stop = 3;

	  for (p = buff, i = 0; *p; p++, i++)
	    {
	      if (i == lg)
		Pl_Stream_Putc('.', pstm), stop = -1;

	      if (i == stop)
		Pl_Stream_Putc(',', pstm), stop += 3;
	      Pl_Stream_Putc(*p, pstm);
	    }
	  break;

	case 'r':
	case 'R':
	  x = Arg_Integer(&lst_adr);

	  DEFAULT_N(8);
	  if (n < 2 || n > 36)
	    {
	      CLEAN;
	      Pl_Err_Domain(pl_domain_radix, Tag_INT(n));
	    }

	  k = ((fmt_char == 'r') ? 'a' : 'A') - 10;

	  if (x < 0)
	    {
	      Pl_Stream_Putc('-', pstm);
	      x = -x;
	    }

	  p = buff + sizeof(buff) - 1;
	  *p = '\0';
	  do
	    {
	      i = (int) (x % n);
	      x = x / n;
	      --p;
	      *p = (i < 10) ? i + '0' : i + k;
	    }
	  while (x);
	  Pl_Stream_Puts(p, pstm);
	  break;

	case 's':
	  p = Arg_Any_String(&lst_adr);

	  if (has_n)
	    Pl_Stream_Printf(pstm, "%-*.*s", n, n, p);
	  else
	    Pl_Stream_Printf(pstm, "%s", p);
	  break;

	case 'i':
	  Read_Arg(&lst_adr);
	  break;

	case 'k':
	  word = Read_Arg(&lst_adr);
	  Pl_Write_Term(pstm, 0, MAX_PREC,
			WRITE_IGNORE_OP | WRITE_QUOTED, NULL, word);
	  break;

	case 'q':
	  word = Read_Arg(&lst_adr);
	  Pl_Write_Term(pstm, 0, MAX_PREC, WRITE_NUMBER_VARS |
			WRITE_NAME_VARS | WRITE_QUOTED, NULL, word);
	  break;

	case 'p':
	  word = Read_Arg(&lst_adr);
	  Pl_Write_Term(pstm, 0, MAX_PREC, WRITE_NUMBER_VARS |
			WRITE_NAME_VARS | WRITE_PORTRAYED, NULL, word);
	  break;

	case 'w':
	  word = Read_Arg(&lst_adr);
	  Pl_Write_Term(pstm, 0, MAX_PREC, WRITE_NUMBER_VARS |
			WRITE_NAME_VARS, NULL, word);
	  break;

	case 'W':
	  word = Read_Arg(&lst_adr);
	  A(0) = Read_Arg(&lst_adr);

	  Pl_Query_Begin(TRUE);
	  res = Pl_Query_Call_Native(Prolog_Predicate(GET_WRITE_OPTIONS, 1));
	  Pl_Query_End(PL_RECOVER);

	  if (res == PL_EXCEPTION)
	    Pl_Throw(Pl_Get_Exception());

	  Pl_Write_Term_Options_In_Sys_Var(pstm, word);
	  break;

	case '~':
	  Pl_Stream_Putc('~', pstm);
	  break;

	case 'N':
	  if (pstm->line_pos > 0)
	    Pl_Stream_Putc('\n', pstm);
	  break;

	case 'n':
	  DEFAULT_N(1);
	  while (n-- > 0)
	    Pl_Stream_Putc('\n', pstm);
	  break;

	case '%':
	  if (format[1] == '%')
	    {
	      Pl_Stream_Putc('%', pstm);
	      format += 2;
	      continue;
	    }

	  p = buff;
	  n = n1 = IMPOSS;

	  do
	    if ((*p++ = fmt_char = *format++) == '*')
	      {
		if (n == IMPOSS)
		  n = Arg_Integer(&lst_adr);
		else if (n1 == IMPOSS)
		  n1 = Arg_Integer(&lst_adr);
	      }
	  while (fmt_char >= ' ' && fmt_char <= '9');
	  *p = '\0';
	  format--;

	  if (strchr("diouxXpcsaAeEfFgG", fmt_char) == NULL)
	    {
	    c_printf_error:
	      CLEAN;
	      Pl_Err_Domain(pl_domain_format_control_sequence,
			    Tag_ATM(Pl_Create_Atom(buff)));
	    }

#define INVOC_PRINTF(arg) if (n != IMPOSS) { if (n1 != IMPOSS) k = Pl_Stream_Printf(pstm, buff, n, n1, arg); else k = Pl_Stream_Printf(pstm, buff, n, arg); } else k = Pl_Stream_Printf(pstm, buff, arg); if (k < 0) goto c_printf_error;

	  if (fmt_char == 's')
	    {
	      char *q = Arg_Any_String(&lst_adr);
	      INVOC_PRINTF(q);
	    }
	  else if (strchr("aAeEfFgG", fmt_char))
	    {
	      d = Arg_Float(&lst_adr);
	      INVOC_PRINTF(d);
	    }
	  else if (fmt_char == 'c')
	    {
	      word = Read_Arg(&lst_adr);
	      Pl_Math_Load_Value(word, &word);
	      k = Pl_Rd_C_Int_Check(word);
	      INVOC_PRINTF(k);
	    }
	  else
	    {
	      x = Arg_Integer(&lst_adr);
	      if (fmt_char != 'p')
		{
		  strcpy(p - 1, PL_FMT_d);
		  p += strlen(p);
		  p[-1] = fmt_char;
		}
	      INVOC_PRINTF(x);
	    }
	  break;

	case '+':
	  DEFAULT_N(8);

	case '|':
	  if (last_line_count != pstm->line_count)
	    {
	      Flush_Padding(pstm_orig, stm_pad, nb_pad, pad, 0);
	      nb_pad = 0;
	      tab_stop = 0;
	    }

	  curr_pos = pstm_orig->line_pos;
	  if (nb_pad > 0)
	    curr_pos += pstm->line_pos;

	  if (fmt_char == '+')
	    tab_stop += n;
	  else
	    {
	      DEFAULT_N(curr_pos);
	      tab_stop = n;
	    }
	  free_space = tab_stop - curr_pos;
	  if (nb_pad == 0)
	    {
	      for(i = 0; i < free_space; i++)
		Pl_Stream_Putc(' ', pstm);
	    }
	  else
	    {
	      Flush_Padding(pstm_orig, stm_pad, nb_pad, pad, free_space);
	    }
	  nb_pad = 0;
	  pstm = pstm_orig;
	  last_line_count = pstm->line_count;
	  break;

	case 't':
	  DEFAULT_N(' ');

	  if (last_line_count != pstm->line_count)
	    {
	      Flush_Padding(pstm_orig, stm_pad, nb_pad, pad, 0);
	      nb_pad = 0;
	      tab_stop = 0;
	      last_line_count = pstm->line_count;
	    }

	  if (nb_pad == 0)
	    {
	      if (stm_pad < 0)
		stm_pad = Pl_Add_Str_Stream(NULL, 0);
	      pstm = pl_stm_tbl[stm_pad];
	      last_line_count = pstm->line_count;
	    }

	  if (nb_pad >= MAX_PAD)
	    {
	      CLEAN;
	      Pl_Err_Resource(Pl_Create_Atom("too many consecutive ~t in format"));
	    }

	  pad[nb_pad].start_ptr = Pl_Get_Ptr_Str_Stream(stm_pad);
	  pad[nb_pad].fill_char = (char) n;
	  nb_pad++;
	  break;

	default:
	  CLEAN;
	  Pl_Err_Domain(pl_domain_format_control_sequence, Tag_ATM(ATOM_CHAR(fmt_char)));
	}
      format++;
    }

  Flush_Padding(pstm_orig, stm_pad, nb_pad, pad, 0);

  CLEAN;
  Pl_Check_Empty_List(*lst_adr, args_word);
}

void ref_Flush_Padding(StmInf *pstm, int stm_pad, int nb_pad, PadInf pad[], PlLong free_space)
{
  PlLong spc, rem, n;
  char *p, *end;
  int i;

  if (nb_pad == 0)
    return;

  if (free_space < 0)
    free_space = 0;

  spc = free_space / nb_pad;
  rem = free_space % nb_pad;

  p = Pl_Get_Buffer_Str_Stream(stm_pad);
  for(i = 0; i < nb_pad; i++)
    {

      n = spc + (i >= nb_pad - rem);

      while(--n >= 0)
	Pl_Stream_Putc(pad[i].fill_char, pstm);

      end = (i < nb_pad - 1) ? pad[i + 1].start_ptr : Pl_Get_Ptr_Str_Stream(stm_pad);
      while(p < end)
	Pl_Stream_Putc(*p++, pstm);
    }
  Pl_Rewind_Str_Stream(stm_pad);
}

WamWord ref_Read_Arg(WamWord **lst_adr)
{
  WamWord word, tag_mask;
  WamWord *adr;
  WamWord car_word;

  DEREF(**lst_adr, word, tag_mask);

  if (tag_mask != TAG_LST_MASK)
    {
      if (tag_mask == TAG_REF_MASK)
        Pl_Err_Instantiation();

      if (word == NIL_WORD)
        Pl_Err_Domain(pl_domain_non_empty_list, word);

      Pl_Err_Type(pl_type_list, word);
    }

  adr = UnTag_LST(word);
  car_word = Car(adr);
  *lst_adr = &Cdr(adr);

  DEREF(car_word, word, tag_mask);
  return word;
}

char * ref_Arg_Atom(WamWord **lst_adr)
{
  WamWord word;

  word = Read_Arg(lst_adr);

  return pl_atom_tbl[Pl_Rd_Atom_Check(word)].name;
}

char * ref_Arg_Any_String(WamWord **lst_adr)
{
  WamWord word;

  word = Read_Arg(lst_adr);

  return Pl_Rd_Atom_Or_Chars_Or_Codes_Check(word);
}

PlLong ref_Arg_Integer(WamWord **lst_adr)
{
  WamWord word;

  word = Read_Arg(lst_adr);

  Pl_Math_Load_Value(word, &word);
  return Pl_Rd_Integer_Check(word);
}

double ref_Arg_Float(WamWord **lst_adr)
{
  WamWord word;

  word = Read_Arg(lst_adr);

  Pl_Math_Load_Value(word, &word);
  return Pl_Rd_Number_Check(word);
}
