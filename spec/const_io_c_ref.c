/* What the functions of const_io_c.c are to do. */
#include "gp_config.h"
#include "engine_pl.h"
#include "bips_pl.h"
#include "macros_ref.h"
#include "wam_ref.h"

void Pl_Write_Term_2(WamWord sora_word, WamWord term_word);

void Pl_Write_2(WamWord sora_word, WamWord term_word);

void Pl_Writeq_2(WamWord sora_word, WamWord term_word);

void Pl_Write_Canonical_2(WamWord sora_word, WamWord term_word);

void Pl_Display_2(WamWord sora_word, WamWord term_word);

void Pl_Print_2(WamWord sora_word, WamWord term_word);

void Pl_Format_3(WamWord sora_word, WamWord format_word, WamWord args_word);

Bool Pl_Read_Term_5(WamWord sora_word, WamWord term_word,
		    WamWord vars_word, WamWord var_names_word,
		    WamWord sing_names_word);

Bool Pl_Read_Token_2(WamWord sora_word, WamWord token_word);

#define OUT_TO_STR(const_stream_type,str,stm_word,code_out,code_after) { char *str; OUT_TO_STR_BEFORE(const_stream_type, stm, stm_word); { code_out; } OUT_TO_STR_AFTER(str, stm, code_after); }

#define OUT_TO_STR_BEFORE(const_stream_type,stm,stm_word) int stm; WamWord stm_word; stm = Pl_Add_Str_Stream(NULL, const_stream_type); stm_word = Pl_Make_Stream_Tagged_Word(stm);

#define OUT_TO_STR_AFTER(str,stm,code_after) str = Pl_Terminate_Output_Str_Stream(stm); { code_after; } Pl_Delete_Str_Stream(stm);
char * Pl_Write_To_String(WamWord term_word);
char * Pl_Writeq_To_String(WamWord term_word);
char * Pl_Write_Canonical_To_String(WamWord term_word);
char * Pl_Display_To_String(WamWord term_word);
Bool Pl_Write_To_Atom_2(WamWord atom_word, WamWord term_word);
Bool Pl_Write_To_Chars_2(WamWord chars_word, WamWord term_word);
Bool Pl_Write_To_Codes_2(WamWord codes_word, WamWord term_word);
Bool Pl_Writeq_To_Atom_2(WamWord atom_word, WamWord term_word);
Bool Pl_Writeq_To_Chars_2(WamWord chars_word, WamWord term_word);
Bool Pl_Writeq_To_Codes_2(WamWord codes_word, WamWord term_word);
Bool Pl_Write_Canonical_To_Atom_2(WamWord atom_word, WamWord term_word);
Bool Pl_Write_Canonical_To_Chars_2(WamWord chars_word, WamWord term_word);
Bool Pl_Write_Canonical_To_Codes_2(WamWord codes_word, WamWord term_word);
Bool Pl_Display_To_Atom_2(WamWord atom_word, WamWord term_word);
Bool Pl_Display_To_Chars_2(WamWord chars_word, WamWord term_word);
Bool Pl_Display_To_Codes_2(WamWord codes_word, WamWord term_word);
Bool Pl_Print_To_Atom_2(WamWord atom_word, WamWord term_word);
Bool Pl_Print_To_Chars_2(WamWord chars_word, WamWord term_word);
Bool Pl_Print_To_Codes_2(WamWord codes_word, WamWord term_word);
void Pl_Write_Term_To_Atom_Before_1(WamWord term_word);
Bool Pl_Write_Term_To_Atom_After_1(WamWord atom_word);
void Pl_Write_Term_To_Chars_Before_1(WamWord term_word);
Bool Pl_Write_Term_To_Chars_After_1(WamWord chars_word);
void Pl_Write_Term_To_Codes_Before_1(WamWord term_word);
Bool Pl_Write_Term_To_Codes_After_1(WamWord codes_word);
Bool Pl_Format_To_Atom_3(WamWord atom_word, WamWord format_word, WamWord args_word);
Bool Pl_Format_To_Chars_3(WamWord chars_word, WamWord format_word, WamWord args_word);
Bool Pl_Format_To_Codes_3(WamWord codes_word, WamWord format_word, WamWord args_word);
WamWord Pl_Read_From_String(char *str);
Bool Pl_Read_From_Atom_2(WamWord atom_word, WamWord term_word);
Bool Pl_Read_From_Chars_2(WamWord chars_word, WamWord term_word);
Bool Pl_Read_From_Codes_2(WamWord codes_word, WamWord term_word);
Bool Pl_Read_Term_From_Atom_5(WamWord atom_word, WamWord term_word, WamWord vars_word, WamWord var_names_word, WamWord sing_names_word);
Bool Pl_Read_Term_From_Chars_5(WamWord chars_word, WamWord term_word, WamWord vars_word, WamWord var_names_word, WamWord sing_names_word);
Bool Pl_Read_Term_From_Codes_5(WamWord codes_word, WamWord term_word, WamWord vars_word, WamWord var_names_word, WamWord sing_names_word);
Bool Pl_Read_Token_From_Atom_2(WamWord atom_word, WamWord token_word);
Bool Pl_Read_Token_From_Chars_2(WamWord chars_word, WamWord token_word);
Bool Pl_Read_Token_From_Codes_2(WamWord codes_word, WamWord token_word);


char * ref_Pl_Write_To_String(WamWord term_word)
{
  char *ret_str;

  OUT_TO_STR(TERM_STREAM_ATOM, str, stm_word,
	     Pl_Write_2(stm_word, term_word),
	     ret_str = Strdup(str));

  return ret_str;
}

char * ref_Pl_Writeq_To_String(WamWord term_word)
{
  char *ret_str;

  OUT_TO_STR(TERM_STREAM_ATOM, str, stm_word,
	     Pl_Writeq_2(stm_word, term_word),
	     ret_str = Strdup(str));

  return ret_str;
}

char * ref_Pl_Write_Canonical_To_String(WamWord term_word)
{
  char *ret_str;

  OUT_TO_STR(TERM_STREAM_ATOM, str, stm_word,
	     Pl_Write_Canonical_2(stm_word, term_word),
	     ret_str = Strdup(str));

  return ret_str;
}

char * ref_Pl_Display_To_String(WamWord term_word)
{
  char *ret_str;

  OUT_TO_STR(TERM_STREAM_ATOM, str, stm_word,
	     Pl_Display_2(stm_word, term_word),
	     ret_str = Strdup(str));

  return ret_str;
}

Bool ref_Pl_Write_To_Atom_2(WamWord atom_word, WamWord term_word)
{
  Bool ret;

  OUT_TO_STR(TERM_STREAM_ATOM, str, stm_word,
	     Pl_Write_2(stm_word, term_word),
	     ret = Pl_Un_String_Check(str, atom_word));

  return ret;
}

Bool ref_Pl_Write_To_Chars_2(WamWord chars_word, WamWord term_word)
{
  Bool ret;

  OUT_TO_STR(TERM_STREAM_CHARS, str, stm_word,
	     Pl_Write_2(stm_word, term_word),
	     ret = Pl_Un_Chars_Check(str, chars_word));

  return ret;
}

Bool ref_Pl_Write_To_Codes_2(WamWord codes_word, WamWord term_word)
{
  Bool ret;

  OUT_TO_STR(TERM_STREAM_CODES, str, stm_word,
	     Pl_Write_2(stm_word, term_word),
	     ret = Pl_Un_Codes_Check(str, codes_word));

  return ret;
}

Bool ref_Pl_Writeq_To_Atom_2(WamWord atom_word, WamWord term_word)
{
  Bool ret;

  OUT_TO_STR(TERM_STREAM_ATOM, str, stm_word,
	     Pl_Writeq_2(stm_word, term_word),
	     ret = Pl_Un_String_Check(str, atom_word));

  return ret;
}

Bool ref_Pl_Writeq_To_Chars_2(WamWord chars_word, WamWord term_word)
{
  Bool ret;

  OUT_TO_STR(TERM_STREAM_CHARS, str, stm_word,
	     Pl_Writeq_2(stm_word, term_word),
	     ret = Pl_Un_Chars_Check(str, chars_word));

  return ret;
}

Bool ref_Pl_Writeq_To_Codes_2(WamWord codes_word, WamWord term_word)
{
  Bool ret;

  OUT_TO_STR(TERM_STREAM_CODES, str, stm_word,
	     Pl_Writeq_2(stm_word, term_word),
	     ret = Pl_Un_Codes_Check(str, codes_word));

  return ret;
}

Bool ref_Pl_Write_Canonical_To_Atom_2(WamWord atom_word, WamWord term_word)
{
  Bool ret;

  OUT_TO_STR(TERM_STREAM_ATOM, str, stm_word,
	     Pl_Write_Canonical_2(stm_word, term_word),
	     ret = Pl_Un_String_Check(str, atom_word));

  return ret;
}

Bool ref_Pl_Write_Canonical_To_Chars_2(WamWord chars_word, WamWord term_word)
{
  Bool ret;

  OUT_TO_STR(TERM_STREAM_CHARS, str, stm_word,
	     Pl_Write_Canonical_2(stm_word, term_word),
	     ret = Pl_Un_Chars_Check(str, chars_word));

  return ret;
}

Bool ref_Pl_Write_Canonical_To_Codes_2(WamWord codes_word, WamWord term_word)
{
  Bool ret;

  OUT_TO_STR(TERM_STREAM_CODES, str, stm_word,
	     Pl_Write_Canonical_2(stm_word, term_word),
	     ret = Pl_Un_Codes_Check(str, codes_word));

  return ret;
}

Bool ref_Pl_Display_To_Atom_2(WamWord atom_word, WamWord term_word)
{
  Bool ret;

  OUT_TO_STR(TERM_STREAM_ATOM, str, stm_word,
	     Pl_Display_2(stm_word, term_word),
	     ret = Pl_Un_String_Check(str, atom_word));

  return ret;
}

Bool ref_Pl_Display_To_Chars_2(WamWord chars_word, WamWord term_word)
{
  Bool ret;

  OUT_TO_STR(TERM_STREAM_CHARS, str, stm_word,
	     Pl_Display_2(stm_word, term_word),
	     ret = Pl_Un_Chars_Check(str, chars_word));

  return ret;
}

Bool ref_Pl_Display_To_Codes_2(WamWord codes_word, WamWord term_word)
{
  Bool ret;

  OUT_TO_STR(TERM_STREAM_CODES, str, stm_word,
	     Pl_Display_2(stm_word, term_word),
	     ret = Pl_Un_Codes_Check(str, codes_word));

  return ret;
}

Bool ref_Pl_Print_To_Atom_2(WamWord atom_word, WamWord term_word)
{
  Bool ret;

  OUT_TO_STR(TERM_STREAM_ATOM, str, stm_word,
	     Pl_Print_2(stm_word, term_word),
	     ret = Pl_Un_String_Check(str, atom_word));

  return ret;
}

Bool ref_Pl_Print_To_Chars_2(WamWord chars_word, WamWord term_word)
{
  Bool ret;

  OUT_TO_STR(TERM_STREAM_CHARS, str, stm_word,
	     Pl_Print_2(stm_word, term_word),
	     ret = Pl_Un_Chars_Check(str, chars_word));

  return ret;
}

Bool ref_Pl_Print_To_Codes_2(WamWord codes_word, WamWord term_word)
{
  Bool ret;

  OUT_TO_STR(TERM_STREAM_CODES, str, stm_word,
	     Pl_Print_2(stm_word, term_word),
	     ret = Pl_Un_Codes_Check(str, codes_word));

  return ret;
}

extern int last_str_stm;

void ref_Pl_Write_Term_To_Atom_Before_1(WamWord term_word)
{
  OUT_TO_STR_BEFORE(TERM_STREAM_ATOM, stm, stm_word);

  Pl_Write_Term_2(stm_word, term_word);
  last_str_stm = stm;
}

Bool ref_Pl_Write_Term_To_Atom_After_1(WamWord atom_word)
{
  char *str;
  Bool ret;

  OUT_TO_STR_AFTER(str, last_str_stm,
		   ret = Pl_Un_String_Check(str, atom_word));

  return ret;
}

void ref_Pl_Write_Term_To_Chars_Before_1(WamWord term_word)
{
  OUT_TO_STR_BEFORE(TERM_STREAM_CHARS, stm, stm_word);

  Pl_Write_Term_2(stm_word, term_word);
  last_str_stm = stm;
}

Bool ref_Pl_Write_Term_To_Chars_After_1(WamWord chars_word)
{
  char *str;
  Bool ret;

  OUT_TO_STR_AFTER(str, last_str_stm,
		   ret = Pl_Un_Chars_Check(str, chars_word));

  return ret;
}

void ref_Pl_Write_Term_To_Codes_Before_1(WamWord term_word)
{
  OUT_TO_STR_BEFORE(TERM_STREAM_CODES, stm, stm_word);

  Pl_Write_Term_2(stm_word, term_word);
  last_str_stm = stm;
}

Bool ref_Pl_Write_Term_To_Codes_After_1(WamWord codes_word)
{
  char *str;
  Bool ret;

  OUT_TO_STR_AFTER(str, last_str_stm,
		   ret = Pl_Un_Codes_Check(str, codes_word));

  return ret;
}

Bool ref_Pl_Format_To_Atom_3(WamWord atom_word, WamWord format_word, WamWord args_word)
{
  Bool ret;

  OUT_TO_STR(TERM_STREAM_ATOM, str, stm_word,
	     Pl_Format_3(stm_word, format_word, args_word),
	     ret = Pl_Un_String_Check(str, atom_word));

  return ret;
}

Bool ref_Pl_Format_To_Chars_3(WamWord chars_word, WamWord format_word, WamWord args_word)
{
  Bool ret;

  OUT_TO_STR(TERM_STREAM_CHARS, str, stm_word,
	     Pl_Format_3(stm_word, format_word, args_word),
	     ret = Pl_Un_Chars_Check(str, chars_word));

  return ret;
}

Bool ref_Pl_Format_To_Codes_3(WamWord codes_word, WamWord format_word, WamWord args_word)
{
  Bool ret;

  OUT_TO_STR(TERM_STREAM_CODES, str, stm_word,
	     Pl_Format_3(stm_word, format_word, args_word),
	     ret = Pl_Un_Codes_Check(str, codes_word));

  return ret;
}

#define IN_FROM_STR(const_stream_type,str,stm_word,code_in) { int stm; WamWord stm_word; stm = Pl_Add_Str_Stream(str, const_stream_type); stm_word = Pl_Make_Stream_Tagged_Word(stm); { code_in; } Pl_Delete_Str_Stream(stm); }

WamWord ref_Pl_Read_From_String(char *str)
{
  WamWord term_word = Pl_Mk_Variable();

  SYS_VAR_OPTION_MASK = 0;
  SYS_VAR_OPTION_MASK |= (1 << 3);

  SYS_VAR_SYNTAX_ERROR_ACTON = -1;

  IN_FROM_STR(TERM_STREAM_ATOM, str, stm_word,
	      Pl_Read_Term_5(stm_word, term_word, 0, 0, 0));

  return term_word;
}

Bool ref_Pl_Read_From_Atom_2(WamWord atom_word, WamWord term_word)
{
  Bool ret;

  IN_FROM_STR(TERM_STREAM_ATOM, pl_atom_tbl[Pl_Rd_Atom_Check(atom_word)].name, stm_word,
	      ret = Pl_Read_Term_5(stm_word, term_word, 0, 0, 0));

  return ret;
}

Bool ref_Pl_Read_From_Chars_2(WamWord chars_word, WamWord term_word)
{
  Bool ret;

  IN_FROM_STR(TERM_STREAM_CHARS, Pl_Rd_Chars_Check(chars_word), stm_word,
	      ret = Pl_Read_Term_5(stm_word, term_word, 0, 0, 0));

  return ret;
}

Bool ref_Pl_Read_From_Codes_2(WamWord codes_word, WamWord term_word)
{
  Bool ret;

  IN_FROM_STR(TERM_STREAM_CODES, Pl_Rd_Codes_Check(codes_word), stm_word,
	      ret = Pl_Read_Term_5(stm_word, term_word, 0, 0, 0));

  return ret;
}

Bool ref_Pl_Read_Term_From_Atom_5(WamWord atom_word, WamWord term_word, WamWord vars_word, WamWord var_names_word, WamWord sing_names_word)
{
  Bool ret;

  IN_FROM_STR(TERM_STREAM_ATOM, pl_atom_tbl[Pl_Rd_Atom_Check(atom_word)].name, stm_word,
	      ret = Pl_Read_Term_5(stm_word, term_word, vars_word, var_names_word, sing_names_word));

  return ret;
}

Bool ref_Pl_Read_Term_From_Chars_5(WamWord chars_word, WamWord term_word, WamWord vars_word, WamWord var_names_word, WamWord sing_names_word)
{
  Bool ret;

  IN_FROM_STR(TERM_STREAM_CHARS, Pl_Rd_Chars_Check(chars_word), stm_word,
	      ret = Pl_Read_Term_5(stm_word, term_word, vars_word, var_names_word, sing_names_word));

  return ret;
}

Bool ref_Pl_Read_Term_From_Codes_5(WamWord codes_word, WamWord term_word, WamWord vars_word, WamWord var_names_word, WamWord sing_names_word)
{
  Bool ret;

  IN_FROM_STR(TERM_STREAM_CODES, Pl_Rd_Codes_Check(codes_word), stm_word,
	      ret = Pl_Read_Term_5(stm_word, term_word, vars_word, var_names_word, sing_names_word));

  return ret;
}

Bool ref_Pl_Read_Token_From_Atom_2(WamWord atom_word, WamWord token_word)
{
  Bool ret;

  IN_FROM_STR(TERM_STREAM_ATOM, pl_atom_tbl[Pl_Rd_Atom_Check(atom_word)].name, stm_word,
	      ret = Pl_Read_Token_2(stm_word, token_word));

  return ret;
}

Bool ref_Pl_Read_Token_From_Chars_2(WamWord chars_word, WamWord token_word)
{
  Bool ret;

  IN_FROM_STR(TERM_STREAM_CHARS, Pl_Rd_Chars_Check(chars_word), stm_word,
	      ret = Pl_Read_Token_2(stm_word, token_word));

  return ret;
}

Bool ref_Pl_Read_Token_From_Codes_2(WamWord codes_word, WamWord token_word)
{
  Bool ret;

  IN_FROM_STR(TERM_STREAM_CODES, Pl_Rd_Codes_Check(codes_word), stm_word,
	      ret = Pl_Read_Token_2(stm_word, token_word));

  return ret;
}
