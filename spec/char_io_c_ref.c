/* What the functions of char_io_c.c are to do. */
#include "gp_config.h"
#include "engine_pl.h"
#include "bips_pl.h"
#include "macros_ref.h"
#include "wam_ref.h"

Bool Pl_Get_Key_2(WamWord sora_word, WamWord code_word);
Bool Pl_Get_Key_1(WamWord code_word);
Bool Pl_Get_Key_No_Echo_2(WamWord sora_word, WamWord code_word);
Bool Pl_Get_Key_No_Echo_1(WamWord code_word);
Bool Pl_Get_Char_2(WamWord sora_word, WamWord char_word);
Bool Pl_Get_Char_1(WamWord char_word);
Bool Pl_Get_Code_2(WamWord sora_word, WamWord code_word);
Bool Pl_Get_Code_1(WamWord code_word);
Bool Pl_Get_Byte_2(WamWord sora_word, WamWord byte_word);
Bool Pl_Get_Byte_1(WamWord byte_word);
void Pl_Unget_Char_2(WamWord sora_word, WamWord char_word);
void Pl_Unget_Char_1(WamWord char_word);
void Pl_Unget_Code_2(WamWord sora_word, WamWord code_word);
void Pl_Unget_Code_1(WamWord code_word);
void Pl_Unget_Byte_2(WamWord sora_word, WamWord byte_word);
void Pl_Unget_Byte_1(WamWord byte_word);
Bool Pl_Peek_Char_2(WamWord sora_word, WamWord char_word);
Bool Pl_Peek_Char_1(WamWord char_word);
Bool Pl_Peek_Code_2(WamWord sora_word, WamWord code_word);
Bool Pl_Peek_Code_1(WamWord code_word);
Bool Pl_Peek_Byte_2(WamWord sora_word, WamWord byte_word);
Bool Pl_Peek_Byte_1(WamWord byte_word);
void Pl_Put_Char_2(WamWord sora_word, WamWord char_word);
void Pl_Put_Char_1(WamWord char_word);
void Pl_Put_Code_2(WamWord sora_word, WamWord code_word);
void Pl_Put_Code_1(WamWord code_word);
void Pl_Put_Byte_2(WamWord sora_word, WamWord byte_word);
void Pl_Put_Byte_1(WamWord byte_word);


Bool ref_Pl_Get_Key_2(WamWord sora_word, WamWord code_word)
{
  int stm;
  int c;

  stm = (sora_word == NOT_A_WAM_WORD)
    ? pl_stm_current_input : Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_INPUT);

  pl_last_input_sora = sora_word;
  Pl_Check_Stream_Type(stm, TRUE, TRUE);

  Pl_Check_For_Un_Integer(code_word);

  c = Pl_Stream_Get_Key(pl_stm_tbl[stm], TRUE, TRUE);

  if (c == EOF)
    c = -1;

  return Pl_Get_Integer(c, code_word);
}

Bool ref_Pl_Get_Key_1(WamWord code_word)
{
  return Pl_Get_Key_2(NOT_A_WAM_WORD, code_word);
}

Bool ref_Pl_Get_Key_No_Echo_2(WamWord sora_word, WamWord code_word)
{
  int stm;
  int c;

  stm = (sora_word == NOT_A_WAM_WORD)
    ? pl_stm_current_input : Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_INPUT);

  pl_last_input_sora = sora_word;
  Pl_Check_Stream_Type(stm, TRUE, TRUE);

  Pl_Check_For_Un_Integer(code_word);

  c = Pl_Stream_Get_Key(pl_stm_tbl[stm], FALSE, TRUE);

  if (c == EOF)
    c = -1;

  return Pl_Get_Integer(c, code_word);
}

Bool ref_Pl_Get_Key_No_Echo_1(WamWord code_word)
{
  return Pl_Get_Key_No_Echo_2(NOT_A_WAM_WORD, code_word);
}

Bool ref_Pl_Get_Char_2(WamWord sora_word, WamWord char_word)
{
  int stm;
  int c;

  stm = (sora_word == NOT_A_WAM_WORD)
    ? pl_stm_current_input : Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_INPUT);

  pl_last_input_sora = sora_word;
  Pl_Check_Stream_Type(stm, TRUE, TRUE);

  Pl_Check_For_Un_In_Char(char_word);

  c = Pl_Stream_Getc(pl_stm_tbl[stm]);
  if (c != EOF && !Is_Valid_Code(c))
    Pl_Err_Representation(pl_representation_character);

  return Pl_Get_Atom((c == EOF) ? pl_atom_end_of_file : ATOM_CHAR(c), char_word);
}

Bool ref_Pl_Get_Char_1(WamWord char_word)
{
  return Pl_Get_Char_2(NOT_A_WAM_WORD, char_word);
}

Bool ref_Pl_Get_Code_2(WamWord sora_word, WamWord code_word)
{
  int stm;
  int c;

  stm = (sora_word == NOT_A_WAM_WORD)
    ? pl_stm_current_input : Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_INPUT);

  pl_last_input_sora = sora_word;
  Pl_Check_Stream_Type(stm, TRUE, TRUE);

  Pl_Check_For_Un_In_Code(code_word);

  c = Pl_Stream_Getc(pl_stm_tbl[stm]);
  if (c != EOF && !Is_Valid_Code(c))
    Pl_Err_Representation(pl_representation_character);

  if (c == EOF)
    c = -1;

  return Pl_Get_Integer(c, code_word);
}

Bool ref_Pl_Get_Code_1(WamWord code_word)
{
  return Pl_Get_Code_2(NOT_A_WAM_WORD, code_word);
}

Bool ref_Pl_Get_Byte_2(WamWord sora_word, WamWord byte_word)
{
  int stm;
  int c;

  stm = (sora_word == NOT_A_WAM_WORD)
    ? pl_stm_current_input : Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_INPUT);

  pl_last_input_sora = sora_word;
  Pl_Check_Stream_Type(stm, FALSE, TRUE);

  Pl_Check_For_Un_In_Byte(byte_word);

  c = Pl_Stream_Getc(pl_stm_tbl[stm]);
  if (c == EOF)
    c = -1;

  return Pl_Get_Integer(c, byte_word);
}

Bool ref_Pl_Get_Byte_1(WamWord byte_word)
{
  return Pl_Get_Byte_2(NOT_A_WAM_WORD, byte_word);
}

void ref_Pl_Unget_Char_2(WamWord sora_word, WamWord char_word)
{
  int stm;

  stm = (sora_word == NOT_A_WAM_WORD)
    ? pl_stm_current_input : Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_INPUT);

  pl_last_input_sora = sora_word;
  Pl_Check_Stream_Type(stm, TRUE, TRUE);

  Pl_Stream_Ungetc(Pl_Rd_Char_Check(char_word), pl_stm_tbl[stm]);
}

void ref_Pl_Unget_Char_1(WamWord char_word)
{
  Pl_Unget_Char_2(NOT_A_WAM_WORD, char_word);
}

void ref_Pl_Unget_Code_2(WamWord sora_word, WamWord code_word)
{
  int stm;

  stm = (sora_word == NOT_A_WAM_WORD)
    ? pl_stm_current_input : Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_INPUT);

  pl_last_input_sora = sora_word;
  Pl_Check_Stream_Type(stm, TRUE, TRUE);

  Pl_Stream_Ungetc(Pl_Rd_Code_Check(code_word), pl_stm_tbl[stm]);
}

void ref_Pl_Unget_Code_1(WamWord code_word)
{
  Pl_Unget_Code_2(NOT_A_WAM_WORD, code_word);
}

void ref_Pl_Unget_Byte_2(WamWord sora_word, WamWord byte_word)
{
  int stm;

  stm = (sora_word == NOT_A_WAM_WORD)
    ? pl_stm_current_input : Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_INPUT);

  pl_last_input_sora = sora_word;
  Pl_Check_Stream_Type(stm, FALSE, TRUE);

  Pl_Stream_Ungetc(Pl_Rd_Byte_Check(byte_word), pl_stm_tbl[stm]);
}

void ref_Pl_Unget_Byte_1(WamWord byte_word)
{
  Pl_Unget_Byte_2(NOT_A_WAM_WORD, byte_word);
}

Bool ref_Pl_Peek_Char_2(WamWord sora_word, WamWord char_word)
{
  int stm;
  int c;

  stm = (sora_word == NOT_A_WAM_WORD)
    ? pl_stm_current_input : Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_INPUT);

  pl_last_input_sora = sora_word;
  Pl_Check_Stream_Type(stm, TRUE, TRUE);

  Pl_Check_For_Un_In_Char(char_word);

  c = Pl_Stream_Peekc(pl_stm_tbl[stm]);
  if (c != EOF && !Is_Valid_Code(c))
    Pl_Err_Representation(pl_representation_character);

  return Pl_Get_Atom((c == EOF) ? pl_atom_end_of_file : ATOM_CHAR(c), char_word);
}

Bool ref_Pl_Peek_Char_1(WamWord char_word)
{
  return Pl_Peek_Char_2(NOT_A_WAM_WORD, char_word);
}

Bool ref_Pl_Peek_Code_2(WamWord sora_word, WamWord code_word)
{
  int stm;
  int c;

  stm = (sora_word == NOT_A_WAM_WORD)
    ? pl_stm_current_input : Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_INPUT);

  pl_last_input_sora = sora_word;
  Pl_Check_Stream_Type(stm, TRUE, TRUE);

  Pl_Check_For_Un_In_Code(code_word);

  c = Pl_Stream_Peekc(pl_stm_tbl[stm]);
  if (c != EOF && !Is_Valid_Code(c))
    Pl_Err_Representation(pl_representation_character);

  if (c == EOF)
    c = -1;

  return Pl_Get_Integer(c, code_word);
}

Bool ref_Pl_Peek_Code_1(WamWord code_word)
{
  return Pl_Peek_Code_2(NOT_A_WAM_WORD, code_word);
}

Bool ref_Pl_Peek_Byte_2(WamWord sora_word, WamWord byte_word)
{
  int stm;
  int c;

  stm = (sora_word == NOT_A_WAM_WORD)
    ? pl_stm_current_input : Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_INPUT);

  pl_last_input_sora = sora_word;
  Pl_Check_Stream_Type(stm, FALSE, TRUE);

  Pl_Check_For_Un_In_Byte(byte_word);

  c = Pl_Stream_Peekc(pl_stm_tbl[stm]);
  if (c == EOF)
    c = -1;

  return Pl_Get_Integer(c, byte_word);
}

Bool ref_Pl_Peek_Byte_1(WamWord byte_word)
{
  return Pl_Peek_Byte_2(NOT_A_WAM_WORD, byte_word);
}

void ref_Pl_Put_Char_2(WamWord sora_word, WamWord char_word)
{
  int stm;

  stm = (sora_word == NOT_A_WAM_WORD)
    ? pl_stm_current_output : Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_OUTPUT);

  pl_last_output_sora = sora_word;
  Pl_Check_Stream_Type(stm, TRUE, FALSE);

  Pl_Stream_Putc(Pl_Rd_Char_Check(char_word), pl_stm_tbl[stm]);
}

void ref_Pl_Put_Char_1(WamWord char_word)
{
  Pl_Put_Char_2(NOT_A_WAM_WORD, char_word);
}

void ref_Pl_Put_Code_2(WamWord sora_word, WamWord code_word)
{
  int stm;

  stm = (sora_word == NOT_A_WAM_WORD)
    ? pl_stm_current_output : Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_OUTPUT);

  pl_last_output_sora = sora_word;
  Pl_Check_Stream_Type(stm, TRUE, FALSE);

  Pl_Stream_Putc(Pl_Rd_Code_Check(code_word), pl_stm_tbl[stm]);
}

void ref_Pl_Put_Code_1(WamWord code_word)
{
  Pl_Put_Code_2(NOT_A_WAM_WORD, code_word);
}

void ref_Pl_Put_Byte_2(WamWord sora_word, WamWord byte_word)
{
  int stm;

  stm = (sora_word == NOT_A_WAM_WORD)
    ? pl_stm_current_output : Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_OUTPUT);

  pl_last_output_sora = sora_word;
  Pl_Check_Stream_Type(stm, FALSE, FALSE);

  Pl_Stream_Putc(Pl_Rd_Byte_Check(byte_word), pl_stm_tbl[stm]);
}

void ref_Pl_Put_Byte_1(WamWord byte_word)
{
  Pl_Put_Byte_2(NOT_A_WAM_WORD, byte_word);
}
