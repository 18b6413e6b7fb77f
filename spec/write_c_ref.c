/* What the functions of write_c.c are to do. */
#include "gp_config.h"
#include "engine_pl.h"
#include "bips_pl.h"
#include "macros_ref.h"
#include "wam_ref.h"

void Pl_Write_Term_2(WamWord sora_word, WamWord term_word);
void Pl_Write_Term_1(WamWord term_word);
void Pl_Write_1(WamWord term_word);
void Pl_Write_2(WamWord sora_word, WamWord term_word);
void Pl_Writeq_1(WamWord term_word);
void Pl_Writeq_2(WamWord sora_word, WamWord term_word);
void Pl_Write_Canonical_1(WamWord term_word);
void Pl_Write_Canonical_2(WamWord sora_word, WamWord term_word);
void Pl_Display_1(WamWord term_word);
void Pl_Display_2(WamWord sora_word, WamWord term_word);
void Pl_Print_1(WamWord term_word);
void Pl_Print_2(WamWord sora_word, WamWord term_word);
void Pl_Nl_1(WamWord sora_word);
void Pl_Nl_0(void);


void ref_Pl_Write_Term_2(WamWord sora_word, WamWord term_word)
{
  int stm;
  StmInf *pstm;

  stm = (sora_word == NOT_A_WAM_WORD)
    ? pl_stm_current_output : Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_OUTPUT);
  pstm = pl_stm_tbl[stm];

  pl_last_output_sora = sora_word;
  Pl_Check_Stream_Type(stm, TRUE, FALSE);

  Pl_Write_Term_Options_In_Sys_Var(pstm, term_word);
}

void ref_Pl_Write_Term_1(WamWord term_word)
{
  Pl_Write_Term_2(NOT_A_WAM_WORD, term_word);
}

void ref_Pl_Write_1(WamWord term_word)
{
  SYS_VAR_OPTION_MASK = WRITE_NUMBER_VARS | WRITE_NAME_VARS;
  SYS_VAR_WRITE_DEPTH = 0;
  SYS_VAR_WRITE_PREC = MAX_PREC;

  Pl_Write_Term_2(NOT_A_WAM_WORD, term_word);
}

void ref_Pl_Write_2(WamWord sora_word, WamWord term_word)
{
  SYS_VAR_OPTION_MASK = WRITE_NUMBER_VARS | WRITE_NAME_VARS;
  SYS_VAR_WRITE_DEPTH = 0;
  SYS_VAR_WRITE_PREC = MAX_PREC;

  Pl_Write_Term_2(sora_word, term_word);
}

void ref_Pl_Writeq_1(WamWord term_word)
{
  SYS_VAR_OPTION_MASK = WRITE_NUMBER_VARS | WRITE_NAME_VARS | WRITE_QUOTED;
  SYS_VAR_WRITE_DEPTH = 0;
  SYS_VAR_WRITE_PREC = MAX_PREC;

  Pl_Write_Term_2(NOT_A_WAM_WORD, term_word);
}

void ref_Pl_Writeq_2(WamWord sora_word, WamWord term_word)
{
  SYS_VAR_OPTION_MASK = WRITE_NUMBER_VARS | WRITE_NAME_VARS | WRITE_QUOTED;
  SYS_VAR_WRITE_DEPTH = 0;
  SYS_VAR_WRITE_PREC = MAX_PREC;

  Pl_Write_Term_2(sora_word, term_word);
}

void ref_Pl_Write_Canonical_1(WamWord term_word)
{
  SYS_VAR_OPTION_MASK = WRITE_IGNORE_OP | WRITE_QUOTED;
  SYS_VAR_WRITE_DEPTH = 0;
  SYS_VAR_WRITE_PREC = MAX_PREC;

  Pl_Write_Term_2(NOT_A_WAM_WORD, term_word);
}

void ref_Pl_Write_Canonical_2(WamWord sora_word, WamWord term_word)
{
  SYS_VAR_OPTION_MASK = WRITE_IGNORE_OP | WRITE_QUOTED;
  SYS_VAR_WRITE_DEPTH = 0;
  SYS_VAR_WRITE_PREC = MAX_PREC;

  Pl_Write_Term_2(sora_word, term_word);
}

void ref_Pl_Display_1(WamWord term_word)
{
  SYS_VAR_OPTION_MASK = WRITE_IGNORE_OP;
  SYS_VAR_WRITE_DEPTH = 0;
  SYS_VAR_WRITE_PREC = MAX_PREC;

  Pl_Write_Term_2(NOT_A_WAM_WORD, term_word);
}

void ref_Pl_Display_2(WamWord sora_word, WamWord term_word)
{
  SYS_VAR_OPTION_MASK = WRITE_IGNORE_OP;
  SYS_VAR_WRITE_DEPTH = 0;
  SYS_VAR_WRITE_PREC = MAX_PREC;

  Pl_Write_Term_2(sora_word, term_word);
}

void ref_Pl_Print_1(WamWord term_word)
{
  SYS_VAR_OPTION_MASK = WRITE_NUMBER_VARS | WRITE_NAME_VARS | WRITE_PORTRAYED;
  SYS_VAR_WRITE_DEPTH = 0;
  SYS_VAR_WRITE_PREC = MAX_PREC;

  Pl_Write_Term_2(NOT_A_WAM_WORD, term_word);
}

void ref_Pl_Print_2(WamWord sora_word, WamWord term_word)
{
  SYS_VAR_OPTION_MASK = WRITE_NUMBER_VARS | WRITE_NAME_VARS | WRITE_PORTRAYED;
  SYS_VAR_WRITE_DEPTH = 0;
  SYS_VAR_WRITE_PREC = MAX_PREC;

  Pl_Write_Term_2(sora_word, term_word);
}

void ref_Pl_Nl_1(WamWord sora_word)
{
  int stm;

  stm = (sora_word == NOT_A_WAM_WORD)
    ? pl_stm_current_output : Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_OUTPUT);

  pl_last_output_sora = sora_word;
  Pl_Check_Stream_Type(stm, TRUE, FALSE);

  Pl_Stream_Putc('\n', pl_stm_tbl[stm]);
}

void ref_Pl_Nl_0(void)
{
  Pl_Nl_1(NOT_A_WAM_WORD);
}
