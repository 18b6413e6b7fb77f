/* What the functions of stream_c.c are to do. */
#include "gp_config.h"
#include <stdlib.h>
#include <errno.h>
#include <string.h>
#include <fcntl.h>
#include "engine_pl.h"
#include "bips_pl.h"
#include "linedit.h"
#include <unistd.h>
#include <sys/fcntl.h>
#include "macros_ref.h"
#include "wam_ref.h"

#define TERM_STREAM_WRITE_BLOCK 1024

#define ERR_NEEDS_SPECIAL_CLOSE "special stream: needs appropriate close predicate"
#define ERR_CANNOT_CLOSE_STREAM "cannot close stream"

typedef struct
{
  int buff_size;
  Bool buff_is_alloc;
  char *buff;
  char *ptr;
}
TermSInf;

#define CURRENT_STREAM_ALT X1_2463757272656E745F73747265616D5F616C74
#define CURRENT_ALIAS_ALT X1_2463757272656E745F616C6961735F616C74
#define CURRENT_MIRROR_ALT X1_2463757272656E745F6D6972726F725F616C74

Prolog_Prototype(CURRENT_STREAM_ALT, 0);
Prolog_Prototype(CURRENT_ALIAS_ALT, 0);
Prolog_Prototype(CURRENT_MIRROR_ALT, 0);
Bool Pl_Current_Input_1(WamWord stm_word);
Bool Pl_Current_Output_1(WamWord stm_word);
void Pl_Set_Input_1(WamWord sora_word);
void Pl_Set_Output_1(WamWord sora_word);
void Pl_Set_Top_Level_Streams_2(WamWord sora_in_word, WamWord sora_out_word);
void Pl_Set_Debugger_Streams_2(WamWord sora_in_word, WamWord sora_out_word);
void Pl_Open_3(WamWord source_sink_word, WamWord mode_word, WamWord stm_word);
Bool Pl_Test_Alias_Not_Assigned_1(WamWord alias_word);
Bool Pl_From_Alias_To_Stream_2(WamWord alias_word, WamWord stm_word);
Bool Pl_Add_Stream_Alias_2(WamWord sora_word, WamWord alias_word);
Bool Pl_Set_Stream_Alias_2(WamWord sora_word, WamWord alias_word);
void Pl_Check_Valid_Mirror_1(WamWord mirror_word);
void Pl_Add_Stream_Mirror_2(WamWord sora_word, WamWord mirror_word);
Bool Pl_Remove_Stream_Mirror_2(WamWord sora_word, WamWord mirror_word);
void Pl_Set_Stream_Type_2(WamWord sora_word, WamWord is_text_word);
void Pl_Set_Stream_Eof_Action_2(WamWord sora_word, WamWord action_word);
void Pl_Set_Stream_Buffering_2(WamWord sora_word, WamWord buff_mode_word);
void Pl_Close_1(WamWord sora_word);
void Pl_Close_Stm(int stm, Bool force);
void Pl_PB_Empty_Buffer_1(WamWord sora_word);
void Pl_Flush_Output_1(WamWord sora_word);
void Pl_Flush_Output_0(void);
Bool Pl_Current_Stream_1(WamWord stm_word);
Bool Pl_Current_Stream_Alt_0(void);
Bool Pl_Stream_Prop_File_Name_2(WamWord file_name_word, WamWord stm_word);
Bool Pl_Stream_Prop_Mode_2(WamWord mode_word, WamWord stm_word);
Bool Pl_Stream_Prop_Input_1(WamWord stm_word);
Bool Pl_Stream_Prop_Output_1(WamWord stm_word);
Bool Pl_Stream_Prop_Type_2(WamWord type_word, WamWord stm_word);
Bool Pl_Stream_Prop_File_No_2(WamWord file_no_word, WamWord stm_word);
Bool Pl_Stream_Prop_Reposition_2(WamWord reposition_word, WamWord stm_word);
Bool Pl_Stream_Prop_Eof_Action_2(WamWord eof_action_word, WamWord stm_word);
Bool Pl_Stream_Prop_Buffering_2(WamWord buffering_word, WamWord stm_word);
Bool Pl_Stream_Prop_End_Of_Stream_2(WamWord end_of_stream_word, WamWord stm_word);
Bool Pl_At_End_Of_Stream_1(WamWord sora_word);
Bool Pl_At_End_Of_Stream_0(void);
Bool Pl_Current_Alias_2(WamWord stm_word, WamWord alias_word);
Bool Pl_Current_Alias_Alt_0(void);
Bool Pl_Current_Mirror_2(WamWord stm_word, WamWord m_stm_word);
Bool Pl_Current_Mirror_Alt_0(void);
Bool Pl_Stream_Position_2(WamWord sora_word, WamWord position_word);
Bool Pl_Set_Stream_Position_2(WamWord sora_word, WamWord position_word);
Bool Pl_Seek_4(WamWord sora_word, WamWord whence_word, WamWord offset_word, WamWord new_loc_word);
Bool Pl_Character_Count_2(WamWord sora_word, WamWord count_word);
Bool Pl_Line_Count_2(WamWord sora_word, WamWord count_word);
Bool Pl_Line_Position_2(WamWord sora_word, WamWord count_word);
Bool Pl_Stream_Line_Column_3(WamWord sora_word, WamWord line_word, WamWord col_word);
Bool Pl_Set_Stream_Line_Column_3(WamWord sora_word, WamWord line_word, WamWord col_word);
void Pl_Open_Input_Term_Stream_2(WamWord sink_term_word, WamWord stm_word);
void Pl_Close_Input_Term_Stream_1(WamWord sora_word);
void Pl_Open_Output_Term_Stream_1(WamWord stm_word);
Bool Pl_Close_Output_Term_Stream_2(WamWord sora_word, WamWord sink_term_word);


Bool ref_Pl_Current_Input_1(WamWord stm_word)
{
  return Pl_Get_Integer(pl_stm_current_input, stm_word);
}

Bool ref_Pl_Current_Output_1(WamWord stm_word)
{
  return Pl_Get_Integer(pl_stm_current_output, stm_word);
}

void ref_Pl_Set_Input_1(WamWord sora_word)
{
  pl_stm_current_input = Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_INPUT);
  Pl_Set_Alias_To_Stream(pl_atom_current_input, pl_stm_current_input, TRUE);
}

void ref_Pl_Set_Output_1(WamWord sora_word)
{
  pl_stm_current_output = Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_OUTPUT);
  Pl_Set_Alias_To_Stream(pl_atom_current_output, pl_stm_current_output, TRUE);
}

void ref_Pl_Set_Top_Level_Streams_2(WamWord sora_in_word, WamWord sora_out_word)
{
  pl_stm_top_level_input = Pl_Get_Stream_Or_Alias(sora_in_word, STREAM_CHECK_INPUT);
  pl_stm_top_level_output = Pl_Get_Stream_Or_Alias(sora_out_word, STREAM_CHECK_OUTPUT);

  Pl_Set_Alias_To_Stream(pl_atom_top_level_input, pl_stm_top_level_input, TRUE);
  Pl_Set_Alias_To_Stream(pl_atom_top_level_output, pl_stm_top_level_output, TRUE);
}

void ref_Pl_Set_Debugger_Streams_2(WamWord sora_in_word, WamWord sora_out_word)
{
  pl_stm_debugger_input = Pl_Get_Stream_Or_Alias(sora_in_word, STREAM_CHECK_INPUT);
  pl_stm_debugger_output = Pl_Get_Stream_Or_Alias(sora_out_word, STREAM_CHECK_OUTPUT);

  Pl_Set_Alias_To_Stream(pl_atom_debugger_input, pl_stm_debugger_input, TRUE);
  Pl_Set_Alias_To_Stream(pl_atom_debugger_output, pl_stm_debugger_output, TRUE);
}

void ref_Pl_Open_3(WamWord source_sink_word, WamWord mode_word, WamWord stm_word)
{
  WamWord word, tag_mask;
  int atom;
  int mode = STREAM_MODE_READ;
  Bool text;
  StmProp prop;
  int atom_file_name;
  char *path;
  int stm;
  FILE *f;
  int mask = (int) SYS_VAR_OPTION_MASK;
  Bool reposition;

  DEREF(source_sink_word, word, tag_mask);
  if (tag_mask == TAG_REF_MASK)
    Pl_Err_Instantiation();
  if (tag_mask != TAG_ATM_MASK)
    Pl_Err_Domain(pl_domain_source_sink, source_sink_word);

  atom_file_name = UnTag_ATM(word);
  path = pl_atom_tbl[atom_file_name].name;
  if ((path = Pl_Absolute_Path_Name(path)) == NULL)
    Pl_Err_Existence(pl_existence_source_sink, source_sink_word);

  text = mask & 1;
  mask >>= 1;

  atom = Pl_Rd_Atom_Check(mode_word);
  if (atom == pl_atom_read)
    mode = STREAM_MODE_READ;
  else if (atom == pl_atom_write)
    mode = STREAM_MODE_WRITE;
  else if (atom == pl_atom_append)
    mode = STREAM_MODE_APPEND;
  else
    Pl_Err_Domain(pl_domain_io_mode, mode_word);

  stm = Pl_Add_Stream_For_Stdio_File(path, mode, text);
  if (stm < 0)
    {
      if (errno == ENOENT || errno == ENOTDIR)
	Pl_Err_Existence(pl_existence_source_sink, source_sink_word);
      else
	Pl_Err_Permission(pl_permission_operation_open,
			  pl_permission_type_source_sink, source_sink_word);
    }

  prop = pl_stm_tbl[stm]->prop;
  f = pl_stm_tbl[stm]->file;

  if ((mask & 2) != 0)
    {
      reposition = mask & 1;
      if (reposition && !prop.reposition)
	{
	  fclose(f);
	  word = Pl_Put_Structure(pl_atom_reposition, 1);
	  Pl_Unify_Atom(pl_atom_true);
	  Pl_Err_Permission(pl_permission_operation_open,
			    pl_permission_type_source_sink, word);
	}

      prop.reposition = reposition;
    }
  mask >>= 2;

  if ((mask & 4) != 0)
      prop.eof_action = mask & 3;
  mask >>= 3;

  if ((mask & 4) != 0)
    if (prop.buffering != (unsigned) (mask & 3))
      {
	prop.buffering = mask & 3;
	Pl_Stdio_Set_Buffering(f, prop.buffering);
      }
  mask >>= 3;

  pl_stm_tbl[stm]->atom_file_name = atom_file_name;
  pl_stm_tbl[stm]->prop = prop;

  Pl_Get_Integer(stm, stm_word);
}

Bool ref_Pl_Test_Alias_Not_Assigned_1(WamWord alias_word)
{
  return Pl_Find_Stream_By_Alias(Pl_Rd_Atom_Check(alias_word)) < 0;
}

Bool ref_Pl_From_Alias_To_Stream_2(WamWord alias_word, WamWord stm_word)
{
  int stm;

  stm = Pl_Find_Stream_By_Alias(Pl_Rd_Atom_Check(alias_word));

  return stm >= 0 && Pl_Get_Integer(stm, stm_word);
}

Bool ref_Pl_Add_Stream_Alias_2(WamWord sora_word, WamWord alias_word)
{
  int stm;

  stm = Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_EXIST);

  return Pl_Set_Alias_To_Stream(Pl_Rd_Atom_Check(alias_word), stm, FALSE) != NULL;
}

Bool ref_Pl_Set_Stream_Alias_2(WamWord sora_word, WamWord alias_word)
{
  int stm;

  stm = Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_EXIST);

  return Pl_Set_Alias_To_Stream(Pl_Rd_Atom_Check(alias_word), stm, TRUE) != NULL;
}

void ref_Pl_Check_Valid_Mirror_1(WamWord mirror_word)
{
  Pl_Get_Stream_Or_Alias(mirror_word, STREAM_CHECK_OUTPUT);
}

void ref_Pl_Add_Stream_Mirror_2(WamWord sora_word, WamWord mirror_word)
{
  int stm;
  int m_stm;

  stm = Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_EXIST);
  m_stm = Pl_Get_Stream_Or_Alias(mirror_word, STREAM_CHECK_OUTPUT);

  Pl_Add_Mirror_To_Stream(stm, m_stm);
}

Bool ref_Pl_Remove_Stream_Mirror_2(WamWord sora_word, WamWord mirror_word)
{
  int stm;
  int m_stm;

  stm = Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_EXIST);
  m_stm = Pl_Get_Stream_Or_Alias(mirror_word, STREAM_CHECK_EXIST);

  return Pl_Del_Mirror_From_Stream(stm, m_stm);
}

void ref_Pl_Set_Stream_Type_2(WamWord sora_word, WamWord is_text_word)
{
  int stm;
  StmInf *pstm;
  int text;

  stm = Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_EXIST);
  pstm = pl_stm_tbl[stm];

  text = Pl_Rd_C_Int_Check(is_text_word);
  if ((unsigned) text == pstm->prop.text)
    return;

  if (pstm->char_count)
    Pl_Err_Permission(pl_permission_operation_modify,
		      pl_permission_type_stream, sora_word);

  pstm->prop.text = text;

}

void ref_Pl_Set_Stream_Eof_Action_2(WamWord sora_word, WamWord action_word)
{
  int stm;
  StmInf *pstm;

  stm = Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_EXIST);
  pstm = pl_stm_tbl[stm];

  if (pstm->prop.output)
    Pl_Err_Permission(pl_permission_operation_modify,
		      pl_permission_type_stream, sora_word);

  pstm->prop.eof_action = Pl_Rd_C_Int_Check(action_word);
}

void ref_Pl_Set_Stream_Buffering_2(WamWord sora_word, WamWord buff_mode_word)
{
  int stm;
  StmInf *pstm;

  stm = Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_EXIST);
  pstm = pl_stm_tbl[stm];

  pstm->prop.buffering = Pl_Rd_C_Int_Check(buff_mode_word);
  Pl_Set_Stream_Buffering(stm);
}

void ref_Pl_Close_1(WamWord sora_word)
{
  int stm = Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_EXIST);
  Pl_Close_Stm(stm, SYS_VAR_OPTION_MASK & 1);
}

void ref_Pl_Close_Stm(int stm, Bool force)
{
  StmInf *pstm = pl_stm_tbl[stm];
  int fd;
  Bool keep_stream;

  if (pstm->prop.special_close)
    Pl_Err_System(Pl_Create_Atom(ERR_NEEDS_SPECIAL_CLOSE));

  Pl_Stream_Flush(pstm);

  if (stm == pl_stm_stdin || stm == pl_stm_stdout || stm == pl_stm_stderr)
    keep_stream = TRUE;
  else
    {
      keep_stream = FALSE;
      fd = pstm->fileno;

      if (Pl_Stream_Close(pstm) != 0)
	{
	  if (force == 0)
	    Pl_Err_System(Pl_Create_Atom(ERR_CANNOT_CLOSE_STREAM));

	  if (fd > 2)
	    close(fd);
	}
    }
  Pl_Delete_Stream(stm, keep_stream);
}

void ref_Pl_PB_Empty_Buffer_1(WamWord sora_word)
{
  int stm;

  stm = (sora_word == NOT_A_WAM_WORD)
    ? pl_stm_current_input : Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_INPUT);

  Pl_PB_Empty_Buffer(pl_stm_tbl[stm]);
}

void ref_Pl_Flush_Output_1(WamWord sora_word)
{
  int stm;

  stm = (sora_word == NOT_A_WAM_WORD)
    ? pl_stm_current_output : Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_OUTPUT);

  pl_last_output_sora = sora_word;

  Pl_Stream_Flush(pl_stm_tbl[stm]);
}

void ref_Pl_Flush_Output_0(void)
{
  Pl_Flush_Output_1(NOT_A_WAM_WORD);
}

Bool ref_Pl_Current_Stream_1(WamWord stm_word)
{
  WamWord word, tag_mask;
  PlLong stm = 0;

  DEREF(stm_word, word, tag_mask);
  if (tag_mask == TAG_INT_MASK)
    {
      stm = UnTag_INT(word);
      return (stm >= 0 && stm <= pl_stm_last_used && pl_stm_tbl[stm] != NULL);
    }

  for (; stm <= pl_stm_last_used; stm++)
    if (pl_stm_tbl[stm])
      break;

  if (stm >= pl_stm_last_used)
    {
      if (stm > pl_stm_last_used)
	return FALSE;
    }
  else
    {
      A(0) = stm_word;
      A(1) = stm + 1;
      Pl_Create_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_STREAM_ALT, 0), 2);
    }

  return Pl_Get_Integer(stm, stm_word);
}

Bool ref_Pl_Current_Stream_Alt_0(void)
{
  WamWord stm_word;
  int stm;

  Pl_Update_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_STREAM_ALT, 0), 0);

  stm_word = AB(B, 0);
  stm = (int) AB(B, 1);

  for (; stm <= pl_stm_last_used; stm++)
    if (pl_stm_tbl[stm])
      break;

  if (stm >= pl_stm_last_used)
    {
      Delete_Last_Choice_Point();
      if (stm > pl_stm_last_used)
	return FALSE;
    }
  else
    {

      AB(B, 1) = stm + 1;
    }

  return Pl_Get_Integer(stm, stm_word);
}

Bool ref_Pl_Stream_Prop_File_Name_2(WamWord file_name_word, WamWord stm_word)
{
  int stm;

  stm = Pl_Rd_C_Int_Check(stm_word);

  return Pl_Un_Atom_Check(pl_stm_tbl[stm]->atom_file_name, file_name_word);
}

Bool ref_Pl_Stream_Prop_Mode_2(WamWord mode_word, WamWord stm_word)
{
  int stm;
  int atom = 0;

  stm = Pl_Rd_C_Int_Check(stm_word);

  switch (pl_stm_tbl[stm]->prop.mode)
    {
    case STREAM_MODE_READ:
      atom = pl_atom_read;
      break;

    case STREAM_MODE_WRITE:
      atom = pl_atom_write;
      break;

    case STREAM_MODE_APPEND:
      atom = pl_atom_append;
      break;
    }

  return Pl_Un_Atom_Check(atom, mode_word);
}

Bool ref_Pl_Stream_Prop_Input_1(WamWord stm_word)
{
  int stm;

  stm = Pl_Rd_C_Int_Check(stm_word);

  return pl_stm_tbl[stm]->prop.input;
}

Bool ref_Pl_Stream_Prop_Output_1(WamWord stm_word)
{
  int stm;

  stm = Pl_Rd_C_Int_Check(stm_word);

  return pl_stm_tbl[stm]->prop.output;
}

Bool ref_Pl_Stream_Prop_Type_2(WamWord type_word, WamWord stm_word)
{
  int stm;
  int atom;

  stm = Pl_Rd_C_Int_Check(stm_word);

  atom = (pl_stm_tbl[stm]->prop.text) ? pl_atom_text : pl_atom_binary;

  return Pl_Un_Atom_Check(atom, type_word);
}

Bool ref_Pl_Stream_Prop_File_No_2(WamWord file_no_word, WamWord stm_word)
{
  int stm;
  int fd;

  stm = Pl_Rd_C_Int_Check(stm_word);
  fd = pl_stm_tbl[stm]->fileno;

  return fd >= 0 && Pl_Un_Integer_Check(fd, file_no_word);
}

Bool ref_Pl_Stream_Prop_Reposition_2(WamWord reposition_word, WamWord stm_word)
{
  int stm;
  int atom;

  stm = Pl_Rd_C_Int_Check(stm_word);

  atom = (pl_stm_tbl[stm]->prop.reposition) ? pl_atom_true : pl_atom_false;

  return Pl_Un_Atom_Check(atom, reposition_word);
}

Bool ref_Pl_Stream_Prop_Eof_Action_2(WamWord eof_action_word, WamWord stm_word)
{
  int stm;
  int atom = 0;

  stm = Pl_Rd_C_Int_Check(stm_word);

  switch (pl_stm_tbl[stm]->prop.eof_action)
    {
    case STREAM_EOF_ACTION_ERROR:
      atom = pl_atom_error;
      break;

    case STREAM_EOF_ACTION_EOF_CODE:
      atom = pl_atom_eof_code;
      break;

    case STREAM_EOF_ACTION_RESET:
      atom = pl_atom_reset;
      break;
    }

  return Pl_Un_Atom_Check(atom, eof_action_word);
}

Bool ref_Pl_Stream_Prop_Buffering_2(WamWord buffering_word, WamWord stm_word)
{
  int stm;
  int atom = 0;

  stm = Pl_Rd_C_Int_Check(stm_word);

  if (pl_stm_tbl[stm]->file == stdout && pl_le_hook_get_line_buffering)
    {
      if ((*pl_le_hook_get_line_buffering)())
	pl_stm_tbl[stm]->prop.buffering = STREAM_BUFFERING_LINE;
      else
	pl_stm_tbl[stm]->prop.buffering = STREAM_BUFFERING_NONE;
    }

  switch (pl_stm_tbl[stm]->prop.buffering)
    {
    case STREAM_BUFFERING_NONE:
      atom = pl_atom_none;
      break;

    case STREAM_BUFFERING_LINE:
      atom = pl_atom_line;
      break;

    case STREAM_BUFFERING_BLOCK:
      atom = pl_atom_block;
      break;
    }

  return Pl_Un_Atom_Check(atom, buffering_word);
}

Bool ref_Pl_Stream_Prop_End_Of_Stream_2(WamWord end_of_stream_word, WamWord stm_word)
{
  int stm;
  int atom = 0;

  stm = Pl_Rd_C_Int_Check(stm_word);

  switch (Pl_Stream_End_Of_Stream(pl_stm_tbl[stm]))
    {
    case STREAM_EOF_NOT:
      atom = pl_atom_not;
      break;

    case STREAM_EOF_AT:
      atom = pl_atom_at;
      break;

    case STREAM_EOF_PAST:
      atom = pl_atom_past;
      break;
    }

  return Pl_Un_Atom_Check(atom, end_of_stream_word);
}

Bool ref_Pl_At_End_Of_Stream_1(WamWord sora_word)
{
  int stm;

  stm = (sora_word == NOT_A_WAM_WORD)
    ? pl_stm_current_input : Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_INPUT);

  return Pl_Stream_End_Of_Stream(pl_stm_tbl[stm]) != STREAM_EOF_NOT;
}

Bool ref_Pl_At_End_Of_Stream_0(void)
{
  return Pl_At_End_Of_Stream_1(NOT_A_WAM_WORD);
}

Bool ref_Pl_Current_Alias_2(WamWord stm_word, WamWord alias_word)
{
  WamWord word, tag_mask;
  int stm;
  HashScan scan;
  AliasInf *alias;
  AliasInf *save_alias;

  stm = Pl_Rd_C_Int_Check(stm_word);

  DEREF(alias_word, word, tag_mask);
  if (tag_mask != TAG_REF_MASK)
    return Pl_Find_Stream_By_Alias(Pl_Rd_Atom_Check(word)) == stm;

  for (alias = (AliasInf *) Pl_HTBL_First(pl_alias_htbl, &scan); alias;
       alias = (AliasInf *) Pl_HTBL_Next(&scan))
    if (alias->stm == stm)
      break;

  if (alias == NULL)
    return FALSE;

  save_alias = alias;

  for (;;)
    {
      alias = (AliasInf *) Pl_HTBL_Next(&scan);
      if (alias == NULL || alias->stm == stm)
	break;
    }

  if (alias)
    {
      A(0) = stm;
      A(1) = alias_word;
      A(2) = (WamWord) scan.end_t;
      A(3) = (WamWord) scan.cur_t;
      A(4) = (WamWord) scan.cur_p;
      A(5) = (WamWord) alias;
      Pl_Create_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_ALIAS_ALT, 0), 6);
    }

  Pl_Get_Atom((int) save_alias->atom, alias_word);
  return TRUE;
}

Bool ref_Pl_Current_Alias_Alt_0(void)
{
  int stm;
  WamWord alias_word;
  HashScan scan;
  AliasInf *alias;
  AliasInf *save_alias;

  Pl_Update_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_ALIAS_ALT, 0), 0);

  stm = (int) AB(B, 0);
  alias_word = AB(B, 1);
  scan.end_t = (HashNode *) AB(B, 2);
  scan.cur_t = (HashNode *) AB(B, 3);
  scan.cur_p = (HashNode)   AB(B, 4);
  alias      = (AliasInf *) AB(B, 5);

  save_alias = alias;

  for (;;)
    {
      alias = (AliasInf *) Pl_HTBL_Next(&scan);
      if (alias == NULL || alias->stm == stm)
	break;
    }

  if (alias)
    {

      AB(B, 3) = (WamWord) scan.cur_t;
      AB(B, 4) = (WamWord) scan.cur_p;
      AB(B, 5) = (WamWord) alias;
    }
  else
    Delete_Last_Choice_Point();

  Pl_Get_Atom((int) save_alias->atom, alias_word);
  return TRUE;
}

Bool ref_Pl_Current_Mirror_2(WamWord stm_word, WamWord m_stm_word)
{
  int stm = Pl_Rd_C_Int_Check(stm_word);
  StmInf *pstm = pl_stm_tbl[stm];
  StmLst *m = pstm->mirror;

  if (m == NULL)
    return FALSE;

  if (m->next != NULL)
    {
      A(0) = stm;
      A(1) = m_stm_word;
      A(2) = (WamWord) m->next;
      Pl_Create_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_MIRROR_ALT, 0), 3);
    }

  return Pl_Get_Integer(m->stm, m_stm_word);
}

Bool ref_Pl_Current_Mirror_Alt_0(void)
{

  WamWord m_stm_word;
  StmLst *m;

  Pl_Update_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_MIRROR_ALT, 0), 0);

  m_stm_word = AB(B, 1);
  m = (StmLst *) AB(B, 2);

  if (m->next)
    {

      AB(B, 2) = (WamWord) m->next;
    }
  else
    Delete_Last_Choice_Point();

  return Pl_Get_Integer(m->stm, m_stm_word);
}

Bool ref_Pl_Stream_Position_2(WamWord sora_word, WamWord position_word)
{
  WamWord word, tag_mask;
  WamWord p_word[4];
  PlLong p[4];
  int i;
  int stm;
  StmInf *pstm;

  stm = Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_EXIST);
  pstm = pl_stm_tbl[stm];

  Pl_Stream_Get_Position(pstm, p, p + 1, p + 2, p + 3);

  if (!Pl_Get_Structure(pl_atom_stream_position, 4, position_word))
  dom_error:
    Pl_Err_Domain(pl_domain_stream_position, position_word);

  for (i = 0; i < 4; i++)
    {
      p_word[i] = Pl_Unify_Variable();

      DEREF(p_word[i], word, tag_mask);
      if (tag_mask != TAG_REF_MASK && tag_mask != TAG_INT_MASK)
	goto dom_error;
    }

  for (i = 0; i < 4; i++)
    if (!Pl_Get_Integer(p[i], p_word[i]))
      return FALSE;

  return TRUE;
}

Bool ref_Pl_Set_Stream_Position_2(WamWord sora_word, WamWord position_word)
{
  WamWord word, tag_mask;
  WamWord p_word[4];
  PlLong p[4];
  int i;
  int stm;
  StmInf *pstm;

  stm = Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_EXIST);
  pstm = pl_stm_tbl[stm];

  if (!pstm->prop.reposition)
    Pl_Err_Permission(pl_permission_operation_reposition,
		      pl_permission_type_stream, sora_word);

  DEREF(position_word, word, tag_mask);
  if (tag_mask == TAG_REF_MASK)
    Pl_Err_Instantiation();

  if (!Pl_Get_Structure(pl_atom_stream_position, 4, position_word))
  dom_error:
    Pl_Err_Domain(pl_domain_stream_position, position_word);

  for (i = 0; i < 4; i++)
    {
      p_word[i] = Pl_Unify_Variable();

      DEREF(p_word[i], word, tag_mask);
      if (tag_mask == TAG_REF_MASK)
	Pl_Err_Instantiation();

      if (tag_mask != TAG_INT_MASK)
	goto dom_error;

      p[i] = UnTag_INT(word);
    }

  return Pl_Stream_Set_Position(pstm, SEEK_SET, p[0], p[1], p[2], p[3]) == 0;
}

Bool ref_Pl_Seek_4(WamWord sora_word, WamWord whence_word, WamWord offset_word, WamWord new_loc_word)
{
  int stm;
  StmInf *pstm;
  int whence = SEEK_SET;
  PlLong offset;
  int atom;
  PlLong p[4];

  stm = Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_EXIST);
  pstm = pl_stm_tbl[stm];

  if (!pstm->prop.reposition)
    Pl_Err_Permission(pl_permission_operation_reposition,
		      pl_permission_type_stream, sora_word);

  if (pstm->prop.text)
    Pl_Err_Permission(pl_permission_operation_reposition,
		      pl_permission_type_text_stream, sora_word);

  atom = Pl_Rd_Atom_Check(whence_word);

  if (atom == pl_atom_bof)
    whence = SEEK_SET;
  else if (atom == pl_atom_current)
    whence = SEEK_CUR;
  else if (atom == pl_atom_eof)
    whence = SEEK_END;
  else
    Pl_Err_Domain(pl_domain_stream_seek_method, whence_word);

  offset = Pl_Rd_Integer_Check(offset_word);
  Pl_Check_For_Un_Integer(new_loc_word);

  if (Pl_Stream_Set_Position(pstm, whence, offset, offset, 0, 0) != 0)
    return FALSE;

  Pl_Stream_Get_Position(pstm, &offset, p + 1, p + 2, p + 3);

  return Pl_Get_Integer(offset, new_loc_word);
}

Bool ref_Pl_Character_Count_2(WamWord sora_word, WamWord count_word)
{
  int stm;
  StmInf *pstm;
  PlLong offset, char_count, line_count, line_pos;

  stm = Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_EXIST);
  pstm = pl_stm_tbl[stm];

  Pl_Stream_Get_Position(pstm, &offset, &char_count, &line_count, &line_pos);

  return Pl_Un_Integer_Check(char_count, count_word);
}

Bool ref_Pl_Line_Count_2(WamWord sora_word, WamWord count_word)
{
  int stm;
  StmInf *pstm;
  PlLong offset, char_count, line_count, line_pos;

  stm = Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_EXIST);
  pstm = pl_stm_tbl[stm];

  if (!pstm->prop.text)
    Pl_Err_Permission(pl_permission_operation_access,
		      pl_permission_type_binary_stream, sora_word);

  Pl_Stream_Get_Position(pstm, &offset, &char_count, &line_count, &line_pos);

  return Pl_Un_Integer_Check(line_count, count_word);
}

Bool ref_Pl_Line_Position_2(WamWord sora_word, WamWord count_word)
{
  int stm;
  StmInf *pstm;
  PlLong offset, char_count, line_count, line_pos;

  stm = Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_EXIST);
  pstm = pl_stm_tbl[stm];

  if (!pstm->prop.text)
    Pl_Err_Permission(pl_permission_operation_access,
		      pl_permission_type_binary_stream, sora_word);

  Pl_Stream_Get_Position(pstm, &offset, &char_count, &line_count, &line_pos);

  return Pl_Un_Integer_Check(line_pos, count_word);
}

Bool ref_Pl_Stream_Line_Column_3(WamWord sora_word, WamWord line_word, WamWord col_word)
{
  int stm;
  StmInf *pstm;
  PlLong offset, char_count, line_count, line_pos;

  stm = Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_EXIST);
  pstm = pl_stm_tbl[stm];

  if (!pstm->prop.text)
    Pl_Err_Permission(pl_permission_operation_access,
		      pl_permission_type_binary_stream, sora_word);

  Pl_Stream_Get_Position(pstm, &offset, &char_count, &line_count, &line_pos);

  return Pl_Un_Integer_Check(line_count + 1, line_word) &&
    Pl_Un_Integer_Check(line_pos + 1, col_word);
}

Bool ref_Pl_Set_Stream_Line_Column_3(WamWord sora_word, WamWord line_word, WamWord col_word)
{
  int stm;
  StmInf *pstm;
  PlLong line_count, line_pos;

  stm = Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_EXIST);
  pstm = pl_stm_tbl[stm];

  if (!pstm->prop.reposition)
    Pl_Err_Permission(pl_permission_operation_reposition,
		      pl_permission_type_stream, sora_word);

  if (!pstm->prop.text)
    Pl_Err_Permission(pl_permission_operation_reposition,
		      pl_permission_type_binary_stream, sora_word);

  line_count = Pl_Rd_Integer_Check(line_word) - 1;
  line_pos = Pl_Rd_Integer_Check(col_word) - 1;

  return line_count >= 0 && line_pos >= 0 &&
    Pl_Stream_Set_Position_LC(pstm, line_count, line_pos) == 0;
}

void ref_Pl_Open_Input_Term_Stream_2(WamWord sink_term_word, WamWord stm_word)
{
  char *str;
  int stm;
  int n;

  if (SYS_VAR_OPTION_MASK == TERM_STREAM_ATOM)
    str = pl_atom_tbl[Pl_Rd_Atom_Check(sink_term_word)].name;
  else
    {
      n = Pl_List_Length(sink_term_word);
      if (n >= 0)
	str = Malloc(n + 1);
      else
	str = pl_glob_buff;

      if (SYS_VAR_OPTION_MASK == TERM_STREAM_CHARS)
	Pl_Rd_Chars_Str_Check(sink_term_word, str);
      else
	Pl_Rd_Codes_Str_Check(sink_term_word, str);
    }

  stm = Pl_Add_Str_Stream(str, (int) SYS_VAR_OPTION_MASK);

  Pl_Get_Integer(stm, stm_word);
}

void ref_Pl_Close_Input_Term_Stream_1(WamWord sora_word)
{
  int stm;
  StmInf *pstm;
  StrSInf *str_stream;
  int type;

  stm = Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_EXIST);
  pstm = pl_stm_tbl[stm];

  type = pstm->prop.other;

  if (type < 1 || type > 3)
    Pl_Err_Domain(pl_domain_term_stream_or_alias, sora_word);

  if (pstm->prop.output)
    Pl_Err_Permission(pl_permission_operation_close,
		      pl_permission_type_stream, sora_word);

  if (type != TERM_STREAM_ATOM)
    {
      str_stream = pstm->file;
      Free(str_stream->buff);
    }

  Pl_Delete_Str_Stream(stm);
}

void ref_Pl_Open_Output_Term_Stream_1(WamWord stm_word)
{
  int stm;

  stm = Pl_Add_Str_Stream(NULL, (int) SYS_VAR_OPTION_MASK);

  Pl_Get_Integer(stm, stm_word);
}

Bool ref_Pl_Close_Output_Term_Stream_2(WamWord sora_word, WamWord sink_term_word)
{
  int stm;
  StmInf *pstm;
  int type;
  char *str;

  stm = Pl_Get_Stream_Or_Alias(sora_word, STREAM_CHECK_EXIST);
  pstm = pl_stm_tbl[stm];

  type = pstm->prop.other;

  if (type < 1 || type > 3)
    Pl_Err_Domain(pl_domain_term_stream_or_alias, sora_word);

  if (pstm->prop.input)
    Pl_Err_Permission(pl_permission_operation_close,
		      pl_permission_type_stream, sora_word);

  str = Pl_Terminate_Output_Str_Stream(stm);

  switch (SYS_VAR_OPTION_MASK)
    {
    case TERM_STREAM_ATOM:
      if (!Pl_Un_String_Check(str, sink_term_word))
	return FALSE;
      break;

    case TERM_STREAM_CHARS:
      if (!Pl_Un_Chars_Check(str, sink_term_word))
	return FALSE;
      break;

    case TERM_STREAM_CODES:
      if (!Pl_Un_Codes_Check(str, sink_term_word))
	return FALSE;
      break;

    }

  Pl_Delete_Str_Stream(stm);
  return TRUE;
}
