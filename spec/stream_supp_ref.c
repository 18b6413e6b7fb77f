/* What the functions of stream_supp.c are to do. */
#include "gp_config.h"
#include <stdlib.h>
#include <string.h>
#include <stdarg.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <fcntl.h>
#include "engine_pl.h"
#include "bips_pl.h"
#include "linedit.h"
#include <unistd.h>
#include "macros_ref.h"
#include "wam_ref.h"

#define STREAM_SUPP_FILE

#define START_ALIAS_TBL_SIZE 128

#define STR_STREAM_WRITE_BLOCK 1024

#define TTY_BUFFER_SIZE 10240

#define BIG_BUFFER 65535

#define ERR_TELL_OR_SEEK_UNDEFINED "fct tell or seek undefined\n"

void Init_Stream_Supp(void);
void (*pl_init_stream_supp)(void) = Init_Stream_Supp;

extern int atom_constant_term_stream;

extern WamWord stream_1;

extern WamWord word_current_input_stream;
extern WamWord word_current_output_stream;

extern StrSInf static_str_stream_rd;
extern StrSInf static_str_stream_wr;

extern char tty_first_buff[TTY_BUFFER_SIZE];
extern char *tty_buff;
extern char *tty_ptr;

int Find_Free_Stream(void);

void Del_Aliases_Of_Stream(int stm);

void Update_Mirrors_To_Del_Stream(int stm);

Bool Remove_In_Stream_List(int stm, StmLst **p_start);

int TTY_Getc(void *unused);

int TTY_Get_Key(Bool echo, Bool catch_ctrl_c);

void TTY_Clearerr(void *unused);

int Basic_Call_Fct_Getc(StmInf *pstm);

void Basic_Call_Fct_Putc(int c, StmInf *pstm);

int Str_Stream_Getc(void *a_str_stream);

int Str_Stream_Putc(int c, void *a_str_stream);
void Init_Stream_Supp(void);
StmProp Pl_Prop_And_Stdio_Mode(int mode, Bool text, char *open_str);
int Pl_Add_Stream_For_Stdio_Desc(FILE *f, int atom_path, int mode, Bool text, Bool force_eof_reset);
int Pl_Add_Stream_For_Stdio_File(char *path, int mode, Bool text);
void Init_Stream_Struct(int atom_file_name, void *file, int fileno, StmProp prop, StmFct fct_getc, StmFct fct_putc, StmFct fct_flush, StmFct fct_close, StmFct fct_tell, StmFct fct_seek, StmFct fct_clearerr, int stm);
int Pl_Add_Stream(int atom_file_name, void *file, int fileno, StmProp prop, StmFct fct_getc, StmFct fct_putc, StmFct fct_flush, StmFct fct_close, StmFct fct_tell, StmFct fct_seek, StmFct fct_clearerr);
void Pl_Delete_Stream(int stm, Bool keep_stream);
int Find_Free_Stream(void);
int Pl_Find_Stream_By_Alias(int atom_alias);
AliasInf * Pl_Set_Alias_To_Stream(int atom_alias, int stm, Bool reassign);
void Del_Aliases_Of_Stream(int stm);
void Pl_Add_Mirror_To_Stream(int stm, int m_stm);
Bool Pl_Del_Mirror_From_Stream(int stm, int m_stm);
void Update_Mirrors_To_Del_Stream(int stm);
Bool Remove_In_Stream_List(int stm, StmLst **p_start);
int Pl_Find_Stream_From_PStm(StmInf *pstm);
void Pl_Flush_All_Streams(void);
void Pl_Set_Stream_Buffering(int stm);
int Pl_Get_Stream_Or_Alias(WamWord sora_word, int test);
Bool Pl_Get_Stream(int stm, WamWord start_word);
void Pl_Check_Stream_Type(int stm, Bool check_text, Bool for_input);
WamWord Pl_Make_Stream_Tagged_Word(int stm);
Bool Pl_Stdio_Is_Repositionable(FILE *f);
void Pl_Stdio_Set_Buffering(FILE *f, int buffering);
FILE * Pl_Stdio_Desc_Of_Stream(int stm);
int Pl_Io_Fileno_Of_Stream(int stm);
int TTY_Getc(void *unused);
int TTY_Get_Key(Bool echo, Bool catch_ctrl_c);
void TTY_Clearerr(void *unused);
int Basic_Call_Fct_Getc(StmInf *pstm);
void Basic_Call_Fct_Putc(int c, StmInf *pstm);
void Pl_PB_Empty_Buffer(StmInf *pstm);
int Pl_Stream_Get_Key(StmInf *pstm, int echo, int catch_ctrl_c);
int Pl_Stream_Getc(StmInf *pstm);
void Pl_Stream_Ungetc(int c, StmInf *pstm);
int Pl_Stream_Peekc(StmInf *pstm);
char * Pl_Stream_Gets(char *str, int size, StmInf *pstm);
char * Pl_Stream_Gets_Prompt(char *prompt, StmInf *pstm_o, char *str, int size, StmInf *pstm_i);
void Pl_Stream_Putc(int c, StmInf *pstm);
int Pl_Stream_Puts(char *str, StmInf *pstm);
int Pl_Stream_Printf(StmInf *pstm, char *format, ...);
void Pl_Stream_Flush(StmInf *pstm);
int Pl_Stream_Close(StmInf *pstm);
int Pl_Stream_End_Of_Stream(StmInf *pstm);
void Pl_Stream_Get_Position(StmInf *pstm, PlLong *offset, PlLong *char_count, PlLong *line_count, PlLong *line_pos);
int Pl_Stream_Set_Position(StmInf *pstm, int whence, PlLong offset, PlLong char_count, PlLong line_count, PlLong line_pos);
int Pl_Stream_Set_Position_LC(StmInf *pstm, PlLong line_count, PlLong line_pos);
int Pl_Add_Str_Stream(char *buff, int prop_other);
void Pl_Delete_Str_Stream(int stm);
char * Pl_Terminate_Output_Str_Stream(int stm);
void Pl_Rewind_Str_Stream(int stm);
int Str_Stream_Getc(void *a_str_stream);
int Str_Stream_Putc(int c, void *a_str_stream);
StrSInf ref_static_str_stream_rd = { NULL, NULL, 0 };
StrSInf ref_static_str_stream_wr = { NULL, NULL, 0 };

void ref_Init_Stream_Supp(void)
{

  StmInf *pstm;

  pl_stm_tbl_size = 32;
  pl_stm_tbl = (StmInf **) Calloc(pl_stm_tbl_size, sizeof(StmInf *));
  pl_stm_last_used = -1;

  pl_alias_htbl = Pl_HTBL_Alloc_Table(START_ALIAS_TBL_SIZE, sizeof(AliasInf));

  pl_atom_stream = Pl_Create_Atom("$stream");
  stream_1 = Functor_Arity(pl_atom_stream, 1);

  atom_constant_term_stream = Pl_Create_Atom("constant term stream");

  word_current_input_stream = Tag_ATM(Pl_Create_Atom("current_input_stream"));
  word_current_output_stream = Tag_ATM(Pl_Create_Atom("current_output_stream"));

  pl_atom_user_input = Pl_Create_Atom("user_input");
  pl_atom_user_output = Pl_Create_Atom("user_output");
  pl_atom_user_error = Pl_Create_Atom("user_error");

  pl_atom_current_input = Pl_Create_Atom("current_input");
  pl_atom_current_output = Pl_Create_Atom("current_output");

  pl_atom_top_level_input = Pl_Create_Atom("top_level_input");
  pl_atom_top_level_output = Pl_Create_Atom("top_level_output");

  pl_atom_debugger_input = Pl_Create_Atom("debugger_input");
  pl_atom_debugger_output = Pl_Create_Atom("debugger_output");

  pl_atom_read = Pl_Create_Atom("read");
  pl_atom_write = Pl_Create_Atom("write");
  pl_atom_append = Pl_Create_Atom("append");

  pl_atom_reposition = Pl_Create_Atom("reposition");

  pl_atom_stream_position = Pl_Create_Atom("$stream_position");

  pl_atom_text = Pl_Create_Atom("text");
  pl_atom_binary = Pl_Create_Atom("binary");

  pl_atom_error = Pl_Create_Atom("error");
  pl_atom_eof_code = Pl_Create_Atom("eof_code");
  pl_atom_reset = Pl_Create_Atom("reset");

  pl_atom_none = Pl_Create_Atom("none");
  pl_atom_line = Pl_Create_Atom("line");
  pl_atom_block = Pl_Create_Atom("block");

  pl_atom_not = Pl_Create_Atom("not");
  pl_atom_at = Pl_Create_Atom("at");
  pl_atom_past = Pl_Create_Atom("past");

  pl_atom_bof = Pl_Create_Atom("bof");
  pl_atom_current = Pl_Create_Atom("current");
  pl_atom_eof = Pl_Create_Atom("eof");

  pl_atom_null = Pl_Create_Atom("null");

  pl_le_prompt = "";
  pl_use_le_prompt = TRUE;

  pl_stm_stdin = Pl_Add_Stream_For_Stdio_Desc(stdin, pl_atom_user_input, STREAM_MODE_READ, TRUE, TRUE);

  if (pl_le_mode == LE_MODE_HOOK || (pl_le_mode == LE_MODE_TTY && isatty(0)))
    {
      pstm = pl_stm_tbl[pl_stm_stdin];
      pstm->fct_getc = (StmFct) TTY_Getc;
      pstm->fct_putc = STREAM_FCT_UNDEFINED;
      pstm->fct_flush = STREAM_FCT_UNDEFINED;
      pstm->fct_close = STREAM_FCT_UNDEFINED;
      pstm->fct_tell = STREAM_FCT_UNDEFINED;
      pstm->fct_seek = STREAM_FCT_UNDEFINED;
      pstm->fct_clearerr = (StmFct) TTY_Clearerr;
      pl_stream_use_linedit = TRUE;
    }

  pl_stm_stdout = Pl_Add_Stream_For_Stdio_Desc(stdout, pl_atom_user_output, STREAM_MODE_WRITE, TRUE, TRUE);

  pl_stm_stderr = Pl_Add_Stream_For_Stdio_Desc(stderr, pl_atom_user_error, STREAM_MODE_WRITE, TRUE, TRUE);

  pl_alias_user_input = Pl_Set_Alias_To_Stream(pl_atom_user_input, pl_stm_stdin, TRUE);
  pl_alias_user_output = Pl_Set_Alias_To_Stream(pl_atom_user_output, pl_stm_stdout, TRUE);
  pl_alias_user_error = Pl_Set_Alias_To_Stream(pl_atom_user_error, pl_stm_stderr, TRUE);

  pl_alias_current_input = Pl_Set_Alias_To_Stream(pl_atom_current_input, pl_stm_stdin, TRUE);
  pl_alias_current_output = Pl_Set_Alias_To_Stream(pl_atom_current_output, pl_stm_stdout, TRUE);

  pl_alias_top_level_input = Pl_Set_Alias_To_Stream(pl_atom_top_level_input, pl_stm_stdin, TRUE);
  pl_alias_top_level_output = Pl_Set_Alias_To_Stream(pl_atom_top_level_output, pl_stm_stdout, TRUE);

  pl_alias_debugger_input = Pl_Set_Alias_To_Stream(pl_atom_debugger_input, pl_stm_stdin, TRUE);
  pl_alias_debugger_output = Pl_Set_Alias_To_Stream(pl_atom_debugger_output, pl_stm_stdout, TRUE);
}

StmProp ref_Pl_Prop_And_Stdio_Mode(int mode, Bool text, char *open_str)
{
  StmProp prop;

  prop.mode = mode;

  switch(mode)
    {
    case STREAM_MODE_READ:
      prop.input = TRUE;
      prop.output = FALSE;
      *open_str++ = 'r';
      break;

    case STREAM_MODE_WRITE:
      prop.input = FALSE;
      prop.output = TRUE;
      *open_str++ = 'w';
      break;

    case STREAM_MODE_APPEND:
      prop.input = FALSE;
      prop.output = TRUE;
      *open_str++ = 'a';
    }

  prop.text = text;
  prop.reposition = TRUE;
  prop.eof_action = STREAM_EOF_ACTION_EOF_CODE;
  prop.buffering = STREAM_BUFFERING_BLOCK;
  prop.special_close = FALSE;
  prop.other = 0;

  *open_str++ = (text) ? 't' : 'b';
  *open_str = '\0';

  return prop;
}

int ref_Pl_Add_Stream_For_Stdio_Desc(FILE *f, int atom_path, int mode, Bool text, Bool force_eof_reset)
{
  char open_str[10];
  StmProp prop = Pl_Prop_And_Stdio_Mode(mode, text, open_str);

  prop.reposition = Pl_Stdio_Is_Repositionable(f);
  prop.buffering = (prop.reposition) ? STREAM_BUFFERING_BLOCK :
    STREAM_BUFFERING_LINE;

  Pl_Stdio_Set_Buffering(f, prop.buffering);
  if (force_eof_reset || isatty(fileno(f)))
    prop.eof_action = STREAM_EOF_ACTION_RESET;

  return Pl_Add_Stream(atom_path, f, fileno(f), prop, NULL, NULL, NULL, NULL, NULL, NULL, NULL);
}

int ref_Pl_Add_Stream_For_Stdio_File(char *path, int mode, Bool text)
{
  FILE *f;
  char open_str[10];
  int atom_path;

  Pl_Prop_And_Stdio_Mode(mode, text, open_str);

  if ((f = fopen(path, open_str)) == NULL)
    return -1;

  atom_path = Pl_Create_Allocate_Atom(path);

  return Pl_Add_Stream_For_Stdio_Desc(f, atom_path, mode, text, FALSE);
}

void ref_Init_Stream_Struct(int atom_file_name, void *file, int fileno, StmProp prop, StmFct fct_getc, StmFct fct_putc, StmFct fct_flush, StmFct fct_close, StmFct fct_tell, StmFct fct_seek, StmFct fct_clearerr, int stm)
{
  StmInf *pstm = pl_stm_tbl[stm];

  pstm->stm = stm;
  pstm->atom_file_name = atom_file_name;
  pstm->file = file;
  pstm->fileno = fileno;
  pstm->prop = prop;
  pstm->mirror = NULL;
  pstm->mirror_of = NULL;

#define INIT_FCT(f,d) pstm->f = (f) ? f : (StmFct) d

  INIT_FCT(fct_getc, fgetc);
  INIT_FCT(fct_putc, fputc);
  INIT_FCT(fct_flush, fflush);
  INIT_FCT(fct_close, fclose);
  INIT_FCT(fct_tell, ftell);
  INIT_FCT(fct_seek, fseek);
  INIT_FCT(fct_clearerr, clearerr);

  pstm->eof_reached = FALSE;
  PB_Init(pstm->pb_char);

  pstm->char_count = 0;
  pstm->line_count = 0;
  pstm->line_pos = 0;
  PB_Init(pstm->pb_line_pos);
}

int ref_Pl_Add_Stream(int atom_file_name, void *file, int fileno, StmProp prop, StmFct fct_getc, StmFct fct_putc, StmFct fct_flush, StmFct fct_close, StmFct fct_tell, StmFct fct_seek, StmFct fct_clearerr)
{
  int stm;

  stm = Find_Free_Stream();

  if (prop.reposition && (fct_tell == STREAM_FCT_UNDEFINED || fct_seek == STREAM_FCT_UNDEFINED))
    Pl_Fatal_Error(ERR_TELL_OR_SEEK_UNDEFINED);

  Init_Stream_Struct(atom_file_name, file, fileno, prop, fct_getc, fct_putc,
		     fct_flush, fct_close, fct_tell, fct_seek, fct_clearerr,
		     stm);

  return stm;
}

void ref_Pl_Delete_Stream(int stm, Bool keep_stream)
{
  Del_Aliases_Of_Stream(stm);

  if (keep_stream)
    return;

  Update_Mirrors_To_Del_Stream(stm);

  Free(pl_stm_tbl[stm]);
  pl_stm_tbl[stm] = NULL;

  while(pl_stm_tbl[pl_stm_last_used] == NULL)
    pl_stm_last_used--;
}

int ref_Find_Free_Stream(void)
{
  int stm;

  for (stm = 0; stm < pl_stm_tbl_size; stm++)
    if (pl_stm_tbl[stm] == NULL)
      break;

  if (stm == pl_stm_tbl_size)
    Pl_Extend_Array((char **) &pl_stm_tbl, &pl_stm_tbl_size, sizeof(StmInf *), TRUE);

  pl_stm_tbl[stm] = (StmInf *) Malloc(sizeof(StmInf));

  if (stm > pl_stm_last_used)
    pl_stm_last_used = stm;

  return stm;
}

int ref_Pl_Find_Stream_By_Alias(int atom_alias)
{
  AliasInf *alias;

  alias = (AliasInf *) Pl_HTBL_Find(pl_alias_htbl, atom_alias);

  return (alias == NULL) ? -1 : alias->stm;
}

AliasInf * ref_Pl_Set_Alias_To_Stream(int atom_alias, int stm, Bool reassign)
{
  AliasInf *alias;
  AliasInf alias_info;

  alias = (AliasInf *) Pl_HTBL_Find(pl_alias_htbl, atom_alias);
  if (alias != NULL)
    {
      if (!reassign)
	return (alias->stm == stm) ? alias : NULL;

      alias->stm = stm;
      if (alias->atom == pl_atom_current_input)
	pl_stm_current_input = stm;
      else if (alias->atom == pl_atom_current_output)
	pl_stm_current_output = stm;

      return alias;
    }

  Pl_Extend_HTBL_If_Needed(&pl_alias_htbl);

  alias_info.atom = atom_alias;
  alias_info.stm = stm;

  alias = (AliasInf *) Pl_HTBL_Insert(pl_alias_htbl, (char *) &alias_info, FALSE);

  return alias;
}

void ref_Del_Aliases_Of_Stream(int stm)
{
  HashScan scan;
  AliasInf *alias;

  for (alias = (AliasInf *) Pl_HTBL_First(pl_alias_htbl, &scan); alias;
       alias = (AliasInf *) Pl_HTBL_Next(&scan))
    {
      if (alias->stm != stm)
	continue;

      if (alias->atom == pl_atom_user_input ||
	  alias->atom == pl_atom_current_input ||
	  alias->atom == pl_atom_top_level_input ||
	  alias->atom == pl_atom_debugger_input)
	{
	  alias->stm = pl_stm_stdin;
	  continue;
	}

      if (alias->atom == pl_atom_user_output ||
	  alias->atom == pl_atom_current_output ||
	  alias->atom == pl_atom_top_level_output ||
	  alias->atom == pl_atom_debugger_output)
	{
	  alias->stm = pl_stm_stdout;
	  continue;
	}

      if (alias->atom == pl_atom_user_error)
	{
	  alias->stm = pl_stm_stderr;
	  continue;
	}

      Pl_HTBL_Delete(pl_alias_htbl, alias->atom);
    }
}

void ref_Pl_Add_Mirror_To_Stream(int stm, int m_stm)
{
  StmInf *pstm = pl_stm_tbl[stm];
  StmInf *m_pstm = pl_stm_tbl[m_stm];
  StmLst *m;

  if (stm == m_stm)
    return;

  for(m = pstm->mirror; m ; m = m->next)
    if (m->stm == m_stm)
      return;

  m = (StmLst *) Malloc(sizeof(StmLst));
  m->stm = m_stm;
  m->next = pstm->mirror;
  pstm->mirror = m;

  m = (StmLst *) Malloc(sizeof(StmLst));
  m->stm = stm;
  m->next = m_pstm->mirror_of;

  m_pstm->mirror_of = m;
}

Bool ref_Pl_Del_Mirror_From_Stream(int stm, int m_stm)
{
  StmInf *pstm = pl_stm_tbl[stm];
  StmInf *m_pstm = pl_stm_tbl[m_stm];

  if (!Remove_In_Stream_List(m_stm, &pstm->mirror))
    return FALSE;

  Remove_In_Stream_List(stm, &m_pstm->mirror_of);
  return TRUE;
}

void ref_Update_Mirrors_To_Del_Stream(int stm)
{
  StmInf *pstm = pl_stm_tbl[stm];
  StmInf *m_pstm;
  StmLst *m, *m1;

  m = pstm->mirror;
  while(m)
    {
      m1 = m;
      m_pstm = pl_stm_tbl[m->stm];
      m = m->next;
      Free(m1);
      Remove_In_Stream_List(stm, &m_pstm->mirror_of);
    }

  m = pstm->mirror_of;
  while(m)
    {
      m1 = m;
      m_pstm = pl_stm_tbl[m->stm];
      m = m->next;
      Free(m1);
      Remove_In_Stream_List(stm, &m_pstm->mirror);
    }
}

Bool ref_Remove_In_Stream_List(int stm, StmLst **p_start)
{
  StmLst *m;

  for(;;)
    {
      m = *p_start;

      if (m == NULL)
	break;

      if (m->stm == stm)
	{
	  *p_start = m->next;
	  Free(m);
	  return TRUE;
	}

      p_start = &m->next;
    }

  return FALSE;
}

int ref_Pl_Find_Stream_From_PStm(StmInf *pstm)
{
  int stm;

  for (stm = 0; stm <= pl_stm_last_used; stm++)
    if (pl_stm_tbl[stm] == pstm)
      return stm;

  return -1;
}

void ref_Pl_Flush_All_Streams(void)
{
  int stm;

  for (stm = 0; stm <= pl_stm_last_used ; stm++)
    if (pl_stm_tbl[stm])
      Pl_Stream_Flush(pl_stm_tbl[stm]);
}

void ref_Pl_Set_Stream_Buffering(int stm)
{
  StmInf *pstm = pl_stm_tbl[stm];
  FILE *f;

  f = Pl_Stdio_Desc_Of_Stream(stm);
  if (f == NULL)
    {
      pstm->prop.buffering = STREAM_BUFFERING_NONE;
      return;
    }

  if ((pstm->file == stdout || pstm->file == stderr) && pl_le_hook_set_line_buffering)
    (*pl_le_hook_set_line_buffering)(pstm->prop.buffering != STREAM_BUFFERING_NONE);
  else

    Pl_Stdio_Set_Buffering(f, pstm->prop.buffering);
}

int ref_Pl_Get_Stream_Or_Alias(WamWord sora_word, int test)
{
  WamWord word, tag_mask, tag_mask1;
  int atom;
  WamWord *stc_adr;
  PlLong stm = 0;
  int perm_oper;
  Bool accept_var = (test & STREAM_CHECK_ACCEPT_VAR) != 0;
  Bool accept_null = (test & STREAM_CHECK_ACCEPT_NULL) != 0;
  Bool has_fileno = (test & STREAM_CHECK_HAS_FILENO) != 0;

  test &= 255;

  DEREF(sora_word, word, tag_mask);
  if (tag_mask == TAG_ATM_MASK)
    {
      atom = UnTag_ATM(word);

      if (atom == pl_atom_null && accept_null)
	return -3;

      stm = Pl_Find_Stream_By_Alias(atom);
      goto next_test;
    }

  if (tag_mask == TAG_STC_MASK)
    {
      stc_adr = UnTag_STC(word);
      DEREF(Arg(stc_adr, 0), word, tag_mask1);
      stm = UnTag_INT(word);

      if (Functor_And_Arity(stc_adr) == stream_1 && tag_mask1 == TAG_INT_MASK)
	goto next_test;
    }

  if (tag_mask == TAG_REF_MASK)
    {
      if (accept_var)
	return -2;

      Pl_Err_Instantiation();
    }

  Pl_Err_Domain(pl_domain_stream_or_alias, sora_word);

 next_test:

  if ((PlULong) stm > (PlULong) pl_stm_last_used || pl_stm_tbl[stm] == NULL)
    {
      if (test == STREAM_CHECK_VALID)
	return -1;

      Pl_Err_Existence(pl_existence_stream, sora_word);
    }

 if (has_fileno && pl_stm_tbl[stm]->fileno < 0)
    Pl_Err_Domain(pl_domain_file_stream, sora_word);

 if (test == STREAM_CHECK_VALID || test == STREAM_CHECK_EXIST)
    goto ok;

  if (test == STREAM_CHECK_INPUT)
    {
      if (pl_stm_tbl[stm]->prop.input)
	goto ok;

      perm_oper = pl_permission_operation_input;
    }
  else
    {
      if (pl_stm_tbl[stm]->prop.output)
	goto ok;

      perm_oper = pl_permission_operation_output;
    }

  Pl_Err_Permission(perm_oper, pl_permission_type_stream, sora_word);

 ok:
  return (int) stm;
}

Bool ref_Pl_Get_Stream(int stm, WamWord start_word)
{
  return Pl_Get_Structure(pl_atom_stream, 1, start_word) && Pl_Unify_Integer(stm);
}

void ref_Pl_Check_Stream_Type(int stm, Bool check_text, Bool for_input)
{
  int perm_oper;
  int perm_type;
  WamWord sora_word;

  if (check_text)
    {
      if (pl_stm_tbl[stm]->prop.text)
	return;

      perm_type = pl_permission_type_binary_stream;
    }
  else
    {
      if (!pl_stm_tbl[stm]->prop.text)
	return;

      perm_type = pl_permission_type_text_stream;
    }

  if (for_input)
    {
      perm_oper = pl_permission_operation_input;
      sora_word = (pl_last_input_sora == NOT_A_WAM_WORD)
	? word_current_input_stream : pl_last_input_sora;
    }
  else
    {
      perm_oper = pl_permission_operation_output;
      sora_word = (pl_last_output_sora == NOT_A_WAM_WORD)
	? word_current_output_stream : pl_last_output_sora;
    }

  Pl_Err_Permission(perm_oper, perm_type, sora_word);
}

WamWord ref_Pl_Make_Stream_Tagged_Word(int stm)
{
  static WamWord h[2];

  h[0] = stream_1;
  h[1] = Tag_INT(stm);

  return Tag_STC(h);
}

Bool ref_Pl_Stdio_Is_Repositionable(FILE *f)
{
  int fd = fileno(f);

  return !isatty(fd) && lseek(fd, 0, SEEK_CUR) >= 0;
}

void ref_Pl_Stdio_Set_Buffering(FILE *f, int buffering)
{
  int buff_flag = 0;

  switch (buffering)
    {
    case STREAM_BUFFERING_NONE:
      buff_flag = _IONBF;
      break;

    case STREAM_BUFFERING_LINE:
      buff_flag = _IOLBF;

      break;

    case STREAM_BUFFERING_BLOCK:
      buff_flag = _IOFBF;
      break;
    }

  setvbuf(f, NULL, buff_flag, BUFSIZ);
}

FILE * ref_Pl_Stdio_Desc_Of_Stream(int stm)
{
  StmInf *pstm = pl_stm_tbl[stm];

  if (stm == pl_stm_stdin)
    return stdin;

  if (pstm->fct_getc == (StmFct) fgetc)
    return pstm->file;

  return NULL;
}

int ref_Pl_Io_Fileno_Of_Stream(int stm)
{
  FILE *f;

  f = Pl_Stdio_Desc_Of_Stream(stm);
  if (f)
    return fileno(f);

  return -1;
}

#define SAVE_FOR_REENTRANCY { int save_sys_var_option_mask = (int) SYS_VAR_OPTION_MASK; PlLong save_last_read_line = pl_last_read_line; PlLong save_last_read_col = pl_last_read_col;

#define RESTORE_FOR_REENTRANCY SYS_VAR_OPTION_MASK = save_sys_var_option_mask; pl_last_read_line = save_last_read_line; pl_last_read_col = save_last_read_col; }

int ref_TTY_Getc(void *unused)
{
  int c;
  StmInf *pstm;
  static int tty_linedit_depth = 0;

  if (tty_ptr == NULL)
    {
      if (tty_linedit_depth++ == 0)
	tty_buff = tty_first_buff;
      else
	tty_buff = (char *) Malloc(TTY_BUFFER_SIZE);

      SAVE_FOR_REENTRANCY;
      tty_buff = Pl_LE_FGets(tty_buff, TTY_BUFFER_SIZE, pl_le_prompt,
			     pl_use_le_prompt);
      pl_use_le_prompt = 0;
      RESTORE_FOR_REENTRANCY;
      tty_linedit_depth--;

      if (LE_Interrupted_By_Ctrl_C(tty_buff))
	Pl_Execute_A_Continuation((CodePtr) Pl_LE_Get_Ctrl_C_Return_Value());

      if (tty_buff == NULL)
	{
	  c = EOF;
	  goto test_free_buff;
	}

      tty_ptr = tty_buff;

      pstm = pl_stm_tbl[pl_stm_stdout];
      pstm->char_count += strlen(tty_buff);
      pstm->line_count++;
      pstm->line_pos = 0;
    }

  c = *tty_ptr++;

  if (*tty_ptr == '\0')
    {
    test_free_buff:
      if (tty_buff != tty_first_buff)
	Free(tty_buff);
      tty_ptr = NULL;
    }

  return c;
}

int ref_TTY_Get_Key(Bool echo, Bool catch_ctrl_c)
{
  int c;

  if (tty_ptr != NULL)
    {
      c = *tty_ptr++;

      if (*tty_ptr == '\0')
	{
	  if (tty_buff != tty_first_buff)
	    Free(tty_buff);
	  tty_ptr = NULL;
	}

      return c;
    }

  SAVE_FOR_REENTRANCY;
  c = Pl_LE_Get_Key(echo, catch_ctrl_c);
  RESTORE_FOR_REENTRANCY;

  if (LE_Interrupted_By_Ctrl_C(c))
    Pl_Execute_A_Continuation((CodePtr) Pl_LE_Get_Ctrl_C_Return_Value());

  return c;
}

void ref_TTY_Clearerr(void *unused)
{
  clearerr(stdin);
}

#define Before_Reading(pstm) { if (pstm->eof_reached) { if (pstm->prop.eof_action == STREAM_EOF_ACTION_ERROR) Pl_Err_Permission(pl_permission_operation_input, pl_permission_type_past_end_of_stream, (pl_last_input_sora == NOT_A_WAM_WORD) ? word_current_input_stream : pl_last_input_sora); if (pstm->prop.eof_action == STREAM_EOF_ACTION_EOF_CODE) return EOF; pstm->eof_reached = FALSE; if (pstm->prop.reposition) Pl_Stream_Set_Position(pstm, SEEK_SET, 0, 0, 0, 0); if (pstm->fct_clearerr != STREAM_FCT_UNDEFINED) CALL_CLEARERR(pstm); } }

#define Update_Counters(pstm,c) if (c != EOF) pstm->char_count++; if (c == '\n') { pstm->line_count++; pstm->line_pos = 0; } else pstm->line_pos++

int ref_Basic_Call_Fct_Getc(StmInf *pstm)
{
  int c;
  StmLst *m;

  if (SYS_VAR_SAY_GETC && pstm->file == stdin)

    {
      putchar(CHAR_TO_EMIT_ON_PIPED_GETC);
      fflush(stdout);
    }

  c = CALL_GETC(pstm);

  if (c != EOF)
    for (m = pstm->mirror; m ; m = m->next)
      Pl_Stream_Putc(c, pl_stm_tbl[m->stm]);

  return c;
}

void ref_Basic_Call_Fct_Putc(int c, StmInf *pstm)
{
  StmLst *m;

  CALL_PUTC(c, pstm);

  for (m = pstm->mirror; m ; m = m->next)
    Pl_Stream_Putc(c, pl_stm_tbl[m->stm]);
}

void ref_Pl_PB_Empty_Buffer(StmInf *pstm)
{
  PlLong c;

  while (!PB_Is_Empty(pstm->pb_char))
    {
      PB_Pop(pstm->pb_char, c);
      Update_Counters(pstm, c);
    }
  PB_Init(pstm->pb_char)
}

int ref_Pl_Stream_Get_Key(StmInf *pstm, int echo, int catch_ctrl_c)
{
  PlLong c;
  Bool simulate;

  if (pl_le_mode != LE_MODE_DEACTIVATED && pstm == pl_stm_tbl[pl_stm_stdin])
    simulate = FALSE;
  else

    simulate = TRUE;

  Before_Reading(pstm);

  if (!PB_Is_Empty(pstm->pb_char))
    {
      PB_Pop(pstm->pb_char, c);
    }
  else
    {
      Start_Protect_Regs_For_Signal;
      if (simulate)
	c = Basic_Call_Fct_Getc(pstm);

      else
	c = TTY_Get_Key(echo, catch_ctrl_c);

      Stop_Protect_Regs_For_Signal;
    }

  if (simulate && c != '\n')
    {
      while (Basic_Call_Fct_Getc(pstm) >= ' ')
	;

      Update_Counters(pl_stm_tbl[pl_stm_stdout], '\n');
    }

  if (c == EOF)
    pstm->eof_reached = TRUE;

  if (c == '\n')
    PB_Push(pstm->pb_line_pos, pstm->line_pos);

  Update_Counters(pstm, c);

  return (int) c;
}

int ref_Pl_Stream_Getc(StmInf *pstm)
{
  PlLong c;

  Before_Reading(pstm);

  if (!PB_Is_Empty(pstm->pb_char))
    {
      PB_Pop(pstm->pb_char, c);
    }
  else
    {
      Start_Protect_Regs_For_Signal;
      c = Basic_Call_Fct_Getc(pstm);
      Stop_Protect_Regs_For_Signal;
    }
  if (c == EOF)
    pstm->eof_reached = TRUE;

  if (c == '\n')
    PB_Push(pstm->pb_line_pos, pstm->line_pos);

  Update_Counters(pstm, c);

  return (int) c;
}

void ref_Pl_Stream_Ungetc(int c, StmInf *pstm)
{
  PB_Push(pstm->pb_char, c);
  pstm->eof_reached = FALSE;

  if (pstm->char_count > 0)
    pstm->char_count--;

  if (c == '\n')
    {
      if (pstm->line_count > 0)
	pstm->line_count--;

      if (!PB_Is_Empty(pstm->pb_line_pos))
	PB_Pop(pstm->pb_line_pos, pstm->line_pos);
      else
	pstm->line_pos = 0;
    }
  else if (pstm->line_pos > 0)
    pstm->line_pos--;
}

int ref_Pl_Stream_Peekc(StmInf *pstm)
{
  PlLong c;

  Before_Reading(pstm);

  if (!PB_Is_Empty(pstm->pb_char))
    PB_Top(pstm->pb_char, c);
  else
    {
      c = Basic_Call_Fct_Getc(pstm);
      PB_Push(pstm->pb_char, c);
    }

  return (int) c;
}

char * ref_Pl_Stream_Gets(char *str, int size, StmInf *pstm)
{
  int c = 0;
  char *p = str;

  for (;;)
    {
      if (p - str >= size)
	break;

      c = Pl_Stream_Getc(pstm);

      if (c == EOF)
	break;

      *p++ = c;

      if (c == '\n')
	break;
    }

  if (c == EOF && p == str)
    return NULL;

  *p = '\0';
  return str;
}

char * ref_Pl_Stream_Gets_Prompt(char *prompt, StmInf *pstm_o, char *str, int size, StmInf *pstm_i)
{

  char *save_le_prompt = pl_le_prompt;
  int save_use_le_prompt = pl_use_le_prompt;
  pl_le_prompt = prompt;

  pl_use_le_prompt = 1;

  if (pstm_i->fct_getc != (StmFct) TTY_Getc)

    Pl_Stream_Printf(pstm_o, prompt);

  str = Pl_Stream_Gets(str, size, pstm_i);

  pl_use_le_prompt = save_use_le_prompt;
  pl_le_prompt = save_le_prompt;

  return str;
}

void ref_Pl_Stream_Putc(int c, StmInf *pstm)
{
  Basic_Call_Fct_Putc(c, pstm);
  Update_Counters(pstm, c);
}

int ref_Pl_Stream_Puts(char *str, StmInf *pstm)
{
  char *p;
  int c;

  for (p = str; *p; p++)
    {
      c = *p;
      Basic_Call_Fct_Putc(c, pstm);
      Update_Counters(pstm, c);
    }

  return (int) (p - str);
}

int ref_Pl_Stream_Printf(StmInf *pstm, char *format, ...)
{
  va_list arg_ptr;
  static char str[BIG_BUFFER];
  char *p;
  int c;

  va_start(arg_ptr, format);
  vsprintf(str, format, arg_ptr);
  va_end(arg_ptr);

  for (p = str; *p; p++)
    {
      c = *p;
      Basic_Call_Fct_Putc(c, pstm);
      Update_Counters(pstm, c);
    }

  return (int) (p - str);
}

void ref_Pl_Stream_Flush(StmInf *pstm)
{
  if (pstm->prop.output && pstm->fct_flush != STREAM_FCT_UNDEFINED)
    CALL_FLUSH(pstm);
}

int ref_Pl_Stream_Close(StmInf *pstm)
{
  int ret = 0;

  if (pstm->fct_close != STREAM_FCT_UNDEFINED)
    ret = CALL_CLOSE(pstm);

  return ret;
}

int ref_Pl_Stream_End_Of_Stream(StmInf *pstm)
{
  int c;

  if (pstm->prop.eof_action == STREAM_EOF_ACTION_RESET || !pstm->prop.input)
    return STREAM_EOF_NOT;

  if (pstm->eof_reached)
    return STREAM_EOF_PAST;

  c = Pl_Stream_Peekc(pstm);
  if (c == EOF)
    return STREAM_EOF_AT;

  return STREAM_EOF_NOT;
}

void ref_Pl_Stream_Get_Position(StmInf *pstm, PlLong *offset, PlLong *char_count, PlLong *line_count, PlLong *line_pos)
{
  *offset = 0;
  if (pstm->prop.reposition && pstm->fct_tell != STREAM_FCT_UNDEFINED)
    {
      if ((*offset = CALL_TELL(pstm)) < 0)
	*offset = 0;
      else
	{
	  *offset = *offset - pstm->pb_char.nb_elems;
	  if (*offset < 0)
	    *offset = 0;
	}
    }

  *char_count = pstm->char_count;

  if (pstm->prop.text)
    {
      *line_count = pstm->line_count;
      *line_pos = pstm->line_pos;
    }
  else
    {
      *line_count = 0;
      *line_pos = 0;
    }
}

int ref_Pl_Stream_Set_Position(StmInf *pstm, int whence, PlLong offset, PlLong char_count, PlLong line_count, PlLong line_pos)
{
  int x = CALL_SEEK(pstm, (long) offset, whence);
  if (x != 0)
    return x;

  pstm->char_count = char_count;

  if (pstm->prop.text)
    {
      pstm->line_count = line_count;
      pstm->line_pos = line_pos;
    }

  if (pstm->eof_reached)
    {
      pstm->eof_reached = FALSE;
      if (pstm->fct_clearerr != STREAM_FCT_UNDEFINED)
	CALL_CLEARERR(pstm);
    }

  PB_Init(pstm->pb_char);
  PB_Init(pstm->pb_line_pos);

  return 0;
}

int ref_Pl_Stream_Set_Position_LC(StmInf *pstm, PlLong line_count, PlLong line_pos)
{
  int x;
  PlLong *p;
  int c;
  PlLong offset;
  Bool save_eof_reached;
  PlLong save_char_count, save_line_count, save_line_pos;
  int save_char_nb_elems;

  offset = CALL_TELL(pstm);
  if (offset < 0)
    return (int) offset;

  x = CALL_SEEK(pstm, 0, SEEK_SET);
  if (x != 0)
    return x;

  save_eof_reached = pstm->eof_reached;
  save_char_count = pstm->char_count;
  save_line_count = pstm->line_count;
  save_line_pos = pstm->line_pos;
  save_char_nb_elems = pstm->pb_char.nb_elems;

  pstm->char_count = 0;
  pstm->line_count = 0;
  pstm->line_pos = 0;
  pstm->pb_char.nb_elems = 0;

  if (pstm->eof_reached)
    {
      pstm->eof_reached = FALSE;
      if (pstm->fct_clearerr != STREAM_FCT_UNDEFINED)
	CALL_CLEARERR(pstm);
    }

  p = &(pstm->line_count);

  while (*p < line_count)
    if (Pl_Stream_Getc(pstm) == EOF)
      goto err;

  p = &(pstm->line_pos);

  while (*p < line_pos)
    {
      if ((c = Pl_Stream_Getc(pstm)) == EOF)
	goto err;
      if (c == '\n')
	goto err;
    }

  PB_Init(pstm->pb_char);
  PB_Init(pstm->pb_line_pos);
  return 0;

err:

  pstm->eof_reached = save_eof_reached;
  pstm->char_count = save_char_count;
  pstm->line_count = save_line_count;
  pstm->line_pos = save_line_pos;
  pstm->pb_char.nb_elems = save_char_nb_elems;

  x = CALL_SEEK(pstm, (long) offset, SEEK_SET);
  if (x != 0)
    return x;

  return -2;
}

int ref_Pl_Add_Str_Stream(char *buff, int prop_other)
{
  int stm;
  StmProp prop;
  StrSInf *str_stream;

  str_stream = (buff) ? &static_str_stream_rd : &static_str_stream_wr;
  if (str_stream->ptr != NULL)
    {
      str_stream = (StrSInf *) Malloc(sizeof(StrSInf));
      str_stream->buff_alloc_size = 0;
    }

  if (buff)
    {
      str_stream->buff = buff;

      prop.mode = STREAM_MODE_READ;
      prop.input = TRUE;
      prop.output = FALSE;
    }
  else
    {
      if (str_stream->buff_alloc_size == 0)
	{
	  str_stream->buff = (char *) Malloc(STR_STREAM_WRITE_BLOCK);
	  str_stream->buff_alloc_size = STR_STREAM_WRITE_BLOCK;
	}

      prop.mode = STREAM_MODE_WRITE;
      prop.input = FALSE;
      prop.output = TRUE;
    }

  str_stream->ptr = str_stream->buff;

  prop.text = 1;
  prop.reposition = FALSE;
  prop.buffering = STREAM_BUFFERING_NONE;
  prop.eof_action = STREAM_EOF_ACTION_EOF_CODE;
  prop.special_close = TRUE;
  prop.other = prop_other;

  stm = Find_Free_Stream();

  Init_Stream_Struct(atom_constant_term_stream, str_stream, -1, prop,
		     (StmFct) Str_Stream_Getc, (StmFct) Str_Stream_Putc,
		     STREAM_FCT_UNDEFINED, STREAM_FCT_UNDEFINED,
		     STREAM_FCT_UNDEFINED, STREAM_FCT_UNDEFINED,
		     STREAM_FCT_UNDEFINED, stm);

  return stm;
}

void ref_Pl_Delete_Str_Stream(int stm)
{
  StrSInf *str_stream = pl_stm_tbl[stm]->file;

  if (str_stream == &static_str_stream_rd ||
      str_stream == &static_str_stream_wr)
    {
      str_stream->ptr = NULL;
    }
  else
    {
      if (str_stream->buff_alloc_size)
	Free(str_stream->buff);
      Free(str_stream);
    }

  Pl_Delete_Stream(stm, FALSE);
}

char * ref_Pl_Terminate_Output_Str_Stream(int stm)
{
  StrSInf *str_stream = pl_stm_tbl[stm]->file;
  *(str_stream->ptr) = '\0';

  return str_stream->buff;
}

void ref_Pl_Rewind_Str_Stream(int stm)
{
  StmInf *pstm = pl_stm_tbl[stm];
  StrSInf *str_stream = pstm->file;
  str_stream->ptr = str_stream->buff;

  pstm->char_count = 0;
  pstm->line_count = 0;
  pstm->line_pos = 0;
}

int ref_Str_Stream_Getc(void *a_str_stream)
{
  StrSInf *str_stream = a_str_stream;
  int c;

  c = *(str_stream->ptr);
  if (c == '\0')
    return EOF;

  (str_stream->ptr)++;

  return c;
}

int ref_Str_Stream_Putc(int c, void *a_str_stream)
{
  StrSInf *str_stream = a_str_stream;
  int size = (int) (str_stream->ptr - str_stream->buff);
  int new_size;

  if (size >= str_stream->buff_alloc_size - 1)
    {
      new_size = str_stream->buff_alloc_size + STR_STREAM_WRITE_BLOCK;

      str_stream->buff = Realloc(str_stream->buff, new_size);

      str_stream->buff_alloc_size = new_size;
      str_stream->ptr = str_stream->buff + size;
    }

  *(str_stream->ptr)++ = c;
  return c;
}
