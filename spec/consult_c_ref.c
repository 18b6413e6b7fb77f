/* What the functions of consult_c.c are to do. */
#include "gp_config.h"
#include <errno.h>
#include <sys/types.h>
#include "engine_pl.h"
#include "bips_pl.h"
#include "linedit.h"
#include "macros_ref.h"
#include "wam_ref.h"

Bool Pl_Consult_1(WamWord pl2wam_args_word);


Bool ref_Pl_Consult_1(WamWord pl2wam_args_word)
{
  StmInf *pstm_o = pl_stm_tbl[pl_stm_top_level_output];
  StmInf *pstm_i = pl_stm_tbl[pl_stm_top_level_input];
  int pid, status;
  FILE *f_in = M_SPAWN_REDIRECT_CREATE;
  FILE *f_out = M_SPAWN_REDIRECT_CREATE;
  FILE **pf_in;
  unsigned char *p = NULL;
  int c;
  int save_use_le_prompt;

  char *arg[64];

  WamWord word, tag_mask;
  WamWord *lst_adr;
  int n = 0;

  arg[n++] = "pl2wam";

  for (;;)
    {
      DEREF(pl2wam_args_word, word, tag_mask);
      if (word == NIL_WORD)
        break;

      lst_adr = UnTag_LST(word);

      arg[n++] = Pl_Rd_String(Car(lst_adr));
      pl2wam_args_word = Cdr(lst_adr);
    }
  arg[n] = NULL;

  pf_in = &f_in;

  Pl_Flush_All_Streams();
  pid = Pl_Spawn_Redirect(arg, FALSE, pf_in, &f_out, &f_out);

  if (pid == -1 && errno != ENOENT)
    Os_Test_Error(pid);
  if (pid < 0)
    {
    error_pl2wam:
      Pl_Err_System(Pl_Create_Atom("error trying to execute pl2wam (maybe not found)"));
      return FALSE;
    }

  save_use_le_prompt = pl_use_le_prompt;
  pl_use_le_prompt = 0;
  for (;;)
    {

      c = fgetc(f_out);

      if (c == EOF)
	break;

      if (c == CHAR_TO_EMIT_ON_PIPED_GETC)
	{
	  if (p == NULL)
	    {
	      c = Pl_Stream_Getc(pstm_i);
	      if (c == EOF)
		{
		eof_reached:
		  p = (unsigned char *) "end_of_file.\n";
		  c = *p++;
		}
	    }
	  else
	    {
	      if (*p == '\0')
		goto eof_reached;
	      else
		c = *p++;
	    }
	  fputc(c, f_in);
	  fflush(f_in);
	  continue;
	}

      Pl_Stream_Putc(c, pstm_o);
    }
  pl_use_le_prompt = save_use_le_prompt;
  if (f_in)
    fclose(f_in);
  fclose(f_out);

  status = Pl_Get_Status(pid);
  if (status < 0)
    goto error_pl2wam;

  return status == 0;
}
