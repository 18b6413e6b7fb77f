/* What the functions of top_level_c.c are to do. */
#include "gp_config.h"
#include <string.h>
#include <stdlib.h>
#include <signal.h>
#include "engine_pl.h"
#include "bips_pl.h"
#include "ctrl_c.h"
#include "../Linedit/ctrl_c.c"
#include "macros_ref.h"
#include "wam_ref.h"

#define ERR_DEBUGGER_NOT_FOUND "top_level_c: debug/trace not found"

extern WamWord buff_save_machine_regs[NB_OF_USED_MACHINE_REGS];

#define ABORT X0_abort

#define BREAK X0_break

Prolog_Prototype(ABORT, 0);
Prolog_Prototype(BREAK, 0);

PlLong Ctrl_C_Manager(int from_callback);
void Pl_Set_Ctrl_C_Handler_0(void);
void Pl_Save_Regs_For_Signal(void);
PlLong Ctrl_C_Manager(int from_callback);


void ref_Pl_Set_Ctrl_C_Handler_0(void)
{
  Pl_Install_Ctrl_C_Handler(Ctrl_C_Manager);
}

void ref_Pl_Save_Regs_For_Signal(void)
{
  Save_Machine_Regs(buff_save_machine_regs);
}

PlLong ref_Ctrl_C_Manager(int from_callback)
{
  StmInf *pstm = pl_stm_tbl[pl_stm_top_level_output];
  PredInf *pred;
  int c;
  CodePtr to_execute;

  Restore_Machine_Regs(buff_save_machine_regs);

start:
  Pl_Stream_Printf(pstm, "\nProlog interruption (h for help) ? ");
  Pl_Stream_Flush(pstm);

  c = Pl_Stream_Get_Key(pl_stm_tbl[pl_stm_top_level_input], TRUE, FALSE);
  Pl_Stream_Putc('\n', pstm);

  switch (c)
    {
    case 'a':
      to_execute = Prolog_Predicate(ABORT, 0);
      if (from_callback)
	return (PlLong) to_execute;
      Pl_Execute_A_Continuation(to_execute);
      break;

    case 'b':
      Pl_Call_Prolog(Prolog_Predicate(BREAK, 0));
      goto start;
      break;

    case 'c':
      break;

    case 'e':
      Pl_Exit_With_Value(0);
      break;

    case 't':

    case 'd':
      if (SYS_VAR_DEBUGGER)
	{
	  pred = Pl_Lookup_Pred(Pl_Create_Atom((c == 't') ? "trace" : "debug"), 0);
	  if (pred == NULL)
	    Pl_Fatal_Error(ERR_DEBUGGER_NOT_FOUND);

	  Pl_Call_Prolog((CodePtr) pred->codep);
	  break;
	}

    default:
      Pl_Stream_Printf(pstm, "   a  abort        b  break\n");
      Pl_Stream_Printf(pstm, "   c  continue     e  exit\n");
      if (SYS_VAR_DEBUGGER)
	Pl_Stream_Printf(pstm, "   d  debug        t  trace\n");
      Pl_Stream_Printf(pstm, "  h/? help\n");
      goto start;
    }
  return 0;
}
