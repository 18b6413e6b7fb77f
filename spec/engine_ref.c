/* What the functions of engine.c are to do. */
#include "gp_config.h"
#include <stdlib.h>
#include <string.h>
#include "pl_setjmp.h"
#include "set_locale.h"
#include <sys/param.h>
#include "engine_pl.h"
#include "../Linedit/linedit.h"
#include "macros_ref.h"
#include "wam_ref.h"

#define ENGINE_FILE

#define ERR_DIRECTIVE_FAILED "warning: %s:%d: %s directive failed\n"

void (*pl_init_stream_supp)();

extern WamWord init_buff_regs[NB_OF_USED_MACHINE_REGS];

extern WamWord *heap_actual_start;

extern int nb_user_directives;

extern sigjmp_buf *p_jumper;
extern WamWord *p_buff_save;

extern CodePtr cont_jmp;

void Call_Prolog_Fail(void);

void Call_Prolog_Success(void);

int Call_Next(CodePtr codep);

void Pl_Call_Compiled(CodePtr codep);
int Pl_Start_Prolog(int argc, char *argv[]);
void Pl_Stop_Prolog(void);
void Pl_Reset_Prolog(void);
void Pl_Reset_Prolog_In_Signal(void);
void Pl_Set_Heap_Actual_Start(WamWord *new_heap_actual_start);
void Pl_Execute_Directive(int pl_file, int pl_line, Bool is_system, CodePtr proc);
Bool Pl_Try_Execute_Top_Level(void);
int Pl_Call_Prolog(CodePtr codep);
int Pl_Call_Prolog_Next_Sol(WamWord *query_b);
void Pl_Keep_Rest_For_Prolog(WamWord *query_b);
int Call_Next(CodePtr codep);
void Call_Prolog_Fail(void);
void Call_Prolog_Success(void);
void Pl_Exit_With_Exception(void);
void Pl_Execute_A_Continuation(CodePtr codep);


int ref_Pl_Start_Prolog(int argc, char *argv[])
{
  int i;
  PlLong x;
  char *p;
  void (*copy_of_pl_init_stream_supp)() = Pl_Dummy_Ptr(pl_init_stream_supp);

  Set_Locale();

  pl_os_argc = argc;
  pl_os_argv = argv;

  pl_home = Pl_Get_Prolog_Path(argv[0], &pl_devel_mode);

  Pl_Init_Machine();
  Pl_Init_OS_Detect();

  Set_Line_Buf(stdout);
  Set_Line_Buf(stderr);

  for (i = 0; i < NB_OF_STACKS; i++)
    {
      if (pl_fd_init_solver == NULL && strcmp(pl_stk_tbl[i].name, "cstr") == 0)
        {
          pl_stk_tbl[i].size = 0;
          continue;
        }

      pl_stk_tbl[i].size = KBytes_To_Wam_Words(*(pl_stk_tbl[i].p_def_size));
      if (pl_stk_tbl[i].size == 0)
        pl_stk_tbl[i].size = pl_stk_tbl[i].default_size;

      if (!pl_fixed_sizes && *pl_stk_tbl[i].env_var_name)
        {
          p = (char *) getenv(pl_stk_tbl[i].env_var_name);
          if (p && *p)
            {
              x = strtol(p, &p, 0);
              pl_stk_tbl[i].size = KBytes_To_Wam_Words(x);
            }

        }
    }

  if ((pl_max_atom = pl_def_max_atom) == 0)
    pl_max_atom = DEFAULT_MAX_ATOM;

  if (!pl_fixed_sizes)
    {
      p = (char *) getenv(ENV_VAR_MAX_ATOM);
      if (p && *p)
	{
	  x = strtol(p, &p, 0);
	  pl_max_atom = x;
	}

    }

  Pl_Allocate_Stacks();
  Save_Machine_Regs(init_buff_regs);

  Init_Reg_Bank(Global_Stack);
  Global_Stack += REG_BANK_SIZE;
  Global_Size -= REG_BANK_SIZE;

  heap_actual_start = Global_Stack;

  pl_le_mode = 0;

  if (pl_le_initialize != NULL)
    pl_le_mode = (*pl_le_initialize)();

  Pl_Init_Atom();
  Pl_Init_Pred();
  Pl_Init_Oper();

  if (copy_of_pl_init_stream_supp)
    (*copy_of_pl_init_stream_supp)();

  Pl_Reset_Prolog();
  Pl_Fd_Init_Solver();

  Pl_Initialize_Units();

  return nb_user_directives;
}

void ref_Pl_Stop_Prolog(void)
{

  Restore_Machine_Regs(init_buff_regs);
}

void ref_Pl_Reset_Prolog(void)
{
  E = B = LSSA = Local_Stack;
  H = heap_actual_start;
  TR = Trail_Stack;
  CP = NULL;
  STAMP = 0;
  CS = Cstr_Stack;

  Pl_Create_Choice_Point(Call_Prolog_Fail, 0);

  Pl_Fd_Reset_Solver();
}

void ref_Pl_Reset_Prolog_In_Signal(void)
{
  Restore_Protect_Regs_For_Signal;
}

void ref_Pl_Set_Heap_Actual_Start(WamWord *new_heap_actual_start)
{
  heap_actual_start = new_heap_actual_start;
}

void ref_Pl_Execute_Directive(int pl_file, int pl_line, Bool is_system, CodePtr proc)
{
  Pl_Reset_Prolog();

  if (!is_system)
    nb_user_directives++;

  if (!Pl_Call_Prolog(proc))
    fprintf(stderr,
            ERR_DIRECTIVE_FAILED, pl_atom_tbl[pl_file].name, pl_line,
            (is_system) ? "system" : "user");

  Pl_Reset_Prolog();
}

Bool ref_Pl_Try_Execute_Top_Level(void)
{
  PredInf *pred;

  Pl_Reset_Prolog();

  pred = Pl_Lookup_Pred(Pl_Create_Atom("top_level"), 0);

  if (pred != NULL)
    {
      Pl_Call_Prolog((CodePtr) (pred->codep));
      return TRUE;
    }

  Pl_Reset_Prolog();
  return FALSE;
}

int ref_Pl_Call_Prolog(CodePtr codep)
{
  WamWord *query_b = B;
  WamCont save_CP = CP;
  WamCont save_ALTB = ALTB(query_b);
  int ret;

  ALTB(query_b) = (CodePtr) Call_Prolog_Fail;

  CP = Adjust_CP(Call_Prolog_Success);

  ret = Call_Next(codep);

  CP = save_CP;
  ALTB(query_b) = save_ALTB;

  return ret;
}

int ref_Pl_Call_Prolog_Next_Sol(WamWord *query_b)
{
  WamCont save_CP = CP;
  WamCont save_ALTB = ALTB(query_b);
  int ret;

  ALTB(query_b) = (CodePtr) Call_Prolog_Fail;

  CP = Adjust_CP(Call_Prolog_Success);

  ret = Call_Next(ALTB(B));

  CP = save_CP;
  ALTB(query_b) = save_ALTB;

  return ret;
}

void ref_Pl_Keep_Rest_For_Prolog(WamWord *query_b)
{
  WamWord *b, *e, *query_e;

  for (b = B; b > query_b; b = BB(b))
    if (CPB(b) == Adjust_CP(Call_Prolog_Success))
      CPB(b) = CP;

  query_e = EB(query_b);

  for (e = EB(B); e > query_e; e = EE(e))
    if (CPE(e) == Adjust_CP(Call_Prolog_Success))
      CPE(e) = CP;
}

int ref_Call_Next(CodePtr codep)
{
  int jmp_val;
  sigjmp_buf *old_jumper = p_jumper;
  sigjmp_buf new_jumper;
  WamWord *old_buff_save = p_buff_save;
  WamWord buff_save_machine_regs[NB_OF_USED_MACHINE_REGS + 1];

  p_jumper = &new_jumper;
  p_buff_save = buff_save_machine_regs;

  Save_Machine_Regs(buff_save_machine_regs);

  jmp_val = sigsetjmp(*p_jumper, 1);

  Restore_Machine_Regs(buff_save_machine_regs);

  if (jmp_val == 0)
    Pl_Call_Compiled(codep);

  if (jmp_val == 3)
    Pl_Call_Compiled(cont_jmp);

  p_jumper = old_jumper;
  p_buff_save = old_buff_save;

  if (jmp_val < 0)
    {

      return FALSE;
    }

  return jmp_val;
}

void ref_Call_Prolog_Fail(void)
{

  asm("subq $8,%rsp");

  Save_Machine_Regs(p_buff_save);
  siglongjmp(*p_jumper, -1);
}

void ref_Call_Prolog_Success(void)
{

  asm("subq $8,%rsp");

  Save_Machine_Regs(p_buff_save);
  siglongjmp(*p_jumper, 1);
}

void ref_Pl_Exit_With_Exception(void)
{
  Save_Machine_Regs(p_buff_save);
  siglongjmp(*p_jumper, 2);
}

void ref_Pl_Execute_A_Continuation(CodePtr codep)
{
  Save_Machine_Regs(p_buff_save);

  cont_jmp = codep;
  siglongjmp(*p_jumper, 3);
}
