/* What the functions of stat_c.c are to do. */
#include "gp_config.h"
#include "engine_pl.h"
#include "bips_pl.h"
#include "macros_ref.h"
#include "wam_ref.h"

extern PlLong last_user_time;
extern PlLong last_system_time;
extern PlLong last_cpu_time;
extern PlLong last_real_time;

void Stack_Size(int stack_nb, PlLong *used, PlLong *free);
void Pl_Statistics_0(void);
Bool Pl_Statistics_User_Time_2(WamWord since_start_word, WamWord since_last_word);
Bool Pl_Statistics_System_Time_2(WamWord since_start_word, WamWord since_last_word);
Bool Pl_Statistics_Cpu_Time_2(WamWord since_start_word, WamWord since_last_word);
Bool Pl_Statistics_Real_Time_2(WamWord since_start_word, WamWord since_last_word);
Bool Pl_Statistics_Local_Stack_2(WamWord used_word, WamWord free_word);
Bool Pl_Statistics_Global_Stack_2(WamWord used_word, WamWord free_word);
Bool Pl_Statistics_Trail_Stack_2(WamWord used_word, WamWord free_word);
Bool Pl_Statistics_Cstr_Stack_2(WamWord used_word, WamWord free_word);
Bool Pl_Statistics_Atoms_2(WamWord used_word, WamWord free_word);
void Stack_Size(int stack_nb, PlLong *used, PlLong *free);
Bool Pl_User_Time_1(WamWord since_start_word);
Bool Pl_System_Time_1(WamWord since_start_word);
Bool Pl_Cpu_Time_1(WamWord since_start_word);
Bool Pl_Real_Time_1(WamWord since_start_word);


void ref_Pl_Statistics_0(void)
{
  StmInf *pstm = pl_stm_tbl[pl_stm_stdout];
  PlLong used, free;
  PlLong t[4], l[4];
  static char *n[4] = { "user", "system", "cpu", "real" };
  int i;

  Pl_Stream_Printf(pstm, "Memory               limit         in use            free\n\n");

  for (i = 0; i < NB_OF_STACKS; i++)
    {
      Stack_Size(i, &used, &free);
      if (used + free == 0)
	continue;

      used = used / 1024;
      free = (free + 1023) / 1024;

      Pl_Stream_Printf(pstm, "   %-6s stack %10d Kb   %10d Kb   %10d Kb\n",
		       pl_stk_tbl[i].name, used + free, used, free);
    }

  Pl_Stream_Printf(pstm, "   atom   table %10d atoms%10d atoms%10d atoms\n",
		   pl_max_atom , pl_nb_atom, pl_max_atom - pl_nb_atom);

  t[0] = Pl_User_Time();
  l[0] = t[0] - last_user_time;

  t[1] = Pl_System_Time();
  l[1] = t[1] - last_system_time;

  t[2] = t[0] + t[1];
  l[2] = t[2] - last_cpu_time;

  t[3] = Pl_Real_Time();
  l[3] = t[3] - last_real_time;

  last_user_time = t[0];
  last_system_time = t[1];
  last_cpu_time = t[2];
  last_real_time = t[3];

  Pl_Stream_Printf(pstm,
		"\nTimes              since start      since last\n\n");

  for (i = 0; i < 4; i++)
    Pl_Stream_Printf(pstm, "   %-6s time %11.3f sec %11.3f sec\n",
		  n[i], (double) t[i] / 1000.0, (double) l[i] / 1000.0);
}

Bool ref_Pl_Statistics_User_Time_2(WamWord since_start_word, WamWord since_last_word)
{
  PlLong user_time;
  PlLong since_start, since_last;

  user_time = Pl_User_Time();
  since_start = user_time;
  since_last = user_time - last_user_time;
  last_user_time = user_time;

  return Pl_Un_Integer_Check(since_start, since_start_word) &&
    Pl_Un_Integer_Check(since_last, since_last_word);
}

Bool ref_Pl_Statistics_System_Time_2(WamWord since_start_word, WamWord since_last_word)
{
  PlLong system_time;
  PlLong since_start, since_last;

  system_time = Pl_System_Time();
  since_start = system_time;
  since_last = system_time - last_system_time;
  last_system_time = system_time;

  return Pl_Un_Integer_Check(since_start, since_start_word) &&
    Pl_Un_Integer_Check(since_last, since_last_word);
}

Bool ref_Pl_Statistics_Cpu_Time_2(WamWord since_start_word, WamWord since_last_word)
{
  PlLong cpu_time;
  PlLong since_start, since_last;

  cpu_time = Pl_User_Time() + Pl_System_Time();
  since_start = cpu_time;
  since_last = cpu_time - last_cpu_time;
  last_cpu_time = cpu_time;

  return Pl_Un_Integer_Check(since_start, since_start_word) &&
    Pl_Un_Integer_Check(since_last, since_last_word);
}

Bool ref_Pl_Statistics_Real_Time_2(WamWord since_start_word, WamWord since_last_word)
{
  PlLong real_time;
  PlLong since_start, since_last;

  real_time = Pl_Real_Time();
  since_start = real_time;
  since_last = real_time - last_real_time;
  last_real_time = real_time;

  return Pl_Un_Integer_Check(since_start, since_start_word) &&
    Pl_Un_Integer_Check(since_last, since_last_word);
}

Bool ref_Pl_Statistics_Local_Stack_2(WamWord used_word, WamWord free_word)
{
  PlLong used = 0, free = 0;
  int i;

  for (i = 0; i < NB_OF_STACKS; i++)
    if (pl_stk_tbl[i].stack == Local_Stack)
      {
	Stack_Size(i, &used, &free);
	break;
      }

  return Pl_Un_Integer_Check(used, used_word) && Pl_Un_Integer_Check(free, free_word);
}

Bool ref_Pl_Statistics_Global_Stack_2(WamWord used_word, WamWord free_word)
{
  PlLong used = 0, free = 0;
  int i;

  for (i = 0; i < NB_OF_STACKS; i++)
    if (pl_stk_tbl[i].stack == Global_Stack)
      {
	Stack_Size(i, &used, &free);
	break;
      }

  return Pl_Un_Integer_Check(used, used_word) && Pl_Un_Integer_Check(free, free_word);
}

Bool ref_Pl_Statistics_Trail_Stack_2(WamWord used_word, WamWord free_word)
{
  PlLong used = 0, free = 0;
  int i;

  for (i = 0; i < NB_OF_STACKS; i++)
    if (pl_stk_tbl[i].stack == Trail_Stack)
      {
	Stack_Size(i, &used, &free);
	break;
      }

  return Pl_Un_Integer_Check(used, used_word) && Pl_Un_Integer_Check(free, free_word);
}

Bool ref_Pl_Statistics_Cstr_Stack_2(WamWord used_word, WamWord free_word)
{
  PlLong used = 0, free = 0;
  int i;

  for (i = 0; i < NB_OF_STACKS; i++)
    if (pl_stk_tbl[i].stack == Cstr_Stack)
      {
	Stack_Size(i, &used, &free);
	break;
      }

  return Pl_Un_Integer_Check(used, used_word) && Pl_Un_Integer_Check(free, free_word);
}

Bool ref_Pl_Statistics_Atoms_2(WamWord used_word, WamWord free_word)
{
  return Pl_Un_Integer_Check(pl_nb_atom, used_word) &&
    Pl_Un_Integer_Check(pl_max_atom - pl_nb_atom, free_word);
}

void ref_Stack_Size(int stack_nb, PlLong *used, PlLong *free)
{
  *used = Stack_Top(stack_nb) - pl_stk_tbl[stack_nb].stack;
  *free = pl_stk_tbl[stack_nb].size - *used;

  if (pl_stk_tbl[stack_nb].stack == Global_Stack)
    *used += REG_BANK_SIZE;

  *used *= sizeof(WamWord);
  *free *= sizeof(WamWord);
}

Bool ref_Pl_User_Time_1(WamWord since_start_word)
{
  return Pl_Un_Integer_Check(Pl_User_Time(), since_start_word);
}

Bool ref_Pl_System_Time_1(WamWord since_start_word)
{
  return Pl_Un_Integer_Check(Pl_System_Time(), since_start_word);
}

Bool ref_Pl_Cpu_Time_1(WamWord since_start_word)
{
  return Pl_Un_Integer_Check(Pl_User_Time() + Pl_System_Time(),
			  since_start_word);
}

Bool ref_Pl_Real_Time_1(WamWord since_start_word)
{
  return Pl_Un_Integer_Check(Pl_Real_Time(), since_start_word);
}
