/* What the functions of ctrl_c.c are to do. */
#include "../EnginePl/gp_config.h"

#include <stdio.h>
#include <signal.h>

#include <unistd.h>

#include "../EnginePl/pl_long.h"
#include "macros_ref.h"

PlLong (*ctrl_c_handler) (int);
extern int from_callback;
extern PlLong ret_val;
extern int inside_ctrl_c;
void Wrapper_Handler(int sig);
PlLong Pl_Emit_Ctrl_C(void);
void Pl_Install_Ctrl_C_Handler(PlLong (*handler) (int));


void ref_Wrapper_Handler(int sig)
{

  sigset_t set;

  int from_callback1;

  sigemptyset(&set);
  sigaddset(&set, sig);
  sigprocmask(SIG_UNBLOCK, &set, NULL);

  if (inside_ctrl_c)
    {
      printf("Already in a Ctrl+C handler - ignored\n");
      fflush(stdout);
      ret_val = 0;
    }
  else
    {
      inside_ctrl_c = from_callback;

      from_callback1 = from_callback;
      from_callback = 0;
      ret_val = (*ctrl_c_handler) (from_callback1);
    }

  inside_ctrl_c = 0;

}

PlLong ref_Pl_Emit_Ctrl_C(void)
{
  from_callback = 1;

  kill(getpid(), SIGINT);

  return ret_val;

}

void ref_Pl_Install_Ctrl_C_Handler(PlLong (*handler) (int))
{
  ctrl_c_handler = handler;

  signal(SIGINT, Wrapper_Handler);

}
