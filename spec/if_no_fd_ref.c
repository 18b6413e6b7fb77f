/* What the functions of if_no_fd.c are to do. */
#include "gp_config.h"
#include "engine_pl.h"
#include "macros_ref.h"
#include "wam_ref.h"

#define IF_NO_FD_FILE

#define ERR_FD_SOLVER_MISSING __FILE__ ": FD Solver not linked"

void Fd_Solver_Missing(void);
void Pl_Fd_Init_Solver(void);
void Pl_Fd_Reset_Solver(void);
void Fd_Solver_Missing(void);


void ref_Pl_Fd_Init_Solver(void)
{
  if (pl_fd_init_solver == NULL)
    {
      pl_fd_unify_with_integer = (Bool (*)(WamWord *, PlLong)) Fd_Solver_Missing;
      pl_fd_unify_with_fd_var = (Bool (*)(WamWord *, WamWord *)) Fd_Solver_Missing;
      pl_fd_variable_size = (int (*)(WamWord *)) Fd_Solver_Missing;
      pl_fd_copy_variable = (int (*)(WamWord *, WamWord *)) Fd_Solver_Missing;
      pl_fd_variable_to_string = (char *(*)(WamWord *)) Fd_Solver_Missing;
      return;
    }

  (*pl_fd_init_solver) ();
}

void ref_Pl_Fd_Reset_Solver(void)
{
  void (*copy_of_pl_fd_reset_solver) () = Pl_Dummy_Ptr(pl_fd_reset_solver);

  if (copy_of_pl_fd_reset_solver == NULL)
    return;

  (*copy_of_pl_fd_reset_solver) ();
}

void ref_Fd_Solver_Missing(void)
{
  Pl_Fatal_Error(ERR_FD_SOLVER_MISSING);
}
