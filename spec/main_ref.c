/* What the functions of main.c are to do. */
#include "gp_config.h"
#include <string.h>
#include "engine_pl.h"
#include "macros_ref.h"
#include "wam_ref.h"

int Main_Wrapper(int argc, char *argv[]);
int main(int argc, char *argv[]);


int ref_Main_Wrapper(int argc, char *argv[])
{
  int nb_user_directive;
  Bool top_level;

  nb_user_directive = Pl_Start_Prolog(argc, argv);

  top_level = Pl_Try_Execute_Top_Level();

  Pl_Stop_Prolog();

  if (top_level || nb_user_directive)
    return 0;

  fprintf(stderr,
          "Warning: no initial goal executed\n"
          "   use a directive :- initialization(Goal)\n"
          "   or remove the link option --no-top-level"
          " (or --min-bips or --min-size)\n");

  return 1;
}

int ref_main(int argc, char *argv[])
{
  Pl_Exit_With_Value(Main_Wrapper(argc, argv));
  return 0;
}
