/* What the functions of unit_ctor.c are to do. */
#include <stdio.h>
#include "gp_config.h"
#include "pl_params.h"
#include "unit_ctor.h"
#include "macros_ref.h"

void Pl_Fatal_Error(char *format, ...);

typedef struct
{
  void (*fct_unit_init) ();
  void (*fct_exec_system) ();
  void (*fct_exec_user) ();
}
UnitInf;

extern UnitInf unit_tbl[MAX_UNIT];
extern int nb_unit;

#define FOR_EACH_UNIT_FROM_LAST_TO_FIRST for(i = nb_unit; --i >= 0; )
#define FOR_EACH_UNIT_FROM_FIRST_TO_LAST for(i = 0; i < nb_unit; i++)
void Pl_Initialize_Units(void);
void Pl_Register_Unit(void (*fct_unit_init)(), void (*fct_exec_system) (), void (*fct_exec_user) ());


void ref_Pl_Initialize_Units(void)
{
  int i;

  FOR_EACH_UNIT_FROM_LAST_TO_FIRST
    {
      if (unit_tbl[i].fct_unit_init != NULL) {

	(*(unit_tbl[i].fct_unit_init)) ();
      }
    }
  FOR_EACH_UNIT_FROM_FIRST_TO_LAST
    {
      if (unit_tbl[i].fct_exec_system != NULL) {

	(*(unit_tbl[i].fct_exec_system)) ();
      }
    }

  FOR_EACH_UNIT_FROM_LAST_TO_FIRST
    {
      if (unit_tbl[i].fct_exec_user != NULL) {

	(*(unit_tbl[i].fct_exec_user)) ();
      }
    }
}

void ref_Pl_Register_Unit(void (*fct_unit_init)(), void (*fct_exec_system) (), void (*fct_exec_user) ())
{

  unit_tbl[nb_unit].fct_unit_init = fct_unit_init;
  unit_tbl[nb_unit].fct_exec_system = fct_exec_system;
  unit_tbl[nb_unit].fct_exec_user = fct_exec_user;
  nb_unit++;
}
