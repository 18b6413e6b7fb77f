/* What the functions of pred.c are to do. */
#include "gp_config.h"
#include <stdlib.h>
#include <string.h>
#include "engine_pl.h"
#include "macros_ref.h"
#include "wam_ref.h"

#define PRED_FILE

#define ADD_CONTROL_CONSTRUCTS_IN_PRED_TBL

#define ERR_MULTIFILE_PROP "multifile predicate %s/%d not declared consistently\n    in  %s\n    and %s"
void Pl_Init_Pred(void);
PredInf * FC Pl_Create_Pred(int func, int arity, int pl_file, int pl_line, int prop, CodePtr codep);
PredInf * FC Pl_Lookup_Pred(int func, int arity);
void FC Pl_Delete_Pred(int func, int arity);


void ref_Pl_Init_Pred(void)
{

  int file = Pl_Create_Atom(__FILE__);
  int prop = MASK_PRED_NATIVE_CODE | MASK_PRED_CONTROL_CONSTRUCT | MASK_PRED_EXPORTED;

  pl_pred_htbl = Pl_HTBL_Alloc_Table(START_PRED_TBL_SIZE, sizeof(PredInf));

  Pl_Create_Pred(ATOM_CHAR(','), 2, file, __LINE__, prop, NULL);
  Pl_Create_Pred(ATOM_CHAR(';'), 2, file, __LINE__, prop, NULL);
  Pl_Create_Pred(Pl_Create_Atom("->"), 2, file, __LINE__, prop, NULL);
  Pl_Create_Pred(Pl_Create_Atom("*->"), 2, file, __LINE__, prop, NULL);
  Pl_Create_Pred(ATOM_CHAR('!'), 0, file, __LINE__, prop, NULL);
  Pl_Create_Pred(Pl_Create_Atom("fail"), 0, file, __LINE__, prop, NULL);
  Pl_Create_Pred(pl_atom_true, 0, file, __LINE__, prop, NULL);
  Pl_Create_Pred(Pl_Create_Atom("call"), 1, file, __LINE__, prop, NULL);
  Pl_Create_Pred(Pl_Create_Atom("catch"), 3, file, __LINE__, prop, NULL);
  Pl_Create_Pred(Pl_Create_Atom("throw"), 1, file, __LINE__, prop, NULL);

}

PredInf * FC ref_Pl_Create_Pred(int func, int arity, int pl_file, int pl_line, int prop, CodePtr codep)
{
  PredInf pred_info;
  PredInf *pred;
  PlLong key = Functor_Arity(func, arity);

  if (prop & (MASK_PRED_BUILTIN_FD | MASK_PRED_CONTROL_CONSTRUCT))
    prop |= MASK_PRED_BUILTIN;

  pred_info.f_n = key;
  pred_info.prop = prop;
  pred_info.pl_file = pl_file;
  pred_info.pl_line = pl_line;
  pred_info.codep = codep;
  pred_info.dyn = NULL;

  Pl_Extend_HTBL_If_Needed(&pl_pred_htbl);
  pred = (PredInf *) Pl_HTBL_Insert(pl_pred_htbl, (char *) &pred_info, FALSE);

  if (prop != pred->prop)
    {
      Pl_Fatal_Error(ERR_MULTIFILE_PROP, pl_atom_tbl[func].name, arity,
		     pl_atom_tbl[pred->pl_file].name, pl_atom_tbl[pl_file].name);
      pred->prop = prop;
    }

  pred->pl_file = pl_file;
  pred->pl_line = pl_line;

  return pred;
}

PredInf * FC ref_Pl_Lookup_Pred(int func, int arity)
{
  PlLong key = Functor_Arity(func, arity);

  return (PredInf *) Pl_HTBL_Find(pl_pred_htbl, key);
}

void FC ref_Pl_Delete_Pred(int func, int arity)
{
  PlLong key = Functor_Arity(func, arity);

  Pl_HTBL_Delete(pl_pred_htbl, key);
}
