/* What the functions of call_args_c.c are to do. */
#include <string.h>
#include "gp_config.h"
#include "engine_pl.h"
#include "bips_pl.h"
#include "macros_ref.h"
#include "wam_ref.h"

extern int atom_call_with_args;
extern int atom_call;

#define CALL_INTERNAL X1_2463616C6C5F696E7465726E616C

Prolog_Prototype(CALL_INTERNAL, 2);
WamCont Pl_Call_Closure(int atom_bip, int arity_rest);


void ref_Call_Args_Initializer(void)
{
  atom_call_with_args = Pl_Create_Atom("call_with_args");
  atom_call = Pl_Create_Atom("call");
}

WamCont ref_Pl_Call_Closure(int atom_bip, int arity_rest)
{
  int func, arity_clos, arity;
  WamWord *arg_adr = NULL;
  PredInf *pred;
  WamWord *w;
  int i;

  Pl_Set_C_Bip_Name(pl_atom_tbl[atom_bip].name, 1 + arity_rest);
  if (atom_bip == atom_call_with_args) {
    func = Pl_Rd_Atom_Check(A(0));
    arity_clos = 0;
  } else {
    arg_adr = Pl_Rd_Callable_Check(A(0), &func, &arity_clos);
  }

  arity = arity_clos + arity_rest;
  if (arity > MAX_ARITY)
    Pl_Err_Representation(pl_representation_max_arity);

  Pl_Unset_C_Bip_Name();

  if ((pred = Pl_Lookup_Pred(func, arity)) == NULL ||
      (pred->prop & MASK_PRED_CONTROL_CONSTRUCT))
    {
      if (arity > 0)
	{
	  w = H;
	  A(0) = Tag_STC(w);
	  *w++ = Functor_Arity(func, arity);
	  while(arity_clos-- > 0)
	    *w++ = *arg_adr++;
	  for (i = 1; i <= arity_rest; i++)
	    *w++ = A(i);
	  H = w;
	}

      A(1) = Tag_INT(Call_Info(atom_bip, arity_rest + 1, 1));

      return (CodePtr) Prolog_Predicate(CALL_INTERNAL, 2);
    }

  if (arity_clos != 1)
    memmove((void *) &A(arity_clos), &A(1), sizeof(WamWord) * arity_rest);

  w = &A(0);
  while(arity_clos-- > 0)
    *w++ = *arg_adr++;

  if (pred->prop & MASK_PRED_NATIVE_CODE)
    return (WamCont) (pred->codep);

  return Pl_BC_Emulate_Pred(pred->dyn);
}
