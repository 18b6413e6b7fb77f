/* What the functions of control_c.c are to do. */
#include "gp_config.h"
#include "engine_pl.h"
#include "bips_pl.h"
#include "macros_ref.h"
#include "wam_ref.h"

#define BETWEEN_ALT X1_246265747765656E5F616C74

Prolog_Prototype(BETWEEN_ALT, 0);
WamCont Pl_Halt_If_No_Top_Level_1(WamWord exit_code_word);
void Pl_Halt_1(WamWord exit_code_word);
Bool Pl_Between_3(WamWord l_word, WamWord u_word, WamWord i_word);
void Pl_Between_Alt_0(void);


WamCont ref_Pl_Halt_If_No_Top_Level_1(WamWord exit_code_word)
{
  PredInf *pred;
  int x;

  x = (int) Pl_Rd_Integer_Check(exit_code_word);

  if (SYS_VAR_TOP_LEVEL == 0)
    Pl_Exit_With_Value(x);

  pred = Pl_Lookup_Pred(Pl_Create_Atom((x) ? "$top_level_abort" : "$top_level_stop"), 0);

  if (pred == NULL)
    Pl_Exit_With_Value(x);

  return (WamCont) (pred->codep);
}

void ref_Pl_Halt_1(WamWord exit_code_word)
{
  Pl_Exit_With_Value((int) Pl_Rd_Integer_Check(exit_code_word));
}

Bool ref_Pl_Between_3(WamWord l_word, WamWord u_word, WamWord i_word)
{
  WamWord word, tag_mask;
  PlLong l, u, i;

  l = Pl_Rd_Integer_Check(l_word);
  u = Pl_Rd_Integer_Check(u_word);

  DEREF(i_word, word, tag_mask);
  if (tag_mask != TAG_REF_MASK)
    {
      i = Pl_Rd_Integer_Check(word);
      return i >= l && i <= u;
    }
  i_word = word;

  if (l > u)
    return FALSE;

  if (l < u)
    {
      A(0) = l + 1;
      A(1) = u;
      A(2) = i_word;
      Pl_Create_Choice_Point((CodePtr) Prolog_Predicate(BETWEEN_ALT, 0), 3);
    }

  return Pl_Get_Integer(l, i_word);
}

void ref_Pl_Between_Alt_0(void)
{
  PlLong l, u;
  WamWord i_word;

  Pl_Update_Choice_Point((CodePtr) Prolog_Predicate(BETWEEN_ALT, 0), 0);

  l = AB(B, 0);
  u = AB(B, 1);
  i_word = AB(B, 2);

  if (l == u)
    Delete_Last_Choice_Point();
  else
    {
      AB(B, 0) = l + 1;

    }

  Pl_Get_Integer(l, i_word);
}
