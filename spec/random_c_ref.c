/* What the functions of random_c.c are to do. */
#include "gp_config.h"
#include "engine_pl.h"
#include "bips_pl.h"
#include "macros_ref.h"
#include "wam_ref.h"

void Pl_Set_Seed_1(WamWord seed_word);
Bool Pl_Get_Seed_1(WamWord seed_word);
void Pl_Random_1(WamWord n_word);
Bool Pl_Random_3(WamWord l_word, WamWord u_word, WamWord n_word);


void ref_Pl_Set_Seed_1(WamWord seed_word)
{
  Pl_Set_Seed(Pl_Rd_C_Int_Positive_Check(seed_word));
}

Bool ref_Pl_Get_Seed_1(WamWord seed_word)
{
  return Pl_Un_Positive_Check(Pl_Get_Seed(), seed_word);
}

void ref_Pl_Random_1(WamWord n_word)
{
  Pl_Check_For_Un_Variable(n_word);
  Pl_Get_Float(Pl_Random_Float(1.0), n_word);
}

Bool ref_Pl_Random_3(WamWord l_word, WamWord u_word, WamWord n_word)
{
  double l, u;
  PlLong l1, u1;
  PlLong i;
  double d;

  l = Pl_Rd_Number_Check(l_word);
  u = Pl_Rd_Number_Check(u_word);
  Pl_Check_For_Un_Variable(n_word);

  if (l >= u)
    return FALSE;

  l1 = (PlLong) l;
  u1 = (PlLong) u;

  if (l1 == l && u1 == u)
    {
      i = l1 + Pl_Random_Integer(u1 - l1);
      Pl_Get_Integer(i, n_word);
    }
  else
    {
      d = l + Pl_Random_Float(u - l);
      Pl_Get_Float(d, n_word);
    }

  return TRUE;
}
