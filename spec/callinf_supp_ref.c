/* What the functions of callinf_supp.c are to do. */
#include "gp_config.h"
#include "engine_pl.h"
#include "bips_pl.h"
#include "macros_ref.h"
#include "wam_ref.h"

extern PlLong save_call_info;
void Pl_Save_Call_Info_3(WamWord func_word, WamWord arity_word, WamWord debug_call_word);
void Pl_Load_Call_Info_Arg_1(WamWord arg_no_word);
void Pl_Call_Info_Bip_Name_1(WamWord call_info_word);


void ref_Pl_Save_Call_Info_3(WamWord func_word, WamWord arity_word, WamWord debug_call_word)
{
  int func, arity;
  Bool debug_call;

  func = Pl_Rd_Atom(func_word);
  arity = Pl_Rd_C_Int(arity_word);
  debug_call = *Pl_Rd_String(debug_call_word) == 't';

  save_call_info = Call_Info(func, arity, debug_call);
}

void ref_Pl_Load_Call_Info_Arg_1(WamWord arg_no_word)
{
  int arg_no;

  arg_no = Pl_Rd_C_Int(arg_no_word);
  A(arg_no) = Tag_INT(save_call_info);
}

void ref_Pl_Call_Info_Bip_Name_1(WamWord call_info_word)
{
  PlLong call_info;
  int func, arity;

  call_info = UnTag_INT(call_info_word) >> 1;

  func = Functor_Of(call_info);
  arity = Arity_Of(call_info);

  Pl_Set_Bip_Name_2(Tag_ATM(func), Tag_INT(arity));
}
