/* What the functions of le_interf_c.c are to do. */
#include "gp_config.h"
#include <ctype.h>
#include "engine_pl.h"
#include "bips_pl.h"
#include "linedit.h"
#include "macros_ref.h"
#include "wam_ref.h"

extern ComplMatch compl_match;

#define FIND_LINEDIT_COMPLETION_ALT X1_2466696E645F6C696E656469745F636F6D706C6574696F6E5F616C74

Prolog_Prototype(FIND_LINEDIT_COMPLETION_ALT, 0);
Bool Pl_Get_Linedit_Prompt_1(WamWord prompt_word);
void Pl_Set_Linedit_Prompt_1(WamWord prompt_word);
Bool Pl_Add_Linedit_Completion_1(WamWord compl_word);
Bool Pl_Find_Linedit_Completion_2(WamWord prefix_word, WamWord compl_word);
Bool Pl_Find_Linedit_Completion_Alt_0(void);


Bool ref_Pl_Get_Linedit_Prompt_1(WamWord prompt_word)
{
  return Pl_Un_String_Check(pl_le_prompt, prompt_word);
}

void ref_Pl_Set_Linedit_Prompt_1(WamWord prompt_word)
{
  pl_le_prompt = pl_atom_tbl[Pl_Rd_Atom_Check(prompt_word)].name;
}

Bool ref_Pl_Add_Linedit_Completion_1(WamWord compl_word)
{
  int atom;
  AtomProp prop;
  char *p;

  atom = Pl_Rd_Atom_Check(compl_word);
  prop = pl_atom_tbl[atom].prop;

  if (prop.length == 0)
    return FALSE;

  if (prop.type != IDENTIFIER_ATOM)
    {
      for (p = pl_atom_tbl[atom].name; *p; p++)
	if (!isalnum(*p) && *p != '_')
	  return FALSE;
    }

  Pl_LE_Compl_Add_Word(pl_atom_tbl[atom].name, prop.length);
  return TRUE;
}

Bool ref_Pl_Find_Linedit_Completion_2(WamWord prefix_word, WamWord compl_word)
{
  int prefix_atom = Pl_Rd_Atom_Check(prefix_word);
  char *prefix = pl_atom_tbl[prefix_atom].name;
  int prefix_length = pl_atom_tbl[prefix_atom].prop.length;

  Pl_Check_For_Un_Atom(compl_word);

  if (!Pl_LE_Compl_Match_First(&compl_match, prefix, prefix_length))
    return FALSE;

  if (compl_match.nb_match > 1)
    {
      A(0) = compl_word;
      Pl_Create_Choice_Point((CodePtr) Prolog_Predicate(FIND_LINEDIT_COMPLETION_ALT, 0), 1);
    }

  return Pl_Get_Atom(Pl_Create_Atom(compl_match.cur_word), compl_word);
}

Bool ref_Pl_Find_Linedit_Completion_Alt_0(void)
{
  WamWord compl_word;

  Pl_Update_Choice_Point((CodePtr) Prolog_Predicate(FIND_LINEDIT_COMPLETION_ALT, 0), 0);
  compl_word = AB(B, 0);

  Pl_LE_Compl_Match_Next(&compl_match);

  if (compl_match.cur_no >= compl_match.nb_match - 1)
    Delete_Last_Choice_Point();

  return Pl_Get_Atom(Pl_Create_Atom(compl_match.cur_word), compl_word);
}
