/* What the functions of flag_supp.c are to do. */
#include "gp_config.h"
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include "engine_pl.h"
#include "bips_pl.h"
#include "macros_ref.h"
#include "wam_ref.h"

#define NB_OF_FLAGS 64

extern FlagInf flag_tbl[NB_OF_FLAGS];
extern int nb_flag;

FlagInf *Prolog_Flag_Lookup(int atom_name);

#define CURRENT_PROLOG_FLAG_ALT X1_2463757272656E745F70726F6C6F675F666C61675F616C74

Prolog_Prototype(CURRENT_PROLOG_FLAG_ALT, 0);
WamWord Fct_Get_Integer(FlagInf *flag);
Bool Fct_Chk_Integer(FlagInf *flag, WamWord tag_mask, WamWord value_word);
Bool Fct_Set_Integer(FlagInf *flag, WamWord value_word);
WamWord Fct_Get_Atom(FlagInf *flag);
Bool Fct_Chk_Atom(FlagInf *flag, WamWord tag_mask, WamWord value_word);
Bool Fct_Set_Atom(FlagInf *flag, WamWord value_word);
WamWord Fct_Get_Atom_Tbl(FlagInf *flag);
Bool Fct_Chk_Atom_Tbl(FlagInf *flag, WamWord tag_mask, WamWord value_word);
Bool Fct_Set_Atom_Tbl(FlagInf *flag, WamWord value_word);
FlagInf * Pl_New_Prolog_Flag(char *name, Bool modifiable, FlagType type, PlLong value, FlagFctGet fct_get, FlagFctChk fct_chk, FlagFctSet fct_set, ...);
FlagInf * Prolog_Flag_Lookup(int atom_name);
Bool Pl_Set_Prolog_Flag_2(WamWord flag_word, WamWord value_word);
Bool Pl_Current_Prolog_Flag_2(WamWord flag_word, WamWord value_word);
Bool Pl_Current_Prolog_Flag_Alt_0(void);


WamWord ref_Fct_Get_Integer(FlagInf *flag)
{
  return Tag_INT(flag->value);
}

Bool ref_Fct_Chk_Integer(FlagInf *flag, WamWord tag_mask, WamWord value_word)
{
  return tag_mask == TAG_INT_MASK;
}

Bool ref_Fct_Set_Integer(FlagInf *flag, WamWord value_word)
{
  flag->value = UnTag_INT(value_word);
  return TRUE;
}

WamWord ref_Fct_Get_Atom(FlagInf *flag)
{
  return Tag_ATM(flag->value);
}

Bool ref_Fct_Chk_Atom(FlagInf *flag, WamWord tag_mask, WamWord value_word)
{
  return tag_mask == TAG_ATM_MASK;
}

Bool ref_Fct_Set_Atom(FlagInf *flag, WamWord value_word)
{
  flag->value = UnTag_ATM(value_word);
  return TRUE;
}

WamWord ref_Fct_Get_Atom_Tbl(FlagInf *flag)
{
  return Tag_ATM(flag->tbl_atom[flag->value]);
}

Bool ref_Fct_Chk_Atom_Tbl(FlagInf *flag, WamWord tag_mask, WamWord value_word)
{
  int atom;
  int i;

  if (tag_mask != TAG_ATM_MASK)
    return FALSE;

  atom = UnTag_ATM(value_word);
  for(i = 0; flag->tbl_atom[i] >= 0 && flag->tbl_atom[i] != atom; i++)
    ;

  return (flag->tbl_atom[i] == atom);
}

Bool ref_Fct_Set_Atom_Tbl(FlagInf *flag, WamWord value_word)
{
  int atom;
  int i;

  atom = UnTag_ATM(value_word);
  for(i = 0; flag->tbl_atom[i] != atom; i++)
    ;

  flag->value = i;
  return TRUE;
}

FlagInf * ref_Pl_New_Prolog_Flag(char *name, Bool modifiable, FlagType type, PlLong value, FlagFctGet fct_get, FlagFctChk fct_chk, FlagFctSet fct_set, ...)
{
  int atom_name;
  FlagInf *flag;

  atom_name = Pl_Create_Atom(name);

  if (nb_flag == NB_OF_FLAGS)
    Pl_Fatal_Error("Flag table full - increase NB_OF_FLAGS = %d", NB_OF_FLAGS);

  flag = flag_tbl + nb_flag++;

  flag->atom_name = atom_name;
  flag->modifiable = modifiable;
  flag->type = type;
  flag->value = value;

  flag->fct_get = fct_get;
  flag->fct_chk = fct_chk;
  flag->fct_set = fct_set;

  if (fct_get == NULL)
    {
      switch(type)
	{
	case PF_TYPE_INTEGER:
	  flag->fct_get = Fct_Get_Integer;
	  break;

	case PF_TYPE_ATOM:
	  flag->fct_get = Fct_Get_Atom;
	  break;

	case PF_TYPE_ATOM_TBL:
	  flag->fct_get = Fct_Get_Atom_Tbl;
	  break;

	case PF_TYPE_ANY:
	  break;
	}
    }

  if (fct_chk == NULL)
    {
      switch(type)
	{
	case PF_TYPE_INTEGER:
	  flag->fct_chk = Fct_Chk_Integer;
	  break;

	case PF_TYPE_ATOM:
	  flag->fct_chk = Fct_Chk_Atom;
	  break;

	case PF_TYPE_ATOM_TBL:
	  flag->fct_chk = Fct_Chk_Atom_Tbl;
	  break;

	case PF_TYPE_ANY:
	  break;
	}
    }

  if (modifiable && fct_set == NULL)
    {
      switch(type)
	{
	case PF_TYPE_INTEGER:
	  flag->fct_set = Fct_Set_Integer;
	  break;

	case PF_TYPE_ATOM:
	  flag->fct_set = Fct_Set_Atom;
	  break;

	case PF_TYPE_ATOM_TBL:
	  flag->fct_set = Fct_Set_Atom_Tbl;
	  break;

	case PF_TYPE_ANY:
	  break;
	}
    }

  if (flag->type == PF_TYPE_ATOM_TBL)
    {
      va_list ap, ap2;
      int nb_elem, i;

      va_start(ap, fct_set);
      va_copy(ap2, ap);
      nb_elem = 0;
      do
	nb_elem++;
      while(va_arg(ap, int) >= 0);
      va_end(ap);

      flag->tbl_atom = Calloc(nb_elem, sizeof(int));
      for(i = 0; i < nb_elem; i++)
	flag->tbl_atom[i] = va_arg(ap2, int);
      va_end(ap2);
    }

  return flag;
}

FlagInf * ref_Prolog_Flag_Lookup(int atom_name)
{
  int i;
  for(i = 0; i < nb_flag; i++)
    {
      if (flag_tbl[i].atom_name == atom_name)
	return flag_tbl + i;
    }

  return NULL;
}

Bool ref_Pl_Set_Prolog_Flag_2(WamWord flag_word, WamWord value_word)
{
  WamWord word, tag_mask;
  int atom_name;
  FlagInf *flag;

  atom_name = Pl_Rd_Atom_Check(flag_word);

  flag = Prolog_Flag_Lookup(atom_name);

  if (flag == NULL)
    Pl_Err_Domain(pl_domain_prolog_flag, flag_word);

  DEREF(value_word, word, tag_mask);
  if (tag_mask == TAG_REF_MASK)
    Pl_Err_Instantiation();
  value_word = word;

  if (flag->fct_chk != NULL && !(*flag->fct_chk)(flag, tag_mask, value_word))
    {
      word = Pl_Put_Structure(ATOM_CHAR('+'), 2);
      Pl_Unify_Value(flag_word);
      Pl_Unify_Value(value_word);

      Pl_Err_Domain(pl_domain_flag_value, word);
    }

  if (!flag->modifiable)
    {
      Pl_Err_Permission(pl_permission_operation_modify, pl_permission_type_flag, flag_word);
    }

  return (*flag->fct_set)(flag, value_word);
}

Bool ref_Pl_Current_Prolog_Flag_2(WamWord flag_word, WamWord value_word)
{
  WamWord word, tag_mask;
  int atom_name;
  FlagInf *flag;
  int i;

  DEREF(flag_word, word, tag_mask);
  if (tag_mask != TAG_REF_MASK)
    {
      atom_name = Pl_Rd_Atom_Check(word);

      flag = Prolog_Flag_Lookup(atom_name);

      if (flag == NULL)
	Pl_Err_Domain(pl_domain_prolog_flag, flag_word);

      return Pl_Unify((*flag->fct_get)(flag), value_word);
    }

  i = 0;

  A(0) = flag_word;
  A(1) = value_word;
  A(2) = i + 1;
  Pl_Create_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_PROLOG_FLAG_ALT, 0), 3);

  flag = flag_tbl + i;
  Pl_Get_Atom(flag->atom_name, flag_word);

  return Pl_Unify((*flag->fct_get)(flag), value_word);
}

Bool ref_Pl_Current_Prolog_Flag_Alt_0(void)
{
  WamWord flag_word, value_word;
  FlagInf *flag;
  int i;

  Pl_Update_Choice_Point((CodePtr) Prolog_Predicate(CURRENT_PROLOG_FLAG_ALT, 0), 0);

  flag_word = AB(B, 0);
  value_word = AB(B, 1);
  i = (int) AB(B, 2);
  flag = flag_tbl + i;

  if (i + 1 == nb_flag)
    Delete_Last_Choice_Point();
  else
    {

      AB(B, 2) = i + 1;
    }

  Pl_Get_Atom(flag->atom_name, flag_word);

  return Pl_Unify((*flag->fct_get)(flag), value_word);
}
