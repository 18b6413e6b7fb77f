/* What the functions of g_var_inl_c.c are to do. */
#include <stdlib.h>
#include "engine_pl.h"
#include "bips_pl.h"
#include "macros_ref.h"
#include "wam_ref.h"

#define G_INITIAL_VALUE Tag_INT(0)

#define G_ARRAY 0
#define G_ARRAY_AUTO 1
#define G_ARRAY_EXTEND 2

#define G_IMPOSSIBLE_SIZE ((unsigned int) -1 >> 1)
#define MAX_AUTO_SIZE (1 << 20)

typedef struct gundo *PGUndo;

typedef struct
{
  PlLong size;
  WamWord val;
  PGUndo undo;
}
GVarElt;

typedef struct gundo
{
  GVarElt *g_elem;
  PlLong save_size;
  WamWord save_val;
  PGUndo next;
  PGUndo prev;
} GUndo;

typedef struct
{
  GVarElt *g_elem;
  WamWord *g_arg;
} GTarget;

extern GTarget g_target;

extern int atom_g_array;
extern int atom_g_array_auto;
extern int atom_g_array_extend;

void G_Assign(WamWord gvar_word, WamWord gval_word, Bool backtrack, Bool copy);

void G_Assign_Element(GVarElt *g_elem, WamWord gval_word, Bool backtrack, Bool copy);

void G_Assign_Arg(GVarElt *g_elem, WamWord *g_arg, WamWord word);

void G_Assign_Array(GVarElt *g_elem, WamWord *stc_adr, int array_op, Bool backtrack, Bool copy);

GVarElt *G_Alloc_Array(GVarElt *g_elem, PlLong new_size, Bool backtrack);

GTarget *Get_Target_From_Gvar(WamWord gvar_word);

GTarget *Get_Target_From_Selector(WamWord *stc_adr);

WamWord *Get_Term_Addr_From_Target(GTarget *gt);

WamWord *Get_Int_Addr_From_Gvar(WamWord gvar_word);

PlLong Get_Int_From_Gvar(WamWord gvar_word);

PlLong Get_Int_From_Word(WamWord start_word);

void G_Free_Element(GVarElt *g_elem, Bool reinit_undo);

void G_Copy_Element(GVarElt *dst_g_elem, GVarElt *src_g_elem);

void G_Trail_For_Backtrack(GVarElt *g_elem, PlLong save_size, WamWord save_val);

void G_Untrail(int n, WamWord *arg_frame);

Bool G_Read(WamWord gvar_word, WamWord gval_word);

Bool G_Read_Element(GVarElt *g_elem, WamWord gval_word);

Bool G_Array_Size(WamWord gvar_word, WamWord size_word);

Bool G_Inc_Dec(WamWord gvar_word, int inc, WamWord old_word, WamWord new_word);

void G_Set_Bit(WamWord gvar_word, WamWord bit_word);

void G_Reset_Bit(WamWord gvar_word, WamWord bit_word);

Bool G_Test_Set_Bit(WamWord gvar_word, WamWord bit_word);

Bool G_Test_Reset_Bit(WamWord gvar_word, WamWord bit_word);
void FC Pl_Blt_G_Assign(WamWord x_word, WamWord y_word);
void FC Pl_Blt_G_Assignb(WamWord x_word, WamWord y_word);
void FC Pl_Blt_G_Link(WamWord x_word, WamWord y_word);
Bool FC Pl_Blt_G_Read(WamWord x_word, WamWord y_word);
Bool FC Pl_Blt_G_Array_Size(WamWord x_word, WamWord y_word);
void FC Pl_Blt_G_Inc(WamWord x_word);
Bool FC Pl_Blt_G_Inco(WamWord x_word, WamWord y_word);
Bool FC Pl_Blt_G_Inc_2(WamWord x_word, WamWord y_word);
Bool FC Pl_Blt_G_Inc_3(WamWord x_word, WamWord y_word, WamWord z_word);
void FC Pl_Blt_G_Dec(WamWord x_word);
Bool FC Pl_Blt_G_Deco(WamWord x_word, WamWord y_word);
Bool FC Pl_Blt_G_Dec_2(WamWord x_word, WamWord y_word);
Bool FC Pl_Blt_G_Dec_3(WamWord x_word, WamWord y_word, WamWord z_word);
void FC Pl_Blt_G_Set_Bit(WamWord x_word, WamWord y_word);
void FC Pl_Blt_G_Reset_Bit(WamWord x_word, WamWord y_word);
Bool FC Pl_Blt_G_Test_Set_Bit(WamWord x_word, WamWord y_word);
Bool FC Pl_Blt_G_Test_Reset_Bit(WamWord x_word, WamWord y_word);
void G_Assign(WamWord gvar_word, WamWord gval_word, Bool backtrack, Bool copy);
void G_Assign_Element(GVarElt *g_elem, WamWord gval_word, Bool backtrack, Bool copy);
void G_Assign_Arg(GVarElt *g_elem, WamWord *g_arg, WamWord word);
void G_Assign_Array(GVarElt *g_elem, WamWord *stc_adr, int array_op, Bool backtrack, Bool copy);
GVarElt * G_Alloc_Array(GVarElt *g_elem, PlLong new_size, Bool backtrack);
GTarget * Get_Target_From_Gvar(WamWord gvar_word);
GTarget * Get_Target_From_Selector(WamWord *stc_adr);
WamWord * Get_Term_Addr_From_Target(GTarget *gt);
WamWord * Get_Int_Addr_From_Gvar(WamWord gvar_word);
PlLong Get_Int_From_Gvar(WamWord gvar_word);
PlLong Get_Int_From_Word(WamWord start_word);
void G_Free_Element(GVarElt *g_elem, Bool reinit_undo);
void G_Copy_Element(GVarElt *dst_g_elem, GVarElt *src_g_elem);
void G_Trail_For_Backtrack(GVarElt *g_elem, PlLong save_size, WamWord save_val);
void G_Untrail(int n, WamWord *arg_frame);
Bool G_Read(WamWord gvar_word, WamWord gval_word);
Bool G_Read_Element(GVarElt *g_elem, WamWord gval_word);
Bool G_Array_Size(WamWord gvar_word, WamWord size_word);
Bool G_Inc_Dec(WamWord gvar_word, int inc, WamWord old_word, WamWord new_word);
void G_Set_Bit(WamWord gvar_word, WamWord bit_word);
void G_Reset_Bit(WamWord gvar_word, WamWord bit_word);
Bool G_Test_Set_Bit(WamWord gvar_word, WamWord bit_word);
Bool G_Test_Reset_Bit(WamWord gvar_word, WamWord bit_word);


void ref_G_Var_Initializer(void)
{
  atom_g_array = Pl_Create_Atom("g_array");
  atom_g_array_auto = Pl_Create_Atom("g_array_auto");
  atom_g_array_extend = Pl_Create_Atom("g_array_extend");
}

void FC ref_Pl_Blt_G_Assign(WamWord x_word, WamWord y_word)
{
  Pl_Set_C_Bip_Name("g_assign", 2);
  G_Assign(x_word, y_word, FALSE, TRUE);
  Pl_Unset_C_Bip_Name();
}

void FC ref_Pl_Blt_G_Assignb(WamWord x_word, WamWord y_word)
{
  Pl_Set_C_Bip_Name("g_assignb", 2);
  G_Assign(x_word, y_word, TRUE, TRUE);
  Pl_Unset_C_Bip_Name();
}

void FC ref_Pl_Blt_G_Link(WamWord x_word, WamWord y_word)
{
  Pl_Set_C_Bip_Name("g_link", 2);
  G_Assign(x_word, y_word, TRUE, FALSE);
  Pl_Unset_C_Bip_Name();
}

Bool FC ref_Pl_Blt_G_Read(WamWord x_word, WamWord y_word)
{
  Bool res;

  Pl_Set_C_Bip_Name("g_read", 2);
  res = G_Read(x_word, y_word);
  Pl_Unset_C_Bip_Name();
  return res;
}

Bool FC ref_Pl_Blt_G_Array_Size(WamWord x_word, WamWord y_word)
{
  Bool res;

  Pl_Set_C_Bip_Name("g_array_size", 2);
  res = G_Array_Size(x_word, y_word);
  Pl_Unset_C_Bip_Name();
  return res;
}

void FC ref_Pl_Blt_G_Inc(WamWord x_word)
{
  Pl_Set_C_Bip_Name("g_inc", 1);
  G_Inc_Dec(x_word, 1, NOT_A_WAM_WORD, NOT_A_WAM_WORD);
  Pl_Unset_C_Bip_Name();
}

Bool FC ref_Pl_Blt_G_Inco(WamWord x_word, WamWord y_word)
{
  Bool res;

  Pl_Set_C_Bip_Name("g_inco", 2);
  res = G_Inc_Dec(x_word, 1, y_word, NOT_A_WAM_WORD);
  Pl_Unset_C_Bip_Name();
  return res;
}

Bool FC ref_Pl_Blt_G_Inc_2(WamWord x_word, WamWord y_word)
{
  Bool res;

  Pl_Set_C_Bip_Name("g_inc", 2);
  res = G_Inc_Dec(x_word, 1, NOT_A_WAM_WORD, y_word);
  Pl_Unset_C_Bip_Name();
  return res;
}

Bool FC ref_Pl_Blt_G_Inc_3(WamWord x_word, WamWord y_word, WamWord z_word)
{
  Bool res;

  Pl_Set_C_Bip_Name("g_inc", 3);
  res = G_Inc_Dec(x_word, 1, y_word, z_word);
  Pl_Unset_C_Bip_Name();
  return res;
}

void FC ref_Pl_Blt_G_Dec(WamWord x_word)
{
  Pl_Set_C_Bip_Name("g_dec", 1);
  G_Inc_Dec(x_word, -1, NOT_A_WAM_WORD, NOT_A_WAM_WORD);
  Pl_Unset_C_Bip_Name();
}

Bool FC ref_Pl_Blt_G_Deco(WamWord x_word, WamWord y_word)
{
  Bool res;

  Pl_Set_C_Bip_Name("g_deco", 2);
  res = G_Inc_Dec(x_word, -1, y_word, NOT_A_WAM_WORD);
  Pl_Unset_C_Bip_Name();
  return res;
}

Bool FC ref_Pl_Blt_G_Dec_2(WamWord x_word, WamWord y_word)
{
  Bool res;

  Pl_Set_C_Bip_Name("g_dec", 2);
  res = G_Inc_Dec(x_word, -1, NOT_A_WAM_WORD, y_word);
  Pl_Unset_C_Bip_Name();
  return res;
}

Bool FC ref_Pl_Blt_G_Dec_3(WamWord x_word, WamWord y_word, WamWord z_word)
{
  Bool res;

  Pl_Set_C_Bip_Name("g_dec", 3);
  res = G_Inc_Dec(x_word, -1, y_word, z_word);
  Pl_Unset_C_Bip_Name();
  return res;
}

void FC ref_Pl_Blt_G_Set_Bit(WamWord x_word, WamWord y_word)
{
  Pl_Set_C_Bip_Name("g_set_bit", 2);
  G_Set_Bit(x_word, y_word);
  Pl_Unset_C_Bip_Name();
}

void FC ref_Pl_Blt_G_Reset_Bit(WamWord x_word, WamWord y_word)
{
  Pl_Set_C_Bip_Name("g_reset_bit", 2);
  G_Reset_Bit(x_word, y_word);
  Pl_Unset_C_Bip_Name();
}

Bool FC ref_Pl_Blt_G_Test_Set_Bit(WamWord x_word, WamWord y_word)
{
  Bool res;

  Pl_Set_C_Bip_Name("g_test_set_bit", 2);
  res = G_Test_Set_Bit(x_word, y_word);
  Pl_Unset_C_Bip_Name();
  return res;
}

Bool FC ref_Pl_Blt_G_Test_Reset_Bit(WamWord x_word, WamWord y_word)
{
  Bool res;

  Pl_Set_C_Bip_Name("g_test_reset_bit", 2);
  res = G_Test_Reset_Bit(x_word, y_word);
  Pl_Unset_C_Bip_Name();
  return res;
}

void ref_G_Assign(WamWord gvar_word, WamWord gval_word, Bool backtrack, Bool copy)
{
  GTarget *gt = Get_Target_From_Gvar(gvar_word);
  GVarElt *g_elem = gt->g_elem;
  WamWord *g_arg = gt->g_arg;

  if (g_arg != NULL)
    {
      if (backtrack)
	Pl_Err_Domain(pl_domain_g_argument_selector, gvar_word);
      G_Assign_Arg(g_elem, g_arg, gval_word);
    }
  else
    G_Assign_Element(g_elem, gval_word, backtrack, copy);
}

void ref_G_Assign_Element(GVarElt *g_elem, WamWord gval_word, Bool backtrack, Bool copy)
{
  WamWord word, tag_mask;
  WamWord *adr;
  PlLong size;
  int atom;
  PlLong save_size;
  WamWord save_val;
  int array_op;

  save_size = g_elem->size;
  save_val = g_elem->val;

  DEREF(gval_word, word, tag_mask);

  if (tag_mask != TAG_STC_MASK)
    goto not_an_array;

  adr = UnTag_STC(word);
  atom = Functor(adr);

  if (atom == atom_g_array)
    array_op = G_ARRAY;
  else if (atom == atom_g_array_auto)
    array_op = G_ARRAY_AUTO;
  else if (atom == atom_g_array_extend)
    array_op = G_ARRAY_EXTEND;
  else goto not_an_array;

  G_Assign_Array(g_elem, adr, array_op, backtrack, copy);
  goto finish;

 not_an_array:

  if (!backtrack)
    G_Free_Element(g_elem, TRUE);

  if (!copy || tag_mask == TAG_ATM_MASK || tag_mask == TAG_INT_MASK)
    {
      if (tag_mask == TAG_REF_MASK && Is_A_Local_Adr(adr = UnTag_REF(word)))
	Globalize_Local_Unbound_Var(adr, word);

      g_elem->size = 0;
      Do_Copy_Of_Word(tag_mask, word);
      g_elem->val = word;
      goto finish;
    }

  size = Pl_Term_Size(word);

  adr = (WamWord *) Malloc(size * sizeof(WamWord));

  g_elem->size = size;
  g_elem->val = (WamWord) adr;

  Pl_Copy_Term(adr, &word);

 finish:

  if (backtrack)
    G_Trail_For_Backtrack(g_elem, save_size, save_val);
}

void ref_G_Assign_Arg(GVarElt *g_elem, WamWord *g_arg, WamWord word)
{
  WamWord *adr;
  PlLong size;
  GUndo *u;

  if (Pl_Term_Size(*g_arg) == 1 && Pl_Term_Size(word) == 1)
    {
      Pl_Copy_Term(g_arg, &word);

      for(u = g_elem->undo; u; u = u->next)
	u->g_elem = NULL;
      g_elem->undo = NULL;

      return;
    }

  *g_arg = word;
  Pl_Copy_Term(H, (WamWord *) g_elem->val);

  G_Free_Element(g_elem, TRUE);

  size = Pl_Term_Size(*H);

  adr = (WamWord *) Malloc(size * sizeof(WamWord));

  g_elem->size = size;
  g_elem->val = (WamWord) adr;

  Pl_Copy_Contiguous_Term(adr, H);
}

void ref_G_Assign_Array(GVarElt *g_elem, WamWord *stc_adr, int array_op, Bool backtrack, Bool copy)
{
  WamWord word, tag_mask;
  int arity;
  Bool same_init_value;
  WamWord init_word = 0;
  WamWord lst_word = 0;
  PlLong new_size, size, i;
  GVarElt *p;

  arity = Arity(stc_adr);

  DEREF(Arg(stc_adr, 0), word, tag_mask);
  new_size = (tag_mask == TAG_LST_MASK) ? Pl_List_Length(word) : UnTag_INT(word);

  if (!(new_size > 0 && ((tag_mask == TAG_INT_MASK && arity <= 2) ||
			 (tag_mask == TAG_LST_MASK && arity == 1))))
    Pl_Err_Domain(pl_domain_g_array_index, Tag_STC(stc_adr));

  if (tag_mask == TAG_INT_MASK)
    {
      same_init_value = TRUE;
      init_word = (arity == 1) ? G_INITIAL_VALUE : Arg(stc_adr, 1);
    }
  else
    {
      same_init_value = FALSE;
      lst_word = word;
    }

  if (array_op == G_ARRAY_EXTEND && g_elem->size >= 0)
    array_op = G_ARRAY;

  if (array_op != G_ARRAY_EXTEND && !backtrack)
    {
      G_Free_Element(g_elem, TRUE);
      g_elem->size = 0;
    }

  size = -g_elem->size;

  p = G_Alloc_Array(g_elem, new_size, backtrack);

  if (array_op == G_ARRAY_EXTEND)
    {
      if (!same_init_value)
	for(i = 0; i < size; i++)
	  {
	    Pl_Get_List(lst_word);
	    init_word = Pl_Unify_Variable();
	    lst_word = Pl_Unify_Variable();
	  }
      i = size;
      p += size;
    }
  else
    i = 0;

  for (; i < new_size; i++)
    {
      if (!same_init_value)
	{
	  Pl_Get_List(lst_word);
	  init_word = Pl_Unify_Variable();
	  lst_word = Pl_Unify_Variable();
	}

      p->size = 0;
      p->val = G_INITIAL_VALUE;
      p->undo = NULL;
      G_Assign_Element(p++, init_word, FALSE, copy);
    }

  if (array_op == G_ARRAY_AUTO)
    {
      if (!same_init_value)
	init_word = G_INITIAL_VALUE;
      p->size = 0;
      p->val = G_INITIAL_VALUE;
      p->undo = NULL;
      G_Assign_Element(p, init_word, FALSE, copy);
    }

}

GVarElt * ref_G_Alloc_Array(GVarElt *g_elem, PlLong new_size, Bool backtrack)
{
  GVarElt *p, *p_new_end, *src, *dst;
  GUndo *u;
  PlLong old_size, i;

  old_size = -g_elem->size;
  src = (GVarElt *) g_elem->val;

  if (old_size <= 0 || backtrack)
    p = (GVarElt *) Malloc((new_size + 1) * sizeof(GVarElt));
  else
    p = (GVarElt *) Realloc(src, (new_size + 1) * sizeof(GVarElt));

  p_new_end = p + new_size;

  if (old_size <= 0)
    {
      p_new_end->size = G_IMPOSSIBLE_SIZE;
      p_new_end->val = (WamWord) NULL;
      p_new_end->undo = NULL;
      goto finish;
    }

  if (backtrack)
    {
      dst = p;
      for (i = 0; i < old_size; i++)
	G_Copy_Element(dst++, src++);

      if (src->size != G_IMPOSSIBLE_SIZE)
	G_Copy_Element(p_new_end, src);
      else
	*p_new_end = *src;
      goto finish;
    }

  dst = p;
  for (i = 0; i < old_size; i++)
    {
      for (u = dst->undo; u; u = u->next)
	u->g_elem = dst;
      dst++;
    }

  *p_new_end = *dst;

 finish:
  g_elem->size = -new_size;
  g_elem->val = (WamWord) p;

  return p;
}

GTarget * ref_Get_Target_From_Gvar(WamWord gvar_word)
{
  WamWord word, tag_mask;
  WamWord word1;
  int atom;
  int arity;
  WamWord *arg_adr;
  GVarElt *g_elem, *g_end;
  GVarElt *p;
  PlLong i, j, size;
  int new_size;
  PlLong index;
  GTarget *gt = &g_target;

  arg_adr = Pl_Rd_Callable_Check(gvar_word, &atom, &arity);

  if (atom == ATOM_CHAR('-') && arity == 2)
    return Get_Target_From_Selector(arg_adr - OFFSET_ARG);

  g_elem = (GVarElt *) pl_atom_tbl[atom].info;

  if (g_elem == NULL)
    {
      g_elem = (GVarElt *) Malloc(sizeof(GVarElt));
      g_elem->size = 0;
      g_elem->val = G_INITIAL_VALUE;
      g_elem->undo = NULL;
      pl_atom_tbl[atom].info = g_elem;
    }

  if (arity > 0 && g_elem->size >= 0)
    {
    error:
      Pl_Err_Domain(pl_domain_g_array_index, gvar_word);
    }

  for (i = 0; i < arity; i++)
    {
      size = g_elem->size;

      word1 = *arg_adr;
      DEREF(word1, word, tag_mask);

      if (tag_mask != TAG_INT_MASK)
	word = *Get_Int_Addr_From_Gvar(word);

      index = UnTag_INT(word);

      if (size >= 0 || index < 0)
	goto error;

      size = -size;

      if (index >= size)
	{
	  p = (GVarElt *) (g_elem->val);
	  g_end = p + size;

	  if (g_end->size == G_IMPOSSIBLE_SIZE || index > MAX_AUTO_SIZE)
	    goto error;

	  for(new_size = 1; new_size <= index; new_size <<= 1)
	    ;

	  p = G_Alloc_Array(g_elem, new_size, FALSE);

	  g_end = p + new_size;
	  p += size;

	  for (j = size; j < new_size; j++)
	    G_Copy_Element(p++, g_end);
	}

      g_elem = (GVarElt *) (g_elem->val) + index;
      arg_adr++;
    }

  gt->g_elem = g_elem;
  gt->g_arg = NULL;
  return gt;
}

GTarget * ref_Get_Target_From_Selector(WamWord *stc_adr)
{
  WamWord word, tag_mask;
  WamWord *adr, word1;
  PlLong arg_no;
  GTarget *gt;

  gt = Get_Target_From_Gvar(Arg(stc_adr, 0));
  arg_no = Get_Int_From_Word(Arg(stc_adr, 1));
  adr = Get_Term_Addr_From_Target(gt);
  if (adr == NULL)
    goto error;

  word1 = *adr;

  DEREF(word1, word, tag_mask);

  if (tag_mask == STC)
    {
      adr = UnTag_STC(word);
      if (arg_no < 1 || arg_no > Arity(adr))
	goto error;

      gt->g_arg = &Arg(adr, arg_no - 1);
    }
  else if (tag_mask == LST)
    {
      adr = UnTag_LST(word);
      if (arg_no < 0)
	goto error;
      while(--arg_no)
	{
	  DEREF(Cdr(adr), word, tag_mask);
	  if (tag_mask != LST)
	    goto error;
	  adr = UnTag_LST(word);
	}
      gt->g_arg = &Car(adr);
    }
  else
    {
    error:
      Pl_Err_Domain(pl_domain_g_argument_selector, Tag_STC(stc_adr));
    }

  return gt;
}

WamWord * ref_Get_Term_Addr_From_Target(GTarget *gt)
{
  GVarElt *g_elem = gt->g_elem;

  if (gt->g_arg)
    return gt->g_arg;

  if (g_elem->size < 0)
    return NULL;

  if (g_elem->size == 0)
    return (WamWord *) &g_elem->val;

  return (WamWord *) g_elem->val;
}

WamWord * ref_Get_Int_Addr_From_Gvar(WamWord gvar_word)
{
  GTarget save_g_target = g_target;
  GTarget *gt = Get_Target_From_Gvar(gvar_word);
  WamWord *adr = Get_Term_Addr_From_Target(gt);

  g_target = save_g_target;

  if (adr == NULL)
    Pl_Err_Type(pl_type_integer, Tag_ATM(atom_g_array));

  if (Tag_Mask_Of(*adr) != TAG_INT_MASK)
     Pl_Err_Type(pl_type_integer, *adr);

  return adr;
}

PlLong ref_Get_Int_From_Gvar(WamWord gvar_word)
{
  return *Get_Int_Addr_From_Gvar(gvar_word);
}

PlLong ref_Get_Int_From_Word(WamWord start_word)
{
  WamWord word, tag_mask;

  DEREF(start_word, word, tag_mask);

  if (tag_mask != TAG_INT_MASK)
    word = *Get_Int_Addr_From_Gvar(word);

  return UnTag_INT(word);
}

void ref_G_Free_Element(GVarElt *g_elem, Bool reinit_undo)
{
  PlLong size, i;
  GVarElt *p;
  GUndo *u;

  if (reinit_undo)
    {
      for(u = g_elem->undo; u; u = u->next)
	u->g_elem = NULL;
      g_elem->undo = NULL;
    }

  size = g_elem->size;

  if (size == 0)
    return;

  if (size < 0)
    {
      size = -size;
      p = (GVarElt *) (g_elem->val);

      for (i = 0; i < size; i++)
	G_Free_Element(p++, reinit_undo);

      if (p->size != G_IMPOSSIBLE_SIZE)
	G_Free_Element(p, reinit_undo);
    }

  Free((char *) g_elem->val);
}

void ref_G_Copy_Element(GVarElt *dst_g_elem, GVarElt *src_g_elem)
{
  WamWord *adr;
  GVarElt *p;
  PlLong size, i;

  size = dst_g_elem->size = src_g_elem->size;
  dst_g_elem->undo = NULL;

  if (size == 0)
    {
      dst_g_elem->val = src_g_elem->val;
      return;
    }

  if (size < 0)
    {
      size = -size;

      p = (GVarElt *) Malloc((size + 1) * sizeof(GVarElt));

      dst_g_elem->val = (WamWord) p;
      dst_g_elem = p;

      src_g_elem = (GVarElt *) (src_g_elem->val);

      for (i = 0; i < size; i++)
	G_Copy_Element(dst_g_elem++, src_g_elem++);

      if (src_g_elem->size == G_IMPOSSIBLE_SIZE)
	*dst_g_elem = *src_g_elem;
      else
	G_Copy_Element(dst_g_elem, src_g_elem);

      return;
    }

  adr = (WamWord *) Malloc(size * sizeof(WamWord));

  dst_g_elem->val = (WamWord) adr;

  Pl_Copy_Contiguous_Term(adr, (WamWord *) src_g_elem->val);
}

void ref_G_Trail_For_Backtrack(GVarElt *g_elem, PlLong save_size, WamWord save_val)
{
  WamWord arg_frame[1];
  GUndo *u = (GUndo *) Malloc(sizeof(GUndo));

  u->g_elem = g_elem;
  u->save_size = save_size;
  u->save_val = save_val;
  u->next = g_elem->undo;
  u->prev = NULL;

  if (u->next)
    u->next->prev = u;

  g_elem->undo = u;

  arg_frame[0] = (WamWord) u;
  Trail_FC(G_Untrail, 1, arg_frame);
}

void ref_G_Untrail(int n, WamWord *arg_frame)
{
  GUndo *u = (GUndo *) arg_frame[0];
  GVarElt *g_elem = u->g_elem;

  if (g_elem)
    {
      G_Free_Element(g_elem, FALSE);
      g_elem->size = u->save_size;
      g_elem->val = u->save_val;
    }

  if (u->next)
    u->next->prev = u->prev;

  if (u->prev)
    u->prev->next = u->next;
  else if (g_elem)
    g_elem->undo = u->next;

  Free(u);
}

Bool ref_G_Read(WamWord gvar_word, WamWord gval_word)
{
  GTarget *gt = Get_Target_From_Gvar(gvar_word);
  GVarElt *g_elem = gt->g_elem;
  WamWord *g_arg = gt->g_arg;
  WamWord word;

  if (g_arg != NULL)
    {
      Pl_Copy_Term(H, g_arg);
      word = *H;
      H += Pl_Term_Size(word);
      return Pl_Unify(word, gval_word);
    }

  return G_Read_Element(g_elem, gval_word);
}

Bool ref_G_Read_Element(GVarElt *g_elem, WamWord gval_word)
{
  WamWord word;
  PlLong size = g_elem->size, i;
  GVarElt *p;

  if (size == 0)
    return Pl_Unify(g_elem->val, gval_word);

  if (size > 0)
    {
      Pl_Copy_Contiguous_Term(H, (WamWord *) g_elem->val);
      word = *H;
      H += size;
      return Pl_Unify(word, gval_word);
    }

  size = -size;
  p = (GVarElt *) g_elem->val;

  if (!Pl_Get_Structure(atom_g_array, 1, gval_word))
    return FALSE;

  gval_word = Pl_Unify_Variable();

  for (i = 0; i < size; i++)
    {
      if (!Pl_Get_List(gval_word))
	return FALSE;

      word = Pl_Unify_Variable();
      gval_word = Pl_Unify_Variable();

      if (!G_Read_Element(p++, word))
	return FALSE;
    }

  return Pl_Get_Nil(gval_word);
}

Bool ref_G_Array_Size(WamWord gvar_word, WamWord size_word)
{
  GTarget *gt = Get_Target_From_Gvar(gvar_word);
  GVarElt *g_elem = gt->g_elem;
  WamWord *g_arg = gt->g_arg;
  PlLong size;

  Pl_Check_For_Un_Integer(size_word);

  size = g_elem->size;

  return g_arg == NULL && size < 0 && Pl_Get_Integer(-size, size_word);
}

Bool ref_G_Inc_Dec(WamWord gvar_word, int inc, WamWord old_word, WamWord new_word)
{
  WamWord *adr;
  PlLong old, new;

  if (old_word != NOT_A_WAM_WORD)
    Pl_Check_For_Un_Integer(old_word);

  if (new_word != NOT_A_WAM_WORD)
    Pl_Check_For_Un_Integer(new_word);

  adr = Get_Int_Addr_From_Gvar(gvar_word);

  old = UnTag_INT(*adr);
  new = old + inc;

  if (old_word != NOT_A_WAM_WORD && !Pl_Get_Integer(old, old_word))
    return FALSE;

  *adr = Tag_INT(new);

  if (new_word != NOT_A_WAM_WORD && !Pl_Get_Integer(new, new_word))
    return FALSE;

  return TRUE;
}

void ref_G_Set_Bit(WamWord gvar_word, WamWord bit_word)
{
  WamWord *adr;
  int bit = Pl_Rd_Positive_Check(bit_word) % VALUE_SIZE;
  PlULong mask;

  adr = Get_Int_Addr_From_Gvar(gvar_word);
  mask = (PlULong) 1 << (bit + TAG_SIZE_LOW);
  *adr |= mask;
}

void ref_G_Reset_Bit(WamWord gvar_word, WamWord bit_word)
{
  WamWord *adr;
  int bit = Pl_Rd_Positive_Check(bit_word) % VALUE_SIZE;
  PlULong mask;

  adr = Get_Int_Addr_From_Gvar(gvar_word);
  mask = (PlULong) 1 << (bit + TAG_SIZE_LOW);
  *adr &= ~mask;
}

Bool ref_G_Test_Set_Bit(WamWord gvar_word, WamWord bit_word)
{
  int bit = Pl_Rd_Positive_Check(bit_word) % VALUE_SIZE;
  PlULong val, mask;

  val = Get_Int_From_Gvar(gvar_word);
  mask = (PlULong) 1 << (bit + TAG_SIZE_LOW);
  return (val & mask) != 0;
}

Bool ref_G_Test_Reset_Bit(WamWord gvar_word, WamWord bit_word)
{
  int bit = Pl_Rd_Positive_Check(bit_word) % VALUE_SIZE;
  PlULong mask, val;

  val = Get_Int_From_Gvar(gvar_word);
  mask = (PlULong) 1 << (bit + TAG_SIZE_LOW);
  return (val & mask) == 0;
}
