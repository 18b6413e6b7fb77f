/* What the functions of fd_bool_c.c are to do. */
#include "gp_config.h"
#include "engine_pl.h"
#include "bips_pl.h"
#include "engine_fd.h"
#include "bips_fd.h"
#include "macros_ref.h"
#include "wam_ref.h"

#define BOOL_STACK_SIZE 100000
#define VARS_STACK_SIZE 100000

#define NOT 0

#define EQUIV 1
#define NEQUIV 2
#define IMPLY 3
#define NIMPLY 4
#define AND 5
#define NAND 6
#define OR 7
#define NOR 8

#define EQ 9
#define NEQ 10
#define LT 11
#define GTE 12
#define GT 13
#define LTE 14

#define EQ_F 15
#define NEQ_F 16
#define LT_F 17
#define GTE_F 18
#define GT_F 19
#define LTE_F 20

#define ZERO 21
#define ONE 22

#define IsVar(op) ((op)>=ONE)

#define NB_OF_OP ZERO

extern WamWord bool_tbl[NB_OF_OP];
extern WamWord bool_xor;

extern WamWord stack[BOOL_STACK_SIZE];
extern WamWord *sp;

extern WamWord vars_tbl[VARS_STACK_SIZE];
extern WamWord *vars_sp;

Bool (*func_tbl[NB_OF_OP + 2]) (WamWord *exp, int result, WamWord *load_word);

WamWord *Simplify(int sign, WamWord e_word);

void Add_Fd_Variables(WamWord e_word);

Bool Load_Bool_Into_Word(WamWord *exp, int result, WamWord *load_word);

Bool Set_Var(WamWord *exp, int result, WamWord *load_word);

Bool Set_Not(WamWord *exp, int result, WamWord *load_word);

Bool Set_Equiv(WamWord *exp, int result, WamWord *load_word);

Bool Set_Nequiv(WamWord *exp, int result, WamWord *load_word);

Bool Set_Imply(WamWord *exp, int result, WamWord *load_word);

Bool Set_Nimply(WamWord *exp, int result, WamWord *load_word);

Bool Set_And(WamWord *exp, int result, WamWord *load_word);

Bool Set_Nand(WamWord *exp, int result, WamWord *load_word);

Bool Set_Or(WamWord *exp, int result, WamWord *load_word);

Bool Set_Nor(WamWord *exp, int result, WamWord *load_word);

Bool Set_Eq(WamWord *exp, int result, WamWord *load_word);

Bool Set_Neq(WamWord *exp, int result, WamWord *load_word);

Bool Set_Lt(WamWord *exp, int result, WamWord *load_word);

Bool Set_Lte(WamWord *exp, int result, WamWord *load_word);

Bool Set_Zero(WamWord *exp, int result, WamWord *load_word);

Bool Set_One(WamWord *exp, int result, WamWord *load_word);

Bool Pl_Fd_Eq_2(WamWord le_word, WamWord re_word);

Bool Pl_Fd_Neq_2(WamWord le_word, WamWord re_word);

Bool Pl_Fd_Lt_2(WamWord le_word, WamWord re_word);

Bool Pl_Fd_Lte_2(WamWord le_word, WamWord re_word);

#define BOOL_CSTR_2(f,a1,a2) do { if (!Pl_Fd_Check_For_Bool_Var(a1)) return FALSE; if (!Pl_Fd_Check_For_Bool_Var(a2)) return FALSE; PRIM_CSTR_2(f, a1, a2); } while (0)

#define BOOL_CSTR_3(f,a1,a2,a3) do { if (!Pl_Fd_Check_For_Bool_Var(a1)) return FALSE; if (!Pl_Fd_Check_For_Bool_Var(a2)) return FALSE; PRIM_CSTR_3(f, a1, a2, a3); } while (0)
Bool Pl_Fd_Bool_Meta_3(WamWord le_word, WamWord re_word, WamWord op_word);
WamWord * Simplify(int sign, WamWord e_word);
void Add_Fd_Variables(WamWord e_word);
Bool Load_Bool_Into_Word(WamWord *exp, int result, WamWord *load_word);
Bool Set_Zero(WamWord *exp, int result, WamWord *load_word);
Bool Set_One(WamWord *exp, int result, WamWord *load_word);
Bool Set_Var(WamWord *exp, int result, WamWord *load_word);
Bool Set_Not(WamWord *exp, int result, WamWord *load_word);
Bool Set_Equiv(WamWord *exp, int result, WamWord *load_word);
Bool Set_Nequiv(WamWord *exp, int result, WamWord *load_word);
Bool Set_Imply(WamWord *exp, int result, WamWord *load_word);
Bool Set_Nimply(WamWord *exp, int result, WamWord *load_word);
Bool Set_And(WamWord *exp, int result, WamWord *load_word);
Bool Set_Nand(WamWord *exp, int result, WamWord *load_word);
Bool Set_Or(WamWord *exp, int result, WamWord *load_word);
Bool Set_Nor(WamWord *exp, int result, WamWord *load_word);
Bool Set_Eq(WamWord *exp, int result, WamWord *load_word);
Bool Set_Neq(WamWord *exp, int result, WamWord *load_word);
Bool Set_Lt(WamWord *exp, int result, WamWord *load_word);
Bool Set_Lte(WamWord *exp, int result, WamWord *load_word);
Bool Pl_Fd_Reified_In(WamWord x_word, WamWord l_word, WamWord u_word, WamWord b_word);


void ref_Fd_Bool_Initializer(void)
{
  bool_tbl[NOT] = Functor_Arity(Pl_Create_Atom("#\\"), 1);

  bool_tbl[EQUIV] = Functor_Arity(Pl_Create_Atom("#<=>"), 2);
  bool_tbl[NEQUIV] = Functor_Arity(Pl_Create_Atom("#\\<=>"), 2);
  bool_tbl[IMPLY] = Functor_Arity(Pl_Create_Atom("#==>"), 2);
  bool_tbl[NIMPLY] = Functor_Arity(Pl_Create_Atom("#\\==>"), 2);
  bool_tbl[AND] = Functor_Arity(Pl_Create_Atom("#/\\"), 2);
  bool_tbl[NAND] = Functor_Arity(Pl_Create_Atom("#\\/\\"), 2);
  bool_tbl[OR] = Functor_Arity(Pl_Create_Atom("#\\/"), 2);
  bool_tbl[NOR] = Functor_Arity(Pl_Create_Atom("#\\\\/"), 2);

  bool_tbl[EQ] = Functor_Arity(Pl_Create_Atom("#="), 2);
  bool_tbl[NEQ] = Functor_Arity(Pl_Create_Atom("#\\="), 2);
  bool_tbl[LT] = Functor_Arity(Pl_Create_Atom("#<"), 2);
  bool_tbl[GTE] = Functor_Arity(Pl_Create_Atom("#>="), 2);
  bool_tbl[GT] = Functor_Arity(Pl_Create_Atom("#>"), 2);
  bool_tbl[LTE] = Functor_Arity(Pl_Create_Atom("#=<"), 2);

  bool_tbl[EQ_F] = Functor_Arity(Pl_Create_Atom("#=#"), 2);
  bool_tbl[NEQ_F] = Functor_Arity(Pl_Create_Atom("#\\=#"), 2);
  bool_tbl[LT_F] = Functor_Arity(Pl_Create_Atom("#<#"), 2);
  bool_tbl[GTE_F] = Functor_Arity(Pl_Create_Atom("#>=#"), 2);
  bool_tbl[GT_F] = Functor_Arity(Pl_Create_Atom("#>#"), 2);
  bool_tbl[LTE_F] = Functor_Arity(Pl_Create_Atom("#=<#"), 2);

  bool_xor = Functor_Arity(Pl_Create_Atom("##"), 2);

  func_tbl[NOT] = Set_Not;

  func_tbl[EQUIV] = Set_Equiv;
  func_tbl[NEQUIV] = Set_Nequiv;
  func_tbl[IMPLY] = Set_Imply;
  func_tbl[NIMPLY] = Set_Nimply;
  func_tbl[AND] = Set_And;
  func_tbl[NAND] = Set_Nand;
  func_tbl[OR] = Set_Or;
  func_tbl[NOR] = Set_Nor;

  func_tbl[EQ] = Set_Eq;
  func_tbl[NEQ] = Set_Neq;
  func_tbl[LT] = Set_Lt;
  func_tbl[GTE] = NULL;
  func_tbl[GT] = NULL;
  func_tbl[LTE] = Set_Lte;

  func_tbl[EQ_F] = NULL;
  func_tbl[NEQ_F] = NULL;
  func_tbl[LT_F] = NULL;
  func_tbl[GTE_F] = NULL;
  func_tbl[GT_F] = NULL;
  func_tbl[LTE_F] = NULL;

  func_tbl[ZERO] = Set_Zero;
  func_tbl[ONE] = Set_One;
}

Bool ref_Pl_Fd_Bool_Meta_3(WamWord le_word, WamWord re_word, WamWord op_word)
{
  WamWord word, tag_mask;
  WamWord *adr, *fdv_adr;
  WamWord *exp;
  int op;
  static WamWord h[3];

  DEREF(op_word, word, tag_mask);
  op = (int) UnTag_INT(op_word);

  h[0] = bool_tbl[op];
  h[1] = le_word;
  h[2] = re_word;

  sp = stack;
  vars_sp = vars_tbl;

  exp = Simplify(1, Tag_STC(h));

  if (!Load_Bool_Into_Word(exp, 1, NULL))
    return FALSE;

  while (--vars_sp >= vars_tbl)
    if (*vars_sp-- == 0)
      {
	if (!Pl_Fd_Check_For_Bool_Var(*vars_sp))
	  return FALSE;
      }
    else
      {
	DEREF(*vars_sp, word, tag_mask);
	if (tag_mask == TAG_REF_MASK)
	  {
	    adr = UnTag_REF(word);
	    fdv_adr = Pl_Fd_New_Variable();
	    Bind_UV(adr, Tag_REF(fdv_adr));
	  }
      }

  return TRUE;
}

WamWord * ref_Simplify(int sign, WamWord e_word)
{
  WamWord word, tag_mask;
  WamWord *adr;
  WamWord f_n, le_word, re_word;
  int op, n;
  WamWord *exp, *sp1;
  WamWord l, r;

  exp = sp;

  if (sp - stack > BOOL_STACK_SIZE - 5)
    Pl_Err_Resource(pl_resource_too_big_fd_constraint);

  DEREF(e_word, word, tag_mask);
  if (tag_mask == TAG_REF_MASK || tag_mask == TAG_FDV_MASK)
    {
      adr = UnTag_Address(word);
      if (vars_sp - vars_tbl == VARS_STACK_SIZE)
	Pl_Err_Resource(pl_resource_too_big_fd_constraint);

      *vars_sp++ = word;
      *vars_sp++ = 0;

      if (sign != 1)
	*sp++ = NOT;

      *sp++ = Tag_REF(adr);
      return exp;
    }

  if (tag_mask == TAG_INT_MASK)
    {
      n = (int) UnTag_INT(word);
      if ((unsigned) n > 1)
	goto type_error;

      *sp++ = ZERO + ((sign == 1) ? n : 1 - n);
      return exp;
    }

  if (tag_mask == TAG_ATM_MASK)
    {
      word = Pl_Put_Structure(ATOM_CHAR('/'), 2);
      Pl_Unify_Value(e_word);
      Pl_Unify_Integer(0);
    type_error:
      Pl_Err_Type(pl_type_fd_bool_evaluable, word);
    }

  if (tag_mask != TAG_STC_MASK)
    goto type_error;

  adr = UnTag_STC(word);

  f_n = Functor_And_Arity(adr);
  if (bool_xor == f_n)
    op = NEQUIV;
  else
    {
      for (op = 0; op < NB_OF_OP; op++)
	if (bool_tbl[op] == f_n)
	  break;

      if (op == NB_OF_OP)
	{
	  word = Pl_Put_Structure(ATOM_CHAR('/'), 2);
	  Pl_Unify_Atom(Functor(adr));
	  Pl_Unify_Integer(Arity(adr));
	  goto type_error;
	}
    }

  le_word = Arg(adr, 0);
  re_word = Arg(adr, 1);

  if (op == NOT)
    return Simplify(-sign, le_word);

  if (sign != 1)
    op = (op % 2 == EQ % 2) ? op + 1 : op - 1;

  if (op >= EQ && op <= LTE_F)
    {
      Add_Fd_Variables(le_word);
      Add_Fd_Variables(re_word);

      n = (op == GT || op == GT_F) ? op - 2 :
	(op == GTE || op == GTE_F) ? op + 2 : op;

      *sp++ = n;
      *sp++ = (n == op) ? le_word : re_word;
      *sp++ = (n == op) ? re_word : le_word;
      return exp;
    }

  sp += 3;
  exp[0] = op;
  exp[1] = (WamWord) Simplify(1, le_word);
  sp1 = sp;
  exp[2] = (WamWord) Simplify(1, re_word);

  l = *(WamWord *) (exp[1]);
  r = *(WamWord *) (exp[2]);

  switch (op)
    {
    case EQUIV:
      if (l == ZERO)
	{
	  sp = exp;
	  return Simplify(-1, re_word);
	}

      if (l == ONE)
	{
	  return (WamWord *) exp[2];
	}

      if (r == ZERO)
	{
	  sp = exp;
	  return Simplify(-1, le_word);
	}

      if (r == ONE)
	{
	  sp = sp1;
	  return (WamWord *) exp[1];
	}

      if (l == NOT)
	{
	  exp[1] += sizeof(WamWord);
	  sp = sp1;
	  exp[2] = (WamWord) Simplify(-1, re_word);
	  break;
	}

      if (r == NOT)
	{
	  exp[1] = (WamWord) Simplify(-1, le_word);
	  exp[2] += sizeof(WamWord);
	  break;
	}
      break;

    case NEQUIV:
      if (l == ZERO)
	{
	  return (WamWord *) exp[2];
	}

      if (l == ONE)
	{
	  sp = exp;
	  return Simplify(-1, re_word);
	}

      if (r == ZERO)
	{
	  sp = sp1;
	  return (WamWord *) exp[1];
	}

      if (r == ONE)
	{
	  sp = exp;
	  return Simplify(-1, le_word);
	}

      if (l == NOT)
	{
	  exp[0] = EQUIV;
	  exp[1] += sizeof(WamWord);
	  break;
	}

      if (r == NOT)
	{
	  exp[0] = EQUIV;
	  exp[2] += sizeof(WamWord);
	  break;
	}

      if (IsVar(l) && !IsVar(r))
	{
	  exp[0] = EQUIV;
	  sp = sp1;
	  exp[2] = (WamWord) Simplify(-1, re_word);
	  break;
	}

      if (IsVar(r) && !IsVar(l))
	{
	  exp[0] = EQUIV;
	  exp[1] = (WamWord) Simplify(-1, le_word);
	  break;
	}
      break;

    case IMPLY:
      if (l == ZERO || r == ONE)
	{
	  sp = exp;
	  *sp++ = ONE;
	  break;
	}

      if (l == ONE)
	{
	  return (WamWord *) exp[2];
	}

      if (r == ZERO)
	return sp = exp, Simplify(-1, le_word);

      if (l == NOT)
	{
	  exp[0] = OR;
	  exp[1] += sizeof(WamWord);
	  break;
	}

      if (r == NOT)
	{
	  exp[1] = exp[2] + sizeof(WamWord);
	  exp[2] = (WamWord) Simplify(-1, le_word);
	  break;
	}
      break;

    case NIMPLY:
      if (l == ZERO || r == ONE)
	{
	  sp = exp;
	  *sp++ = ZERO;
	  break;
	}

      if (l == ONE)
	{
	  sp = exp;
	  return Simplify(-1, re_word);
	}

      if (r == ZERO)
	{
	  sp = sp1;
	  return (WamWord *) exp[1];
	}

      if (l == NOT)
	{
	  exp[0] = NOR;
	  exp[1] += sizeof(WamWord);
	  break;
	}

      if (r == NOT)
	{
	  exp[0] = AND;
	  exp[2] += sizeof(WamWord);
	  break;
	}
      break;

    case AND:
      if (l == ZERO || r == ZERO)
	{
	  sp = exp;
	  *sp++ = ZERO;
	  break;
	}

      if (l == ONE)
	{
	  return (WamWord *) exp[2];
	}

      if (r == ONE)
	{
	  sp = sp1;
	  return (WamWord *) exp[1];
	}

      if (l == NOT)
	{
	  exp[0] = NIMPLY;
	  word = exp[1];
	  exp[1] = exp[2];
	  exp[2] = word + sizeof(WamWord);
	  break;
	}

      if (r == NOT)
	{
	  exp[0] = NIMPLY;
	  exp[2] += sizeof(WamWord);
	  break;
	}
      break;

    case NAND:
      if (l == ZERO || r == ZERO)
	{
	  sp = exp;
	  *sp++ = ONE;
	  break;
	}

      if (l == ONE)
	{
	  sp = exp;
	  return Simplify(-1, re_word);
	}

      if (r == ONE)
	{
	  sp = exp;
	  return Simplify(-1, le_word);
	}

      if (l == NOT)
	{
	  exp[0] = IMPLY;
	  word = exp[1];
	  exp[1] = exp[2];
	  exp[2] = word + sizeof(WamWord);
	  break;
	}

      if (r == NOT)
	{
	  exp[0] = IMPLY;
	  exp[2] += sizeof(WamWord);
	  break;
	}
      break;

    case OR:
      if (l == ONE || r == ONE)
	{
	  sp = exp;
	  *sp++ = ONE;
	  break;
	}

      if (l == ZERO)
	{
	  return (WamWord *) exp[2];
	}

      if (r == ZERO)
	{
	  sp = sp1;
	  return (WamWord *) exp[1];
	}

      if (l == NOT)
	{
	  exp[0] = IMPLY;
	  exp[1] += sizeof(WamWord);
	  break;
	}

      if (r == NOT)
	{
	  exp[0] = IMPLY;
	  word = exp[1];
	  exp[1] = exp[2] + sizeof(WamWord);
	  exp[2] = word;
	  break;
	}
      break;

    case NOR:
      if (l == ONE || r == ONE)
	{
	  sp = exp;
	  *sp++ = ZERO;
	  break;
	}

      if (l == ZERO)
	{
	  sp = exp;
	  return Simplify(-1, re_word);
	}

      if (r == ZERO)
	{
	  sp = exp;
	  return Simplify(-1, le_word);
	}

      if (l == NOT)
	{
	  exp[0] = NIMPLY;
	  exp[1] += sizeof(WamWord);
	  break;
	}

      if (r == NOT)
	{
	  exp[0] = NIMPLY;
	  word = exp[1];
	  exp[1] = exp[2] + sizeof(WamWord);
	  exp[2] = word;
	  break;
	}
      break;
    }

  return exp;
}

void ref_Add_Fd_Variables(WamWord e_word)
{
  WamWord word, tag_mask;
  WamWord *adr;
  int i;

  DEREF(e_word, word, tag_mask);

  if (tag_mask == TAG_REF_MASK)
    {
      if (vars_sp - vars_tbl == VARS_STACK_SIZE)
	Pl_Err_Resource(pl_resource_too_big_fd_constraint);

      *vars_sp++ = word;
      *vars_sp++ = 1;
      return;
    }

  if (tag_mask == TAG_LST_MASK)
    {
      adr = UnTag_LST(word);

      Add_Fd_Variables(Car(adr));
      Add_Fd_Variables(Cdr(adr));
    }

  if (tag_mask == TAG_STC_MASK)
    {
      adr = UnTag_STC(word);

      i = Arity(adr);
      do
	Add_Fd_Variables(Arg(adr, --i));
      while (i);
    }
}

Bool ref_Load_Bool_Into_Word(WamWord *exp, int result, WamWord *load_word)
{
  PlULong op = *exp;

  if (op >= EQ_F && op <= LTE_F)
    {
      pl_full_ac = 1;
      op = op - EQ_F + EQ;
    }
  else
    pl_full_ac = 0;

  return (*((op <= ONE) ? func_tbl[op] : Set_Var)) (exp, result, load_word);
}

Bool ref_Set_Zero(WamWord *exp, int result, WamWord *load_word)
{
  if (result == 0)
    return TRUE;

  if (result == 1)
    return FALSE;

  return Pl_Get_Integer(0, *load_word);
}

Bool ref_Set_One(WamWord *exp, int result, WamWord *load_word)
{
  if (result == 0)
    return FALSE;

  if (result == 1)
    return TRUE;

  return Pl_Get_Integer(1, *load_word);
}

Bool ref_Set_Var(WamWord *exp, int result, WamWord *load_word)
{
  if (result == 0)
    return Pl_Get_Integer(0, *exp);

  if (result == 1)
    return Pl_Get_Integer(1, *exp);

  *load_word = *exp;
  return TRUE;
}

Bool ref_Set_Not(WamWord *exp, int result, WamWord *load_word)
{
  if (result == 0)
    return Pl_Get_Integer(1, exp[1]);

  if (result == 1)
    return Pl_Get_Integer(0, exp[1]);

  *load_word = Tag_REF(Pl_Fd_New_Bool_Variable());
  BOOL_CSTR_2(pl_not_x_eq_b, exp[1], *load_word);
  return TRUE;
}

Bool ref_Set_Equiv(WamWord *exp, int result, WamWord *load_word)
{
  WamWord load_l, load_r;

  if (!Load_Bool_Into_Word((WamWord *) (exp[1]), 2, &load_l) ||
      !Load_Bool_Into_Word((WamWord *) (exp[2]), 2, &load_r))
    return FALSE;

  if (result == 0)
    {
      BOOL_CSTR_2(pl_not_x_eq_b, load_l, load_r);
      return TRUE;
    }

  if (result == 1)
    return Pl_Fd_Math_Unify_X_Y(load_l, load_r);

  *load_word = Tag_REF(Pl_Fd_New_Bool_Variable());
  BOOL_CSTR_3(pl_x_equiv_y_eq_b, load_l, load_r, *load_word);
  return TRUE;
}

Bool ref_Set_Nequiv(WamWord *exp, int result, WamWord *load_word)
{
  WamWord load_l, load_r;

  if (result <= 1)
    return Set_Equiv(exp, 1 - result, load_word);

  if (!Load_Bool_Into_Word((WamWord *) (exp[1]), 2, &load_l) ||
      !Load_Bool_Into_Word((WamWord *) (exp[2]), 2, &load_r))
    return FALSE;

  *load_word = Tag_REF(Pl_Fd_New_Bool_Variable());
  BOOL_CSTR_3(pl_x_nequiv_y_eq_b, load_l, load_r, *load_word);
  return TRUE;
}

Bool ref_Set_Imply(WamWord *exp, int result, WamWord *load_word)
{
  WamWord load_l, load_r;

  if (result == 0)
    return Load_Bool_Into_Word((WamWord *) (exp[1]), 1, &load_l) &&
      Load_Bool_Into_Word((WamWord *) (exp[2]), 0, &load_r);

  if (!Load_Bool_Into_Word((WamWord *) (exp[1]), 2, &load_l) ||
      !Load_Bool_Into_Word((WamWord *) (exp[2]), 2, &load_r))
    return FALSE;

  if (result == 1)
    {
      BOOL_CSTR_2(pl_x_imply_y_eq_1, load_l, load_r);
      return TRUE;
    }

  *load_word = Tag_REF(Pl_Fd_New_Bool_Variable());
  BOOL_CSTR_3(pl_x_imply_y_eq_b, load_l, load_r, *load_word);
  return TRUE;
}

Bool ref_Set_Nimply(WamWord *exp, int result, WamWord *load_word)
{
  WamWord load_l, load_r;

  if (result <= 1)
    return Set_Imply(exp, 1 - result, load_word);

  if (!Load_Bool_Into_Word((WamWord *) (exp[1]), 2, &load_l) ||
      !Load_Bool_Into_Word((WamWord *) (exp[2]), 2, &load_r))
    return FALSE;

  *load_word = Tag_REF(Pl_Fd_New_Bool_Variable());
  BOOL_CSTR_3(pl_x_nimply_y_eq_b, load_l, load_r, *load_word);
  return TRUE;
}

Bool ref_Set_And(WamWord *exp, int result, WamWord *load_word)
{
  WamWord load_l, load_r;

  if (result == 1)
    return Load_Bool_Into_Word((WamWord *) (exp[1]), 1, NULL) &&
      Load_Bool_Into_Word((WamWord *) (exp[2]), 1, NULL);

  if (!Load_Bool_Into_Word((WamWord *) (exp[1]), 2, &load_l) ||
      !Load_Bool_Into_Word((WamWord *) (exp[2]), 2, &load_r))
    return FALSE;

  if (result == 0)
    {
      BOOL_CSTR_2(pl_x_and_y_eq_0, load_l, load_r);
      return TRUE;
    }

  *load_word = Tag_REF(Pl_Fd_New_Bool_Variable());
  BOOL_CSTR_3(pl_x_and_y_eq_b, load_l, load_r, *load_word);
  return TRUE;
}

Bool ref_Set_Nand(WamWord *exp, int result, WamWord *load_word)
{
  WamWord load_l, load_r;

  if (result <= 1)
    return Set_And(exp, 1 - result, load_word);

  if (!Load_Bool_Into_Word((WamWord *) (exp[1]), 2, &load_l) ||
      !Load_Bool_Into_Word((WamWord *) (exp[2]), 2, &load_r))
    return FALSE;

  *load_word = Tag_REF(Pl_Fd_New_Bool_Variable());
  BOOL_CSTR_3(pl_x_nand_y_eq_b, load_l, load_r, *load_word);
  return TRUE;
}

Bool ref_Set_Or(WamWord *exp, int result, WamWord *load_word)
{
  WamWord load_l, load_r;

  if (result == 0)
    return Load_Bool_Into_Word((WamWord *) (exp[1]), 0, NULL) &&
      Load_Bool_Into_Word((WamWord *) (exp[2]), 0, NULL);

  if (!Load_Bool_Into_Word((WamWord *) (exp[1]), 2, &load_l) ||
      !Load_Bool_Into_Word((WamWord *) (exp[2]), 2, &load_r))
    return FALSE;

  if (result == 1)
    {
      BOOL_CSTR_2(pl_x_or_y_eq_1, load_l, load_r);
      return TRUE;
    }

  *load_word = Tag_REF(Pl_Fd_New_Bool_Variable());
  BOOL_CSTR_3(pl_x_or_y_eq_b, load_l, load_r, *load_word);
  return TRUE;
}

Bool ref_Set_Nor(WamWord *exp, int result, WamWord *load_word)
{
  WamWord load_l, load_r;

  if (result <= 1)
    return Set_Or(exp, 1 - result, load_word);

  if (!Load_Bool_Into_Word((WamWord *) (exp[1]), 2, &load_l) ||
      !Load_Bool_Into_Word((WamWord *) (exp[2]), 2, &load_r))
    return FALSE;

  *load_word = Tag_REF(Pl_Fd_New_Bool_Variable());
  BOOL_CSTR_3(pl_x_nor_y_eq_b, load_l, load_r, *load_word);
  return TRUE;
}

Bool ref_Set_Eq(WamWord *exp, int result, WamWord *load_word)
{
  WamWord le_word, re_word;
  int mask;
  WamWord l_word, r_word;
  PlLong c;

  le_word = exp[1];
  re_word = exp[2];

  if (result == 0)
    return Pl_Fd_Neq_2(le_word, re_word);

  if (result == 1)
    return Pl_Fd_Eq_2(le_word, re_word);

  *load_word = Tag_REF(Pl_Fd_New_Bool_Variable());

  if (!Pl_Load_Left_Right(FALSE, le_word, re_word, &mask, &c, &l_word, &r_word)
      || !Pl_Term_Math_Loading(l_word, r_word))
    return FALSE;

  switch (mask)
    {
    case MASK_EMPTY:
      return Pl_Get_Integer(c == 0, *load_word);

    case MASK_LEFT:
      if (c > 0)
	return Pl_Get_Integer(0, *load_word);

      MATH_CSTR_3(pl_truth_x_eq_c, l_word, Tag_INT(-c), *load_word);
      return TRUE;

    case MASK_RIGHT:
      if (c < 0)
	return Pl_Get_Integer(0, *load_word);

      MATH_CSTR_3(pl_truth_x_eq_c, r_word, Tag_INT(c), *load_word);
      return TRUE;
    }

  if (c > 0)
    {
      MATH_CSTR_4(pl_truth_x_plus_c_eq_y, l_word, Tag_INT(c), r_word,
		  *load_word);
      return TRUE;
    }

  if (c < 0)
    {
      MATH_CSTR_4(pl_truth_x_plus_c_eq_y, r_word, Tag_INT(-c), l_word,
		  *load_word);
      return TRUE;
    }

  MATH_CSTR_3(pl_truth_x_eq_y, l_word, r_word, *load_word);
  return TRUE;
}

Bool ref_Set_Neq(WamWord *exp, int result, WamWord *load_word)
{
  WamWord le_word, re_word;
  int mask;
  WamWord l_word, r_word;
  PlLong c;

  le_word = exp[1];
  re_word = exp[2];

  if (result == 0)
    return Pl_Fd_Eq_2(le_word, re_word);

  if (result == 1)
    return Pl_Fd_Neq_2(le_word, re_word);

  *load_word = Tag_REF(Pl_Fd_New_Bool_Variable());

  if (!Pl_Load_Left_Right(FALSE, le_word, re_word, &mask, &c, &l_word, &r_word)
      || !Pl_Term_Math_Loading(l_word, r_word))
    return FALSE;

  switch (mask)
    {
    case MASK_EMPTY:
      return Pl_Get_Integer(c != 0, *load_word);

    case MASK_LEFT:
      if (c > 0)
	return Pl_Get_Integer(1, *load_word);

      MATH_CSTR_3(pl_truth_x_neq_c, l_word, Tag_INT(-c), *load_word);
      return TRUE;

    case MASK_RIGHT:
      if (c < 0)
	return Pl_Get_Integer(1, *load_word);

      MATH_CSTR_3(pl_truth_x_neq_c, r_word, Tag_INT(c), *load_word);
      return TRUE;
    }

  if (c > 0)
    {
      MATH_CSTR_4(pl_truth_x_plus_c_neq_y, l_word, Tag_INT(c), r_word,
		  *load_word);
      return TRUE;
    }

  if (c < 0)
    {
      MATH_CSTR_4(pl_truth_x_plus_c_neq_y, r_word, Tag_INT(-c), l_word,
		  *load_word);
      return TRUE;
    }

  MATH_CSTR_3(pl_truth_x_neq_y, l_word, r_word, *load_word);
  return TRUE;
}

Bool ref_Set_Lt(WamWord *exp, int result, WamWord *load_word)
{
  WamWord le_word, re_word;
  int mask;
  WamWord l_word, r_word;
  PlLong c;

  le_word = exp[1];
  re_word = exp[2];

  if (result == 0)
    return Pl_Fd_Lte_2(re_word, le_word);

  if (result == 1)
    return Pl_Fd_Lt_2(le_word, re_word);

  *load_word = Tag_REF(Pl_Fd_New_Bool_Variable());

  if (!Pl_Load_Left_Right(FALSE, le_word, re_word, &mask, &c, &l_word, &r_word)
      || !Pl_Term_Math_Loading(l_word, r_word))
    return FALSE;

  switch (mask)
    {
    case MASK_EMPTY:
      return Pl_Get_Integer(c < 0, *load_word);

    case MASK_LEFT:
      if (c >= 0)
	return Pl_Get_Integer(0, *load_word);

      PRIM_CSTR_3(pl_truth_x_lte_c, l_word, Tag_INT(-c - 1), *load_word);
      return TRUE;

    case MASK_RIGHT:
      if (c < 0)
	return Pl_Get_Integer(1, *load_word);

      PRIM_CSTR_3(pl_truth_x_gte_c, r_word, Tag_INT(c + 1), *load_word);
      return TRUE;
    }

  if (c > 0)
    {
      PRIM_CSTR_4(pl_truth_x_plus_c_lte_y, l_word, Tag_INT(c + 1), r_word,
		  *load_word);
      return TRUE;
    }

  if (c < 0)
    {
      PRIM_CSTR_4(pl_truth_x_plus_c_gte_y, r_word, Tag_INT(-c - 1), l_word,
		  *load_word);
      return TRUE;
    }

  PRIM_CSTR_3(pl_truth_x_lt_y, l_word, r_word, *load_word);
  return TRUE;
}

Bool ref_Set_Lte(WamWord *exp, int result, WamWord *load_word)
{
  WamWord le_word, re_word;
  int mask;
  WamWord l_word, r_word;
  PlLong c;

  le_word = exp[1];
  re_word = exp[2];

  if (result == 0)
    return Pl_Fd_Lt_2(re_word, le_word);

  if (result == 1)
    return Pl_Fd_Lte_2(le_word, re_word);

  *load_word = Tag_REF(Pl_Fd_New_Bool_Variable());

  if (!Pl_Load_Left_Right(FALSE, le_word, re_word, &mask, &c, &l_word, &r_word)
      || !Pl_Term_Math_Loading(l_word, r_word))
    return FALSE;

  switch (mask)
    {
    case MASK_EMPTY:
      return Pl_Get_Integer(c <= 0, *load_word);

    case MASK_LEFT:
      if (c > 0)
	return Pl_Get_Integer(0, *load_word);

      PRIM_CSTR_3(pl_truth_x_lte_c, l_word, Tag_INT(-c), *load_word);
      return TRUE;

    case MASK_RIGHT:
      if (c <= 0)
	return Pl_Get_Integer(1, *load_word);

      PRIM_CSTR_3(pl_truth_x_gte_c, r_word, Tag_INT(c), *load_word);
      return TRUE;
    }

  if (c > 0)
    {
      PRIM_CSTR_4(pl_truth_x_plus_c_lte_y, l_word, Tag_INT(c), r_word,
		  *load_word);
      return TRUE;
    }

  if (c < 0)
    {
      PRIM_CSTR_4(pl_truth_x_plus_c_gte_y, r_word, Tag_INT(-c), l_word,
		  *load_word);
      return TRUE;
    }

  PRIM_CSTR_3(pl_truth_x_lte_y, l_word, r_word, *load_word);
  return TRUE;
}

Bool ref_Pl_Fd_Reified_In(WamWord x_word, WamWord l_word, WamWord u_word, WamWord b_word)
{
  WamWord word, tag_mask;
  WamWord b_tag_mask, x_tag_mask;
  WamWord *adr, *fdv_adr;
  PlLong x;
  PlLong b = -1;
  int min, max;
  int x_min, x_max;
  Range *r;

  Bool Pl_Fd_Domain_Interval(WamWord x_word, int min, int max);

  Bool pl_fd_not_domain(WamWord x_word, WamWord l_word, WamWord u_word);

  min = Pl_Fd_Prolog_To_Value(l_word);
  if (min < 0)
    min = 0;
  max = Pl_Fd_Prolog_To_Value(u_word);

  DEREF(x_word, word, tag_mask);
  x_word = word;
  x_tag_mask = tag_mask;

  if (tag_mask != TAG_REF_MASK && tag_mask != TAG_FDV_MASK && tag_mask != TAG_INT_MASK)
    {
    err_type_fd:
      Pl_Err_Type(pl_type_fd_variable, word);
      return FALSE;
    }

  DEREF(b_word, word, tag_mask);
  b_word = word;
  b_tag_mask = tag_mask;
  if (tag_mask != TAG_REF_MASK && tag_mask != TAG_FDV_MASK && tag_mask != TAG_INT_MASK)
    goto err_type_fd;

  if (x_tag_mask == TAG_INT_MASK)
    {
      x = UnTag_INT(x_word);
      b = (x >= min) && (x <= max);
    unif_b:
      return Pl_Get_Integer(b, b_word);
    }

  if (b_tag_mask == TAG_INT_MASK)
    {
      b = UnTag_INT(b_word);
      if (b == 0)
	return pl_fd_not_domain(x_word, l_word, u_word);
      return (b == 1) && Pl_Fd_Domain_Interval(x_word, min, max);
    }

  if (x_tag_mask == TAG_REF_MASK)
    {
      adr = UnTag_REF(x_word);
      fdv_adr = Pl_Fd_New_Variable();
      Bind_UV(adr, Tag_REF(fdv_adr));
    }
  else
    fdv_adr = UnTag_FDV(x_word);

  r = Range(fdv_adr);

  x_min = r->min;
  x_max = r->max;

  if (x_min >= min && x_max <= max)
    {
      b = 1;
      goto unif_b;
    }

  if (min > max || x_max < min || x_min > max)
    {
      b = 0;
      goto unif_b;
    }

  if (!Pl_Fd_Check_For_Bool_Var(b_word))
    return FALSE;

  PRIM_CSTR_4(pl_truth_x_in_l_u, x_word, l_word, u_word, b_word);

  return TRUE;
}
