/* What the functions of foreign_supp.c are to do. */
#include "gp_config.h"
#include <string.h>
#include "engine_pl.h"
#include "bips_pl.h"
#include "macros_ref.h"
#include "wam_ref.h"

#define FOREIGN_SUPP_FILE

#define QUERY_STACK_SIZE 128

extern PlLong pl_foreign_long[NB_OF_X_REGS];
extern double pl_foreign_double[NB_OF_X_REGS];

extern PlFIOArg fio_arg_array[NB_OF_X_REGS];

extern WamWord *query_stack[QUERY_STACK_SIZE];
extern WamWord **query_stack_top;
extern WamWord *goal_H;

extern WamWord *pl_query_top_b;
extern WamWord pl_query_exception;

CodePtr Prepare_Call(int func, int arity, WamWord *arg_adr);

#define CALL_INTERNAL X1_2463616C6C5F696E7465726E616C
#define THROW_INTERNAL X1_247468726F775F696E7465726E616C

#define PL_QUERY_RECOVER_ALT X1_24706C5F71756572795F7265636F7665725F616C74

Prolog_Prototype(CALL_INTERNAL, 2);
Prolog_Prototype(THROW_INTERNAL, 2);

Prolog_Prototype(PL_QUERY_RECOVER_ALT, 0);
void Pl_Foreign_Create_Choice(CodePtr codep_alt, int arity, int choice_size);
void Pl_Foreign_Update_Choice(CodePtr codep_alt, int arity, int choice_size);
CodePtr Pl_Foreign_Jump_Ret(CodePtr codep);
PlFIOArg * Pl_Foreign_Rd_IO_Arg(int arg_long, WamWord start_word, PlLong (*rd_fct) (WamWord word), int fio_arg_index);
Bool Pl_Foreign_Un_IO_Arg(int arg_long, Bool (*un_fct) (PlLong val, WamWord word), PlFIOArg *fa, WamWord start_word);
void Pl_Emit_Syntax_Error(char *file_name, int err_line, int err_col, char *err_msg);
CodePtr Prepare_Call(int func, int arity, WamWord *arg_adr);
void Pl_Exec_Continuation(int func, int arity, WamWord *arg_adr);
void Pl_Throw(WamWord ball_word);
void Pl_Query_Begin(Bool recoverable);
int Pl_Query_Call(int func, int arity, WamWord *arg_adr);
int Pl_Query_Call_Native(CodePtr codep);
int Pl_Query_Start(int func, int arity, WamWord *arg_adr, Bool recoverable);
void Pl_Query_Recover_Alt_0(void);
int Pl_Query_Next_Solution(void);
void Pl_Query_End(int op);
WamWord Pl_Get_Exception(void);
void Pl_No_More_Choice(void);
int Pl_Type_Of_Term(WamWord start_word);
char * Pl_Atom_Name(int atom);
int Pl_Atom_Length(int atom);
Bool Pl_Atom_Needs_Quote(int atom);
Bool Pl_Atom_Needs_Scan(int atom);
Bool Pl_Is_Valid_Atom(int atom);
int Pl_Atom_Char(char c);
int Pl_Atom_Nil(void);
int Pl_Atom_False(void);
int Pl_Atom_True(void);
int Pl_Atom_End_Of_File(void);
PlBool Pl_Unif(PlTerm term1, PlTerm term2);
PlBool Pl_Unif_With_Occurs_Check(PlTerm term1, PlTerm term2);
Bool Pl_Builtin_Var(WamWord term);
Bool Pl_Builtin_Non_Var(WamWord term);
Bool Pl_Builtin_Atom(WamWord term);
Bool Pl_Builtin_Integer(WamWord term);
Bool Pl_Builtin_Float(WamWord term);
Bool Pl_Builtin_Number(WamWord term);
Bool Pl_Builtin_Atomic(WamWord term);
Bool Pl_Builtin_Compound(WamWord term);
Bool Pl_Builtin_Callable(WamWord term);
Bool Pl_Builtin_Fd_Var(WamWord term);
Bool Pl_Builtin_Non_Fd_Var(WamWord term);
Bool Pl_Builtin_Generic_Var(WamWord term);
Bool Pl_Builtin_Non_Generic_Var(WamWord term);
Bool Pl_Builtin_List(WamWord term);
Bool Pl_Builtin_Partial_List(WamWord term);
Bool Pl_Builtin_List_Or_Partial_List(WamWord term);
Bool Pl_Builtin_Term_Eq(WamWord term1, WamWord term2);
Bool Pl_Builtin_Term_Neq(WamWord term1, WamWord term2);
Bool Pl_Builtin_Term_Lt(WamWord term1, WamWord term2);
Bool Pl_Builtin_Term_Lte(WamWord term1, WamWord term2);
Bool Pl_Builtin_Term_Gt(WamWord term1, WamWord term2);
Bool Pl_Builtin_Term_Gte(WamWord term1, WamWord term2);
Bool Pl_Builtin_Compare(WamWord cmp_word, WamWord x, WamWord y);
Bool Pl_Builtin_Arg(WamWord arg_no_word, WamWord term_word, WamWord sub_term_word);
Bool Pl_Builtin_Functor(WamWord term_word, WamWord functor_word, WamWord arity_word);
Bool Pl_Builtin_Univ(WamWord term_word, WamWord list_word);
Bool Pl_Builtin_Eq(WamWord expr1, WamWord expr2);
Bool Pl_Builtin_Neq(WamWord expr1, WamWord expr2);
Bool Pl_Builtin_Lt(WamWord expr1, WamWord expr2);
Bool Pl_Builtin_Lte(WamWord expr1, WamWord expr2);
Bool Pl_Builtin_Gt(WamWord expr1, WamWord expr2);
Bool Pl_Builtin_Gte(WamWord expr1, WamWord expr2);
void Pl_Math_Evaluate(WamWord expr, WamWord *result);
WamWord **ref_query_stack_top = query_stack;

void ref_Foreign_Initializer(void)
{
  pl_base_fl = pl_foreign_long;
  pl_base_fd = pl_foreign_double;

  goal_H = H;
  H = H + MAX_ARITY + 1;

  Pl_Set_Heap_Actual_Start(H);
}

void ref_Pl_Foreign_Create_Choice(CodePtr codep_alt, int arity, int choice_size)
{
  A(arity) = -1;
  Pl_Create_Choice_Point(codep_alt, arity + 1 + choice_size);
}

void ref_Pl_Foreign_Update_Choice(CodePtr codep_alt, int arity, int choice_size)
{
  pl_foreign_bkt_counter = AB(B, arity) + 1;
  AB(B, arity) = pl_foreign_bkt_counter;

  pl_foreign_bkt_buffer = (char *) (&(AB(B, arity + choice_size)));

  if (pl_foreign_bkt_counter > 0)
    {
      Pl_Update_Choice_Point(codep_alt, arity);
    }
}

CodePtr ref_Pl_Foreign_Jump_Ret(CodePtr codep)
{
  return codep;
}

PlFIOArg * ref_Pl_Foreign_Rd_IO_Arg(int arg_long, WamWord start_word, PlLong (*rd_fct) (WamWord word), int fio_arg_index)
{
  WamWord word, tag_mask;
  PlFIOArg *fa = fio_arg_array + fio_arg_index;

  DEREF(start_word, word, tag_mask);

  fa->is_var = fa->unify = (tag_mask == TAG_REF_MASK);

  if (rd_fct == NULL)
    fa->value.l = (PlLong) word;
  else if (!fa->is_var)
    {
      if (arg_long)
	{
	  fa->value.l = (*rd_fct) (word);
	  if (arg_long == 2)
	    fa->value.s = Strdup(fa->value.s);
	}
      else
	fa->value.d = (*(double (*)(WamWord)) rd_fct) (word);
    }

  return fa;
}

Bool ref_Pl_Foreign_Un_IO_Arg(int arg_long, Bool (*un_fct) (PlLong val, WamWord word), PlFIOArg *fa, WamWord start_word)
{
  if (!fa->unify)
    return TRUE;

  if (arg_long)
    return (*un_fct) (fa->value.l, start_word);

  return (*(Bool (*)(double, WamWord)) un_fct) (fa->value.d, start_word);
}

void ref_Pl_Emit_Syntax_Error(char *file_name, int err_line, int err_col, char *err_msg)
{
  Pl_Set_Last_Syntax_Error(file_name, err_line, err_col, err_msg);
  Pl_Syntax_Error((int) Flag_Value(syntax_error));
}

CodePtr ref_Prepare_Call(int func, int arity, WamWord *arg_adr)
{
  PredInf *pred;
  WamWord *w;
  int i;
  int bip_func, bip_arity;

  pred = Pl_Lookup_Pred(func, arity);
  if (pred == NULL || !(pred->prop & MASK_PRED_NATIVE_CODE) ||
      (pred->prop & MASK_PRED_CONTROL_CONSTRUCT))
    {
      if (arity == 0)
	A(0) = Tag_ATM(func);
      else
	{
	  w = goal_H;
	  A(0) = Tag_STC(w);
	  *w++ = Functor_Arity(func, arity);
	  for (i = 0; i < arity; i++)
	    *w++ = *arg_adr++;
	}

      bip_func = Pl_Get_Current_Bip(&bip_arity);
      A(1) = Tag_INT(Call_Info(bip_func, bip_arity, 0));
      return (CodePtr) Prolog_Predicate(CALL_INTERNAL, 2);
    }

  for (i = 0; i < arity; i++)
    A(i) = *arg_adr++;

  return (CodePtr) (pred->codep);
}

void ref_Pl_Exec_Continuation(int func, int arity, WamWord *arg_adr)
{
  Pl_Execute_A_Continuation(Prepare_Call(func, arity, arg_adr));
}

void ref_Pl_Throw(WamWord ball_word)
{
  int bip_func, bip_arity;

  bip_func = Pl_Get_Current_Bip(&bip_arity);

  A(0) = ball_word;
  A(1) = Tag_INT(Call_Info(bip_func, bip_arity, 0));
  Pl_Execute_A_Continuation(Prolog_Predicate(THROW_INTERNAL, 2));
}

void ref_Pl_Query_Begin(Bool recoverable)
{
  if (query_stack_top - query_stack >= QUERY_STACK_SIZE)
    Pl_Fatal_Error("too many nested Pl_Query_Start() (max: %d)",
		   QUERY_STACK_SIZE);

  if (recoverable)
    Pl_Create_Choice_Point(Prolog_Predicate(PL_QUERY_RECOVER_ALT, 0), 0);
}

int ref_Pl_Query_Call(int func, int arity, WamWord *arg_adr)
{
  *query_stack_top++ = pl_query_top_b = B;
  pl_query_exception = pl_atom_void;

  return Pl_Call_Prolog(Prepare_Call(func, arity, arg_adr));
}

int ref_Pl_Query_Call_Native(CodePtr codep)
{
  *query_stack_top++ = pl_query_top_b = B;
  pl_query_exception = pl_atom_void;

  return Pl_Call_Prolog(codep);
}

int ref_Pl_Query_Start(int func, int arity, WamWord *arg_adr, Bool recoverable)
{
  Pl_Query_Begin(recoverable);
  return Pl_Query_Call(func, arity, arg_adr);
}

void ref_Pl_Query_Recover_Alt_0(void)
{
  Pl_Delete_Choice_Point(0);
}

int ref_Pl_Query_Next_Solution(void)
{
  if (query_stack_top == query_stack)
    Pl_Fatal_Error("Pl_Query_Next_Solution() but no query remaining");

  pl_query_exception = pl_atom_void;
  return Pl_Call_Prolog_Next_Sol(pl_query_top_b);
}

void ref_Pl_Query_End(int op)
{
  WamWord *query_b, *prev_b, *b;
  Bool recoverable;

  if (query_stack_top == query_stack)
    Pl_Fatal_Error("Pl_Query_End() but no query remaining");

  query_b = *--query_stack_top;
  pl_query_top_b = (query_stack_top == query_stack) ? NULL :
    query_stack_top[-1];

  recoverable = (ALTB(query_b) == Prolog_Predicate(PL_QUERY_RECOVER_ALT, 0));
  prev_b = BB(query_b);

  switch (op)
    {
    case PL_RECOVER:
      Assign_B(query_b);
      if (!recoverable)
	Pl_Fatal_Error("Pl_Query_End(PL_RECOVER) but unrecoverable query");

      Pl_Delete_Choice_Point(0);
      break;

    case PL_CUT:
      Assign_B((recoverable) ? prev_b : query_b);
      break;

    default:
      if (recoverable)
	{
	  if (B == query_b)
	    Assign_B(prev_b);
	  else
	    for (b = B; b > query_b; b = BB(b))
	      if (BB(b) == query_b)
		BB(b) = prev_b;
	}
      Pl_Keep_Rest_For_Prolog(query_b);
    }
}

WamWord ref_Pl_Get_Exception(void)
{
  return pl_query_exception;
}

void ref_Pl_No_More_Choice(void)
{
  Delete_Last_Choice_Point();
}

int ref_Pl_Type_Of_Term(WamWord start_word)
{
  WamWord word, tag_mask;

  DEREF(start_word, word, tag_mask);

  return (int) Tag_From_Tag_Mask(tag_mask);
}

char * ref_Pl_Atom_Name(int atom)
{
  return pl_atom_tbl[atom].name;
}

int ref_Pl_Atom_Length(int atom)
{
  return pl_atom_tbl[atom].prop.length;
}

Bool ref_Pl_Atom_Needs_Quote(int atom)
{
  return pl_atom_tbl[atom].prop.needs_quote;
}

Bool ref_Pl_Atom_Needs_Scan(int atom)
{
  return pl_atom_tbl[atom].prop.needs_scan;
}

Bool ref_Pl_Is_Valid_Atom(int atom)
{
  return Is_Valid_Atom(atom);
}

int ref_Pl_Atom_Char(char c)
{
  return ATOM_CHAR(c);
}

int ref_Pl_Atom_Nil(void)
{
  return ATOM_NIL;
}

int ref_Pl_Atom_False(void)
{
  return pl_atom_false;
}

int ref_Pl_Atom_True(void)
{
  return pl_atom_true;
}

int ref_Pl_Atom_End_Of_File(void)
{
  return pl_atom_end_of_file;
}

PlBool ref_Pl_Unif(PlTerm term1, PlTerm term2)
{
  return Pl_Unify(term1, term2);
}

PlBool ref_Pl_Unif_With_Occurs_Check(PlTerm term1, PlTerm term2)
{
  return Pl_Unify_Occurs_Check(term1, term2);
}

Bool ref_Pl_Builtin_Var(WamWord term)
{
  return Pl_Blt_Var(term);
}

Bool ref_Pl_Builtin_Non_Var(WamWord term)
{
  return Pl_Blt_Non_Var(term);
}

Bool ref_Pl_Builtin_Atom(WamWord term)
{
  return Pl_Blt_Atom(term);
}

Bool ref_Pl_Builtin_Integer(WamWord term)
{
  return Pl_Blt_Integer(term);
}

Bool ref_Pl_Builtin_Float(WamWord term)
{
  return Pl_Blt_Float(term);
}

Bool ref_Pl_Builtin_Number(WamWord term)
{
  return Pl_Blt_Number(term);
}

Bool ref_Pl_Builtin_Atomic(WamWord term)
{
  return Pl_Blt_Atomic(term);
}

Bool ref_Pl_Builtin_Compound(WamWord term)
{
  return Pl_Blt_Compound(term);
}

Bool ref_Pl_Builtin_Callable(WamWord term)
{
  return Pl_Blt_Callable(term);
}

Bool ref_Pl_Builtin_Fd_Var(WamWord term)
{
  return Pl_Blt_Fd_Var(term);
}

Bool ref_Pl_Builtin_Non_Fd_Var(WamWord term)
{
  return Pl_Blt_Non_Fd_Var(term);
}

Bool ref_Pl_Builtin_Generic_Var(WamWord term)
{
  return Pl_Blt_Generic_Var(term);
}

Bool ref_Pl_Builtin_Non_Generic_Var(WamWord term)
{
  return Pl_Blt_Non_Generic_Var(term);
}

Bool ref_Pl_Builtin_List(WamWord term)
{
  return Pl_Blt_List(term);
}

Bool ref_Pl_Builtin_Partial_List(WamWord term)
{
  return Pl_Blt_Partial_List(term);
}

Bool ref_Pl_Builtin_List_Or_Partial_List(WamWord term)
{
  return Pl_Blt_List_Or_Partial_List(term);
}

Bool ref_Pl_Builtin_Term_Eq(WamWord term1, WamWord term2)
{
  return Pl_Blt_Term_Eq(term1, term2);
}

Bool ref_Pl_Builtin_Term_Neq(WamWord term1, WamWord term2)
{
  return Pl_Blt_Term_Neq(term1, term2);
}

Bool ref_Pl_Builtin_Term_Lt(WamWord term1, WamWord term2)
{
  return Pl_Blt_Term_Lt(term1, term2);
}

Bool ref_Pl_Builtin_Term_Lte(WamWord term1, WamWord term2)
{
  return Pl_Blt_Term_Lte(term1, term2);
}

Bool ref_Pl_Builtin_Term_Gt(WamWord term1, WamWord term2)
{
  return Pl_Blt_Term_Gt(term1, term2);
}

Bool ref_Pl_Builtin_Term_Gte(WamWord term1, WamWord term2)
{
  return Pl_Blt_Term_Gte(term1, term2);
}

Bool ref_Pl_Builtin_Compare(WamWord cmp_word, WamWord x, WamWord y)
{
  return Pl_Blt_Compare(cmp_word, x, y);
}

Bool ref_Pl_Builtin_Arg(WamWord arg_no_word, WamWord term_word, WamWord sub_term_word)
{
  return Pl_Blt_Arg(arg_no_word, term_word, sub_term_word);
}

Bool ref_Pl_Builtin_Functor(WamWord term_word, WamWord functor_word, WamWord arity_word)
{
  return Pl_Blt_Functor(term_word, functor_word, arity_word);
}

Bool ref_Pl_Builtin_Univ(WamWord term_word, WamWord list_word)
{
  return Pl_Blt_Univ(term_word, list_word);
}

Bool ref_Pl_Builtin_Eq(WamWord expr1, WamWord expr2)
{
  return Pl_Blt_Eq(expr1, expr2);
}

Bool ref_Pl_Builtin_Neq(WamWord expr1, WamWord expr2)
{
  return Pl_Blt_Neq(expr1, expr2);
}

Bool ref_Pl_Builtin_Lt(WamWord expr1, WamWord expr2)
{
  return Pl_Blt_Lt(expr1, expr2);
}

Bool ref_Pl_Builtin_Lte(WamWord expr1, WamWord expr2)
{
  return Pl_Blt_Lte(expr1, expr2);
}

Bool ref_Pl_Builtin_Gt(WamWord expr1, WamWord expr2)
{
  return Pl_Blt_Gt(expr1, expr2);
}

Bool ref_Pl_Builtin_Gte(WamWord expr1, WamWord expr2)
{
  return Pl_Blt_Gte(expr1, expr2);
}

void ref_Pl_Math_Evaluate(WamWord expr, WamWord *result)
{
  Pl_Math_Load_Value(expr, result);
}
